package main

// A dictionary for the generators: the literals of the tree under test which
// the tree the generators were written for (literals.txt) does not hold.
// Values a program compares with are where its behaviour may change, and
// random texts and numbers seldom meet them. The dictionary only says what the
// generators try more often; nothing is judged by it, and on a tree without
// new literals every case is what it would be without it.

import (
	_ "embed"
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"math"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

//go:embed literals.txt
var knownLiterals string

type Hints struct {
	Words []string // texts
	Names []string // of which a file may be named
	Vars  []string // names of environment variables
	Nums  []int64
}

var hints *Hints

// namedNumbers are those of other packages which programs compare with.
var namedNumbers = map[string]int64{"MaxInt8": math.MaxInt8, "MaxInt16": math.MaxInt16, "MaxInt32": math.MaxInt32, "MaxInt64": math.MaxInt64, "MaxUint8": math.MaxUint8, "MaxUint16": math.MaxUint16, "MaxUint32": math.MaxUint32,
	"January": 1, "February": 2, "March": 3, "April": 4, "May": 5, "June": 6, "July": 7, "August": 8, "September": 9, "October": 10, "November": 11, "December": 12,
	"MinRead": 512, "MaxScanTokenSize": 65536, "Second": 1e9, "Minute": 60e9, "Hour": 3600e9, "Millisecond": 1e6, "RuneError": 0xfffd, "RuneSelf": 128}

// treeLiterals counts the literals of the sources below dir: texts as "s"
// followed by the text in quotes, numbers as "n" followed by the number.
func treeLiterals(dir string) map[string]int {
	out := map[string]int{}
	num := func(v constant.Value) {
		if v == nil {
			return
		}
		if v = constant.ToInt(v); v.Kind() == constant.Int {
			if n, ok := constant.Int64Val(v); ok {
				out["n "+strconv.FormatInt(n, 10)]++
			}
		}
	}
	var eval func(e ast.Expr) constant.Value
	eval = func(e ast.Expr) (v constant.Value) {
		defer func() {
			if recover() != nil {
				v = nil
			}
		}()
		switch x := e.(type) {
		case *ast.ParenExpr:
			return eval(x.X)
		case *ast.BasicLit:
			if x.Kind == token.INT || x.Kind == token.CHAR || x.Kind == token.FLOAT {
				return constant.MakeFromLiteral(x.Value, x.Kind, 0)
			}
		case *ast.SelectorExpr:
			if n, ok := namedNumbers[x.Sel.Name]; ok {
				return constant.MakeInt64(n)
			}
		case *ast.BinaryExpr:
			a, b := eval(x.X), eval(x.Y)
			if a == nil || b == nil {
				return nil
			}
			switch x.Op {
			case token.SHL, token.SHR:
				n, ok := constant.Uint64Val(constant.ToInt(b))
				if !ok || n > 64 {
					return nil
				}
				return constant.Shift(constant.ToInt(a), x.Op, uint(n))
			case token.QUO:
				if a.Kind() == constant.Int && b.Kind() == constant.Int {
					return constant.BinaryOp(a, token.QUO_ASSIGN, b)
				}
				return constant.BinaryOp(a, x.Op, b)
			case token.ADD, token.SUB, token.MUL, token.REM, token.AND, token.OR, token.XOR:
				return constant.BinaryOp(a, x.Op, b)
			}
		}
		return nil
	}
	filepath.Walk(dir, func(p string, st os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if n := st.Name(); st.IsDir() && p != dir && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "vendor" || n == "testdata") {
			return filepath.SkipDir
		}
		if st.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, nil, parser.SkipObjectResolution)
		if f == nil {
			return nil
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BasicLit:
				switch x.Kind {
				case token.STRING:
					if s, err := strconv.Unquote(x.Value); err == nil {
						out["s "+strconv.Quote(s)]++
					}
				case token.CHAR:
					if s, err := strconv.Unquote(x.Value); err == nil {
						out["s "+strconv.Quote(s)]++
					}
					num(eval(x))
				default:
					num(eval(x))
				}
			case *ast.BinaryExpr:
				num(eval(x))
			case *ast.SelectorExpr:
				num(eval(x))
			}
			return true
		})
		return nil
	})
	return out
}

func printLiterals(dir string) {
	m := treeLiterals(dir)
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println(m[k], k)
	}
}

var varRE = regexp.MustCompile(`^[A-Z][A-Z0-9_]{2,40}$`)
var verbRE = regexp.MustCompile(`%[-+ #0-9.]*[a-zA-Z]`)

// loadHints finds what is new in the tree at dir.
func loadHints(dir string) *Hints {
	known := map[string]int{}
	for _, l := range strings.Split(knownLiterals, "\n") {
		if n, k, ok := strings.Cut(l, " "); ok {
			known[k], _ = strconv.Atoi(n)
		}
	}
	var fresh []string
	for k, n := range treeLiterals(dir) {
		if n > known[k] {
			fresh = append(fresh, k)
		}
	}
	sort.Strings(fresh)
	h := &Hints{}
	seen := map[string]bool{}
	text := func(s string) {
		s = strings.TrimSpace(s)
		if s == "" || len(s) > 60 || !utf8.ValidString(s) || seen[s] {
			return
		}
		seen[s] = true
		for _, c := range s {
			if c < 32 {
				return
			}
		}
		h.Words = append(h.Words, s)
		if len(s) < 40 && s != "." && s != ".." && !strings.Contains(s, "//") && !strings.HasSuffix(s, "/") {
			h.Names = append(h.Names, s)
		}
	}
	for _, k := range fresh {
		if k[0] == 'n' {
			n, _ := strconv.ParseInt(k[2:], 10, 64)
			if n < 0 {
				n = -n
			}
			if n > 3 {
				h.Nums = append(h.Nums, n)
			}
			continue
		}
		s, err := strconv.Unquote(k[2:])
		if err != nil {
			continue
		}
		if varRE.MatchString(s) && known[k] == 0 && s != "TZ" && s != "ZONEINFO" && s != "LEDGER_FILE" && !strings.HasPrefix(s, "GO") && !strings.HasPrefix(s, "GLSIM") {
			h.Vars = append(h.Vars, s)
		}
		parts := []string{s}
		if verbRE.MatchString(s) {
			parts = verbRE.Split(s, -1)
		}
		for _, p := range parts {
			text(p)
			if fs := strings.Fields(p); len(fs) > 1 && len(fs) < 6 {
				for _, w := range fs {
					text(w)
				}
			}
		}
		if n, err := strconv.ParseInt(s, 10, 64); err == nil && n > 3 {
			h.Nums = append(h.Nums, n)
		}
	}
	if len(h.Words)+len(h.Nums)+len(h.Vars) == 0 {
		return nil
	}
	return h
}

// word gives a new text or one made from it.
func (h *Hints) word(r *Rng) string {
	w := pick(r, h.Words)
	switch r.N(10) {
	case 0:
		return w + pick(r, []string{"x", "1", "s", ".", " x"})
	case 1:
		return pick(r, []string{"x", "1", "x "}) + w
	case 2:
		return strings.ToUpper(w)
	case 3:
		return strings.ToLower(w)
	case 4:
		return w + w
	}
	return w
}

// num gives a new number or one next to it, if one lies within the limits.
func (h *Hints) num(r *Rng, lo, hi int64) (int64, bool) {
	var ok []int64
	for _, n := range h.Nums {
		if n+1 >= lo && n-1 <= hi {
			ok = append(ok, n)
		}
	}
	if len(ok) == 0 {
		return 0, false
	}
	n := pick(r, ok)
	switch {
	case r.P(4):
		n *= pick(r, []int64{2, 3, 10})
	default:
		n += int64(pick(r, []int{0, 0, 1, 1, -1, 2}))
	}
	return n, n >= lo && n <= hi
}

// hint tells whether a new text is to be used now: in one of n times, in the
// half of the journals which use them.
func (g *G) hint(n int) bool {
	return g.hinted && len(hints.Words) > 0 && g.r.P(n)
}

// hintNum is the same for numbers.
func (g *G) hintNum(n int, lo, hi int64) (int, bool) {
	if !g.hinted || len(hints.Nums) == 0 || !g.r.P(n) {
		return 0, false
	}
	v, ok := hints.num(g.r, lo, hi)
	return int(v), ok
}

// vars gives assignments to new variables.
func (h *Hints) vars(r *Rng) []string {
	var out []string
	for _, v := range h.Vars {
		if r.P(2) {
			out = append(out, v+"="+pick(r, append([]string{"1", "0", "true", "false", "", "x", "/sim/decoy.journal", "2015", "40", "/sim"}, h.Words...)))
		}
	}
	return out
}
