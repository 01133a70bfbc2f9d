package main

// Judging runs: what a run of the program did against what the reference
// model says it has to do.

import (
	"bytes"
	"fmt"
	"math"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Violation struct {
	Class string `json:"class"`
	Msg   string `json:"message"`
}

func viol(class, format string, args ...any) *Violation {
	return &Violation{class, fmt.Sprintf(format, args...)}
}

func compileFilter(arg string) (MFilter, error) {
	if arg == "" {
		return MFilter{}, fmt.Errorf("empty filter")
	}
	body := arg
	if arg[0] == '@' || arg[0] == '=' {
		body = arg[1:]
	}
	for _, s := range []string{arg, body} {
		if _, err := regexp.Compile(s); err != nil {
			return MFilter{}, err
		}
		if _, err := regexp.Compile("(?i)" + s); err != nil {
			return MFilter{}, err
		}
	}
	return mkFilter(arg), nil
}

var locCache sync.Map

func location(tz string) *time.Location {
	if l, ok := locCache.Load(tz); ok {
		return l.(*time.Location)
	}
	l, err := time.LoadLocation(tz)
	if err != nil {
		l = time.UTC
	}
	locCache.Store(tz, l)
	return l
}

func civilAt(ns int64, tz string) Civil {
	t := time.Unix(0, ns).In(location(tz))
	return Civil{t.Year(), int(t.Month()), t.Day()}
}

// walls lists every value the wall clock had during a run.
func walls(r *Run, res *Result) []int64 {
	out := []int64{r.Now*1000000000 + r.Nsec}
	for _, e := range res.Events {
		if e.Op != 'X' && e.Wall != out[len(out)-1] {
			out = append(out, e.Wall)
		}
	}
	return out
}

// todays lists the dates the program may have taken for today.
func todays(r *Run, res *Result) []Civil {
	var out []Civil
	for _, w := range walls(r, res) {
		c := civilAt(w, r.TZ)
		dup := false
		for _, o := range out {
			dup = dup || o == c
		}
		if !dup {
			out = append(out, c)
		}
	}
	return out
}

func clip(b []byte, n int) string {
	if len(b) > n {
		return string(b[:n/2]) + " … " + string(b[len(b)-n/2:])
	}
	return string(b)
}

var addresses = regexp.MustCompile(`0x[0-9a-f]+|goroutine [0-9]+|g[0-9]+=`)

// plainCrash is the beginning of a crash report without addresses and such
func plainCrash(stderr []byte) string {
	return clip(addresses.ReplaceAll(stderr, []byte("…")), 400)
}

// sane checks what holds for every run whatsoever: no crash, no hang, no
// attempt to change anything outside of the process.
func sane(w *World, r *Run, res *Result) *Violation {
	for _, e := range res.Events {
		switch e.Op {
		case 'B':
			return viol("hang", "no end after %d system calls: %s", r.Budget, clip(res.Stderr, 300))
		case 'V':
			return viol("side-effect", "wrote %d bytes to descriptor %d", e.F[1], e.F[0])
		case 'X':
			if e.F[0] != 326 && e.F[0] != 40 && e.F[0] != 275 {
				return viol("side-effect", "made system call %d", e.F[0])
			}
		case 'O':
			if e.F[0]&(1|2|0100|01000|02000) != 0 {
				return viol("side-effect", "opened %s for writing (flags %#o)", e.Path, e.F[0])
			}
		}
	}
	if res.Signal != 0 {
		if res.Signal == 24 || res.Signal == 9 && res.CPU >= 10e9 { // Go does not end at SIGXCPU, but at the hard limit
			return viol("hang", "ten seconds of CPU time were not enough")
		}
		killed := false
		pipe := false
		for _, e := range res.Events {
			killed = killed || e.Op == 'K'
			pipe = pipe || ((e.Op == 'W' || e.Op == 'Z') && e.F[3] == 32)
		}
		switch {
		case killed && res.Signal == 9:
		case res.Stuck:
			return viol("hang", "blocked for a minute")
		case pipe && res.Signal == 13:
		case res.Signal == 9:
			harnessFail("the simulated program was killed from outside")
		default:
			return viol("crash", "died of signal %d: %s", res.Signal, plainCrash(res.Stderr))
		}
		return nil
	}
	if _, own := res.outOfMemory(); own {
		return viol("hang", "needed more than %d GB of memory", memoryLimit>>30)
	}
	for _, s := range []string{"panic:", "fatal error:", "goroutine 1 ", "[signal SIG"} {
		if bytes.Contains(res.Stderr, []byte(s)) && (res.Exit == 2 || bytes.Contains(res.Stderr, []byte("\ngoroutine "))) {
			return viol("crash", "exit status %d: %s", res.Exit, plainCrash(res.Stderr))
		}
	}
	if res.Exit != 0 && res.Exit != 1 {
		return viol("exit-status", "exit status %d: %s", res.Exit, clip(res.Stderr, 300))
	}
	return nil
}

// traceOpener gives the model what opens and reads really delivered.
func traceOpener(w *World, res *Result, edited bool) func(arg, clean string) ([]byte, string) {
	type att struct {
		errno int64
		d     *Delivered
	}
	ds := delivered(res)
	by := map[string][]att{}
	k := 0
	lastOpen := map[string]int{}
	for i, e := range res.Events {
		if e.Op == 'O' {
			lastOpen[e.Path] = i
		}
	}
	for i, e := range res.Events {
		if e.Op == 'S' && e.F[0] != 0 && e.F[0] != 4 {
			// found missing before it was opened, and not opened at all
			if last, ok := lastOpen[e.Path]; !ok || last < i {
				by[e.Path] = append(by[e.Path], att{errno: e.F[0]})
			}
		}
		if e.Op != 'O' {
			continue
		}
		if e.F[2] == 4 { // interrupted: tried again
			continue
		}
		a := att{errno: e.F[2]}
		if e.F[2] == 0 {
			a.d = ds[k]
			k++
			if a.d.Probe { // only to see whether it can be
				continue
			}
		}
		by[e.Path] = append(by[e.Path], a)
	}
	static := worldOpener(w)
	return func(arg, clean string) ([]byte, string) {
		l := by[clean]
		if len(l) == 0 {
			return static(arg, clean)
		}
		a := l[0]
		by[clean] = l[1:]
		if a.errno != 0 {
			return nil, errnoName(int(a.errno))
		}
		if edited {
			if a.d.ReadErr != 0 {
				return a.d.Data, "!" + errnoName(a.d.ReadErr)
			}
			if _, bad := static(arg, clean); bad != "" && len(a.d.Data) == 0 && !a.d.EOF {
				return nil, bad // a directory, found to be one without reading it
			}
			return a.d.Data, ""
		}
		c, bad := static(arg, clean)
		if bad == "" && a.d.ReadErr != 0 {
			return c[:min(len(c), len(a.d.Data))], "!" + errnoName(a.d.ReadErr)
		}
		return c, bad
	}
}

func hasEdits(r *Run) bool {
	for _, e := range r.Edits {
		if e.Kind < edStall {
			return true
		}
	}
	return false
}

// descriptors checks that a run only runs out of descriptors when files nest
// deeper than the limit allows: one for the root and one per level.
func descriptors(w *World, r *Run, res *Result) *Violation {
	if hasEdits(r) {
		return nil
	}
	for i := range r.Faults {
		if r.Faults[i].Errno == 24 {
			return nil
		}
	}
	for _, e := range res.Events {
		if e.Op == 'O' && e.F[2] == 24 {
			m := runModel(w.Root, worldOpener(w))
			if m.Err != nil || len(m.Unspec) > 0 {
				// the end of what the model knows, not of what is read
				m.Depth += 2
			}
			if m.Depth <= r.FdLimit {
				return viol("descriptors", "%s cannot be opened with a limit of %d descriptors although files nest no deeper than %d", e.Path, r.FdLimit, m.Depth)
			}
			return nil
		}
	}
	return nil
}

func modelOf(w *World, r *Run, res *Result) *Model {
	return runModel(w.Root, traceOpener(w, res, hasEdits(r)))
}

// locations finds "file:line" in a diagnostic.
func locations(stderr, file string) []int {
	var out []int
	for _, name := range []string{file, cleanPath(file), path.Clean(file)} {
		s := stderr
		for {
			i := strings.Index(s, name+":")
			if i < 0 {
				break
			}
			ok := i == 0 || !strings.ContainsRune("/.abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_-", rune(s[i-1]))
			s = s[i+len(name)+1:]
			n, d := 0, 0
			for d < len(s) && s[d] >= '0' && s[d] <= '9' {
				n = n*10 + int(s[d]-'0')
				d++
			}
			if ok && d > 0 {
				out = append(out, n)
			}
		}
	}
	return out
}

// failed checks a run which has to fail with e.
func failed(res *Result, e *MErr, wantLoc bool) *Violation {
	if res.Exit == 0 {
		what := e.What
		if e.IO {
			what = e.Path + ": " + e.What
		} else {
			what = fmt.Sprintf("%s:%d-%d: %s", e.File, e.Lo, e.Hi, e.What)
		}
		return viol("undetected", "succeeded although %s; reported: %s", what, clip(res.Stdout, 400))
	}
	if len(res.Stdout) > 0 {
		return viol("report-on-error", "failed and still wrote a report: %s", clip(res.Stdout, 400))
	}
	if stderrFailed(res) {
		return nil // the diagnostic could not be delivered
	}
	if len(bytes.TrimSpace(res.Stderr)) == 0 {
		return viol("silent-failure", "failed without a diagnostic")
	}
	if !wantLoc {
		return nil
	}
	if e.IO {
		s := string(res.Stderr)
		if !strings.Contains(s, e.Path) && !strings.Contains(s, cleanPath(e.Path)) && !strings.Contains(s, path.Base(e.Path)) && !strings.Contains(s, path.Clean(e.Path)) {
			return viol("unnamed-file", "the diagnostic does not name %s: %s", e.Path, clip(res.Stderr, 400))
		}
		return nil
	}
	// a file which includes itself and cannot be read either may be reported
	// for both
	if e.What == "includes itself" {
		for _, ev := range res.Events {
			errno := int64(0)
			if ev.Op == 'O' {
				errno = ev.F[2]
			} else if ev.Op == 'R' {
				errno = ev.F[3]
			}
			if errno != 0 && errno != 4 && bytes.Contains(res.Stderr, []byte(syscall.Errno(errno).Error())) {
				return nil
			}
		}
	}
	locs := locations(string(res.Stderr), e.File)
	for _, n := range locs {
		if n >= e.Lo && n <= e.Hi {
			return nil
		}
	}
	return viol("location", "%s at %s lines %d to %d is reported as: %s", e.What, e.File, e.Lo, e.Hi, clip(res.Stderr, 400))
}

// judge compares a whole run with the model. It returns whether the run was
// within what the model specifies.
func judge(w *World, r *Run, res *Result) (*Violation, bool) {
	if v := sane(w, r, res); v != nil {
		return v, true
	}
	if res.Signal != 0 {
		return nil, true
	}
	q := parseArgs(r.Args)
	if q.Cmd == "version" {
		if res.Exit != 0 || len(res.Stdout) == 0 {
			return viol("rejected", "version fails: %s", clip(res.Stderr, 200)), true
		}
		return nil, true
	}
	if what := q.bad(); what != "" {
		return failed(res, &MErr{What: what}, false), true
	}
	for _, f := range q.Filters {
		if _, err := compileFilter(f); err != nil {
			if v := failed(res, &MErr{What: "bad filter " + f}, false); v != nil {
				return v, true
			}
			return nil, true
		}
	}
	if hasEdits(r) && res.Exit == 0 {
		for _, d := range delivered(res) {
			if !d.EOF && !d.Probe {
				return viol("partial-read", "%s was not read to its end", d.Path), true
			}
		}
	}
	if v := descriptors(w, r, res); v != nil {
		return v, true
	}
	m := modelOf(w, r, res)
	var first *Violation
	for _, today := range todays(r, res) {
		v := judgeAt(w, r, res, m, &q, today)
		if v == nil {
			return nil, len(m.Unspec) == 0 && m.sums(q.Cmd)
		}
		if first == nil {
			first = v
		}
	}
	return first, true
}

func judgeAt(w *World, r *Run, res *Result, m *Model, q *Query, today Civil) *Violation {
	d, ok := q.rangeFor(today)
	if !ok {
		return failed(res, &MErr{What: "bad date"}, false)
	}
	if m.Err != nil {
		if m.loops && hasEdits(r) {
			return nil // a file put in its place meanwhile is another one
		}
		if len(m.comms) > 1 {
			// notices about mixed commodities come at once, on standard output
			c := *res
			c.Stdout = nil
			res = &c
		}
		v := failed(res, m.Err, true)
		if v != nil && m.large(q.Cmd) {
			v = failed(res, m.Err, false) // sums may get too large before
		}
		if v != nil && (v.Class == "location" || v.Class == "unnamed-file") {
			// a program which reads ahead meets a failing open or read
			// before a defect which comes earlier in the text
			for _, e := range res.Events {
				errno := int64(0)
				if e.Op == 'O' {
					errno = e.F[2]
				} else if e.Op == 'R' {
					errno = e.F[3]
				} else if e.Op == 'S' {
					errno = e.F[0]
				}
				if errno != 0 && errno != 4 && failed(res, &MErr{IO: true, Path: e.Path, What: errnoName(int(errno))}, true) == nil {
					return nil
				}
			}
		}
		return v
	}
	if len(m.Unspec) > 0 {
		return nil
	}
	fs := q.filters()
	if m.large(q.Cmd) {
		// given up, rightly or before sums came down again, or exact
		e := &MErr{What: "totals do not fit 64 bits"}
		if !m.sums(q.Cmd) {
			c := *res
			c.Stdout = nil
			if res.Exit == 0 {
				return nil
			}
			return failed(&c, e, false)
		}
		ok := false
		if canonical(q.Cmd) == "balance" {
			ok = m.balance(fs, d, true).fits()
		} else {
			ok = budgetFits(m.budget(fs, d))
		}
		if v := failed(res, e, false); v == nil || (!ok && res.Exit == 0) {
			return v
		}
	}
	if res.Exit != 0 {
		return viol("rejected", "a correct journal is rejected: %s", clip(res.Stderr, 500))
	}
	if len(res.Stderr) > 0 {
		return viol("noise", "a diagnostic on success: %s", clip(res.Stderr, 300))
	}
	if !m.sums(q.Cmd) {
		return nil
	}
	switch canonical(q.Cmd) {
	case "balance":
		return checkBalance(res.Stdout, m.balance(fs, d, q.Zero), q)
	case "print":
		return checkPrint(res.Stdout, m.printed(fs, d))
	case "accounts":
		return checkLines("account", res.Stdout, m.accounts(q, d))
	case "payees":
		return checkLines("payee", res.Stdout, m.payees(q, d))
	case "statistics":
		return checkStats(m, res.Stdout, m.stats(fs, d), r, res)
	case "budget":
		return checkBudget(res.Stdout, m.budget(fs, d), len(fs) > 0 || d.hasB || d.hasE)
	}
	return nil
}

func canonical(cmd string) string {
	switch cmd {
	case "bal", "b":
		return "balance"
	case "acc", "a":
		return "accounts"
	case "pay":
		return "payees"
	case "stats", "s":
		return "statistics"
	case "bud", "B":
		return "budget"
	}
	return cmd
}

// splitAmount takes the number (in hundredths) at the end of s.
func parseHundredths(s string) (int64, bool) {
	i := len(s)
	if i < 4 || s[i-3] != '.' {
		return 0, false
	}
	k := i - 3
	for k > 0 && s[k-1] >= '0' && s[k-1] <= '9' {
		k--
	}
	if k == i-3 {
		return 0, false
	}
	sign := ""
	if k > 0 && s[k-1] == '-' {
		sign = "-"
	}
	v, err := strconv.ParseInt(sign+s[k:i-3]+s[i-2:], 10, 64)
	return v, err == nil
}

var amountRE = regexp.MustCompile(`-?[0-9]+\.[0-9][0-9]  `)

func lines(b []byte) []string {
	if len(b) == 0 {
		return nil
	}
	return strings.Split(strings.TrimSuffix(string(b), "\n"), "\n")
}

func money(q int64) string {
	s, u := "", uint64(q)
	if q < 0 {
		s, u = "-", -u
	}
	return fmt.Sprintf("%s%d.%02d", s, u/100, u%100)
}

// expectRows lists the rows of a balance report in order.
func expectRows(root *MAcc, q *Query) []Row {
	if q.Flat || !q.Collapse {
		return root.rows(q.Flat)
	}
	var out []Row
	var walk func(a *MAcc)
	walk = func(a *MAcc) {
		for _, k := range a.sorted() {
			for len(k.Kids) == 1 {
				for _, only := range k.Kids {
					k = only
				}
			}
			out = append(out, Row{k.Path, k.Sum})
			walk(k)
		}
	}
	walk(root)
	return out
}

func checkBalance(out []byte, root *MAcc, q *Query) *Violation {
	ls := lines(out)
	if len(ls) < 2 || strings.Trim(ls[len(ls)-2], "-") != "" || len(ls[len(ls)-2]) < 4 {
		return viol("balance-form", "no total line: %s", clip(out, 400))
	}
	total, ok := parseHundredths(strings.TrimSpace(ls[len(ls)-1]))
	if !ok {
		return viol("balance-form", "unreadable total %q", ls[len(ls)-1])
	}
	ls = ls[:len(ls)-2]
	var got []Row
	type level struct {
		indent int
		path   string
	}
	var stack []level
	want := expectRows(root, q)
	for _, l := range ls {
		if strings.TrimSpace(l) == "" {
			continue
		}
		loc := amountRE.FindStringIndex(l)
		if loc == nil {
			return viol("balance-form", "unreadable line %q", l)
		}
		v, ok := parseHundredths(strings.TrimSpace(l[loc[0]:loc[1]]))
		if !ok {
			return viol("balance-form", "unreadable amount in %q", l)
		}
		name := l[loc[1]:]
		// a name which begins or ends with spaces is told by its place
		odd, shown := false, ""
		if k := len(got); k < len(want) {
			shown = want[k].Path
			if !q.Flat {
				up := ""
				for _, w := range want[:k] {
					if strings.HasPrefix(shown, w.Path+":") && len(w.Path)+1 > len(up) {
						up = w.Path + ":"
					}
				}
				shown = shown[len(up):]
			}
			odd = strings.TrimSpace(shown) == strings.TrimSpace(name) && (shown == "" || strings.TrimSpace(shown) != shown)
		}
		if !odd && strings.TrimSpace(name) == "" && v == 0 {
			continue // how an empty tree is shown
		}
		p := name
		if odd {
			p = want[len(got)].Path
			if !q.Flat {
				in := len(name) - len(strings.TrimLeft(name, " ")) - len(shown) + len(strings.TrimLeft(shown, " "))
				for len(stack) > 0 && stack[len(stack)-1].indent >= in {
					stack = stack[:len(stack)-1]
				}
				stack = append(stack, level{in, p})
			}
		} else if !q.Flat {
			p = strings.TrimLeft(name, " ")
			in := len(name) - len(p)
			for len(stack) > 0 && stack[len(stack)-1].indent >= in {
				stack = stack[:len(stack)-1]
			}
			if len(stack) > 0 {
				p = stack[len(stack)-1].path + ":" + p
			}
			stack = append(stack, level{in, p})
		}
		got = append(got, Row{p, v})
	}
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return viol("balance-rows", "%s (%s) is missing", want[i].Path, money(want[i].Qty))
		case i >= len(want):
			return viol("balance-rows", "%s (%s) should not be listed", got[i].Path, money(got[i].Qty))
		case got[i] != want[i]:
			return viol("balance-rows", "row %d is %s %s, expected %s %s", i+1, got[i].Path, money(got[i].Qty), want[i].Path, money(want[i].Qty))
		}
	}
	if total != root.Sum {
		return viol("balance-total", "total %s, expected %s", money(total), money(root.Sum))
	}
	return nil
}

func sameTx(a, b *MTx) string {
	switch {
	case a.Date != b.Date:
		return fmt.Sprintf("date %s, expected %s", a.Date, b.Date)
	case a.State != b.State:
		return fmt.Sprintf("state %q, expected %q", a.State, b.State)
	case a.Payee != b.Payee:
		return fmt.Sprintf("payee %q, expected %q", clip([]byte(a.Payee), 200), clip([]byte(b.Payee), 200))
	case a.HeaderNote != b.HeaderNote:
		return fmt.Sprintf("header note %q, expected %q", clip([]byte(a.HeaderNote), 200), clip([]byte(b.HeaderNote), 200))
	}
	if s := sameNotes(a.Notes, b.Notes); s != "" {
		return s
	}
	if len(a.Postings) != len(b.Postings) {
		return fmt.Sprintf("%d postings, expected %d", len(a.Postings), len(b.Postings))
	}
	for i := range a.Postings {
		p, q := &a.Postings[i], &b.Postings[i]
		if p.Account != q.Account || p.Qty != q.Qty || (p.Comm != q.Comm && q.Comm != "") {
			return fmt.Sprintf("posting %d is %s %s%s, expected %s %s%s", i+1, p.Account, p.Comm, money(p.Qty), q.Account, q.Comm, money(q.Qty))
		}
		if s := sameNotes(p.Comments, q.Comments); s != "" {
			return s
		}
	}
	return ""
}

func sameNotes(a, b []string) string {
	if len(a) != len(b) {
		return fmt.Sprintf("%d notes %q, expected %d", len(a), clip([]byte(strings.Join(a, "|")), 200), len(b))
	}
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("note %q, expected %q", clip([]byte(a[i]), 200), clip([]byte(b[i]), 200))
		}
	}
	return ""
}

// checkPrint reads printed transactions back.
func checkPrint(out []byte, want []*MTx) *Violation {
	m := runModel("/print", func(_, _ string) ([]byte, string) { return out, "" })
	if m.Err != nil {
		return viol("print-unreadable", "printed transactions cannot be read back: %d: %s: %s", m.Err.Lo, m.Err.What, clip(out, 500))
	}
	for i := 0; i < len(m.Txs) || i < len(want); i++ {
		switch {
		case i >= len(m.Txs):
			return viol("print-missing", "%s:%d (%s %s) is not printed", want[i].File, want[i].Line, want[i].Date, want[i].Payee)
		case i >= len(want):
			return viol("print-extra", "%s %s should not be printed", m.Txs[i].Date, m.Txs[i].Payee)
		}
		if s := sameTx(&m.Txs[i], want[i]); s != "" {
			return viol("print-differs", "transaction %d should be that of %s:%d: %s", i+1, want[i].File, want[i].Line, s)
		}
	}
	return nil
}

func checkLines(what string, out []byte, want []string) *Violation {
	got := lines(out)
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return viol(what+"-missing", "%s %q is missing", what, clip([]byte(want[i]), 200))
		case i >= len(want):
			return viol(what+"-extra", "%s %q should not be listed", what, clip([]byte(got[i]), 200))
		case got[i] != want[i]:
			return viol(what+"-list", "line %d is %q, expected %q", i+1, clip([]byte(got[i]), 200), clip([]byte(want[i]), 200))
		}
	}
	return nil
}

// ago words the distance between two days the way the statistics do.
func ago(then, today Civil) string {
	diff := int64(today.Days()-then.Days()) * 86400
	label := "ago"
	if diff < 0 {
		label = "from now"
		diff = -diff
	}
	const day, week, month, year = 86400, 7 * 86400, 30 * 86400, 12 * 30 * 86400
	switch {
	case diff == 0:
		return "now"
	case diff < 2*day:
		return "1 day " + label
	case diff < week:
		return fmt.Sprintf("%d days %s", diff/day, label)
	case diff < 2*week:
		return "1 week " + label
	case diff < month:
		return fmt.Sprintf("%d weeks %s", diff/week, label)
	case diff < 2*month:
		return "1 month " + label
	case diff < year:
		return fmt.Sprintf("%d months %s", diff/month, label)
	case diff < 18*month:
		return "1 year " + label
	case diff < 2*year:
		return "2 years " + label
	case diff < 37*year:
		return fmt.Sprintf("%d years %s", diff/year, label)
	}
	return "a long while " + label
}

// ageFits tells whether s words how long ago a day was, counted from a day on
// which the clock was during the run.
func ageFits(s string, then Civil, days []Civil) bool {
	for _, d := range days {
		if ago(then, d) == s {
			return true
		}
	}
	return false
}

var (
	perDayRE = regexp.MustCompile(`^Transactions:\s+([0-9]+)(?: \(([^ ]*) per day\))?$`)
	ageRE    = regexp.MustCompile(`^Age of money:\s+([0-9]+) days$`)
	dateRE   = regexp.MustCompile(`^(First|Last) transaction:\s+([0-9]{4}-[0-9]{2}-[0-9]{2}) \((.*)\)$`)
	periodRE = regexp.MustCompile(`^Time period:\s+([0-9]+) days$`)
	uniqRE   = regexp.MustCompile(`^Unique (accounts|payees):\s+([0-9]+)$`)
	filesRE  = regexp.MustCompile(`^Transactions found in ([0-9]+) files?:$`)
)

// sameFiles compares lists of files. A file which was included under several
// names may be listed under each of them or under one, but no name twice.
func sameFiles(got, want []string) bool {
	g, w, once := map[string]bool{}, map[string]bool{}, map[string]bool{}
	for _, f := range got {
		if once[f] {
			return false
		}
		once[f] = true
		g[cleanPath(f)] = true
	}
	for _, f := range want {
		w[cleanPath(f)] = true
	}
	if len(g) != len(w) || len(got) > len(want) {
		return false
	}
	for f := range g {
		if !w[f] {
			return false
		}
	}
	return true
}

func checkStats(m *Model, out []byte, want MStats, r *Run, res *Result) *Violation {
	ls := lines(out)
	if want.Count == 0 {
		for _, l := range ls {
			if perDayRE.MatchString(l) && perDayRE.FindStringSubmatch(l)[1] != "0" {
				return viol("stats-count", "transactions counted where none are selected: %s", clip(out, 400))
			}
			if dateRE.MatchString(l) {
				return viol("stats-dates", "dates given where no transactions are selected: %s", clip(out, 400))
			}
			if f := filesRE.FindStringSubmatch(l); f != nil && f[1] != "0" {
				return viol("stats-files", "files listed where no transactions are selected: %s", clip(out, 400))
			}
		}
		if len(ls) == 0 {
			return viol("stats-form", "no output")
		}
		return nil
	}
	if len(ls) == 0 || !filesRE.MatchString(ls[0]) {
		return viol("stats-form", "no list of files: %s", clip(out, 400))
	}
	n, _ := strconv.Atoi(filesRE.FindStringSubmatch(ls[0])[1])
	i := 1
	var files []string
	for i < len(ls) && strings.HasPrefix(ls[i], "  ") {
		files = append(files, ls[i][2:])
		i++
	}
	if n != len(files) || !sameFiles(files, want.Files) {
		return viol("stats-files", "%d files %q, expected %q", n, files, want.Files)
	}
	seen := map[string]bool{}
	days := todays(r, res)
	for ; i < len(ls); i++ {
		l := ls[i]
		switch {
		case dateRE.MatchString(l):
			f := dateRE.FindStringSubmatch(l)
			c, _ := parseCivil(f[2])
			w := want.First
			if f[1] == "Last" {
				w = want.Last
			}
			if c != w {
				return viol("stats-dates", "%s, expected %s", l, w)
			}
			if !ageFits(f[3], w, days) {
				return viol("stats-age", "%s, on %s", l, days[0])
			}
			seen[f[1]] = true
		case periodRE.MatchString(l):
			n, _ := strconv.Atoi(periodRE.FindStringSubmatch(l)[1])
			if n != want.Last.Days()-want.First.Days() {
				return viol("stats-period", "%s, expected %d", l, want.Last.Days()-want.First.Days())
			}
			seen["period"] = true
		case perDayRE.MatchString(l):
			n, _ := strconv.Atoi(perDayRE.FindStringSubmatch(l)[1])
			if n != want.Count {
				return viol("stats-count", "%s, expected %d", l, want.Count)
			}
			if days := want.Last.Days() - want.First.Days(); days > 0 {
				f, err := strconv.ParseFloat(perDayRE.FindStringSubmatch(l)[2], 64)
				if err != nil || math.Abs(f-float64(want.Count)/float64(days)) > 0.0500001 {
					return viol("stats-rate", "%s, expected %d in %d days", l, want.Count, days)
				}
			}
			seen["count"] = true
		case ageRE.MatchString(l):
			if n, _ := strconv.Atoi(ageRE.FindStringSubmatch(l)[1]); m.sums("age") && math.Abs(float64(n)-want.Age) > 0.5000001 {
				return viol("stats-money", "%s, expected %f", l, want.Age)
			}
			seen["money"] = true
		case uniqRE.MatchString(l):
			f := uniqRE.FindStringSubmatch(l)
			n, _ := strconv.Atoi(f[2])
			exp := want.Accounts
			if f[1] == "payees" {
				exp = want.Payee
			}
			if n != exp {
				return viol("stats-unique", "%s, expected %d", l, exp)
			}
			seen[f[1]] = true
		}
	}
	for _, k := range []string{"First", "Last", "period", "count", "accounts", "payees", "money"} {
		if !seen[k] {
			return viol("stats-form", "no line about %s: %s", k, clip(out, 500))
		}
	}
	return nil
}

var (
	monthRE = regexp.MustCompile(`^([0-9]{4}-[0-9]{2})-01\b`)
	fundsRE = regexp.MustCompile(`^ *Funds \| (.*)$`)
	catRE   = regexp.MustCompile(`^(.*?) *\| *([^|]*?) \| *([^|]*?) \| *([^|]*?) \|$`)
	barRE   = regexp.MustCompile(`^(.*?) *\| *(\|?[^|]*?) \| *(\|?[^|]*?) \| *(\|?[^|]*?) \|$`)
)

func checkBudget(out []byte, want map[Civil]*MMonth, partial bool) *Violation {
	got := map[Civil]*MMonth{}
	var order []Civil
	var cur *MMonth
	type avail struct {
		m    Civil
		cat  string
		left int64
	}
	var av []avail
	for _, l := range lines(out) {
		if f := monthRE.FindStringSubmatch(l); f != nil && !strings.Contains(l, " | ") {
			c, _ := parseCivil(f[1] + "-01")
			if got[c] != nil {
				return viol("budget-form", "%s comes twice", f[1])
			}
			cur = &MMonth{Cats: map[string]*MCat{}}
			got[c] = cur
			order = append(order, c)
			continue
		}
		if f := fundsRE.FindStringSubmatch(l); f != nil && cur != nil {
			v, ok := parseHundredths(strings.TrimSpace(f[1]))
			if !ok {
				return viol("budget-form", "unreadable funds %q", l)
			}
			cur.Funds = v
			continue
		}
		if f := catRE.FindStringSubmatch(l); f != nil && cur != nil {
			b, ok1 := parseHundredths(f[2])
			a, ok2 := parseHundredths(f[3])
			left, ok3 := parseHundredths(f[4])
			if !ok1 || !ok2 || !ok3 {
				// the commodity may be a bar
				if f2 := barRE.FindStringSubmatch(l); f2 != nil {
					f = f2
					b, ok1 = parseHundredths(f[2])
					a, ok2 = parseHundredths(f[3])
					left, ok3 = parseHundredths(f[4])
				}
			}
			if !ok1 && !ok2 && !ok3 && strings.HasPrefix(l, "Category ") {
				continue // the head of the table
			}
			if !ok1 || !ok2 || !ok3 {
				return viol("budget-form", "unreadable line %q", l)
			}
			n := f[1]
			// a name which begins or ends with spaces is told by its place
			if w := want[order[len(order)-1]]; w != nil {
				if names := sortedKeys(w.Cats); len(cur.Cats) < len(names) && strings.TrimSpace(names[len(cur.Cats)]) == strings.TrimSpace(n) {
					n = names[len(cur.Cats)]
				}
			}
			if cur.Cats[n] != nil {
				return viol("budget-form", "category %q comes twice", n)
			}
			cur.Cats[n] = &MCat{Budgeted: b, Activity: a}
			av = append(av, avail{order[len(order)-1], n, left})
			continue
		}
		if strings.Trim(l, "- ") != "" && !strings.Contains(l, " | ") {
			return viol("budget-form", "stray line %q", l)
		}
	}
	if !sort.SliceIsSorted(order, func(i, j int) bool { return order[i].Days() < order[j].Days() }) {
		return viol("budget-order", "months are not in order: %v", order)
	}
	months := map[Civil]bool{}
	for c := range got {
		months[c] = true
	}
	for c := range want {
		months[c] = true
	}
	var all []Civil
	for c := range months {
		all = append(all, c)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].Days() < all[j].Days() })
	for _, c := range all {
		g, w := got[c], want[c]
		name := c.String()[:7]
		if !partial && (g == nil) != (w == nil) {
			if g == nil {
				return viol("budget-months", "%s is missing", name)
			}
			return viol("budget-months", "%s should not be listed", name)
		}
		if g == nil {
			g = &MMonth{}
		}
		if w == nil {
			w = &MMonth{}
		}
		if g.Funds != w.Funds {
			return viol("budget-funds", "%s: funds %s, expected %s", name, money(g.Funds), money(w.Funds))
		}
		cats := map[string]bool{}
		for k := range g.Cats {
			cats[k] = true
		}
		for k := range w.Cats {
			cats[k] = true
		}
		for _, k := range sortedKeys(cats) {
			gc, wc := g.Cats[k], w.Cats[k]
			if !partial && (gc == nil) != (wc == nil) {
				return viol("budget-categories", "%s: category %q listed: %v, expected %v", name, k, gc != nil, wc != nil)
			}
			if gc == nil {
				gc = &MCat{}
			}
			if wc == nil {
				wc = &MCat{}
			}
			if gc.Activity != wc.Activity {
				return viol("budget-activity", "%s: activity of %s is %s, expected %s", name, k, money(gc.Activity), money(wc.Activity))
			}
			if !partial && gc.Budgeted != wc.Budgeted {
				return viol("budget-budgeted", "%s: %s is budgeted %s, expected %s", name, k, money(gc.Budgeted), money(wc.Budgeted))
			}
		}
	}
	for _, a := range av {
		c := got[a.m].Cats[a.cat]
		if a.left != c.Budgeted+c.Activity {
			return viol("budget-available", "%s: available for %s is %s, expected %s", a.m.String()[:7], a.cat, money(a.left), money(c.Budgeted+c.Activity))
		}
	}
	return nil
}
