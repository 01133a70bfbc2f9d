package main

// A small executable reference model of what gledger promises about journals,
// written from the ledger file format, not from gledger's lexer and parser.

import (
	"bytes"
	"fmt"
	"math"
	"math/bits"
	"path"
	"regexp"
	"sort"
	"strings"
	"time"
	"unicode"
)

type Civil struct{ Y, M, D int }

func (c Civil) Days() int {
	return int(time.Date(c.Y, time.Month(c.M), c.D, 0, 0, 0, 0, time.UTC).Unix() / 86400)
}
func (c Civil) String() string { return fmt.Sprintf("%04d-%02d-%02d", c.Y, c.M, c.D) }
func civilOfDays(n int) Civil {
	t := time.Unix(int64(n)*86400, 0).UTC()
	return Civil{t.Year(), int(t.Month()), t.Day()}
}

func daysIn(y, m int) int {
	switch m {
	case 2:
		if (y%4 == 0 && y%100 != 0) || y%400 == 0 {
			return 29
		}
		return 28
	case 4, 6, 9, 11:
		return 30
	}
	return 31
}

type MPosting struct {
	Account  string
	Comm     string
	Qty      int64
	Elided   bool
	Comments []string
}

type MTx struct {
	Date       Civil
	State      byte // ' ', '!', '*'
	Payee      string
	HeaderNote string
	HasNote    bool
	Notes      []string
	Postings   []MPosting
	File       string // as the program names it
	Line, End  int    // header line, line which closes it
	Periodic   bool
	PeriodOK   bool
	Month      Civil
}

// MErr is the first error in a journal. Lines: where it may be reported.
type MErr struct {
	File   string
	Lo, Hi int
	What   string
	IO     bool   // a file could not be read: the diagnostic has to name Path
	Path   string // as the program names it
}

type Model struct {
	Txs      []MTx // in journal order, periodic ones included
	Err      *MErr
	Unspec   []string // reasons why reports on this journal are not compared
	Depth    int
	Opens    int
	comms    map[string]bool
	abs      uint64 // the sum of all amounts without their signs
	stack    []string
	open     func(arg, clean string) ([]byte, string) // content, or why it cannot be read
	cur      *MTx
	curStart bool
	loops    bool // a file includes itself, by its name
}

func (m *Model) unspec(s string) {
	for _, u := range m.Unspec {
		if u == s {
			return
		}
	}
	m.Unspec = append(m.Unspec, s)
}

func cleanPath(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = simCwd + "/" + p
	}
	return path.Clean(p)
}

// worldOpener reads files as they are in the world.
func worldOpener(w *World) func(arg, clean string) ([]byte, string) {
	return func(arg, clean string) ([]byte, string) {
		f := w.Find(clean)
		if f != nil && f.Link != "" {
			f = w.Find(f.Link)
		}
		if f == nil {
			for i := range w.Files {
				if strings.HasPrefix(w.Files[i].Path, clean+"/") {
					return nil, "is a directory"
				}
			}
			return nil, "no such file"
		}
		if f.Dir {
			return nil, "is a directory"
		}
		if f.NoPerm {
			return nil, "permission denied"
		}
		return f.Content(), ""
	}
}

func runModel(root string, open func(arg, clean string) ([]byte, string)) *Model {
	m := &Model{open: open, comms: map[string]bool{}}
	m.file(root)
	return m
}

// sums tells whether the sums a command reports are specified: not those of
// several commodities.
func (m *Model) sums(cmd string) bool {
	switch canonical(cmd) {
	case "balance", "budget":
		return len(m.comms) <= 1
	case "age": // of money
		return len(m.comms) <= 1 && m.abs <= math.MaxInt64
	}
	return true
}

// large tells whether a command may give up because its sums get too large.
func (m *Model) large(cmd string) bool {
	cmd = canonical(cmd)
	return m.abs > math.MaxInt64 && (cmd == "balance" || cmd == "budget")
}

// wide is a sum of 64 bit numbers which cannot overflow.
type wide struct {
	hi int64
	lo uint64
}

func (w *wide) add(q int64) {
	lo, carry := bits.Add64(w.lo, uint64(q), 0)
	w.lo = lo
	w.hi += q>>63 + int64(carry)
}
func (w wide) value() int64 { return int64(w.lo) }
func (w wide) fits() bool   { return w.hi == int64(w.lo)>>63 }
func (w wide) zero() bool   { return w.hi == 0 && w.lo == 0 }

const tooMuch = 1 << 63

func addAbs(abs uint64, q int64) uint64 {
	if q < 0 {
		q = -q
	}
	if abs += uint64(q); abs > math.MaxInt64 {
		return tooMuch
	}
	return abs
}

func (m *Model) fail(file string, lo, hi int, what string) bool {
	m.Err = &MErr{File: file, Lo: lo, Hi: hi, What: what}
	return false
}

func runesOf(b []byte) []rune { return []rune(string(b)) }

func isDig(r rune) bool { return r >= '0' && r <= '9' }
func isCom(r rune) bool { return r == ';' || r == '#' }

func trimLeft(r []rune) []rune {
	for len(r) > 0 && r[0] == ' ' {
		r = r[1:]
	}
	return r
}

// skip drops leading white space and counts the blanks among it
func skip(r []rune) ([]rune, int) {
	n := 0
	for len(r) > 0 && unicode.IsSpace(r[0]) {
		if r[0] == ' ' || r[0] == '\t' {
			n++
		}
		r = r[1:]
	}
	return r, n
}

// field takes text up to a tab, two spaces, or a comment.
func field(r []rune, comments bool) (text, rest []rune) {
	i := 0
	for i < len(r) {
		if r[i] == '\t' || (comments && isCom(r[i])) {
			break
		}
		if r[i] == ' ' && i+1 < len(r) && r[i+1] == ' ' {
			return r[:i], r[i:]
		}
		i++
	}
	text, rest = r[:i], r[i:]
	if len(text) > 0 && text[len(text)-1] == ' ' {
		text = text[:len(text)-1]
	}
	return text, rest
}

func parseCivil(s string) (Civil, bool) {
	if len(s) != 10 || (s[4] != '-' && s[4] != '/' && s[4] != '.') || s[7] != s[4] {
		return Civil{}, false
	}
	n := func(t string) int {
		v := 0
		for i := 0; i < len(t); i++ {
			if t[i] < '0' || t[i] > '9' {
				return -1
			}
			v = v*10 + int(t[i]-'0')
		}
		return v
	}
	c := Civil{n(s[:4]), n(s[5:7]), n(s[8:])}
	if c.Y < 0 || c.M < 1 || c.M > 12 || c.D < 1 || c.D > daysIn(c.Y, c.M) {
		return Civil{}, false
	}
	return c, true
}

// parseQty reads [+-]digits[.d[d]] as hundredths.
func parseQty(r []rune) (int64, bool) {
	neg := false
	if len(r) > 0 && (r[0] == '-' || r[0] == '+') {
		neg = r[0] == '-'
		r = r[1:]
	}
	i := 0
	var v int64
	dig := func(c rune) bool {
		d := int64(c - '0')
		if v > (math.MaxInt64-d)/10 {
			return false
		}
		v = v*10 + d
		return true
	}
	for i < len(r) && isDig(r[i]) {
		if !dig(r[i]) {
			return 0, false
		}
		i++
	}
	if i == 0 {
		return 0, false
	}
	dec := 0
	if i < len(r) && r[i] == '.' {
		i++
		for i < len(r) && isDig(r[i]) {
			if dec == 2 || !dig(r[i]) {
				return 0, false
			}
			dec++
			i++
		}
		if dec == 0 {
			return 0, false
		}
	}
	if i != len(r) {
		return 0, false
	}
	for ; dec < 2; dec++ {
		if !dig('0') {
			return 0, false
		}
	}
	if neg {
		v = -v
	}
	return v, true
}

const budgetRoot = "_budget_root_"

// tooMany tells whether the open transaction already has two elided amounts.
func (m *Model) tooMany() bool {
	n := 0
	if m.cur != nil {
		for _, p := range m.cur.Postings {
			if p.Elided {
				n++
			}
		}
	}
	return n > 1
}

// closeTx checks and completes the open transaction. line: where it ends.
func (m *Model) closeTx(line int) bool {
	t := m.cur
	m.cur = nil
	if t == nil {
		return true
	}
	t.End = line
	var sum wide
	var abs uint64
	elided := -1
	n := 0
	comm := ""
	several := false
	for i := range t.Postings {
		p := &t.Postings[i]
		if p.Elided {
			elided = i
			n++
			continue
		}
		if p.Comm != "" {
			several = several || (comm != "" && comm != p.Comm)
			comm = p.Comm
		}
		sum.add(p.Qty)
		abs = addAbs(abs, p.Qty)
	}
	if n > 1 {
		return m.fail(t.File, t.Line, line, "more than one elided amount")
	}
	if elided >= 0 {
		if !sum.fits() || sum.value() == math.MinInt64 {
			return m.fail(t.File, t.Line, line, "the elided amount is too large")
		}
		t.Postings[elided].Qty = -sum.value()
		t.Postings[elided].Comm = comm
		if several {
			t.Postings[elided].Comm = "" // not compared
		}
		abs = addAbs(abs, sum.value())
	} else if t.Periodic {
		root := false
		for _, p := range t.Postings {
			if p.Account == budgetRoot {
				root = true
			}
		}
		if root && !sum.zero() {
			return m.fail(t.File, t.Line, line, "does not balance")
		}
		if !root && (!sum.fits() || sum.value() == math.MinInt64) {
			return m.fail(t.File, t.Line, line, "the budget is too large")
		}
	} else if !sum.zero() {
		return m.fail(t.File, t.Line, line, "does not balance")
	}
	for _, p := range t.Postings {
		if p.Comm != "" || p.Qty != 0 {
			m.comms[p.Comm] = true
		}
		for _, c := range strings.Split(p.Account, ":") {
			if c == "_root_" || c == budgetRoot {
				m.unspec("odd account name")
			}
		}
	}
	if t.Periodic && !t.PeriodOK {
		m.unspec("period which is not a month")
	}
	if m.abs >= tooMuch || abs >= tooMuch || m.abs+abs >= tooMuch {
		m.abs = tooMuch
	} else {
		m.abs += abs
	}
	m.Txs = append(m.Txs, *t)
	return true
}

func (m *Model) file(arg string) bool {
	clean := cleanPath(arg)
	content, bad := m.open(arg, clean)
	m.Opens++
	if len(m.stack) >= m.Depth {
		m.Depth = len(m.stack) + 1
	}
	ioErr := ""
	if strings.HasPrefix(bad, "!") {
		// delivered up to a failed read
		ioErr, bad = bad[1:], ""
	}
	if bad != "" {
		m.Err = &MErr{IO: true, Path: arg, What: bad}
		return false
	}
	m.stack = append(m.stack, clean)
	defer func() { m.stack = m.stack[:len(m.stack)-1] }()
	line := 0
	for len(content) > 0 {
		line++
		var l []byte
		i := 0
		for i < len(content) && content[i] != '\n' {
			i++
		}
		l = content[:i]
		if i < len(content) {
			content = content[i+1:]
			if len(l) > 0 && l[len(l)-1] == '\r' {
				l = l[:len(l)-1]
			}
		} else {
			content = nil
			if ioErr != "" {
				break // the rest of the line never came
			}
		}
		if bytes.IndexByte(l, '\r') >= 0 {
			m.unspec("carriage return inside of a line")
		}
		if !m.line(arg, line, runesOf(l)) {
			return false
		}
	}
	if ioErr != "" {
		m.Err = &MErr{IO: true, Path: arg, What: ioErr}
		return false
	}
	hi := line + 1
	return m.closeTx(hi)
}

// lineErr fails at a line; an open transaction with two elided amounts may be
// reported instead, anywhere from its header on.
func (m *Model) lineErr(file string, line int, what string) bool {
	lo := line
	if m.cur != nil {
		t := *m.cur
		keep := m.Txs
		if !m.closeTx(line) || m.tooMany() {
			lo = t.Line
		}
		m.Txs = keep
	}
	return m.fail(file, lo, line, what)
}

func (m *Model) line(file string, n int, r []rune) bool {
	if len(r) == 0 {
		return m.closeTx(n)
	}
	switch {
	case isCom(r[0]):
		return true
	case r[0] == 'i':
		return m.include(file, n, r)
	case r[0] == '~':
		rest, blanks := skip(r[1:])
		if blanks == 0 {
			return m.lineErr(file, n, "no space after ~")
		}
		period, _ := field(rest, true)
		if !m.closeTx(n) {
			return false
		}
		t := &MTx{File: file, Line: n, Periodic: true, State: ' '}
		if c, ok := parseCivil(string(period) + "-01"); ok && len(period) == 7 && period[4] == '-' {
			t.PeriodOK, t.Month = true, c
		}
		m.cur = t
		return true
	case unicode.IsNumber(r[0]):
		return m.header(file, n, r)
	case r[0] == '\t' || (r[0] == ' ' && len(r) > 1 && r[1] == ' '):
		return m.posting(file, n, r)
	}
	return m.lineErr(file, n, "unexpected line")
}

func (m *Model) include(file string, n int, r []rune) bool {
	i := 0
	for i < len(r) && r[i] != ' ' {
		i++
	}
	if string(r[:i]) != "include" {
		return m.lineErr(file, n, "unexpected directive")
	}
	rest, blanks := skip(r[i:])
	if blanks == 0 {
		return m.lineErr(file, n, "include without a file")
	}
	name, _ := field(rest, true)
	if len(name) == 0 {
		return m.lineErr(file, n, "include without a file")
	}
	if !m.closeTx(n) {
		return false
	}
	target := string(name)
	if !strings.HasPrefix(target, "/") {
		if i := strings.LastIndexByte(file, '/'); i >= 0 {
			target = file[:i+1] + target
		}
	}
	clean := cleanPath(target)
	for _, s := range m.stack {
		if s == clean {
			m.loops = true
			return m.fail(file, n, n, "includes itself")
		}
	}
	return m.file(target)
}

func (m *Model) header(file string, n int, r []rune) bool {
	i := 0
	for i < len(r) && r[i] != ' ' {
		i++
	}
	date, ok := parseCivil(string(r[:i]))
	if !ok {
		return m.lineErr(file, n, "malformed date")
	}
	if !m.closeTx(n) {
		return false
	}
	t := &MTx{File: file, Line: n, Date: date, State: ' '}
	rest, _ := skip(r[i:])
	if len(rest) > 0 && (rest[0] == '!' || rest[0] == '*') {
		t.State = byte(rest[0])
		rest, _ = skip(rest[1:])
	}
	payee, rest := field(rest, true)
	t.Payee = string(payee)
	rest, _ = skip(rest)
	if len(rest) > 0 {
		if isCom(rest[0]) {
			rest = rest[1:]
		} else {
			m.unspec("text after two spaces in a header")
		}
		t.HeaderNote = string(trimLeft(rest))
		t.HasNote = true
	}
	m.cur = t
	return true
}

func (m *Model) posting(file string, n int, r []rune) bool {
	r, _ = skip(r)
	if len(r) == 0 {
		return true
	}
	if isCom(r[0]) {
		if m.cur == nil {
			return true
		}
		c := string(trimLeft(r[1:]))
		if k := len(m.cur.Postings); k > 0 {
			p := &m.cur.Postings[k-1]
			p.Comments = append(p.Comments, c)
		} else {
			m.cur.Notes = append(m.cur.Notes, c)
		}
		return true
	}
	if !unicode.IsLetter(r[0]) {
		if m.cur != nil && m.cur.Periodic && r[0] == '_' {
			m.unspec("budget root posting")
		}
		return m.lineErr(file, n, "unexpected start of posting")
	}
	if m.cur == nil {
		return m.lineErr(file, n, "posting outside of a transaction")
	}
	account, rest := field(r, false)
	rest, _ = skip(rest)
	p := MPosting{Account: string(account)}
	if len(rest) == 0 {
		p.Elided = true
		m.cur.Postings = append(m.cur.Postings, p)
		return true
	}
	i := 0
	for i < len(rest) && !unicode.IsNumber(rest[i]) && rest[i] != '-' && rest[i] != '+' && rest[i] != ' ' && rest[i] != '\t' {
		i++
	}
	comm := string(rest[:i])
	rest = rest[i:]
	rest2, blanks := skip(rest)
	if blanks > 0 {
		comm += " "
	}
	amount, _ := field(rest2, true)
	q, ok := parseQty(amount)
	if !ok {
		lo := n
		if m.tooMany() {
			lo = m.cur.Line
		}
		return m.fail(file, lo, n, "malformed amount")
	}
	p.Comm, p.Qty = comm, q
	m.cur.Postings = append(m.cur.Postings, p)
	return true
}

// ---- selection ----

type MFilter struct {
	kind byte // 'a', '@', '='
	re   *regexp.Regexp
	raw  *regexp.Regexp // the whole argument, as payees uses it
}

func hasUpper(s string) bool {
	for _, c := range s {
		if unicode.IsUpper(c) {
			return true
		}
	}
	return false
}

func smartRE(s string) *regexp.Regexp {
	if !hasUpper(s) {
		s = "(?i)" + s
	}
	return regexp.MustCompile(s)
}

func mkFilter(arg string) MFilter {
	f := MFilter{kind: 'a', raw: smartRE(arg)}
	switch arg[0] {
	case '@', '=':
		f.kind = arg[0]
		arg = arg[1:]
	}
	f.re = smartRE(arg)
	return f
}

// Select returns whether t is selected and which postings are.
func selectTx(t *MTx, fs []MFilter, rng DateRange) (bool, []int) {
	if !rng.has(t.Date) {
		return false, nil
	}
	all := make([]int, len(t.Postings))
	for i := range all {
		all[i] = i
	}
	if len(fs) == 0 {
		return true, all
	}
	hit := map[int]bool{}
	for _, f := range fs {
		switch f.kind {
		case '@':
			if f.re.MatchString(t.Payee) {
				return true, all
			}
		case '=':
			if f.re.MatchString(t.HeaderNote) {
				return true, all
			}
			for _, n := range t.Notes {
				if f.re.MatchString(n) {
					return true, all
				}
			}
			for i, p := range t.Postings {
				for _, c := range p.Comments {
					if f.re.MatchString(c) {
						hit[i] = true
					}
				}
			}
		default:
			for i, p := range t.Postings {
				if f.re.MatchString(p.Account) {
					hit[i] = true
				}
			}
		}
	}
	var idx []int
	for i := range t.Postings {
		if hit[i] {
			idx = append(idx, i)
		}
	}
	return len(idx) > 0, idx
}

type DateRange struct {
	hasB, hasE bool
	b, e       int // days; e exclusive
}

func (d DateRange) has(c Civil) bool {
	n := c.Days()
	return !(d.hasB && n < d.b) && !(d.hasE && n >= d.e)
}

// smartDate reads YYYY, YYYY/MM, MM/DD and YYYY/MM/DD.
func smartDate(s string, today Civil) (Civil, bool) {
	sep := ""
	for _, x := range []string{"/", ".", "-"} {
		if strings.Contains(s, x) {
			sep = x
			break
		}
	}
	if sep == "" {
		if len(s) != 4 {
			return Civil{}, false
		}
		return parseCivil(s + "-01-01")
	}
	p := strings.Split(s, sep)
	switch {
	case len(p) == 2 && len(p[0]) == 4:
		return parseCivil(p[0] + "-" + p[1] + "-01")
	case len(p) == 2:
		return parseCivil(fmt.Sprintf("%04d-%s-%s", today.Y, p[0], p[1]))
	case len(p) == 3:
		return parseCivil(p[0] + "-" + p[1] + "-" + p[2])
	}
	return Civil{}, false
}

// Query is what a command line asks for.
type Query struct {
	Cmd                  string
	Flat, Collapse, Zero bool
	Begin, End           string
	Current              bool
	Filters              []string
	Short                bool   // flags in their short form
	Bad                  string // an argument that is none
}

func (q *Query) args() []string {
	a := []string{q.Cmd}
	flag := func(long, short, value string) {
		if q.Short {
			a = append(a, short+value)
		} else if value != "" {
			a = append(a, long+"="+value)
		} else {
			a = append(a, long)
		}
	}
	if q.Flat {
		flag("--flatten", "-F", "")
	}
	if q.Collapse {
		flag("--collapse", "-C", "")
	}
	if q.Zero {
		flag("--show-zero", "-Z", "")
	}
	if q.Begin != "" {
		flag("--begin", "-b", q.Begin)
	}
	if q.End != "" {
		flag("--end", "-e", q.End)
	}
	if q.Current {
		flag("--current", "-c", "")
	}
	if q.Bad != "" {
		a = append(a, q.Bad)
	}
	return append(a, q.Filters...)
}

// bad tells what is wrong with a command line, other than its dates and
// filters.
func (q *Query) bad() string {
	cmd := canonical(q.Cmd)
	known := cmd == "version"
	for _, c := range allCmds {
		known = known || c == cmd
	}
	switch {
	case !known:
		return "unknown command " + q.Cmd
	case q.Bad != "":
		return "bad argument " + q.Bad
	case (q.Flat || q.Collapse || q.Zero) && cmd != "balance" && cmd != "budget":
		return cmd + " has no such flag"
	}
	return ""
}

// parseArgs recovers the query from the arguments (the arguments are what a
// replay file holds, and what the shrinker edits).
func parseArgs(args []string) Query {
	var q Query
	for _, a := range args {
		switch {
		case q.Cmd == "":
			q.Cmd = a
		case a == "--flatten":
			q.Flat = true
		case a == "--collapse":
			q.Collapse = true
		case a == "--show-zero":
			q.Zero = true
		case a == "--current":
			q.Current = true
		case strings.HasPrefix(a, "--begin="):
			q.Begin = a[8:]
		case strings.HasPrefix(a, "--end="):
			q.End = a[6:]
		case a == "-F":
			q.Flat, q.Short = true, true
		case a == "-C":
			q.Collapse, q.Short = true, true
		case a == "-Z":
			q.Zero, q.Short = true, true
		case a == "-c":
			q.Current, q.Short = true, true
		case len(a) > 2 && a[:2] == "-b":
			q.Begin, q.Short = a[2:], true
		case len(a) > 2 && a[:2] == "-e":
			q.End, q.Short = a[2:], true
		case len(a) > 1 && a[0] == '-':
			q.Bad = a
		default:
			q.Filters = append(q.Filters, a)
		}
	}
	return q
}

func (q *Query) filters() []MFilter {
	var fs []MFilter
	for _, f := range q.Filters {
		fs = append(fs, mkFilter(f))
	}
	return fs
}

// rangeFor settles the dates asked for, given today's date.
func (q *Query) rangeFor(today Civil) (DateRange, bool) {
	var d DateRange
	if q.Current {
		return DateRange{hasE: true, e: today.Days() + 1}, true
	}
	if q.Begin != "" {
		c, ok := smartDate(q.Begin, today)
		if !ok {
			return d, false
		}
		d.hasB, d.b = true, c.Days()
	}
	if q.End != "" {
		c, ok := smartDate(q.End, today)
		if !ok {
			return d, false
		}
		d.hasE, d.e = true, c.Days()
	}
	return d, true
}

// ---- reports ----

type MAcc struct {
	Name string
	Path string
	Sum  int64
	Kids map[string]*MAcc

	exact wide
}

func newAcc(name, path string) *MAcc { return &MAcc{Name: name, Path: path, Kids: map[string]*MAcc{}} }

// fits tells whether all totals are of 64 bits.
func (a *MAcc) fits() bool {
	for _, k := range a.Kids {
		if !k.fits() {
			return false
		}
	}
	return a.exact.fits()
}

func (a *MAcc) add(path string, q int64) {
	a.Sum += q
	a.exact.add(q)
	cur := a
	for _, c := range strings.Split(path, ":") {
		k := cur.Kids[c]
		if k == nil {
			p := c
			if cur.Path != "" {
				p = cur.Path + ":" + c
			}
			k = newAcc(c, p)
			cur.Kids[c] = k
		}
		k.Sum += q
		k.exact.add(q)
		cur = k
	}
}

func (a *MAcc) nonzero() bool {
	if a.Sum != 0 {
		return true
	}
	for _, k := range a.Kids {
		if k.nonzero() {
			return true
		}
	}
	return false
}

func (a *MAcc) prune() {
	for n, k := range a.Kids {
		if !k.nonzero() {
			delete(a.Kids, n)
		} else {
			k.prune()
		}
	}
}

func (a *MAcc) sorted() []*MAcc {
	var ks []*MAcc
	for _, k := range a.Kids {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].Name < ks[j].Name })
	return ks
}

// Row is one line of a balance report: the account's full path and amount.
type Row struct {
	Path string
	Qty  int64
}

func (m *Model) balance(fs []MFilter, d DateRange, zero bool) *MAcc {
	root := newAcc("", "")
	for i := range m.Txs {
		t := &m.Txs[i]
		if t.Periodic {
			continue
		}
		_, idx := selectTx(t, fs, d)
		for _, k := range idx {
			root.add(t.Postings[k].Account, t.Postings[k].Qty)
		}
	}
	if !zero {
		root.prune()
	}
	return root
}

func (a *MAcc) rows(flat bool) []Row {
	var out []Row
	var walk func(a *MAcc)
	walk = func(a *MAcc) {
		for _, k := range a.sorted() {
			if !flat || len(k.Kids) == 0 {
				out = append(out, Row{k.Path, k.Sum})
			}
			walk(k)
		}
	}
	walk(a)
	return out
}

func (m *Model) selected(fs []MFilter, d DateRange) []*MTx {
	var out []*MTx
	for i := range m.Txs {
		t := &m.Txs[i]
		if t.Periodic {
			continue
		}
		if ok, _ := selectTx(t, fs, d); ok {
			out = append(out, t)
		}
	}
	return out
}

func (m *Model) printed(fs []MFilter, d DateRange) []*MTx {
	out := m.selected(fs, d)
	sort.SliceStable(out, func(i, j int) bool { return out[i].Date.Days() < out[j].Date.Days() })
	return out
}

func sortedKeys[V any](s map[string]V) []string {
	out := make([]string, 0, len(s))
	for k := range s {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (m *Model) accounts(q *Query, d DateRange) []string {
	set := map[string]bool{}
	for i := range m.Txs {
		t := &m.Txs[i]
		if t.Periodic || !d.has(t.Date) {
			continue
		}
		for _, p := range t.Postings {
			if len(q.Filters) == 0 {
				set[p.Account] = true
			}
			for _, f := range q.filters() {
				if f.re.MatchString(p.Account) {
					set[p.Account] = true
				}
			}
		}
	}
	return sortedKeys(set)
}

func (m *Model) payees(q *Query, d DateRange) []string {
	set := map[string]bool{}
	for i := range m.Txs {
		t := &m.Txs[i]
		if t.Periodic || !d.has(t.Date) {
			continue
		}
		if len(q.Filters) == 0 {
			set[t.Payee] = true
		}
		for _, f := range q.filters() {
			if f.raw.MatchString(t.Payee) {
				set[t.Payee] = true
			}
		}
	}
	return sortedKeys(set)
}

type MStats struct {
	Age float64 // of money, in days

	Count           int
	Files           []string
	First, Last     Civil
	Accounts, Payee int
}

func (m *Model) stats(fs []MFilter, d DateRange) MStats {
	var s MStats
	files, accs, payees := map[string]bool{}, map[string]bool{}, map[string]bool{}
	earned, spent := map[int]int64{}, map[int]int64{}
	for i := range m.Txs {
		t := &m.Txs[i]
		if t.Periodic {
			continue
		}
		ok, idx := selectTx(t, fs, d)
		if !ok {
			continue
		}
		if s.Count == 0 || t.Date.Days() < s.First.Days() {
			s.First = t.Date
		}
		if s.Count == 0 || t.Date.Days() > s.Last.Days() {
			s.Last = t.Date
		}
		s.Count++
		files[t.File] = true
		payees[t.Payee] = true
		for _, k := range idx {
			accs[t.Postings[k].Account] = true
			switch day, p := t.Date.Days(), &t.Postings[k]; strings.SplitN(p.Account, ":", 2)[0] {
			case "Income":
				earned[day] -= p.Qty
			case "Expenses":
				spent[day] += p.Qty
			}
		}
	}
	s.Age = ageOfMoney(earned, spent)
	s.Files, s.Accounts, s.Payee = sortedKeys(files), len(accs), len(payees)
	return s
}

// ageOfMoney: what a day spends is drawn from what the days earned, the
// earliest first; each draw has the days between for its age, and the last
// ten of them are averaged.
func ageOfMoney(earned, spent map[int]int64) float64 {
	days := func(m map[int]int64) []int {
		var ds []int
		for d := range m {
			ds = append(ds, d)
		}
		sort.Ints(ds)
		return ds
	}
	purse := days(earned)
	var ages []int
	for _, d := range days(spent) {
		left := spent[d]
		for _, e := range purse {
			if earned[e] == 0 {
				continue
			}
			ages = append(ages, d-e)
			if left <= earned[e] {
				earned[e] -= left
				break
			}
			left -= earned[e]
			earned[e] = 0
		}
	}
	if n := len(ages); n > 10 {
		ages = ages[n-10:]
	}
	sum := 0
	for _, a := range ages {
		sum += a
	}
	if sum <= 0 {
		return 0
	}
	return float64(sum) / float64(len(ages))
}

type MCat struct {
	Budgeted, Activity int64
	exact              [3]wide // budgeted, activity, available
}

func (c *MCat) add(budgeted, spent int64) {
	c.Budgeted += budgeted
	c.Activity -= spent
	for i, q := range []int64{budgeted, -spent, budgeted} {
		c.exact[i].add(q)
	}
	c.exact[2].add(-spent)
}

func budgetFits(ms map[Civil]*MMonth) bool {
	for _, m := range ms {
		if !m.exact.fits() {
			return false
		}
		for _, c := range m.Cats {
			for _, w := range c.exact {
				if !w.fits() {
					return false
				}
			}
		}
	}
	return true
}

type MMonth struct {
	Funds int64
	exact wide
	Cats  map[string]*MCat
}

func (m *Model) budget(fs []MFilter, d DateRange) map[Civil]*MMonth {
	out := map[Civil]*MMonth{}
	month := func(c Civil) *MMonth {
		c.D = 1
		if out[c] == nil {
			out[c] = &MMonth{Cats: map[string]*MCat{}}
		}
		return out[c]
	}
	cat := func(mm *MMonth, n string) *MCat {
		if mm.Cats[n] == nil {
			mm.Cats[n] = &MCat{}
		}
		return mm.Cats[n]
	}
	for i := range m.Txs {
		t := &m.Txs[i]
		if t.Periodic {
			mm := month(t.Month)
			for _, p := range t.Postings {
				cat(mm, strings.Split(p.Account, ":")[0]).add(p.Qty, 0)
			}
			continue
		}
		_, idx := selectTx(t, fs, d)
		for _, k := range idx {
			p := t.Postings[k]
			comp := strings.Split(p.Account, ":")
			switch comp[0] {
			case "Income":
				mm := month(t.Date)
				mm.Funds -= p.Qty
				mm.exact.add(-p.Qty)
			case "Expenses":
				mm := month(t.Date)
				if len(comp) > 1 {
					cat(mm, comp[1]).add(0, p.Qty)
				}
			}
		}
	}
	return out
}
