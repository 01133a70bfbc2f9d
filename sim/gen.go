package main

// Generation of journals, queries and environments. Every choice comes from
// one Rng, so a case is a function of its seed.

import (
	"bytes"
	"fmt"
	"math"
	"path"
	"strings"
	"sync"
	"time"
	"unicode"
	"unicode/utf8"
)

// GenCfg says what kind of journal to make.
type GenCfg struct {
	MaxFiles   int
	MinFiles   int
	MinTx      int
	MaxTx      int
	Periodic   int  // percent of transactions
	Long       int  // percent of texts which are made long
	SameDay    int  // percent of transactions dated like another one
	Diamonds   int  // percent of files included once more
	Cancel     int  // percent of transactions undoing an earlier one
	Settle     bool // the last file undoes what all came before it, or nearly all
	Errors     int  // number of bad blocks
	BigText    bool
	YearLo     int
	Far        bool // some dates are not around Around
	YearHi     int
	Around     int // if not 0: days (since 1970) around which dates lie
	Deep       int // if not 0: the includes form a chain of this depth
	DeepAcct   bool
	ErrKinds   []string
	NoCRLF     bool
	PlainPaths bool
	Huge       bool // amounts beyond what a float64 holds exactly
	Mixed      bool // amounts of several commodities
	Edge       bool // amounts at the limits of what is exact or fits
	Pad        int  // one of so many cases holds a stretch of many or long lines without meaning (0: none)
	Money      bool // income and expenses of a few small sums, which often come out even
	Many       bool // many postings, notes, accounts and payees
}

func defCfg(r *Rng) GenCfg {
	c := GenCfg{MinFiles: 1, MaxFiles: r.Small(1, 6), MaxTx: r.Small(1, 14), Periodic: pick(r, []int{0, 0, 10, 30}), SameDay: pick(r, []int{10, 50, 90}),
		Diamonds: pick(r, []int{0, 0, 30}), Cancel: pick(r, []int{0, 10, 40}), Long: pick(r, []int{0, 0, 0, 2, 10})}
	y := r.In(1995, 2030)
	c.YearLo, c.YearHi = y, y+pick(r, []int{0, 0, 1, 5, 30})
	if r.P(25) {
		c.YearLo = pick(r, []int{1, 1000, 1500, 1700, 1969})
	}
	if r.P(40) {
		c.YearHi = pick(r, []int{2300, 2400, 9999})
	}
	if r.P(10) {
		// a few years around one at which calendars, counters or formats end
		c.YearLo = min(9998, max(1, pick(r, []int{2, 5, 99, 100, 999, 1000, 1582, 1677, 1752, 1900, 1902, 1969, 1970, 1999, 2000, 2037, 2038, 2068, 2100, 2106, 2261, 2262, 2400, 9990, 9998, r.In(1, 9998)})+r.In(-1, 1)))
		c.YearHi = min(9999, c.YearLo+r.In(0, 3))
	}
	c.Huge = r.P(20)
	c.Pad = 300
	c.Mixed = r.P(25)
	c.Many = r.P(15)
	if r.P(400) {
		c.MinTx, c.MaxTx = 1000, 2500
	}
	if c.Many && r.P(3) {
		c.MaxTx = r.In(20, 150)
	}
	return c
}

type gtx struct {
	date     Civil
	payee    string
	note     string
	posts    []gpost
	periodic bool
}

type gpost struct {
	acct string
	qty  int64
	el   bool
}

type G struct {
	r      *Rng
	cfg    GenCfg
	comm   string
	accts  []string
	payees []string
	notes  []string
	txs    []gtx
	paths  []string // of the files of the journal
	hinted bool     // texts and numbers of the program are used (lits.go)
}

var words = strings.Fields("shop rent Tesco Cafe gas water Amazon train books milk bread Salary Bonus Loan Fee Acme Ltd Co The of and Zoë naïve Łódź 東京 кафе ümlaut O'Neil A1 24h B&Q M&S x y z Aa aa AA a.b a+b (net) [x] 50% café-bar / \\ ^ $ ~ = @home")
var acctWords = strings.Fields("Cash Bank Current Savings Card Food Rent Travel Fuel Gifts Home Salary Interest Misc Börse 現金 касса A B C cash BANK Food-Out Tax2 Uk.Co X_Y O'Brien a;b c#d Joint")

func (g *G) word() string {
	if g.hint(5) {
		return hints.word(g.r)
	}
	return pick(g.r, words)
}

func (g *G) text(max int) string {
	n := g.r.Small(1, max)
	var w []string
	for i := 0; i < n; i++ {
		w = append(w, g.word())
	}
	s := strings.Join(w, " ")
	if v, ok := g.hintNum(12, 4, 70000); ok {
		for len(s) < v {
			s += " " + pick(g.r, words)
		}
		for s = s[:v]; !utf8.ValidString(s) || strings.HasSuffix(s, " "); {
			s = s[:len(s)-1] + pick(g.r, []string{"", "a"})
			if strings.HasSuffix(s, "a") && !utf8.ValidString(s) {
				s = s[:len(s)-1]
			}
		}
	}
	if g.r.Pct(g.cfg.Long) {
		// lengths around the sizes buffers come in
		n := pick(g.r, []int{200, 1000, 4080, 4090, 4095, 4096, 4097, 8191, 8192, 12288, 65535, 65536, 70000}) + g.r.In(-3, 3)
		if g.cfg.BigText && g.r.P(25) {
			n = 1<<20 + g.r.In(-3, 100000)
		}
		if !g.cfg.BigText && n > 9000 {
			n = 4096 + g.r.In(-60, 10)
		}
		if n > 100000 {
			s += strings.Repeat(" "+g.word(), n/2)
		}
		for len(s) < n {
			s += " " + g.word()
		}
		s = strings.TrimRight(s[:n], " ")
		for len(s) > 0 && s[len(s)-1] >= 0x80 {
			s = s[:len(s)-1]
		}
		s = strings.TrimRight(s, " ")
	}
	return s
}

func newG(r *Rng, cfg GenCfg) *G {
	g := &G{r: r, cfg: cfg, hinted: hints != nil && r.P(2)}
	g.comm = pick(r, []string{"", "", "£", "£", "£", "£", "$", "€", "GBP ", "£ ", "Kč", "US$"})
	if r.P(8) {
		g.comm = g.rareComm() + pick(r, []string{"", " "})
	}
	tops := []string{"Assets", "Expenses", "Income", "Liabilities", "Equity"}
	n := r.Small(2, 12)
	if cfg.Many {
		n = r.In(10, 60)
	}
	tops = append(tops, pick(r, []string{"Assets", "IncomeTax", "Expensesx", "Expense", "incomes", "expenses", "Income2", "Expenses Old"}))
	if v, ok := g.hintNum(4, 2, 300); ok {
		n = v
	}
	if g.hint(4) {
		if c := hints.word(r); !strings.ContainsAny(c, "0123456789+-.;# ") {
			g.comm = c
		}
	}
	comp := func() string {
		s := pick(r, acctWords)
		if g.hint(5) {
			if t := hints.word(r); !strings.ContainsAny(t, ";#") && !strings.Contains(t, "  ") {
				return t
			}
		}
		if r.P(6) {
			s += " " + pick(r, acctWords)
		}
		if r.P(40) {
			s += "2"
		}
		return s
	}
	for i := 0; i < n; i++ {
		var a string
		if len(g.accts) > 0 && r.P(3) {
			// a relative of an earlier account
			a = pick(r, g.accts)
			switch r.N(5) {
			case 4: // the same but for the case of the last part
				k := strings.LastIndexByte(a, ':') + 1
				if b := strings.ToLower(a[k:]); b != a[k:] {
					a = a[:k] + b
				} else {
					a = a[:k] + strings.ToUpper(b)
				}
			case 0:
				if k := strings.LastIndexByte(a, ':'); k > 0 {
					a = a[:k]
				}
			case 1:
				a += ":" + comp()
			case 2:
				a += pick(r, []string{"x", " Two", "-b"})
			case 3:
				if k := strings.LastIndexByte(a, ':'); k > 0 {
					a = a[:k] + ":" + comp()
				}
			}
		} else {
			a = pick(r, tops)
			if r.P(15) {
				a = comp()
				if a[0] >= '0' && a[0] <= '9' {
					a = "N" + a
				}
			}
			if g.hint(6) {
				if t := hints.word(r); unicode.IsLetter([]rune(t)[0]) && !strings.ContainsAny(t, ";#") && !strings.Contains(t, "  ") {
					a = t
				}
			}
			depth := pick(r, []int{0, 1, 1, 1, 2, 2, 3, 5})
			if v, ok := g.hintNum(8, 2, 200); ok {
				depth = v
			}
			if cfg.DeepAcct && r.P(4) {
				depth = r.In(5, 120)
			}
			for k := 0; k < depth; k++ {
				a += ":" + comp()
			}
		}
		g.accts = append(g.accts, a)
	}
	if r.P(10) {
		// long names, of which some differ at their ends only
		for k := r.Small(1, 3); k > 0; k-- {
			a := pick(r, g.accts)
			n := pick(r, []int{20, 30, 40, 60, 64, 76, 80, 100, 120, 127, 128, 200, 255, 256, 300, 512, 1000, 1024}) + r.In(-3, 3)
			for len(a) < n {
				a += pick(r, []string{" ", "", ":"}) + pick(r, acctWords)
			}
			g.accts = append(g.accts, a)
			if r.P(2) {
				g.accts = append(g.accts, near(r, a))
			}
		}
	}
	if r.P(8) {
		a := pick(r, g.accts)
		for k := r.In(1, 4); k > 0; k-- {
			g.accts = append(g.accts, near(r, a))
		}
	}
	if r.P(12) {
		// parts of names which are empty or begin or end with a space
		for k := r.In(1, 4); k > 0; k-- {
			a := pick(r, g.accts)
			if i := strings.IndexByte(a, ':'); i > 0 && !r.P(4) {
				if j := strings.LastIndexByte(a, ':'); r.P(2) {
					i = j
				}
				a = a[:i] + pick(r, []string{": ", " :", "::", " : ", ": :", ":::"}) + strings.TrimLeft(a[i+1:], " ")
			} else {
				a = strings.TrimRight(a, " ") + pick(r, []string{":", "::", " :", ": :"})
			}
			if !strings.Contains(a, "  ") {
				g.accts = append(g.accts, a)
			}
		}
	}
	if v, ok := g.hintNum(2, 5, 5000); ok {
		for k := r.In(1, 3); k > 0; k-- {
			a := pick(r, g.accts)
			if len(a) >= v {
				continue
			}
			part := pick(r, []string{" ", "", ":"})
			for len(a) < v {
				a += part + pick(r, acctWords)
			}
			if a = strings.TrimRight(a[:v], " :"); utf8.ValidString(a) {
				for len(a) < v {
					a += "x"
				}
				g.accts = append(g.accts, a, near(r, a))
			}
		}
	}
	n = r.Small(1, 7)
	if cfg.Many {
		n = r.In(5, 40)
	}
	if v, ok := g.hintNum(6, 2, 300); ok {
		n = v
	}
	for i := 0; i < n; i++ {
		p := g.text(3)
		for len(p) > 0 && strings.ContainsAny(p[:1], "!*;#= @") {
			p = p[1:]
		}
		if r.P(25) {
			p = ""
		}
		if len(g.payees) > 0 && r.P(6) {
			p = near(r, pick(r, g.payees))
		}
		if len(p) > 1 && r.P(8) {
			for k := r.In(1, 4); k > 0; k-- {
				g.payees = append(g.payees, near(r, p))
			}
		}
		g.payees = append(g.payees, p)
	}
	for i := 0; i < 4; i++ {
		n := g.text(5)
		if len(g.notes) > 0 && r.P(6) {
			n = near(r, pick(r, g.notes))
		}
		g.notes = append(g.notes, n)
	}
	return g
}

// near gives a text which is nearly s.
func near(r *Rng, s string) string {
	rs := []rune(s)
	if len(rs) < 2 {
		return s + "x"
	}
	last := rs[len(rs)-1]
	switch r.N(7) {
	case 6: // a letter which another order, another case or another form sorts elsewhere
		if k := r.In(1, len(rs)-1); rs[k] > 'A' && rs[k] != ':' {
			return string(rs[:k]) + pick(r, []string{"\uff61", "\U0001f355", "\uf900", "\U00010400", "\u212a", "\u00df", "\u017f", "\u0130", "\u0131", "\u00e9", "e\u0301", "\u00c5", "\u212b", "\ufb01", "\ufffd", "\u200b", "Z", "z", "_", "~", "\U0010ffff", "\ud7ff", "\u007f", "\u2028", "\u0085", "\v", "\f", "\u00a0", "\u2003", "\x1b", "\b"}) + string(rs[k+1:])
		}
	case 0:
		return s + pick(r, []string{"x", "2", ".", "s"})
	case 1: // without its last letter
		if p := string(rs[:len(rs)-1]); strings.TrimRight(p, " :") == p {
			return p
		}
	case 2: // another last letter
		if last < 128 {
			return string(rs[:len(rs)-1]) + pick(r, []string{"x", "y", "1"})
		}
	case 3:
		return strings.ToUpper(s)
	case 4:
		return strings.ToLower(s)
	case 5: // another letter in between
		if k := r.In(1, len(rs)-1); rs[k] >= 'a' && rs[k] <= 'z' {
			rs[k] = rune('a' + r.N(26))
			return string(rs)
		}
	}
	return s + "x"
}

// edge gives quantities around the limits of digits, floating point and 64 bits.
func (g *G) edge() int64 {
	r := g.r
	var v int64
	switch r.N(6) {
	case 0:
		v = int64(r.In(0, 120))
	case 1:
		v = 1
		for n := r.In(0, 18); n > 0; n-- {
			v *= 10
		}
		v += int64(r.In(-2, 2))
	case 2:
		v = int64(1)<<r.In(0, 62) + int64(r.In(-2, 2))
	case 3:
		v = math.MaxInt64 - int64(pick(r, []int{0, 1, 6, 7, 8, 99, 100, 107, r.N(1000)}))
	default:
		v = int64(r.U() >> r.In(1, 63))
	}
	if r.P(2) {
		v = -v
	}
	return v
}

func (g *G) qty() int64 {
	r := g.r
	if g.hinted && len(hints.Nums) > 0 && r.P(4) {
		top := int64(1e15)
		if g.cfg.Edge {
			top = math.MaxInt64 - 2
		} else if g.cfg.Huge {
			top = 9e17
		}
		if v, ok := hints.num(r, 2, top); ok {
			if m := pick(r, []int64{1, 1, 1, 100, 10}); v < top/m {
				v *= m
			}
			return v * pick(r, []int64{1, -1})
		}
	}
	if g.cfg.Edge {
		return g.edge()
	}
	if g.cfg.Huge && r.P(2) {
		return pick(r, []int64{1, -1}) * (int64(r.U()%900000000000000000) + 1)
	}
	switch r.N(12) {
	case 0:
		return 0
	case 1:
		return int64(r.In(-99, 99))
	case 2:
		return int64(r.In(-9, 9)) * 10
	case 3:
		return int64(r.U()%2000000000000000) - 1000000000000000
	case 4, 5, 6:
		return int64(r.In(-500, 500)) * 100
	}
	return int64(r.In(-500000, 500000))
}

func (g *G) date() Civil {
	r := g.r
	if len(g.txs) > 0 && r.Pct(g.cfg.SameDay) {
		return pick(r, g.txs).date
	}
	if g.cfg.Around != 0 && !(g.cfg.Far && r.P(6)) {
		return civilOfDays(g.cfg.Around + r.In(-3, 3))
	}
	if g.hinted && len(hints.Nums) > 0 {
		if v, ok := g.hintNum(4, 1, 9999); ok {
			m := r.In(1, 12)
			return Civil{v, m, r.In(1, daysIn(v, m))}
		}
		if v, ok := g.hintNum(4, 1, 12); ok {
			y := r.In(g.cfg.YearLo, g.cfg.YearHi)
			return Civil{y, v, pick(r, []int{1, r.In(1, daysIn(y, v)), daysIn(y, v)})}
		}
		if v, ok := g.hintNum(4, 1, 28); ok {
			return Civil{r.In(g.cfg.YearLo, g.cfg.YearHi), r.In(1, 12), v}
		}
		if v, ok := g.hintNum(4, 1, 2000000); ok && len(g.txs) > 0 {
			// so many days from another one
			if d := pick(r, g.txs).date.Days() + v*pick(r, []int{1, -1}); d > -700000 && d < 2900000 {
				return civilOfDays(d)
			}
		}
	}
	if g.cfg.YearLo < 1900 && r.P(12) {
		// where counts of days, seconds and so on begin or end
		return pick(r, []Civil{{1, 1, 1}, {1, 1, 1}, {1, 1, 2}, {9999, 12, 31}, {1970, 1, 1}, {1969, 12, 31}, {1901, 12, 13}, {1901, 12, 14}, {2038, 1, 19}, {2038, 1, 20}, {2106, 2, 7}, {1677, 9, 21}, {1677, 9, 22}, {2262, 4, 11}, {2262, 4, 12}, {1900, 2, 28}, {2100, 3, 1}, {1582, 10, 10}, {1752, 9, 3}})
	}
	y := r.In(g.cfg.YearLo, g.cfg.YearHi)
	m := r.In(1, 12)
	d := r.In(1, daysIn(y, m))
	switch r.N(8) {
	case 0:
		d = 1
	case 1:
		d = daysIn(y, m)
	case 2:
		m, d = 2, daysIn(y, 2)
	case 3:
		m, d = pick(r, []int{1, 12}), pick(r, []int{1, 31})
	}
	return Civil{y, m, d}
}

func (g *G) note() string {
	if g.r.P(2) {
		return pick(g.r, g.notes)
	}
	return g.text(6)
}

// tx makes a balanced transaction.
func (g *G) tx() gtx {
	r := g.r
	t := gtx{date: g.date()}
	if len(g.txs) > 0 && r.Pct(g.cfg.Cancel) {
		o := pick(r, g.txs)
		if !o.periodic {
			t.payee = pick(r, g.payees)
			for _, p := range o.posts {
				t.posts = append(t.posts, gpost{acct: p.acct, qty: -p.qty})
			}
			return t
		}
	}
	t.payee = pick(r, g.payees)
	n := pick(r, []int{1, 2, 2, 2, 2, 3, 3, 4, 6})
	if g.cfg.Many && r.P(3) {
		n = r.In(7, 25)
	}
	if g.cfg.Huge {
		n = min(n, 6)
	} else if r.P(600) {
		n = pick(r, []int{100, 127, 250, 253, 254, 255, 256, 257, 300, 511, 700, 1100})
	}
	if v, ok := g.hintNum(12, 2, 1200); ok && !g.cfg.Huge {
		n = v
	}
	if r.P(40) {
		return t // no postings at all
	}
	if g.cfg.Edge && !r.P(5) {
		// amounts and what undoes them, one of which may be left out
		for k := r.Small(1, 3); k > 0; k-- {
			q := g.qty()
			if q == math.MinInt64 {
				q++
			}
			t.posts = append(t.posts, gpost{acct: pick(r, g.accts), qty: q}, gpost{acct: pick(r, g.accts), qty: -q})
		}
		for i := len(t.posts) - 1; i > 0; i-- {
			j := r.N(i + 1)
			t.posts[i], t.posts[j] = t.posts[j], t.posts[i]
		}
		if r.P(2) {
			t.posts[r.N(len(t.posts))].el = true
		}
		return t
	}
	if g.cfg.Money && !r.P(4) {
		sum := pick(r, []int64{500, 1000, 1000, 1000, 2000, 3000, 1, 1001})
		p := gpost{acct: pick(r, []string{"Income", "Income:Salary", "Income:Gifts:Aunt"}), qty: -sum}
		if r.P(2) {
			p = gpost{acct: pick(r, []string{"Expenses:Food", "Expenses:Rent", "Expenses", "Expenses:Food:Out"}), qty: sum}
		}
		if r.P(8) {
			p.qty = -p.qty // a refund
		}
		t.posts = []gpost{p, {acct: "Assets:Cash", qty: -p.qty, el: r.P(2)}}
		if r.P(2) {
			t.posts[0], t.posts[1] = t.posts[1], t.posts[0]
		}
		return t
	}
	var sum int64
	for i := 0; i < n; i++ {
		p := gpost{acct: pick(r, g.accts), qty: g.qty()}
		if r.Pct(g.cfg.Periodic) {
			p.acct = pick(r, []string{"Expenses:Food", "Expenses:Rent", "Income", "Income:Salary", "Assets:Cash", "Expenses:Food:Out", "Expenses"})
		}
		sum += p.qty
		t.posts = append(t.posts, p)
	}
	switch {
	case r.P(2):
		k := r.N(n + 1)
		e := gpost{acct: pick(r, g.accts), qty: -sum, el: true}
		t.posts = append(t.posts[:k:k], append([]gpost{e}, t.posts[k:]...)...)
	default:
		if n == 1 {
			t.posts = append(t.posts, gpost{acct: pick(r, g.accts), qty: -sum})
		} else {
			t.posts[n-1].qty -= sum
		}
	}
	return t
}

func (g *G) periodic() gtx {
	r := g.r
	t := gtx{date: g.date(), periodic: true}
	t.date.D = 1
	n := r.In(0, 4)
	var sum int64
	for i := 0; i < n; i++ {
		a := pick(r, []string{"Food", "Rent", "Food:Out", "Travel", "Gifts", "Food:In:Home", "Zz"})
		if r.P(4) {
			a = strings.TrimPrefix(pick(r, g.accts), "Expenses:")
		}
		p := gpost{acct: a, qty: g.qty()}
		sum += p.qty
		t.posts = append(t.posts, p)
	}
	if r.P(5) && n > 0 {
		t.posts = append(t.posts, gpost{acct: "Rest", qty: -sum, el: true})
	}
	return t
}

func fmtQty(r *Rng, q int64, comm string) string {
	neg := q < 0
	u := uint64(q)
	if neg {
		u = uint64(-q)
	}
	s := fmt.Sprintf("%d.%02d", u/100, u%100)
	if u%100 == 0 && r.P(2) {
		s = fmt.Sprintf("%d", u/100)
	} else if u%10 == 0 && r.P(2) {
		s = s[:len(s)-1]
	}
	if r.P(40) {
		s = "0" + s
	}
	if neg {
		s = "-" + s
	} else if r.P(12) {
		s = "+" + s
	}
	return comm + s
}

// rareComm gives a commodity which is seldom thought of.
func (g *G) rareComm() string {
	r := g.r
	if r.P(2) {
		return pick(r, []string{"%d", "%", "Gutscheine", "zł", "₿", "C$", "Au.oz", "e", "E", "x", "0x"[1:], "Inf", "NaN", "ἀργύριον", "\"AAPL\"", "(", ":", "=", "@", "~", "*", "!", "/", ".", ",", "_", "'", "R$", "kr.", "Fr", "i", "İ", "ß"})
	}
	n := pick(r, []int{3, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 63, 64, 65, 127, 128, 129})
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(pick(r, []string{"a", "b", "C", "ö", "€", "z", ".", "_"}))
	}
	return b.String()
}

func (g *G) commodity() string {
	if g.cfg.Mixed && g.r.P(3) {
		return pick(g.r, []string{"", "$", "€", "£", "XBT "})
	}
	return g.comm
}

func (g *G) indent() string {
	if v, ok := g.hintNum(40, 2, 300); ok {
		return strings.Repeat(" ", v)
	}
	return pick(g.r, []string{"    ", "    ", "    ", "  ", "   ", "\t", "\t\t", "      ", "  \t"})
}

func (g *G) gap() string {
	if v, ok := g.hintNum(40, 2, 300); ok {
		return strings.Repeat(" ", v)
	}
	return pick(g.r, []string{"  ", "  ", "    ", "\t", "        ", " \t", "\t\t", "  \t "})
}

func (g *G) comment() string {
	r := g.r
	switch r.N(8) {
	case 0:
		return pick(r, []string{";", "#"})
	case 1:
		return ";" + strings.Repeat(" ", r.In(1, 4))
	case 2:
		return "; ; " + g.note()
	}
	return pick(r, []string{"; ", "; ", "; ", ";", ";", "# ", ";   ", ";;", "; # ", "##"}) + g.note() + pick(r, []string{"", "", "", "", " ", "   "})
}

// render writes the lines of a transaction.
func (g *G) render(t gtx) []string {
	r := g.r
	var ls []string
	if t.periodic {
		h := "~" + pick(r, []string{" ", " ", "  ", "\t"}) + fmt.Sprintf("%04d-%02d", t.date.Y, t.date.M) + pick(r, []string{"", "", "", " ", "  ", "  ; note", " # x"})
		ls = append(ls, h)
	} else {
		sep := pick(r, []string{"-", "-", "/", "."})
		h := fmt.Sprintf("%04d%s%02d%s%02d", t.date.Y, sep, t.date.M, sep, t.date.D)
		st := pick(r, []string{"", "", "* ", "! ", "*", "!  ", "*\t"})
		if st == "" && t.payee != "" && (t.payee[0] == '!' || t.payee[0] == '*') {
			st = "* "
		}
		if !(st == "" && t.payee == "" && r.P(2)) {
			h += pick(r, []string{" ", " ", " ", "  ", " \t"}) + st + t.payee
		}
		switch r.N(6) {
		case 0:
			h += pick(r, []string{"  ", "\t", "    ", "\t\t", " ", "\t "}) + pick(r, []string{";", "; ", ";   ", "#", ";;", "; ; ", ";#", "; #", "##", "# ;;; "}) + g.note()
		case 1:
			h += pick(r, []string{" ", "  ", "\t"})
		}
		ls = append(ls, h)
	}
	note := func(pct int) {
		burst := 0
		if g.cfg.Many && r.P(10) {
			burst = r.In(3, 12)
		}
		for burst > 0 || r.Pct(pct) {
			burst--
			switch r.N(10) {
			case 0:
				ls = append(ls, g.indent())
			case 1:
				ls = append(ls, pick(r, []string{";", "#"})+g.note())
			default:
				ls = append(ls, g.indent()+g.comment())
			}
		}
	}
	note(15)
	for _, p := range t.posts {
		l := g.indent() + p.acct
		if p.el {
			l += pick(r, []string{"", "", "", " ", "  ", "\t", "     "})
		} else {
			l += g.gap() + fmtQty(r, p.qty, g.commodity())
			l += pick(r, []string{"", "", "", "", "", " ", "  ", "\t", "  ; inline", " # inline", ";c"})
		}
		ls = append(ls, l)
		note(12)
	}
	return ls
}

func (g *G) filler() []string {
	r := g.r
	var ls []string
	for n := r.In(1, 3); n > 0; n-- {
		switch r.N(5) {
		case 0:
			ls = append(ls, "; "+g.note())
		case 1:
			ls = append(ls, "#"+g.note())
		case 2:
			ls = append(ls, "")
		case 3:
			ls = append(ls, "", g.indent()+"; "+g.note())
		case 4:
			ls = append(ls, "", "  ")
		}
		if r.P(20) {
			// what is no end of a line
			ls = append(ls, "; a"+pick(r, []string{"\v", "\f", "\u2028", "\u2029", "\u0085", "\x1a", "\x00", "\x1c", "\\n", "\\"})+pick(r, []string{"b", "", "2020-01-01 x", "include x", "\\"}))
		}
	}
	return ls
}

func (g *G) acct() string { return pick(g.r, g.accts) }

var allErrKinds = []string{"unbalanced", "elided2", "amount", "date", "outside", "nonletter", "line", "include-missing", "include-cycle", "include-bad", "include-dir", "include-noperm", "period", "directive"}

// amiss removes, adds or replaces a character.
func amiss(r *Rng, s, with string) string {
	rs := []rune(s)
	k := r.N(len(rs))
	c := pick(r, []rune(with))
	switch r.N(3) {
	case 0:
		return string(rs[:k]) + string(rs[k+1:])
	case 1:
		return string(rs[:k]) + string(c) + string(rs[k:])
	}
	rs[k] = c
	return string(rs)
}

// lasting is the number of any error but those which ask to try again.
func (r *Rng) lasting() int {
	for {
		if e := r.In(1, 133); e != 4 && e != 11 {
			return e
		}
	}
}

// badBlock makes lines which hold an error of the given kind.
func (g *G) badBlock(kind string, file string, ancestors []string) []string {
	r := g.r
	hdr := func() string { return fmt.Sprintf("%s %s%s", g.date(), pick(r, []string{"", "* ", "! "}), g.word()) }
	post := func(q int64) string { return g.indent() + g.acct() + g.gap() + fmtQty(r, q, g.comm) }
	switch kind {
	case "unbalanced":
		t := g.tx()
		for len(t.posts) == 0 {
			t = g.tx()
		}
		for i := range t.posts {
			t.posts[i].el = false
		}
		d := pick(r, []int64{1, -1, 10, 100, -100, 99})
		switch r.N(6) {
		case 0, 1:
			d = int64(r.In(1, 100000))
		case 2: // what a narrower number or a shifted one leaves nothing of
			d = int64(1) << r.In(1, 62) * pick(r, []int64{1, 1, -1, 3})
		case 3:
			d = 1
			for n := r.In(1, 17); n > 0; n-- {
				d *= 10
			}
			d *= pick(r, []int64{1, -1, 5})
		case 4: // a sign
			if q := t.posts[0].qty; q != 0 && q > -1<<60 && q < 1<<60 {
				t.posts[0].qty -= 2 * q
				d = 0
			}
		}
		if r.P(12) {
			t.posts = t.posts[:1]
			if t.posts[0].qty == 0 {
				t.posts[0].qty = d
			}
			d = 0
		}
		t.posts[r.N(len(t.posts))].qty += d
		return g.render(t)
	case "elided2":
		n := r.In(0, 3)
		if r.P(20) {
			n = pick(r, []int{100, 252, 253, 254, 255, 256, 257, 300, 510, 700})
		}
		ls := []string{hdr()}
		if n > 3 && r.P(2) { // the second near the end
			for ; n > 0; n-- {
				ls = append(ls, post(g.qty()))
			}
		}
		ls = append(ls, g.indent()+g.acct())
		for i := 0; i < n; i++ {
			ls = append(ls, post(g.qty()))
		}
		ls = append(ls, g.indent()+g.acct())
		if r.P(2) {
			ls = append(ls, post(g.qty()))
		}
		return ls
	case "amount":
		bad := pick(r, []string{"1.2.3", "--5", "5-", "1,000.00", "abc", "1.234", "5..", ".5", "5.", "1e5", "99999999999999999999", "9223372036854775807.99", "92233720368547758.08", "+-5", "5 5", "0x10", "1_000", "92233720368547758.1", "92233720368547759", "-92233720368547758.08", "184467440737095516.17", "184467440737095517", "5 GBP", "-", "+", "½", "٣", "1.٣"})
		if r.P(2) {
			bad = amiss(r, fmtQty(r, g.qty(), ""), "0 .,-+x5٣½ e_'")
		}
		return []string{hdr(), g.indent() + g.acct() + g.gap() + g.comm + bad, g.indent() + g.acct()}
	case "date":
		bad := pick(r, []string{"2020-13-01", "2020-02-30", "2019-02-29", "1900-02-29", "2020/01-01", "20200101", "2020", "2020-1-1", "202-01-01", "2020-00-10", "2020-01-00", "2020-04-31", "1", "2020-01-01x", "2020-01-01-01", "12020-01-01", "2020:01:01", "01/02/2020", "٢020-01-01"})
		if r.P(2) {
			bad = amiss(r, fmt.Sprintf("%04d%s%02d%[2]s%02d", r.In(1990, 2030), pick(r, []string{"/", "-", "."}), r.In(1, 12), r.In(1, 28)), "0193/-.:٣xT,")
		}
		return []string{bad + " " + g.word(), post(100), g.indent() + g.acct()}
	case "outside":
		return []string{"", post(g.qty())}
	case "nonletter":
		return []string{hdr(), g.indent() + pick(r, []string{"5 apples", "(Assets:Cash)  5", "[A]  5", "-A", "£5", "_x  1", "\"A\"  5", "=A"}), g.indent() + g.acct()}
	case "line":
		if g.hint(3) {
			if t := hints.word(r); !strings.ContainsAny(t[:1], "0123456789;#~ ") && !strings.HasPrefix(t, "include") {
				return []string{t + pick(r, []string{"", " x", " 2020-01-01", ": y"})}
			}
		}
		return []string{pick(r, []string{"Hello", " one space", "%c", "P 2020-01-01 X 5", "account Foo", "=auto", "{", "Include x", "\u00a0x", ")",
			"\x1a", "\x00", "\f", "\v", "\x04", "\x1a\x1a", "\x7f", "\ufeff", "\u2028", ".", "..", "--", "---", "+", "=", "!", "!include x", "@include x", "$", "%", "*", "* Heading", "//", "/*", "'", "\"", "|", "EOF", "END", "__END__", "end", "comment", "end comment", "test", "apply account x", "alias a=b", "bucket A", "A Assets", "D 1.00", "D $1.00", "N $", "Y2020", "Y 2020", "y", "year 2020", "C 1 = 2", "payee Foo", "commodity $", "tag x", "define x=1", "assert 1", "check 1", "eval 1", "python", "~~~", "http://x", "<x>", "[x]", "^", "&", "\\", "decimal-mark .", "Assets:Cash  5", "a", "\xff", "\xc3"})}
	case "include-missing":
		if r.P(2) { // named nearly as a file which is there
			t := pick(r, g.paths)
			switch r.N(6) {
			case 5: // or beside another one
				return []string{"include " + path.Base(t)}
			case 0:
				return []string{"include nodir/" + path.Base(t)}
			case 1:
				return []string{"include /nodir/" + path.Base(t)}
			case 2:
				if g.hint(2) {
					return []string{"include " + g.spell(file, t) + hints.word(r)}
				}
				return []string{"include " + g.spell(file, t) + pick(r, []string{"x", ".journal", "~", ".j", "-", ".bak"})}
			case 3:
				return []string{"include " + g.spell(file, strings.TrimSuffix(t, path.Ext(t))+pick(r, []string{".jrnl", "", ".JOURNAL", ".txt"}))}
			case 4:
				return []string{"include " + g.spell(file, path.Dir(t)+"/"+pick(r, []string{"_", "0", "a", "."})+path.Base(t))}
			}
		}
		return []string{"include " + pick(r, []string{"nosuch.journal", "../nosuch", "/no/such/file", "missing dir/x.j"})}
	case "include-cycle":
		t := pick(r, append(ancestors, file))
		return []string{"include " + g.spell(file, t)}
	case "include-bad":
		return []string{pick(r, []string{"include", "include ", "include   ", "include ;x", "include\tx", "include # x"})}
	case "include-dir":
		return []string{"include " + g.spell(file, "/sim/adir")}
	case "include-noperm":
		return []string{"include " + g.spell(file, "/sim/secret.journal")}
	case "period":
		return []string{pick(r, []string{"~2020-01", "~", "~;x"})}
	case "directive":
		return []string{pick(r, []string{"includes x.journal", "i", "import foo", "include: x", "if"})}
	}
	panic(kind)
}

// spell names target in a file at from.
func (g *G) spell(from, target string) string {
	r := g.r
	if g.cfg.PlainPaths {
		rel, _ := relPath(path.Dir(from), target)
		return rel
	}
	rel, _ := relPath(path.Dir(from), target)
	switch r.N(8) {
	case 0:
		return target
	case 1:
		return "./" + rel
	case 2:
		return "x/../" + rel
	case 3:
		if r.P(3) {
			return strings.Replace(target, "/", "//", 1)
		}
	}
	return rel
}

func relPath(dir, target string) (string, error) {
	d := strings.Split(strings.Trim(dir, "/"), "/")
	t := strings.Split(strings.Trim(target, "/"), "/")
	if dir == "/" {
		d = nil
	}
	i := 0
	for i < len(d) && i < len(t)-1 && d[i] == t[i] {
		i++
	}
	var out []string
	for k := i; k < len(d); k++ {
		out = append(out, "..")
	}
	return strings.Join(append(out, t[i:]...), "/"), nil
}

// world makes a journal: a tree of files with transactions in them.
func (g *G) world() *World {
	r := g.r
	w := &World{}
	dirs := []string{"/sim", "/sim", "/sim", "/sim/sub", "/sim/sub/deep", "/data", "/sim/My Files"}
	if r.P(6) {
		dirs = append(dirs, "/sim/~", "/sim/$HOME", "/sim/sub/*", "/data/[a-c]", "/sim/sub/..x", "/sim/a:b", "/sim/~me", `/sim/"`)
	}
	if g.cfg.PlainPaths {
		dirs = []string{"/sim"}
	}
	n := r.In(g.cfg.MinFiles, max(g.cfg.MinFiles, g.cfg.MaxFiles))
	if g.cfg.Deep > 0 {
		n = g.cfg.Deep
	}
	if v, ok := g.hintNum(12, 2, 200); ok {
		if n = v; r.P(2) && n > 5 {
			g.cfg.Deep, g.cfg.MinTx, g.cfg.MaxTx = n, 0, 2
		}
	}
	names := map[string]bool{}
	var paths []string
	for i := 0; i < n; i++ {
		for try := 0; ; try++ {
			base := pick(r, []string{"main", "2020", "b", "budget", "März", "a b", "inc", "x", "main", "2021", "j$x", "a%20b", "~", "[x]", "it's", "a&b", "-j", "*", "a+b", "${HOME}", "%s", "-", "--", "stdin", "@x", "=x"}) + pick(r, []string{".journal", ".j", "", ".ledger"})
			if r.P(25) {
				base = pick(r, []string{`"q"`, "'q'", "<q>", "(q)", "`q`", "q,r", "q:r", "q|r", "q\\r", "!q", "@q", "=q", "-", "--", "--q", "q=r", "%2e", "q\u00a0r", "{q,r}", "?", "q*", "$q", "^q", "file:q", "http:q", "q\u200br", ".q", "..q", "q.gz", "q.json", "q.csv"})
			}
			if g.hinted && len(hints.Names) > 0 && r.P(3) {
				base = pick(r, []string{"q", "", "main", "2020"}) + pick(r, hints.Names) + pick(r, []string{"", "", ".journal", "x"})
			}
			if i == 0 && r.P(15) {
				// what no include line can name, but a flag can
				base = pick(r, []string{"q ", " q", " q ", "q#r", "#q", "q;r", "q  r", "q\tr", "\tq", ";q"})
			}
			if try > 3 || n > 12 {
				base = fmt.Sprintf("f%d.j", i)
			}
			p := path.Join(pick(r, dirs), base)
			clash := names[p] || p == "/sim" || p == "/data" || strings.Count(p, "/") < 2
			for q := range names {
				if strings.HasPrefix(q, p+"/") || strings.HasPrefix(p, q+"/") {
					clash = true
				}
			}
			if !clash && p != "/sim/adir" && p != "/sim/sub" && p != "/sim/My Files" {
				names[p] = true
				paths = append(paths, p)
				break
			}
		}
	}
	g.paths = paths
	parent := make([]int, n)
	for i := 1; i < n; i++ {
		parent[i] = r.N(i)
		if g.cfg.Deep > 0 || r.P(4) {
			parent[i] = i - 1
		}
	}
	type incl struct{ in, what int }
	var incls []incl
	for i := 1; i < n; i++ {
		incls = append(incls, incl{parent[i], i})
		if r.Pct(g.cfg.Diamonds) && len(incls) < 12 {
			incls = append(incls, incl{r.N(i), i})
		}
	}
	// a leaf may be included once more by another name of it
	alias := map[int]string{}
	if g.cfg.Errors == 0 && n > 1 && g.cfg.Deep == 0 && r.P(12) {
		i := n - 1 // which includes nothing
		alias[len(incls)] = path.Join(path.Dir(paths[i]), "again.j")
		incls = append(incls, incl{r.N(i), i})
	}
	for i := 0; i < n; i++ {
		blocks := [][]string{}
		ntx := r.In(g.cfg.MinTx, max(g.cfg.MinTx, g.cfg.MaxTx))
		if n > 3 {
			ntx = r.In(min(g.cfg.MinTx, 3), max(1, g.cfg.MaxTx/2))
		}
		if v, ok := g.hintNum(12, 2, 2000); ok && n < 20 {
			ntx = v
			for _, a := range g.accts {
				if strings.Count(a, ":") > 20 {
					ntx = min(ntx, 200)
				}
			}
		}
		for k := 0; k < ntx; k++ {
			var t gtx
			if r.Pct(g.cfg.Periodic) {
				t = g.periodic()
			} else {
				t = g.tx()
			}
			g.txs = append(g.txs, t)
			ls := g.render(t)
			if !r.P(5) {
				ls = append(ls, "")
			}
			blocks = append(blocks, ls)
		}
		if g.cfg.Settle && i == n-1 {
			for _, t := range g.settle() {
				g.txs = append(g.txs, t)
				blocks = append(blocks, append(g.render(t), ""))
			}
		}
		for r.P(3) {
			k := r.N(len(blocks) + 1)
			blocks = append(blocks[:k:k], append([][]string{g.filler()}, blocks[k:]...)...)
		}
		for j, in := range incls {
			if in.in != i {
				continue
			}
			what := paths[in.what]
			if alias[j] != "" {
				what = alias[j]
			}
			k := r.N(len(blocks) + 1)
			b := []string{"include" + pick(r, []string{" ", " ", " ", "  ", " \t"}) + g.spell(paths[i], what) + pick(r, []string{"", "", "", "", " ", "  ", "  ; note", "\t# x"})}
			if r.P(2) {
				b = append(b, "")
			}
			if k > 0 && r.P(3) {
				// directly below an open transaction
				prev := blocks[k-1]
				if len(prev) > 1 && prev[len(prev)-1] == "" {
					blocks[k-1] = prev[:len(prev)-1]
				}
			}
			blocks = append(blocks[:k:k], append([][]string{b}, blocks[k:]...)...)
		}
		w.Files = append(w.Files, g.file(paths[i], blocks))
	}
	for e := 0; e < g.cfg.Errors; e++ {
		i := r.N(n)
		f := &w.Files[i]
		kinds := g.cfg.ErrKinds
		if kinds == nil {
			kinds = allErrKinds
		}
		kind := pick(r, kinds)
		var anc []string
		for k := i; ; k = parent[k] {
			anc = append(anc, paths[k])
			if k == 0 {
				break
			}
		}
		ls := g.badBlock(kind, paths[i], anc)
		if r.P(2) {
			ls = append(ls, "")
		}
		switch kind {
		case "include-dir":
			if w.Find("/sim/adir") == nil {
				w.Files = append(w.Files, File{Path: "/sim/adir", Dir: true})
				f = &w.Files[i]
			}
		case "include-noperm":
			if w.Find("/sim/secret.journal") == nil {
				w.Files = append(w.Files, File{Path: "/sim/secret.journal", NoPerm: true, Blocks: []Bytes{Bytes("2020-01-01 x\n  Assets:Cash  1\n  Income\n")}})
				f = &w.Files[i]
			}
		}
		b := Bytes(strings.Join(ls, "\n") + "\n")
		k := r.N(len(f.Blocks) + 1)
		if k == len(f.Blocks) && k > 0 {
			last := f.Blocks[k-1]
			if len(last) > 0 && last[len(last)-1] != '\n' {
				f.Blocks[k-1] = append(append(Bytes(nil), last...), '\n')
			}
			if r.P(2) {
				b = b[:len(b)-1]
			}
		}
		f.Blocks = append(f.Blocks[:k:k], append([]Bytes{b}, f.Blocks[k:]...)...)
	}
	if r.P(12) {
		w.Files[r.N(n)].Pipe = true
	}
	if r.P(12) {
		w.Files[r.N(n)].Sym = true
	}
	for _, a := range alias {
		w.Files = append(w.Files, File{Path: a, Link: paths[n-1]})
	}
	g.decoys(w, paths)
	if _, ok := g.hintNum(20, 20, 20<<20); ok || g.cfg.Pad > 0 && r.P(g.cfg.Pad) {
		g.pad(&w.Files[r.N(n)])
	}
	root := paths[0]
	if !g.cfg.PlainPaths && r.P(3) {
		w.Root = g.spell("/sim/x", root)
	} else if strings.HasPrefix(root, "/sim/") {
		w.Root = root[5:]
	} else {
		w.Root = root
	}
	return w
}

// decoys adds files which nothing names, but which the names of others might be
// taken for: as patterns, with variables replaced, in the home directory.
func (g *G) decoys(w *World, paths []string) {
	r := g.r
	var names []string
	for _, p := range paths {
		dir, base := path.Split(p)
		for _, s := range [][2]string{{"[x]", "x"}, {"*", ""}, {"*", "aa"}, {"a+b", "aab"}, {"~", "/sim"}, {"${HOME}", "/sim"}, {"j$x", "j"}, {"a%20b", "a b"}, {"%s", "s"}, {"-j", ""}, {"a b", "a"}, {"a b", "b"}, {"a&b", "a"}, {"it's", "its"}} {
			if !strings.HasPrefix(base, s[0]) || !r.P(2) {
				continue
			}
			d := s[1] + base[len(s[0]):]
			if !strings.HasPrefix(d, "/") {
				d = dir + d
			}
			names = append(names, d)
		}
		if r.P(30) {
			names = append(names, dir+pick(r, []string{strings.ToUpper(base), base + "~", base + ".bak", "." + base, "#" + base + "#", base + ".new", base + ".gz", base + ".lock", "._" + base, base + ".swp"}))
		}
	}
	if g.hinted && len(hints.Names) > 0 && r.P(2) {
		// what the program may look for by a name of its own
		for n := r.Small(1, 4); n > 0; n-- {
			p := pick(r, paths)
			dir, base := path.Split(p)
			t := pick(r, hints.Names)
			names = append(names, pick(r, []string{dir + t, base + t, dir + base + t, dir + t + base, strings.TrimSuffix(p, path.Ext(p)) + t, "/sim/" + t, "/home/me/" + t, "/" + strings.TrimLeft(t, "/"), "/etc/" + t, "/sim/.config/gledger/" + t}))
		}
	}
	for _, p := range paths {
		if t := strings.Trim(path.Base(p), "\"'`<>() \t\n"); t != path.Base(p) && r.P(2) {
			names = append(names, path.Join(path.Dir(p), t))
		}
		if k := strings.IndexAny(path.Base(p), "#; :,|\\"); k > 0 && r.P(2) {
			names = append(names, path.Join(path.Dir(p), path.Base(p)[:k]))
		}
		if strings.HasPrefix(p, "/sim/~/") || strings.HasPrefix(p, "/sim/$HOME/") {
			names = append(names, "/sim/"+path.Base(p))
		}

	}
	if r.P(20) {
		for n := r.Small(1, 4); n > 0; n-- {
			names = append(names, pick(r, []string{"/sim/.ledger", "/sim/.ledgerrc", "/sim/.gledger", "/sim/.gledgerrc", "/sim/.hledger.journal", "/sim/ledger.journal", "/sim/main.journal.d/x.journal", "/home/me/.ledger", "/home/me/.gledger", "/sim/.config/gledger/config", "/data/.ledger", "/sim/.env", "/etc/gledger.conf", "/sim/journal.journal"}))
		}
	}
	for _, d := range names {
		clash := d != path.Clean(d) || !strings.HasPrefix(d, "/") || len(strings.Split(d, "/")) < 3
		for i := range w.Files {
			q := w.Files[i].Path
			clash = clash || q == d || strings.HasPrefix(q, d+"/") || strings.HasPrefix(d, q+"/")
		}
		if !clash {
			w.Files = append(w.Files, File{Path: d, Blocks: []Bytes{Bytes(pick(r, []string{"2001-02-03 Decoy\n  Decoy:Assets  123\n  Decoy\n", "--begin 2015\n", "2001-02-03 Decoy\n  Decoy  1\n", "LEDGER_FILE=/sim/decoy.journal\n"}))}})
		}
	}
}

// settle gives the transactions which undo all of those so far, or all but one.
func (g *G) settle() []gtx {
	r := g.r
	var out []gtx
	for _, o := range g.txs {
		if o.periodic {
			continue
		}
		t := gtx{date: g.date(), payee: pick(r, g.payees)}
		for _, p := range o.posts {
			t.posts = append(t.posts, gpost{acct: p.acct, qty: -p.qty})
		}
		if len(t.posts) > 0 && r.P(3) {
			t.posts[r.N(len(t.posts))].el = true
		}
		out = append(out, t)
	}
	for i := len(out) - 1; i > 0; i-- {
		j := r.N(i + 1)
		out[i], out[j] = out[j], out[i]
	}
	if len(out) > 0 && r.P(3) {
		out = out[1:]
	}
	return out
}

// pad puts a stretch without meaning between two blocks of a file: so many
// lines or bytes that counters and buffers of usual sizes do not hold them.
func (g *G) pad(f *File) {
	r := g.r
	var b []byte
	if v, ok := g.hintNum(1, 20, 20<<20); ok {
		l := 1
		if v > 300000 || r.P(2) {
			l = r.In(60, 3000)
			if l > v || r.P(3) {
				l = v
			}
			if r.P(2) {
				v /= l // so many bytes, not lines
			} else {
				v = min(v, (20<<20)/l)
			}
		}
		b = bytes.Repeat(append(bytes.Repeat([]byte(";"), l-1), '\n'), max(v, 1))
	}
	k := r.N(4)
	if b != nil {
		k = -1
	}
	switch k {
	case 0, 1:
		b = bytes.Repeat([]byte("\n"), pick(r, []int{255, 256, 32767, 65535, 65536, 100000})+r.N(3))
	case 2: // one line
		if r.P(4) {
			b = append(bytes.Repeat([]byte("; ends of files at powers of two\n"), 1<<19), bytes.Repeat([]byte("\n"), r.In(1, 100))...)
			break
		}
		b = append(bytes.Repeat([]byte(";"), pick(r, []int{131072, 262144, 1 << 20, 2 << 20, 5 << 20})+r.In(-3, 3)), '\n')
	case 3: // many lines
		l := append(bytes.Repeat([]byte(";"), r.In(60, 3000)), '\n')
		b = bytes.Repeat(l, (pick(r, []int{131072, 1 << 20, 2 << 20, 5 << 20})+len(l))/len(l))
	}
	k = 0
	if len(f.Blocks) > 0 {
		k = r.N(len(f.Blocks))
	}
	f.Blocks = append(f.Blocks[:k:k], append([]Bytes{b}, f.Blocks[k:]...)...)
}

// file joins blocks of lines.
func (g *G) file(p string, blocks [][]string) File {
	r := g.r
	nl := "\n"
	if !g.cfg.NoCRLF && r.P(10) {
		nl = "\r\n"
	}
	mixed := nl != "\n" && r.P(3)
	f := File{Path: p}
	for _, b := range blocks {
		t := strings.Join(b, nl) + nl
		if mixed {
			// line endings of both kinds
			ls := strings.SplitAfter(t, "\r\n")
			for i := range ls {
				if r.P(2) {
					ls[i] = strings.Replace(ls[i], "\r\n", "\n", 1)
				}
			}
			t = strings.Join(ls, "")
		}
		f.Blocks = append(f.Blocks, Bytes(t))
	}
	if k := len(f.Blocks); k > 0 && r.P(5) {
		b := f.Blocks[k-1]
		f.Blocks[k-1] = Bytes(strings.TrimSuffix(strings.TrimSuffix(string(b), "\n"), "\r"))
	}
	return f
}

// ---- queries ----

var quoteRE = strings.NewReplacer("\\", "\\\\", "(", "\\(", ")", "\\)", "[", "\\[", "]", "\\]", "+", "\\+", "*", "\\*", "?", "\\?", "^", "\\^", "$", "\\$", "|", "\\|", "{", "\\{", "}", "\\}")

func runesSub(r *Rng, s string) string {
	rs := []rune(s)
	if len(rs) == 0 {
		return "e"
	}
	if len(rs) > 60 {
		rs = rs[:60]
	}
	i := r.N(len(rs))
	j := r.In(i+1, min(len(rs), i+12))
	return string(rs[i:j])
}

func (g *G) pattern(s string) string {
	r := g.r
	if g.hint(6) {
		return quoteRE.Replace(hints.word(r))
	}
	if len(s) > 200 {
		s = string([]rune(s)[:min(60, utf8.RuneCountInString(s))])
	}
	sub := runesSub(r, s)
	switch r.N(9) {
	case 0:
		return quoteRE.Replace(strings.ToLower(sub))
	case 1:
		if i := strings.IndexByte(s, ':'); i > 0 && r.P(3) {
			s = s[i+1:] // which is not where it starts
		}
		return "^" + quoteRE.Replace(s)
	case 2:
		if i := strings.LastIndexByte(s, ':'); i > 0 && r.P(3) {
			s = s[:i] // which is not where it ends
		}
		return quoteRE.Replace(s) + "$"
	case 3:
		return quoteRE.Replace(sub) + "|" + quoteRE.Replace(runesSub(r, s))
	case 4:
		return pick(r, []string{".", "a", "e.*s", "[A-F]", "zzz", "^$", "ss", "o+", "Cash", "Food|Rent"})
	case 5:
		return strings.ToUpper(quoteRE.Replace(sub))
	case 6: // escapes, of which some have an upper-case letter
		if rs := []rune(sub); r.P(2) {
			if r.P(2) {
				rs = []rune(strings.ToLower(sub))
			}
			k := r.N(len(rs))
			class := "\\S"
			switch {
			case rs[k] == ' ':
				class = pick(r, []string{"\\s", "\\W", "\\D", "[[:space:]]", "\\x20"})
			case rs[k] < 128 && unicode.IsLetter(rs[k]):
				class = pick(r, []string{"\\S", "\\D", "\\w", "\\pL", "\\p{L}", "[[:alpha:]]", "[^0-9]", ".", "\\B."})
			}
			return quoteRE.Replace(string(rs[:k])) + class + quoteRE.Replace(string(rs[k+1:]))
		}
	}
	return quoteRE.Replace(sub)
}

func (g *G) filter() string {
	r := g.r
	var f string
	switch r.N(5) {
	case 0, 1:
		f = g.pattern(g.acct())
	case 2:
		f = "@" + g.pattern(pick(r, g.payees))
	case 3:
		f = "=" + g.pattern(pick(r, g.notes))
	case 4:
		if len(g.txs) > 0 {
			t := pick(r, g.txs)
			if len(t.posts) > 0 {
				f = g.pattern(pick(r, t.posts).acct)
				break
			}
		}
		f = g.pattern(g.acct())
	}
	if f == "" || f[0] == '-' || strings.HasPrefix(f, "(?") {
		f = "." + f
	}
	if _, err := compileFilter(f); err != nil {
		return "."
	}
	return f
}

// dateArg spells a date near those of the journal.
func (g *G) dateArg(today Civil) string {
	r := g.r
	d := today
	if len(g.txs) > 0 && !r.P(4) {
		d = pick(r, g.txs).date
	}
	d = civilOfDays(d.Days() + pick(r, []int{0, 0, 1, -1, 31, -31}))
	if d.Y < 1 {
		d.Y = 1970
	}
	sep := pick(r, []string{"/", "-", "."})
	switch r.N(6) {
	case 0:
		return fmt.Sprintf("%04d", d.Y)
	case 1:
		return fmt.Sprintf("%04d%s%02d", d.Y, sep, d.M)
	case 2:
		return fmt.Sprintf("%02d%s%02d", d.M, sep, d.D)
	}
	return fmt.Sprintf("%04d%s%02d%s%02d", d.Y, sep, d.M, sep, d.D)
}

type QCfg struct {
	Cmds    []string
	Filters int // percent
	Dates   int
	Current int
}

var allCmds = []string{"balance", "balance", "balance", "print", "print", "accounts", "payees", "statistics", "budget"}

var aliases = map[string][]string{"balance": {"bal", "b"}, "print": {"print"}, "accounts": {"acc", "a"}, "payees": {"pay"}, "statistics": {"stats", "s"}, "budget": {"bud", "B"}}

func (g *G) query(c QCfg, today Civil) (q Query) {
	r := g.r
	cmds := c.Cmds
	if cmds == nil {
		cmds = allCmds
	}
	q = Query{Cmd: pick(r, cmds), Short: r.P(12)}
	defer func() {
		if q.Short && r.P(2) {
			q.Cmd = pick(r, aliases[q.Cmd])
		}
	}()
	if q.Cmd == "balance" {
		q.Flat = r.P(3)
		q.Zero = r.P(3)
		q.Collapse = r.P(4)
	}
	if r.Pct(c.Filters) {
		n := r.Small(1, 4)
		if v, ok := g.hintNum(8, 2, 60); ok {
			n = v
		}
		for ; n > 0; n-- {
			q.Filters = append(q.Filters, g.filter())
		}
	}
	if r.Pct(c.Dates) {
		if !r.P(3) {
			q.Begin = g.dateArg(today)
		}
		if !r.P(3) {
			q.End = g.dateArg(today)
		}
	}
	if r.Pct(c.Current) {
		q.Current = true
	}
	return q
}

// ---- environments ----

var zones = []string{"UTC", "", "Europe/London", "America/New_York", "Asia/Kolkata", "Pacific/Apia", "Pacific/Kiritimati", "America/St_Johns", "Australia/Lord_Howe", "Asia/Tokyo", "Pacific/Pago_Pago", "Africa/Casablanca", "America/Sao_Paulo", "Asia/Kathmandu", "Nowhere/Land", "America/Havana", "Asia/Beirut", "Asia/Tehran"}

// run makes an environment which a correct program works in.
func genRun(r *Rng) Run {
	x := Run{TZ: pick(r, zones), FdLimit: 256, Budget: 2000000, MapSeed: r.U()}
	switch r.N(5) {
	case 0:
		x.Now = int64(r.N(4102444800))
	case 1:
		x.Now = 1583020800 + int64(r.In(-5, 5))*86400 // around a leap day
	default:
		x.Now = 1577836800 + int64(r.N(40*365*86400/4))
	}
	switch r.N(4) {
	case 0:
		x.Now -= x.Now % 86400
	case 1:
		x.Now -= x.Now%86400 + 1
	}
	if x.Now < 0 {
		x.Now = 1
	}
	x.Nsec = int64(r.N(1000000000))
	if hints != nil && r.P(2) {
		x.Vars = hints.vars(r)
		if len(hints.Nums) > 0 && r.P(3) {
			if v, ok := hints.num(r, 1971, 2090); ok && r.P(2) {
				x.Now = timeDate(int(v), r.In(1, 12), r.In(1, 28), time.UTC) + int64(r.N(86400))
			} else if v, ok := hints.num(r, 10000, 4102444800); ok {
				x.Now = v + int64(r.In(-90000, 90000))
			} else if v, ok := hints.num(r, 0, 60); ok {
				x.Now -= x.Now % 86400
				x.Now += pick(r, []int64{v % 24 * 3600, v % 60 * 60, v}) // in UTC
			}
			x.Now = max(x.Now, 1)
		}
	}
	if r.P(4) {
		x.Env = r.U() | 1
	}
	if r.P(4) {
		x.TZForm = r.In(1, 5)
	}
	if r.P(2) {
		x.LatOpen, x.LatRead, x.LatWrite = int64(r.N(2000000)), int64(r.N(200000)), int64(r.N(100000))
	}
	return x
}

// perturb adds delivery conditions which must not change any report.
func perturb(r *Rng, x *Run, w *World) {
	size := 0
	for i := range w.Files {
		for _, b := range w.Files[i].Blocks {
			size += len(b)
		}
	}
	switch r.N(4) {
	case 0:
		x.RMode, x.RK = 1, pick(r, []int{1, 2, 3, 5, 7, 16, 64, 100, 1000, 4095, 4096, 4097})
	case 1:
		x.RMode, x.RK, x.RSeed = 2, pick(r, []int{2, 5, 20, 100, 1000, 5000}), r.U()
	}
	if hints != nil && len(hints.Nums) > 0 && x.RMode != 0 && r.P(4) {
		if v, ok := hints.num(r, 4, 1<<20); ok {
			x.RK = int(v)
		}
	}
	if x.RMode != 0 && size/x.RK > 700 {
		x.RK = size/700 + 1
	}
	if r.P(3) {
		for n := r.Small(1, 4); n > 0; n-- {
			f := Fault{Op: pick(r, []int{opOpen, opRead, opRead, opRead}), N: r.Small(1, 12), Errno: 4}
			if f.Op == opRead && r.P(2) {
				f.Errno, f.Cap = 0, r.In(1, 40)
			}
			if hints != nil && len(hints.Nums) > 0 && r.P(4) {
				if v, ok := hints.num(r, 2, 3000); ok {
					f.N = int(v)
				}
			}
			if r.P(2) {
				f.Path = pick(r, w.Files).Path
				f.N = r.Small(1, 4)
			}
			x.Faults = append(x.Faults, f)
		}
	}
	if r.P(12) {
		x.Faults = append(x.Faults, Fault{Op: opClose, N: r.Small(1, 3), Errno: pick(r, []int{5, 28, 122, r.lasting()})})
	}
	if r.P(4) {
		x.WMode, x.WK, x.WSeed = 1+r.N(2), pick(r, []int{1, 3, 10, 100, 1000, 4000}), r.U()
		if size/x.WK > 300 {
			x.WK = size/300 + 1
		}
	}
	if r.P(8) {
		x.Edits = append(x.Edits, Edit{Step: r.In(1, 12), Kind: edStall, Num: int64(r.In(1, 3600)) * 1000000000})
	}
	if r.P(10) {
		x.UseEnv = true
	}
}

// generate makes case i. Inclusions can multiply what a journal comes to, and
// a run that reads hundreds of megabytes exhausts its time with nothing
// wrong: such a case is drawn again.
func (p *Prop) generate(bin string, seed uint64, i int) *Case {
	r := NewRng(caseSeed(seed, p.ID, i))
	for try := 0; ; try++ {
		c := p.tryGen(bin, r)
		if c != nil && (try > 20 || readable(c)) {
			return c
		}
		if try > 100 {
			harnessFail("no case can be made")
		}
	}
}

func (p *Prop) tryGen(bin string, r *Rng) (c *Case) {
	defer func() {
		if e := recover(); e != nil {
			mishap("the generator", e)
			c = nil
		}
	}()
	return p.Gen(bin, r)
}

func readable(c *Case) bool {
	limit := 6 << 20
	for _, r := range c.Runs {
		if r.RMode != 0 || r.WMode != 0 {
			limit = 1 << 20
		}
	}
	return expanded(&c.World, limit) <= limit
}

// expanded is how many bytes reading the whole journal delivers, or more than
// limit if it is more than that.
func expanded(w *World, limit int) int {
	open := map[string]bool{}
	total, files := 0, 0
	var walk func(arg string)
	walk = func(arg string) {
		clean := cleanPath(arg)
		f := w.Find(clean)
		if f != nil && f.Link != "" {
			f = w.Find(f.Link)
		}
		files++
		if f == nil || open[clean] || total > limit || files > 100000 {
			return
		}
		open[clean] = true
		defer delete(open, clean)
		b := f.Content()
		total += len(b)
		for _, l := range bytes.Split(b, []byte("\n")) {
			if t, ok := bytes.CutPrefix(bytes.TrimSpace(l), []byte("include ")); ok {
				name := strings.TrimSpace(string(t))
				if !strings.HasPrefix(name, "/") {
					name = path.Join(path.Dir(arg), name)
				}
				walk(name)
			}
		}
	}
	walk(w.Root)
	return total
}

var oddDayCache sync.Map

// oddDays gives the days since 1970 which do not begin at midnight in a time
// zone, or which it skipped.
func oddDays(tz string) []int {
	if v, ok := oddDayCache.Load(tz); ok {
		return v.([]int)
	}
	l := location(tz)
	var out []int
	for d := 0; d < 25000; d++ {
		c := civilOfDays(d)
		t := time.Date(c.Y, time.Month(c.M), c.D, 0, 0, 0, 0, l)
		if t.Hour() != 0 || t.Day() != c.D {
			out = append(out, d)
		}
	}
	oddDayCache.Store(tz, out)
	return out
}
