package main

// The ways of saying the same thing on a command line. A run's Args are its
// plain form, which is what it is judged by; Spell picks another form of it.

import (
	"fmt"
	"strings"
)

// spelled writes args and the name of the journal in one of their forms, and
// gives the value of LEDGER_FILE ("" and false: not set).
func spelled(seed uint64, args []string, root string) (argv []string, env string, set bool) {
	r := NewRng(seed)
	q := parseArgs(args)
	var before, after [][]string // of the command: each element is kept together
	put := func(global bool, words ...string) {
		if global && r.P(3) {
			before = append(before, words)
		} else {
			k := r.N(len(after) + 1)
			after = append(after[:k:k], append([][]string{words}, after[k:]...)...)
		}
	}
	// filters keep their order; flags go anywhere among them
	for _, f := range q.Filters {
		after = append(after, []string{f})
	}
	text := func(long, short, v string, global bool) {
		switch {
		case r.P(3):
			put(global, "--"+long+"="+v)
		case r.P(2):
			put(global, "--"+long, v)
		case r.P(3) && v != "" && v[0] != '=':
			put(global, "-"+short+v)
		case r.P(2):
			put(global, "-"+short+"="+v)
		default:
			put(global, "-"+short, v)
		}
	}
	together := ""
	onoff := func(long, short string, on, global bool) {
		switch {
		case !on:
			if r.P(4) {
				put(global, "--"+long+"="+pick(r, []string{"false", "0", "f"}))
			}
		case r.P(3):
			put(global, "--"+long)
		case r.P(3):
			put(global, "--"+long+"="+pick(r, []string{"true", "1", "T"}))
		case r.P(2) && !global:
			together += short
		default:
			put(global, "-"+short)
		}
	}
	if canonical(q.Cmd) == "balance" || q.Flat || q.Collapse || q.Zero {
		onoff("flatten", "F", q.Flat, false)
		onoff("collapse", "C", q.Collapse, false)
		onoff("show-zero", "Z", q.Zero, false)
		if together != "" {
			put(false, "-"+together)
		}
	}
	onoff("current", "c", q.Current, true)
	if q.Bad != "" {
		put(false, q.Bad)
	}
	if q.Begin != "" {
		text("begin", "b", respell(r, q.Begin), true)
	}
	if q.End != "" {
		text("end", "e", respell(r, q.End), true)
	}
	if root != "" {
		if r.P(4) {
			env, set = root, true
		} else {
			text("file", "f", root, !strings.HasPrefix(root, "-"))
			if r.P(3) {
				env, set = pick(r, []string{"", "nosuch.journal", "/sim/decoy.journal"}), true
			}
		}
	}
	if root == "" && r.P(3) {
		set = true // to nothing
	}
	for _, w := range before {
		argv = append(argv, w...)
	}
	cmd := q.Cmd
	if as := aliases[canonical(cmd)]; as != nil && r.P(2) {
		cmd = pick(r, append([]string{canonical(cmd)}, as...))
	}
	argv = append(argv, cmd)
	dash := false
	for i, w := range after {
		// from here on there are filters only
		if !dash && r.P(3) {
			dash = true
			for _, v := range after[i:] {
				dash = dash && len(v) == 1 && !strings.HasPrefix(v[0], "-")
			}
			if dash {
				argv = append(argv, "--")
			}
		}
		argv = append(argv, w...)
	}
	return argv, env, set
}

// respell writes a date in another of its forms.
func respell(r *Rng, s string) string {
	sep := pick(r, []string{"/", "-", "."})
	one := strings.NewReplacer("/", "-", ".", "-").Replace(s)
	if _, ok := smartDate(s, Civil{2020, 1, 1}); !ok {
		return s
	}
	p := strings.Split(one, "-")
	if len(p) == 2 && len(p[0]) == 2 {
		return p[0] + sep + p[1]
	}
	for len(p) < 3 {
		p = append(p, "01")
	}
	if p[2] == "01" && r.P(2) {
		p = p[:2]
		if p[1] == "01" && r.P(2) {
			p = p[:1]
		}
	}
	return strings.Join(p, sep)
}

// badArgs spoils a command line. What it makes is judged as a failure.
func badArgs(r *Rng, q *Query, today Civil) {
	sep := pick(r, []string{"/", "-", "."})
	bad := func() string {
		y := r.In(1990, 2030)
		switch r.N(15) {
		case 12, 13, 14: // a date in which something is amiss
			d := pick(r, []string{fmt.Sprintf("%04d%s%02d%s%02d", y, sep, r.In(1, 12), sep, r.In(1, 28)), fmt.Sprintf("%04d%s%02d", y, sep, r.In(1, 12)), fmt.Sprintf("%02d%s%02d", r.In(1, 12), sep, r.In(1, 28)), fmt.Sprintf("%04d", y)})
			k := r.N(len(d))
			switch r.N(3) {
			case 0:
				d = d[:k] + d[k+1:]
			case 1:
				d = d[:k] + pick(r, []string{"0", "1", " ", "x", "/", "-", ".", ":", "T", "٣"}) + d[k:]
			case 2:
				d = d[:k] + pick(r, []string{"0", "1", "9", " ", "x", "/", "-", ".", "O"}) + d[k+1:]
			}
			if strings.HasPrefix(d, "-") && len(d) == 4 { // a year before the common era?
				d += "x"
			}
			return d
		case 0:
			return fmt.Sprintf("%04d%s%02d", y, sep, pick(r, []int{0, 13, 20, 99}))
		case 1:
			m := r.In(1, 12)
			return fmt.Sprintf("%04d%s%02d%s%02d", y, sep, m, sep, pick(r, []int{0, daysIn(y, m) + 1, 32, 99}))
		case 2:
			for daysIn(y, 2) == 29 {
				y++
			}
			return fmt.Sprintf("%04d%s02%s29", y, sep, sep)
		case 3:
			return fmt.Sprintf("%02d%s%02d", pick(r, []int{0, 13, 99}), sep, r.In(1, 28))
		case 4:
			m := r.In(1, 12)
			return fmt.Sprintf("%02d%s%02d", m, sep, pick(r, []int{0, 32, daysIn(2020, m) + 1}))
		case 5:
			return fmt.Sprintf("%04d%s%02d%s%02d%s%02d", y, sep, 1, sep, 2, sep, 3)
		case 6:
			return pick(r, []string{"today", "yesterday", "x", "20x0", "january", "2020/jan", "next week", "2020-06-xx", "2020/ab/01", "ab/cd"})
		case 7:
			return fmt.Sprintf("%d", pick(r, []int{1, 20, 202, 20200, 202001, 20200101}))
		case 8:
			return fmt.Sprintf("%04d/%02d-%02d", y, 1, 2)
		case 9:
			return fmt.Sprintf("%04d%s%02d%s%02dx", y, sep, 1, sep, 2)
		case 10:
			return fmt.Sprintf("%04d%s%02d%s%02d ", y, sep, 1, sep, 2)
		}
		return fmt.Sprintf("%04d%s%s%02d", y, sep, sep, 2)
	}
	switch r.N(6) {
	case 0:
		q.Begin, q.Current = bad(), false
	case 1:
		q.End, q.Current = bad(), false
	case 2:
		k := r.N(len(q.Filters) + 1)
		f := noFilter(r)
		q.Filters = append(q.Filters[:k:k], append([]string{f}, q.Filters[k:]...)...)
	case 3:
		q.Cmd = pick(r, []string{"balanc", "bals", "reg", "register", "Print", "BAL", "prints", "x", "statistic", "budgets", "accountss"})
	case 4:
		q.Bad = pick(r, []string{"--nosuch", "--flat", "-x", "--begins=2020", "-q", "--Flatten", "--current=maybe", "--current=2", "-c=no"})
	case 5:
		q.Bad = pick(r, []string{"--flatten", "--collapse", "--show-zero", "-F", "-Z", "-C"})
		q.Cmd = pick(r, []string{"print", "accounts", "payees", "statistics"})
		q.Flat, q.Collapse, q.Zero = false, false, false
	}
}

// noFilter gives a filter which is no regular expression.
func noFilter(r *Rng) string {
	return pick(r, []string{"", "@", "="}) + pick(r, []string{"(", "[", "*", "a(b", "a)", "x{2,1}", "[z-a]", "\\", "a**", "(?P<n", "+", "?", "[[:nosuch:]]"})
}
