package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"sync/atomic"
	"time"
)

// Case is one simulated scenario: a world and the runs made in it.
type Case struct {
	Prop  string `json:"property"`
	Kind  string `json:"kind"`
	World World  `json:"world"`
	Runs  []Run  `json:"runs"`
}

func (c *Case) Clone() *Case {
	d := *c
	d.World = c.World.Clone()
	d.Runs = append([]Run(nil), c.Runs...)
	for i := range d.Runs {
		d.Runs[i] = d.Runs[i].Clone()
	}
	return &d
}

type Prop struct {
	ID     string
	Quick  int // cases in the quick tier
	Gen    func(bin string, r *Rng) *Case
	Rule   string
	Probes []string
}

var props = map[string]*Prop{}

func addProp(p *Prop) { props[p.ID] = p }

// mishaps counts cases which could not be made or judged because of a mistake
// in the harness. A few are put up with, and listed in the evidence.
var mishaps atomic.Int64

func mishap(where string, e any) {
	if h, ok := e.(HarnessError); ok {
		panic(h)
	}
	if mishaps.Add(1) <= 3 {
		fmt.Fprintf(os.Stderr, "mishap in %s: %v\n%s\n", where, e, stack())
	}
}

// checkCase executes a case and judges it. It is a function of the case and
// of the program alone. full: the outcome was compared with the model.
func checkCase(bin string, c *Case) (v *Violation, full bool) {
	defer func() {
		if e := recover(); e != nil {
			mishap("judging", e)
			v, full = nil, false
		}
	}()
	return decide(bin, c)
}

func decide(bin string, c *Case) (v *Violation, full bool) {
	switch c.Kind {
	case "judge":
		full = true
		for i := range c.Runs {
			res := execute(bin, &c.World, &c.Runs[i])
			v, f := judge(&c.World, &c.Runs[i], res)
			if v != nil {
				return v, true
			}
			full = full && f
		}
		return nil, full
	case "same":
		// every run has to report the same
		full = true
		var first *Result
		for i := range c.Runs {
			res := execute(bin, &c.World, &c.Runs[i])
			v, f := judge(&c.World, &c.Runs[i], res)
			if v != nil {
				return v, true
			}
			full = full && f
			if i == 0 {
				first = res
				continue
			}
			if v := sameRun(&c.Runs[0], first, &c.Runs[i], res); v != nil {
				v.Msg = fmt.Sprintf("runs 1 and %d differ: %s", i+1, v.Msg)
				return v, true
			}
		}
		return nil, full
	case "fuzz":
		for i := range c.Runs {
			res := execute(bin, &c.World, &c.Runs[i])
			if plainArgs(c.Runs[i].Args) && !writeFailed(res) {
				// hostile contents, but an ordinary question: the answer is known
				if v, _ := judge(&c.World, &c.Runs[i], res); v != nil {
					return v, true
				}
				continue
			}
			if v := sane(&c.World, &c.Runs[i], res); v != nil {
				return v, true
			}
			if res.Exit == 1 && !stderrFailed(res) && len(bytes.TrimSpace(res.Stderr)) == 0 {
				return viol("silent-failure", "failed without a diagnostic"), true
			}
		}
		return nil, true
	case "reprint":
		return checkReprint(bin, c)
	case "output":
		return checkOutput(bin, c)
	case "kill":
		return checkKill(bin, c)
	}
	harnessFail("unknown kind of case %q", c.Kind)
	return nil, false
}

// sameDay tells whether what two runs report must be the same: it may be that
// of different days if midnight passed in one of them.
func sameDay(ra *Run, a *Result, rb *Run, b *Result) bool {
	da, db := todays(ra, a), todays(rb, b)
	if len(da) == 1 && len(db) == 1 && da[0] == db[0] {
		return true
	}
	q := parseArgs(ra.Args)
	if q.Current || canonical(q.Cmd) == "statistics" {
		return false
	}
	for _, d := range []string{q.Begin, q.End} {
		if k := strings.IndexAny(d, "/.-"); k > 0 && k < 4 {
			return false // without a year
		}
	}
	return true
}

// sameRun compares two runs of one command.
func sameRun(ra *Run, a *Result, rb *Run, b *Result) *Violation {
	if !sameDay(ra, a, rb, b) {
		return nil // each was judged by its own day
	}
	return sameResult(a, b)
}

func sameResult(a, b *Result) *Violation {
	if a.Exit != b.Exit || a.Signal != b.Signal {
		return viol("differs-exit", "exit status %d and %d: %s", a.Exit, b.Exit, clip(append(append([]byte(nil), a.Stderr...), b.Stderr...), 300))
	}
	x, y := a.Stdout, b.Stdout
	if !bytes.Equal(x, y) {
		i := 0
		for i < len(x) && i < len(y) && x[i] == y[i] {
			i++
		}
		lo := max(0, i-60)
		return viol("differs-output", "at byte %d: %q and %q", i, clip(x[lo:min(len(x), i+60)], 200), clip(y[lo:min(len(y), i+60)], 200))
	}
	if !bytes.Equal(a.Stderr, b.Stderr) {
		return viol("differs-diagnostic", "%q and %q", clip(a.Stderr, 200), clip(b.Stderr, 200))
	}
	return nil
}

// checkReprint: what print writes is a journal which means the same.
// Runs: print; print of the output; balance; balance of the output.
func checkReprint(bin string, c *Case) (*Violation, bool) {
	res := execute(bin, &c.World, &c.Runs[0])
	v, full := judge(&c.World, &c.Runs[0], res)
	if v != nil || res.Exit != 0 || !full || len(c.Runs) < 4 {
		return v, full
	}
	w2 := &World{Root: "printed.journal", Files: []File{{Path: simCwd + "/printed.journal", Blocks: []Bytes{res.Stdout}}}}
	res2 := execute(bin, w2, &c.Runs[1])
	if v, _ := judge(w2, &c.Runs[1], res2); v != nil {
		v.Msg = "reading printed transactions back: " + v.Msg
		return v, true
	}
	if res2.Exit != 0 || !bytes.Equal(res.Stdout, res2.Stdout) {
		if v := sameResult(res, res2); v != nil {
			return viol("reprint", "printing printed transactions changes them: %s", v.Msg), true
		}
	}
	if m := modelOf(&c.World, &c.Runs[0], res); !m.sums("balance") || m.large("balance") {
		return nil, true
	}
	a := execute(bin, &c.World, &c.Runs[2])
	b := execute(bin, w2, &c.Runs[3])
	for _, x := range []struct {
		w   *World
		r   *Run
		res *Result
	}{{&c.World, &c.Runs[2], a}, {w2, &c.Runs[3], b}} {
		if v, _ := judge(x.w, x.r, x.res); v != nil {
			return v, true
		}
	}
	if v := sameResult(a, b); v != nil {
		return viol("reprint-balance", "the balance of printed transactions differs: %s", v.Msg), true
	}
	return nil, true
}

// checkOutput: run 1 writes without trouble, the others meet write faults.
func checkOutput(bin string, c *Case) (*Violation, bool) {
	ref := execute(bin, &c.World, &c.Runs[0])
	v, full := judge(&c.World, &c.Runs[0], ref)
	if v != nil {
		return v, true
	}
	if !full {
		return nil, false
	}
	for i := 1; i < len(c.Runs); i++ {
		r := &c.Runs[i]
		res := execute(bin, &c.World, r)
		if v := sane(&c.World, r, res); v != nil {
			return v, true
		}
		lost := false
		pipe := false
		for _, e := range res.Events {
			if e.Op == 'W' && e.F[3] != 0 && e.F[3] != 4 {
				lost = true
				pipe = pipe || e.F[3] == 32
			}
		}
		if !lost && stderrFailed(res) {
			// what is left of a failure whose diagnostic was lost
			if res.Signal == 0 && (res.Exit == 0) != (ref.Exit == 0) {
				return viol("lost-failure", "exit status %d and %d when standard error could not be written: %s", ref.Exit, res.Exit, clip(ref.Stderr, 200)), true
			}
			if sameDay(&c.Runs[0], ref, r, res) && !bytes.Equal(ref.Stdout, res.Stdout) {
				return viol("differs-output", "%q and, when standard error could not be written, %q", clip(ref.Stdout, 200), clip(res.Stdout, 200)), true
			}
			continue
		}
		if !lost {
			if v := sameRun(&c.Runs[0], ref, r, res); v != nil {
				v.Msg = "although everything was written: " + v.Msg
				return v, true
			}
			continue
		}
		if res.Signal == 0 {
			if res.Exit == 0 && ref.Exit == 0 && sameDay(&c.Runs[0], ref, r, res) && bytes.Equal(ref.Stdout, res.Stdout) {
				continue // tried again and delivered after all
			}
			if res.Exit == 0 {
				return viol("lost-output", "succeeded although writing the report failed; %d of %d bytes arrived", len(res.Stdout), len(ref.Stdout)), true
			}
			if len(bytes.TrimSpace(res.Stderr)) == 0 && !stderrFailed(res) {
				return viol("silent-failure", "failed to write without a diagnostic"), true
			}
		}
		if sameDay(&c.Runs[0], ref, r, res) && !bytes.HasPrefix(ref.Stdout, res.Stdout) {
			return viol("garbled-output", "what arrived before the failed write is not the beginning of the report: %q", clip(res.Stdout, 300)), true
		}
	}
	return nil, full
}

// checkKill: run 1 is whole, run 2 is killed, run 3 is run 1 again.
func checkKill(bin string, c *Case) (*Violation, bool) {
	ref := execute(bin, &c.World, &c.Runs[0])
	v, full := judge(&c.World, &c.Runs[0], ref)
	if v != nil {
		return v, true
	}
	if !full {
		return nil, false
	}
	for i := 1; i < len(c.Runs); i++ {
		res := execute(bin, &c.World, &c.Runs[i])
		if v := sane(&c.World, &c.Runs[i], res); v != nil {
			return v, true
		}
		if res.Signal == 9 {
			if sameDay(&c.Runs[0], ref, &c.Runs[i], res) && !bytes.HasPrefix(ref.Stdout, res.Stdout) {
				return viol("garbled-output", "a killed run wrote %q", clip(res.Stdout, 300)), true
			}
			continue
		}
		if v := sameRun(&c.Runs[0], ref, &c.Runs[i], res); v != nil {
			v.Msg = "a later run differs: " + v.Msg
			return v, true
		}
	}
	return nil, full
}

func writeFailed(res *Result) bool {
	for _, e := range res.Events {
		if e.Op == 'W' && e.F[3] != 0 && e.F[3] != 4 {
			return true
		}
	}
	return false
}

// stderrFailed tells whether a diagnostic could not be written.
func stderrFailed(res *Result) bool {
	for _, e := range res.Events {
		if e.Op == 'Z' && e.F[3] != 0 && e.F[3] != 4 {
			return true
		}
	}
	return false
}

// plainArgs tells whether parseArgs reads arguments as the program does.
func plainArgs(args []string) bool {
	if len(args) == 0 {
		return false
	}
	known := false
	for _, c := range allCmds {
		known = known || c == args[0]
	}
	if !known {
		return false
	}
	for _, a := range args[1:] {
		switch {
		case a == "--flatten" || a == "--collapse" || a == "--show-zero" || a == "-F" || a == "-C" || a == "-Z":
			if args[0] != "balance" && args[0] != "budget" {
				return false
			}
		case a == "--current" || a == "-c":
		case len(a) > 2 && (a[:2] == "-b" || a[:2] == "-e") && a[2] >= '0' && a[2] <= '9':
		case strings.HasPrefix(a, "--begin="), strings.HasPrefix(a, "--end="):
			d := a[strings.IndexByte(a, '=')+1:]
			if d == "" || d[0] < '0' || d[0] > '9' {
				return false
			}
		case strings.HasPrefix(a, "-"):
			return false
		}
	}
	return true
}

// ---- generators ----

func runsOf(r *Rng, g *G, w *World, qc QCfg, n, pert int) []Run {
	var out []Run
	for i := 0; i < n; i++ {
		x := genRun(r)
		q := g.query(qc, civilAt(x.Now*1000000000, x.TZ))
		x.Args = q.args()
		if r.P(5) {
			x.Spell = r.U() | 1
		}
		if r.Pct(pert) {
			perturb(r, &x, w)
		}
		out = append(out, x)
	}
	return out
}

func init() {
	addProp(&Prop{ID: "C01", Quick: 50400, Rule: "journals of balanced transactions (elided amounts at any place, cancelling and zero amounts) of which 45% get one unbalanced transaction or a second elided amount; one report each",
		Gen: func(bin string, r *Rng) *Case {
			cfg := defCfg(r)
			if r.Pct(45) {
				cfg.Errors = 1
				cfg.ErrKinds = []string{"unbalanced", "unbalanced", "elided2", "elided2", "amount"}
			}
			g := newG(r, cfg)
			w := g.world()
			return &Case{Prop: "C01", Kind: "judge", World: *w, Runs: runsOf(r, g, w, QCfg{Cmds: []string{"balance", "balance", "print", "print", "accounts", "statistics", "budget"}, Filters: 10, Dates: 10}, 1, 50)}
		}})
	addProp(&Prop{ID: "C02", Quick: 50400, Rule: "journals with related, prefix-sharing, deep and zero-sum accounts; balance with every combination of flags, filters and dates",
		Gen: func(bin string, r *Rng) *Case {
			cfg := defCfg(r)
			cfg.DeepAcct = r.P(3)
			if r.P(3) {
				cfg.Cancel = 60
			}
			if cfg.Settle = r.P(6); cfg.Settle {
				if r.P(4) {
					cfg.MinTx, cfg.MaxTx = 20, 120
				}
			}
			g := newG(r, cfg)
			w := g.world()
			return &Case{Prop: "C02", Kind: "judge", World: *w, Runs: runsOf(r, g, w, QCfg{Cmds: []string{"balance"}, Filters: 35, Dates: 25, Current: 5}, 1, 40)}
		}})
	addProp(&Prop{ID: "C03", Quick: 42000, Rule: "trees of 2 to 14 files (nested, repeated, relative, absolute and dotted includes, under open transactions), 35% with a missing, unreadable, cyclic or malformed include",
		Gen: func(bin string, r *Rng) *Case {
			cfg := defCfg(r)
			cfg.MinFiles, cfg.MaxFiles = 2, r.Small(2, 14)
			cfg.Diamonds = pick(r, []int{0, 30, 60})
			cfg.MaxTx = r.Small(1, 5)
			if r.P(8) {
				cfg.Deep = r.In(3, 30)
				if r.P(5) {
					cfg.Deep, cfg.MaxTx = r.In(60, 200), 2
				}
			}
			if r.Pct(35) {
				cfg.Errors = 1
				cfg.ErrKinds = []string{"include-missing", "include-cycle", "include-cycle", "include-bad", "include-dir", "include-noperm"}
			}
			g := newG(r, cfg)
			w := g.world()
			return &Case{Prop: "C03", Kind: "judge", World: *w, Runs: runsOf(r, g, w, QCfg{Cmds: []string{"print", "print", "statistics", "statistics", "balance", "accounts"}, Filters: 8, Dates: 5}, 1, 40)}
		}})
	addProp(&Prop{ID: "C04", Quick: 10500, Rule: "journals with lines around buffer sizes and multi-byte text; the same report under whole reads and under two or three other deliveries (short reads of fixed and random size, interrupted calls, slow disk, failing close)",
		Gen: func(bin string, r *Rng) *Case {
			cfg := defCfg(r)
			cfg.Long = pick(r, []int{0, 3, 10})
			cfg.Pad = 60
			cfg.BigText = r.P(6)
			if r.P(4) {
				cfg.MinTx, cfg.MaxTx = 10, 50
			}
			if r.P(5) {
				cfg.Errors = 1
			}
			g := newG(r, cfg)
			w := g.world()
			if r.P(4) {
				damage(r, w, r.Small(1, 3))
			}
			c := &Case{Prop: "C04", Kind: "same", World: *w, Runs: runsOf(r, g, w, QCfg{Filters: 15, Dates: 5}, 1, 0)}
			c.Runs[0].LatOpen, c.Runs[0].LatRead = 0, 0
			for n := r.In(1, 3); n > 0; n-- {
				x := c.Runs[0].Clone()
				for x.RMode == 0 && len(x.Faults) == 0 {
					perturb(r, &x, w)
				}
				c.Runs = append(c.Runs, x)
			}
			return c
		}})
	addProp(&Prop{ID: "C05", Quick: 29400, Rule: "a fault-free run is made first; then one or two of its opens or reads (any of them, the end-of-file read included) fail with a lasting or one-off error, under whole or short reads",
		Gen: func(bin string, r *Rng) *Case {
			cfg := defCfg(r)
			if r.P(2) {
				cfg.MinFiles, cfg.MaxFiles = 2, 6
			}
			if r.P(4) {
				cfg.MinTx, cfg.MaxTx = 20, 60
			}
			if r.P(10) {
				cfg.Errors = 1
			}
			g := newG(r, cfg)
			w := g.world()
			c := &Case{Prop: "C05", Kind: "judge", World: *w, Runs: runsOf(r, g, w, QCfg{Filters: 15, Dates: 5}, 1, 60)}
			x := &c.Runs[0]
			res := execute(bin, w, x)
			type site struct {
				op   int
				path string
				n    int
			}
			var sites []site
			count := map[string]int{}
			for _, e := range res.Events {
				if e.Op == 'O' || e.Op == 'R' {
					op := opOpen
					if e.Op == 'R' {
						op = opRead
					}
					k := string(e.Op) + e.Path
					count[k]++
					sites = append(sites, site{op, e.Path, count[k]})
				}
			}
			for n := r.Small(1, 2); n > 0 && len(sites) > 0; n-- {
				s := pick(r, sites)
				f := Fault{Op: s.op, N: s.n, Path: s.path, Sticky: r.P(3)}
				if s.op == opOpen {
					f.Errno = pick(r, []int{2, 13, 5, 24, 23, 12, 40, 116, 36, 20, 110, 1})
				} else {
					f.Errno = pick(r, []int{5, 5, 116, 121, 12, 21, 74, 117, 61, 9, 110, 6})
				}
				if r.P(5) {
					f.Errno = r.lasting()
				}
				x.Faults = append(x.Faults, f)
			}
			return c
		}})
	addProp(&Prop{ID: "C06", Quick: 54600, Rule: "journals damaged by byte and token mutations, binary files, hostile arguments, odd file systems; under short reads and random faults of all kinds",
		Gen: genFuzz})
	addProp(&Prop{ID: "C07", Quick: 50400, Rule: "trees of files with exactly one defect of one of 14 kinds at any place of any file, under random delivery",
		Gen: func(bin string, r *Rng) *Case {
			cfg := defCfg(r)
			cfg.Pad = 60
			cfg.Errors = 1
			g := newG(r, cfg)
			w := g.world()
			return &Case{Prop: "C07", Kind: "judge", World: *w, Runs: runsOf(r, g, w, QCfg{Filters: 15, Dates: 10}, 1, 50)}
		}})
	addProp(&Prop{ID: "C08", Quick: 14700, Rule: "journals with many accounts, payees, files, months and same-day transactions; the same command under three to six hash-map seeds and deliveries",
		Gen: func(bin string, r *Rng) *Case {
			cfg := defCfg(r)
			cfg.SameDay = pick(r, []int{50, 95})
			cfg.MaxTx = r.In(4, 20)
			cfg.Periodic = pick(r, []int{0, 30, 50})
			if r.P(2) {
				cfg.MinFiles, cfg.MaxFiles = 3, 8
			}
			if r.P(10) {
				cfg.Errors = r.In(1, 3)
			}
			g := newG(r, cfg)
			w := g.world()
			if r.P(8) {
				damage(r, w, r.Small(1, 3))
			}
			fl := 40
			c := &Case{Prop: "C08", Kind: "same", World: *w, Runs: runsOf(r, g, w, QCfg{Filters: fl, Dates: 10}, 1, 20)}
			for n := r.In(2, 5); n > 0; n-- {
				x := c.Runs[0].Clone()
				x.MapSeed = r.U()
				if r.P(2) {
					x.Env = r.U() | 1
				}
				if hints != nil {
					x.Vars = hints.vars(r)
				}
				if r.P(3) { // another time of the day
					t := timeIn(x.Now, location(x.TZ))
					x.Now += int64(r.N(86400) - t.Hour()*3600 - t.Minute()*60 - t.Second())
					x.Now = max(x.Now, 1)
				}
				c.Runs = append(c.Runs, x)
			}
			return c
		}})
	addProp(&Prop{ID: "C09", Quick: 50400, Rule: "transactions within three days of the simulated now, clocks at and around local midnight, new year, leap days and DST changes in 18 zones, clock jumps and stalls during the run; --current, --begin and --end",
		Gen: func(bin string, r *Rng) *Case {
			cfg := defCfg(r)
			cfg.SameDay = 10
			x := genRun(r)
			tz := location(x.TZ)
			switch r.N(4) {
			case 0: // local midnight
				t := timeIn(x.Now, tz)
				x.Now -= int64(t.Hour()*3600 + t.Minute()*60 + t.Second())
				x.Now += int64(pick(r, []int{-1, 0, 1, -3600, 3600, 7200, 43200}))
			case 1: // around new year
				x.Now = timeDate(r.In(1971, 2037), 1, 1, tz) + int64(r.In(-30, 30))*3600
			case 2: // around the end of February
				x.Now = timeDate(r.In(1971, 2037), 3, 1, tz) + int64(r.In(-60, 60))*3600
			}
			days := oddDays(x.TZ)
			if len(days) > 0 && r.P(3) {
				// around a day which has no midnight, or none at all
				x.Now = timeDate(1970, 1, 1+pick(r, days), tz) + int64(r.In(-2*86400, 2*86400))
			}
			if x.Now < 0 {
				x.Now = 86400
			}
			today := civilAt(x.Now*1000000000, x.TZ)
			cfg.Around = today.Days()
			if cfg.Around < 5 {
				cfg.Around = 5
			}
			cfg.Far = r.P(4)
			if cfg.Far && r.P(2) {
				cfg.YearLo, cfg.YearHi = 1, 9999
			}
			g := newG(r, cfg)
			w := g.world()
			qc := QCfg{Cmds: []string{"balance", "print", "print", "accounts", "payees", "statistics", "budget"}, Filters: 10}
			if r.P(2) {
				qc.Current = 100
				qc.Dates = 30
			} else {
				qc.Dates = 100
			}
			q := g.query(qc, today)
			x.Args = q.args()
			if r.P(5) {
				x.Spell = r.U() | 1
			}
			if r.P(3) {
				perturb(r, &x, w)
			}
			if r.P(4) {
				x.Edits = append(x.Edits, Edit{Step: r.In(1, 8), Kind: edWallJump, Num: int64(pick(r, []int{-86400, 86400, 3600, -3600, 1, -1, 365 * 86400})) * 1000000000})
			}
			if r.P(4) {
				x.Edits = append(x.Edits, Edit{Step: r.In(1, 8), Kind: edStall, Num: int64(r.In(1, 90000)) * 1000000000})
			}
			return &Case{Prop: "C09", Kind: "judge", World: *w, Runs: []Run{x}}
		}})
	addProp(&Prop{ID: "C10", Quick: 21000, Rule: "journals with many same-day transactions, notes at every place and odd spacing; print, print of what it printed, and the balance of both",
		Gen: func(bin string, r *Rng) *Case {
			cfg := defCfg(r)
			cfg.SameDay = pick(r, []int{20, 60, 95})
			cfg.MaxTx = r.Small(2, 20)
			if r.P(4) {
				cfg.MinTx, cfg.MaxTx = 10, 40
			}
			g := newG(r, cfg)
			w := g.world()
			c := &Case{Prop: "C10", Kind: "reprint", World: *w, Runs: runsOf(r, g, w, QCfg{Cmds: []string{"print"}, Filters: 25, Dates: 15}, 1, 40)}
			if len(parseArgs(c.Runs[0].Args).Filters) == 0 && parseArgs(c.Runs[0].Args).Begin == "" && parseArgs(c.Runs[0].Args).End == "" {
				a, b := genRun(r), genRun(r)
				a.Args = []string{"print"}
				if r.P(2) {
					perturb(r, &a, w)
					a.UseEnv = false
				}
				b.Args = (&Query{Cmd: "balance", Flat: r.P(2), Zero: r.P(2), Collapse: r.P(4)}).args()
				c.Runs = append(c.Runs, a, b, b.Clone())
			}
			return c
		}})
	addProp(&Prop{ID: "C11", Quick: 50400, Rule: "journals with accounts and payees which repeat within and across files; accounts and payees with and without filters and dates",
		Gen: func(bin string, r *Rng) *Case {
			cfg := defCfg(r)
			g := newG(r, cfg)
			w := g.world()
			c := &Case{Prop: "C11", Kind: "judge", World: *w, Runs: runsOf(r, g, w, QCfg{Cmds: []string{"accounts", "payees"}, Filters: 45, Dates: 30, Current: 5}, 1, 30)}
			return c
		}})
	addProp(&Prop{ID: "C12", Quick: 46200, Rule: "journals over several files; statistics with and without filters and dates at any simulated time",
		Gen: func(bin string, r *Rng) *Case {
			cfg := defCfg(r)
			if cfg.Money = r.P(3); cfg.Money {
				cfg.MinTx, cfg.MaxTx = 2, r.Small(3, 30)
			}
			g := newG(r, cfg)
			w := g.world()
			return &Case{Prop: "C12", Kind: "judge", World: *w, Runs: runsOf(r, g, w, QCfg{Cmds: []string{"statistics"}, Filters: 35, Dates: 25, Current: 10}, 1, 30)}
		}})
	addProp(&Prop{ID: "C13", Quick: 42000, Rule: "journals with budgets, income and expenses over one to many months, nested and repeated categories; the budget report",
		Gen: func(bin string, r *Rng) *Case {
			cfg := defCfg(r)
			cfg.Periodic = pick(r, []int{15, 30, 60})
			cfg.MaxTx = r.Small(2, 20)
			cfg.Money = r.P(6)
			g := newG(r, cfg)
			w := g.world()
			return &Case{Prop: "C13", Kind: "judge", World: *w, Runs: runsOf(r, g, w, QCfg{Cmds: []string{"budget"}, Filters: 10, Dates: 10}, 1, 30)}
		}})
	addProp(&Prop{ID: "C14", Quick: 10500, Rule: "reports of a few bytes to many buffers; the same report with short writes, interrupted writes and with any one of its writes failing (full disk, closed pipe, I/O error, quota)",
		Gen: func(bin string, r *Rng) *Case {
			cfg := defCfg(r)
			if r.P(2) {
				cfg.MinTx, cfg.MaxTx = 20, 70
				cfg.Long = pick(r, []int{0, 3, 20})
			}
			if r.P(8) {
				cfg.Errors = 1
			}
			g := newG(r, cfg)
			w := g.world()
			c := &Case{Prop: "C14", Kind: "output", World: *w, Runs: runsOf(r, g, w, QCfg{Filters: 10, Dates: 5}, 1, 0)}
			if r.P(25) {
				c.Runs[0].Args, c.Runs[0].Spell = []string{"version"}, 0
			}
			x := c.Runs[0].Clone()
			if r.P(2) {
				x.WMode, x.WK, x.WSeed = 1+r.N(2), pick(r, []int{7, 20, 100, 1000, 4000}), r.U()
			}
			for n := r.N(3); n > 0; n-- {
				x.Faults = append(x.Faults, Fault{Op: opWrite, N: r.Small(1, 6), Errno: pick(r, []int{4, 0}), Cap: r.In(1, 30)})
			}
			c.Runs = append(c.Runs, x)
			// now learn how many writes there are and let one fail
			res := execute(bin, w, &x)
			nw, nz := 0, 0
			for _, e := range res.Events {
				if e.Op == 'W' {
					nw++
				} else if e.Op == 'Z' {
					nz++
				}
			}
			errnos := []int{28, 28, 5, 32, 122, 27, 12, 9, 11, r.lasting()}
			if nz > 0 {
				// a failure, whose diagnostic meets interruptions or is lost
				y := x.Clone()
				y.Faults = append(y.Faults, Fault{Op: opWriteErr, N: r.In(1, nz), Errno: pick(r, []int{4, 0, 0}), Cap: r.In(1, 30)})
				c.Runs = append(c.Runs, y)
				y = x.Clone()
				y.Faults = append(y.Faults, Fault{Op: opWriteErr, N: pick(r, []int{1, r.In(1, nz)}), Errno: pick(r, errnos), Sticky: r.P(2)})
				c.Runs = append(c.Runs, y)
			}
			for n := r.In(1, 2); n > 0 && nw > 0; n-- {
				y := x.Clone()
				y.Faults = append(y.Faults, Fault{Op: opWrite, N: pick(r, []int{1, nw, r.In(1, nw)}), Errno: pick(r, errnos), Sticky: r.P(2)})
				if r.P(6) {
					// and what is said about it cannot be written either
					y.Faults = append(y.Faults, Fault{Op: opWriteErr, N: 1, Errno: pick(r, errnos), Sticky: r.P(2)})
				}
				c.Runs = append(c.Runs, y)
			}
			return c
		}})
	addProp(&Prop{ID: "C15", Quick: 21000, Rule: "any command, good and bad journals; every system call observed and every call that changes anything refused; the same run killed at one to three of its steps and then repeated",
		Gen: func(bin string, r *Rng) *Case {
			cfg := defCfg(r)
			if r.P(5) {
				cfg.Errors = 1
			}
			g := newG(r, cfg)
			w := g.world()
			c := &Case{Prop: "C15", Kind: "kill", World: *w, Runs: runsOf(r, g, w, QCfg{Filters: 20, Dates: 10, Current: 10}, 1, 40)}
			if r.P(12) {
				c.Runs[0].Args = []string{"version"}
			}
			res := execute(bin, w, &c.Runs[0])
			n := 0
			for _, e := range res.Events {
				n = max(n, e.Step)
			}
			for k := r.In(1, 3); k > 0 && n > 0; k-- {
				x := c.Runs[0].Clone()
				x.KillStep = r.In(1, n)
				c.Runs = append(c.Runs, x)
			}
			c.Runs = append(c.Runs, c.Runs[0].Clone())
			return c
		}})
	addProp(&Prop{ID: "C16", Quick: 18900, Rule: "journals of up to 400 included files, flat, nested and mixed, run with a descriptor limit two above the include nesting",
		Gen: func(bin string, r *Rng) *Case {
			cfg := defCfg(r)
			cfg.Periodic = 0
			switch r.N(4) {
			case 0:
				cfg.Deep = r.In(5, 60)
				if r.P(4) {
					cfg.Deep = r.In(60, 180)
				}
				cfg.MaxTx = 1
			case 1:
				cfg.MinFiles, cfg.MaxFiles = 20, r.In(20, 60)
				cfg.MaxTx = 2
				cfg.Diamonds = 0
			default:
				cfg.MaxFiles = 4
			}
			g := newG(r, cfg)
			w := g.world()
			if r.P(2) && len(w.Files) > 1 && cfg.Deep == 0 {
				// the root includes one leaf many times
				leaf := &w.Files[len(w.Files)-1]
				root := &w.Files[0]
				name := g.spell(root.Path, leaf.Path)
				var b []byte
				n := r.In(10, 400)
				if v, ok := g.hintNum(2, 5, 3000); ok {
					n = v
				}
				for ; n > 0; n-- {
					b = append(b, "include "+name+"\n"...)
				}
				k := r.N(len(root.Blocks) + 1)
				if k == len(root.Blocks) && k > 0 {
					root.Blocks[k-1] = append(append(Bytes(nil), root.Blocks[k-1]...), '\n')
				}
				root.Blocks = append(root.Blocks[:k:k], append([]Bytes{b}, root.Blocks[k:]...)...)
			}
			c := &Case{Prop: "C16", Kind: "judge", World: *w, Runs: runsOf(r, g, w, QCfg{Cmds: []string{"balance", "print", "statistics", "accounts", "payees", "budget"}, Filters: 5}, 1, 20)}
			m := runModel(w.Root, worldOpener(w))
			c.Runs[0].FdLimit = m.Depth
			if m.Err != nil || len(m.Unspec) > 0 {
				c.Runs[0].FdLimit += 2
			}
			return c
		}})
	addProp(&Prop{ID: "C17", Quick: 29400, Rule: "account, payee and note filters built from the journal's own texts, alone and combined, in two orders, for every report; 4% with one which is no regular expression",
		Gen: func(bin string, r *Rng) *Case {
			cfg := defCfg(r)
			cfg.Periodic = pick(r, []int{0, 0, 20})
			g := newG(r, cfg)
			w := g.world()
			c := &Case{Prop: "C17", Kind: "same", World: *w, Runs: runsOf(r, g, w, QCfg{Filters: 100, Dates: 15}, 1, 20)}
			if r.P(25) {
				q := parseArgs(c.Runs[0].Args)
				k := r.N(len(q.Filters) + 1)
				q.Filters = append(q.Filters[:k:k], append([]string{noFilter(r)}, q.Filters[k:]...)...)
				c.Runs[0].Args = q.args()
			}
			x := c.Runs[0].Clone()
			q := parseArgs(x.Args)
			for i, j := 0, len(q.Filters)-1; i < j; i, j = i+1, j-1 {
				q.Filters[i], q.Filters[j] = q.Filters[j], q.Filters[i]
			}
			if r.P(3) && len(q.Filters) > 0 {
				q.Filters = append(q.Filters, q.Filters[0])
			}
			x.Args = q.args()
			x.MapSeed = r.U()
			c.Runs = append(c.Runs, x)
			return c
		}})
	addProp(&Prop{ID: "C19", Quick: 42000, Rule: "transactions of amounts around every power of ten and two, the limits of exact floating point and of 64 bits, in several commodities, with and without signs, decimals, leading zeros and elided amounts; 25% with an amount that is malformed or does not fit",
		Gen: func(bin string, r *Rng) *Case {
			cfg := defCfg(r)
			cfg.Edge, cfg.Huge, cfg.Long = true, false, 0
			cfg.MaxTx = r.Small(1, 8)
			cfg.MinTx = min(cfg.MinTx, 1)
			cfg.Mixed = r.P(3)
			if r.Pct(25) {
				cfg.Errors = 1
				cfg.ErrKinds = []string{"amount", "amount", "unbalanced"}
			}
			g := newG(r, cfg)
			if r.P(3) {
				g.comm = pick(r, []string{"¥", "฿", "R$", "zł", "kr.", "AAPL ", "HRK", "EUR ", "USD", "₿", "Fr ", "%", "円"})
			}
			w := g.world()
			return &Case{Prop: "C19", Kind: "judge", World: *w, Runs: runsOf(r, g, w, QCfg{Cmds: []string{"print", "print", "print", "balance", "balance", "budget"}, Filters: 10, Dates: 5}, 1, 40)}
		}})
	addProp(&Prop{ID: "C22", Quick: 18900, Rule: "one question asked in two to three of its forms (aliases, long, short and joined flags, flags before, between and after, every form of the same dates, -f, --file and LEDGER_FILE), at clocks around new year in 18 zones; 35% spoiled by a date that is none, a filter that is no expression, an unknown command or flag, a flag of another command or no journal",
		Gen: func(bin string, r *Rng) *Case {
			cfg := defCfg(r)
			cfg.MinTx, cfg.MaxTx = 0, r.Small(1, 8)
			x := genRun(r)
			if r.P(2) {
				// around midnight of new year, in the zone of the run
				x.Now = time.Date(r.In(1996, 2030), 1, 1, 0, 0, r.In(-50000, 50000), 0, time.UTC).Unix()
			}
			today := civilAt(x.Now*1000000000, x.TZ)
			if r.P(2) {
				cfg.YearLo, cfg.YearHi = today.Y-1, today.Y+1
			}
			g := newG(r, cfg)
			w := g.world()
			if r.P(2) {
				w.Files = append(w.Files, File{Path: "/sim/decoy.journal", Blocks: []Bytes{Bytes("1999-01-01 decoy\n  Decoy  1\n  Assets:Decoy\n")}})
			}
			q := g.query(QCfg{Filters: 40, Dates: 60, Current: 15}, today)
			q.Short = false
			if r.Pct(35) {
				if r.P(6) {
					w.Root = ""
					for _, d := range []string{"/sim/.ledger", "/home/me/.ledger", "/sim/ledger.journal"} {
						if w.Find(d) == nil && r.P(2) {
							w.Files = append(w.Files, File{Path: d, Blocks: []Bytes{Bytes("1999-01-01 decoy\n  Decoy  1\n  Assets:Decoy\n")}})
						}
					}
				} else {
					badArgs(r, &q, today)
				}
			}
			c := &Case{Prop: "C22", Kind: "judge", World: *w}
			for n := r.In(2, 3); n > 0; n-- {
				y := x.Clone()
				y.Args, y.Spell = q.args(), r.U()|1
				if r.P(4) {
					perturb(r, &y, w)
				}
				if r.P(6) {
					y.Edits = append(y.Edits, Edit{Step: r.In(1, 8), Kind: edWallJump, Num: int64(pick(r, []int{-86400, 86400, 365 * 86400, -365 * 86400})) * 1000000000})
				}
				c.Runs = append(c.Runs, y)
			}
			return c
		}})
	addProp(&Prop{ID: "C18", Quick: 25200, Rule: "an editor appends to, truncates, overwrites, replaces or unlinks files of the journal at any step of the run, once to three times, under short reads",
		Gen: func(bin string, r *Rng) *Case {
			cfg := defCfg(r)
			if r.P(3) {
				cfg.MinTx, cfg.MaxTx = 10, 50
			}
			if r.P(2) {
				cfg.MinFiles, cfg.MaxFiles = 2, 5
			}
			g := newG(r, cfg)
			w := g.world()
			c := &Case{Prop: "C18", Kind: "judge", World: *w, Runs: runsOf(r, g, w, QCfg{Cmds: []string{"balance", "print", "accounts", "payees", "statistics"}, Filters: 15, Dates: 5}, 1, 70)}
			x := &c.Runs[0]
			res := execute(bin, w, x)
			n := 1
			for _, e := range res.Events {
				n = max(n, e.Step)
			}
			for k := r.Small(1, 3); k > 0; k-- {
				f := pick(r, w.Files)
				e := Edit{Step: r.In(1, n), Kind: pick(r, []int{edAppend, edAppend, edTruncate, edOverwr, edReplace, edReplace, edUnlink}), Path: f.Path}
				t := g.tx()
				b := []byte(strings.Join(g.render(t), "\n") + "\n")
				size := len(f.Content())
				switch e.Kind {
				case edAppend:
					if r.P(2) {
						b = append([]byte("\n"), b...)
					}
					if r.P(4) {
						b = b[:r.In(1, len(b))]
					}
					e.Data = b
				case edTruncate:
					e.Num = int64(r.N(size + 1))
				case edOverwr, edReplace:
					cc := f.Content()
					switch r.N(4) {
					case 3: // of the same size
						e.Data = append([]byte(nil), cc...)
						for n := 0; n < 200 && size > 0; n++ {
							if k := r.N(size); e.Data[k] >= 'b' && e.Data[k] <= 'y' {
								e.Data[k]++
								break
							}
						}
					case 0:
						e.Data = append(append([]byte(nil), cc...), append([]byte("\n"), b...)...)
					case 1:
						e.Data = append(append([]byte(nil), b...), append([]byte("\n"), cc...)...)
					case 2:
						e.Data = b
					}
				}
				x.Edits = append(x.Edits, e)
			}
			return c
		}})
}

var fuzzTokens = []string{"include ", "include main.j\n", "~ ", "~ 2020-01\n", "~ monthly\n", "2020-01-01", "2020-01-01 * x\n", "    ", "\t", "\n", "\r\n", "\r", "\x00", "\xff\xfe", "\xef\xbb\xbf", ";", "#", "*", "!", "@", "=", "-", "+", ".", "£", "$", "  Assets:Cash  £5.00\n", "  Income\n", "  Expenses\n", "  Expenses:  5\n", "  :  5\n", "  a::b  5\n", "  _root_:x  5\n", "  _budget_root_  5\n", "9223372036854775807", "92233720368547758.07", "-92233720368547758.08", "99999999999999999999999", "0", "1e9", "é", "\u00a0", "\u2028", "½", "٣", "  Budget  5\n", "Expenses:Food", "comment\n", "P 2020-01-01 £ $1\n", "= /x/\n", "  \n", " \n", "0001-01-01 x\n", "9999-12-31 x\n", "0000-00-00 x\n", "  A\n  A\n", "i", "include", "0"}

// fuzzHeads are what files begin with which are not plain journals
var fuzzHeads = []string{"\xef\xbb\xbf", "\xff\xfe", "\xfe\xff", "\x1f\x8b\x08", "#!/usr/bin/env gledger\n", "; -*- ledger -*-\n", "\n", " ", "\r\n", "\x00", "PK\x03\x04", "{", "<?xml", "%PDF", "\x00\x00\xfe\xff"}

// damage changes bytes and pieces of n files.
func damage(r *Rng, w *World, n int) {
	for ; n > 0; n-- {
		f := &w.Files[r.N(len(w.Files))]
		if f.Dir {
			continue
		}
		b := append([]byte(nil), f.Content()...)
		for k := r.Small(1, 6); k > 0; k-- {
			i := r.N(len(b) + 1)
			switch r.N(7) {
			case 0:
				if len(b) > 0 {
					b[r.N(len(b))] = byte(r.U())
				}
			case 1:
				j := min(len(b), i+r.Small(1, 30))
				b = append(b[:i:i], b[j:]...)
			case 2, 3, 4:
				t := pick(r, fuzzTokens)
				b = append(b[:i:i], append([]byte(t), b[i:]...)...)
			case 5:
				j := min(len(b), i+r.Small(1, 60))
				piece := append([]byte(nil), b[i:j]...)
				at := r.N(len(b) + 1)
				b = append(b[:at:at], append(piece, b[at:]...)...)
			case 6:
				if len(b) > 0 && r.P(2) {
					b = b[:r.N(len(b))]
				}
			}
		}
		if r.P(6) {
			b = append([]byte(pick(r, fuzzHeads)), b...)
		}
		f.Blocks = []Bytes{b}
	}
}

func genFuzz(bin string, r *Rng) *Case {
	cfg := defCfg(r)
	cfg.Errors = pick(r, []int{0, 0, 1, 3})
	cfg.Periodic = pick(r, []int{0, 20, 50})
	g := newG(r, cfg)
	w := g.world()
	damage(r, w, r.Small(0, 8))
	if r.P(12) {
		b := make([]byte, r.Small(0, 5000))
		for i := range b {
			b[i] = byte(r.U())
		}
		w.Files[0].Blocks = []Bytes{b}
	}
	if r.P(30) {
		t, n := pick(r, []string{"a", " ", "\t", "0", ":", "include ", "é", ";"}), r.In(4000, 200000)
		if t == ":" {
			n /= 100 // every level of an account costs its full name
		}
		w.Files[0].Blocks = append(w.Files[0].Blocks, Bytes(strings.Repeat(t, n)))
	}
	c := &Case{Prop: "C06", Kind: "fuzz", World: *w, Runs: runsOf(r, g, w, QCfg{Filters: 30, Dates: 15, Current: 10}, 1, 40)}
	x := &c.Runs[0]
	if r.P(3) {
		extra := []string{"", " ", "@", "=", "(", "[", "*", "\\", "(?P<", "a{1,99999}", "--flatten", "--collapse", "--show-zero", "-x", "--begin=", "--begin=/", "--begin=2020", "--end=99/99", "--end=1/1/1/1", "--begin=-", "--begin=.", "--end=0000", "--end=9999/12/31", "--current", "--help", "--", "-f", "--file=", "--nosuch", "é", "@é", "=(", "\x01", "--begin=2020/02/30", "--end=-2020", "2020", "--current=maybe", "-c", "-FZC", "help", "completion"}
		for n := r.Small(1, 3); n > 0; n-- {
			k := r.N(len(x.Args) + 1)
			x.Args = append(x.Args[:k:k], append([]string{pick(r, extra)}, x.Args[k:]...)...)
		}
	}
	if r.P(20) {
		w.Root = pick(r, []string{"", "/", ".", "..", "nosuch", "/sim", "main.j/x", strings.Repeat("x", 5000), "a\x01b"})
	}
	if r.P(8) {
		for n := r.Small(1, 3); n > 0; n-- {
			op := pick(r, []int{opOpen, opRead, opWrite, opClose, opWriteErr})
			x.Faults = append(x.Faults, Fault{Op: op, N: r.Small(1, 8), Errno: pick(r, []int{2, 4, 5, 12, 13, 24, 28, r.lasting()}), Sticky: r.P(4)})
			// an interrupted call which is interrupted for ever may be retried for ever
			if l := &x.Faults[len(x.Faults)-1]; l.Errno == 4 {
				l.Sticky = false
			}
		}
	}
	if r.P(10) {
		for n := r.Small(1, 3); n > 0; n-- {
			f := pick(r, w.Files)
			x.Edits = append(x.Edits, Edit{Step: r.In(1, 20), Kind: r.In(1, 5), Path: f.Path, Num: int64(r.N(200)), Data: Bytes(pick(r, fuzzTokens))})
		}
	}
	if r.P(10) {
		x.FdLimit = r.In(0, 3)
	}
	return c
}
