package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

var (
	simDir   string
	buildDir string
	rootDir  string
)

func setDirs() {
	rootDir = os.Getenv("GLSIM_ROOT")
	if rootDir == "" {
		rootDir = "/verif"
	}
	simDir = filepath.Join(rootDir, "sim")
	buildDir = filepath.Join(rootDir, ".build")
}

// Replay is what a replay file holds.
type Replay struct {
	Property  string    `json:"property"`
	Seed      uint64    `json:"seed"`
	Index     int       `json:"index"`
	Violation Violation `json:"violation"`
	Original  *Case     `json:"original_case,omitempty"`
	Case      *Case     `json:"case"`
}

type Found struct {
	index int
	c     *Case
	v     *Violation
}

func caseSeed(seed uint64, prop string, i int) uint64 { return hash64(prop, seed, i) }

type Sample struct {
	Index int      `json:"index"`
	Kind  string   `json:"kind"`
	Files int      `json:"files"`
	Bytes int      `json:"bytes"`
	Head  string   `json:"root_file_begins"`
	Runs  []Run    `json:"runs"`
	Faces []string `json:"outcomes,omitempty"`
}

func fatal(code int, format string, args ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", args...)
	os.Exit(code)
}

// guard turns harness failures into error exits, never into violations.
func guard() {
	if e := recover(); e != nil {
		if h, ok := e.(HarnessError); ok {
			fatal(3, "harness error: %s", h.msg)
		}
		panic(e)
	}
}

// dump prints each case before it runs.
var dump bool

func main() {
	setDirs()
	if len(os.Args) < 2 {
		fatal(2, "usage: glsim check|replay|selftest …")
	}
	fl := flag.NewFlagSet("glsim", flag.ExitOnError)
	prop := fl.String("prop", "", "property")
	repo := fl.String("repo", "/repo", "tree to check")
	seedF := fl.String("seed", os.Getenv("VERIF_SEED"), "seed")
	tier := fl.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	cases := fl.Int("cases", 0, "number of cases (0: the tier's)")
	secs := fl.Int("secs", 0, "time limit")
	workers := fl.Int("workers", runtime.NumCPU(), "workers")
	from := fl.Int("from", 0, "first case")
	fl.BoolVar(&dump, "dump", false, "print each case before it runs")
	keep := fl.Bool("keep-going", false, "count violations by class instead of stopping")
	fl.Parse(os.Args[2:])
	seed := uint64(1)
	if *seedF != "" {
		if n, err := strconv.ParseUint(*seedF, 10, 64); err == nil {
			seed = n
		} else {
			seed = hash64(*seedF)
		}
	}
	if *tier == "" {
		*tier = "quick"
	}
	defer guard()
	debug.SetGCPercent(50)
	switch os.Args[1] {
	case "build":
		bin, err := buildSim(*repo)
		if err != nil {
			fatal(3, "%v", err)
		}
		os.RemoveAll(filepath.Dir(bin))
	case "sweep":
		os.Exit(sweep(fl.Args(), *repo, seed, *cases, *workers))
	case "check":
		p := props[*prop]
		if p == nil {
			fatal(2, "no such property: %q", *prop)
		}
		os.Exit(runCheck(p, *repo, *tier, seed, *from, *cases, *secs, *workers, *keep))
	case "replay":
		if fl.NArg() != 1 {
			fatal(2, "usage: glsim replay FILE")
		}
		os.Exit(runReplay(*repo, fl.Arg(0), true))
	case "literals":
		printLiterals(*repo)
	case "hints":
		h := loadHints(*repo)
		if h != nil {
			fmt.Printf("words %q\nnames %q\nvariables %q\nnumbers %d\n", h.Words, h.Names, h.Vars, h.Nums)
		}
	case "selftest":
		os.Exit(selftest(*repo, seed, *cases))
	default:
		fatal(2, "unknown command %q", os.Args[1])
	}
}

func runCheck(p *Prop, repo, tier string, seed uint64, from, cases, secs, workers int, keep bool) int {
	start := time.Now()
	fmt.Printf("property %s tier %s seed %d\n", p.ID, tier, seed)
	hints = loadHints(repo)
	bin, err := buildSim(repo)
	if err != nil {
		fatal(3, "%v", err)
	}
	cleanup := func() { os.RemoveAll(filepath.Dir(bin)) }
	defer cleanup()
	if cases == 0 {
		cases = p.Quick
		if tier == "thorough" {
			cases = 1 << 40
		}
	}
	if secs == 0 {
		secs = 100
		if tier == "thorough" {
			secs = 1000
		}
	}
	deadline := time.Now().Add(time.Duration(secs) * time.Second)
	var next atomic.Int64
	next.Store(int64(from))
	var stop, abandoned atomic.Bool
	var mu sync.Mutex
	var found []Found
	var done, full int64
	classes := map[string]int{}
	var wg sync.WaitGroup
	var harness error
	var samples []Sample
	flaky := 0
	for k := 0; k < workers; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					stop.Store(true)
					mu.Lock()
					if h, ok := e.(HarnessError); ok {
						harness = h
					} else {
						harness = fmt.Errorf("%v\n%s", e, stack())
					}
					mu.Unlock()
				}
			}()
			for !stop.Load() {
				i := int(next.Add(1) - 1)
				if i >= from+cases || time.Now().After(deadline) {
					return
				}
				c := p.generate(bin, seed, i)
				if dump {
					j, _ := json.MarshalIndent(c, "", " ")
					os.Stdout.Write(append(j, '\n'))
				}
				v, f := checkCase(bin, c)
				if abandoned.Load() {
					return
				}
				if v != nil && !keep {
					// only what repeats is reported
					if w, _ := checkCase(bin, c); w == nil || w.Class != v.Class {
						fmt.Fprintf(os.Stderr, "case %d does not repeat: %s: %s\n", i, v.Class, v.Msg)
						mu.Lock()
						flaky++
						if flaky > 40 {
							stop.Store(true)
						}
						mu.Unlock()
						v = nil
					}
				}
				mu.Lock()
				if abandoned.Load() {
					mu.Unlock()
					return
				}
				done++
				if f {
					full++
				}
				if i-from < 3 || (v != nil && len(samples) < 6) {
					samples = append(samples, sampleOf(i, c))
				}
				if v != nil {
					if keep {
						classes[v.Class]++
						if classes[v.Class] <= 3 {
							fmt.Printf("case %d: %s: %s\n", i, v.Class, v.Msg)
						}
					} else {
						found = append(found, Found{i, c, v})
						stop.Store(true)
					}
				}
				mu.Unlock()
			}
		}()
	}
	// a case which takes minutes to judge is not waited for
	finished := make(chan struct{})
	go func() { wg.Wait(); close(finished) }()
	var since time.Time
wait:
	for {
		select {
		case <-finished:
			break wait
		case <-time.After(time.Second):
		}
		if since.IsZero() && (stop.Load() || time.Now().After(deadline)) {
			since = time.Now()
		}
		if !since.IsZero() && time.Since(since) > 3*time.Minute {
			mu.Lock()
			abandoned.Store(true)
			mu.Unlock()
			fmt.Fprintln(os.Stderr, "cases were left unfinished")
			break
		}
	}
	explored := time.Since(start)
	if harness != nil {
		cleanup()
		fatal(3, "harness error: %v", harness)
	}
	if keep {
		fmt.Println(done, "cases", full, "compared in full", classes)
		return 0
	}
	if n := mishaps.Load(); len(found) == 0 && n > 3 && n*1000 > done {
		cleanup()
		fatal(3, "harness error: %d cases of %d could not be made or judged", n, done)
	}
	ev := evidence(p, tier, seed, done, full, explored, samples)
	if len(found) == 0 && flaky > 0 {
		cleanup()
		fatal(3, "harness error: %d failures did not repeat", flaky)
	}
	if len(found) == 0 {
		writeEvidence(p.ID, ev, start, 0)
		fmt.Printf("held on %d simulated scenarios (%d runs) in %.1f s\n", done, counters.Runs.Load(), time.Since(start).Seconds())
		return 0
	}
	sort.Slice(found, func(i, j int) bool { return found[i].index < found[j].index })
	f := found[0]
	limit := 25 * time.Second
	if tier == "thorough" {
		limit = 90 * time.Second
	}
	sc, sv, tried := shrink(bin, f.c, f.v, limit)
	out := filepath.Join(rootDir, "out")
	os.MkdirAll(out, 0755)
	path := filepath.Join(out, fmt.Sprintf("%s-%d-%d.json", p.ID, seed, f.index))
	// the file holds what a run of it shows: at worst, of the case as it was generated
	v, _ := checkCase(bin, sc)
	if v == nil || v.Class != sv.Class {
		if sc = f.c; sc != nil {
			v, _ = checkCase(bin, sc)
		}
	}
	if v == nil {
		cleanup()
		fatal(3, "harness error: the case does not repeat: %v", sv)
	}
	sv = v
	rp := Replay{Property: p.ID, Seed: seed, Index: f.index, Violation: *sv, Case: sc, Original: f.c}
	if err := os.WriteFile(path, mustJSON(rp), 0644); err != nil {
		cleanup()
		fatal(3, "%v", err)
	}
	ev["minimisation_runs"] = tried
	writeEvidence(p.ID, ev, start, 1)
	fmt.Printf("case %d: %s: %s\nminimised: %s: %s\n", f.index, f.v.Class, f.v.Msg, sv.Class, sv.Msg)
	describe(sc)
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	return 1
}

// sweep builds once and runs cases of several properties until one fails: for
// trying many changed programs.
func sweep(ids []string, repo string, seed uint64, cases, workers int) int {
	bin, err := buildSim(repo)
	if err != nil {
		fatal(3, "%v", err)
	}
	defer os.RemoveAll(filepath.Dir(bin))
	for _, id := range ids {
		p := props[id]
		var next atomic.Int64
		var hit atomic.Pointer[Found]
		var wg sync.WaitGroup
		for k := 0; k < workers; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						fmt.Println("HARNESS", id, e)
						next.Store(1 << 40)
					}
				}()
				for hit.Load() == nil {
					i := int(next.Add(1) - 1)
					if i >= cases {
						return
					}
					c := p.generate(bin, seed, i)
					if v, _ := checkCase(bin, c); v != nil {
						hit.Store(&Found{i, c, v})
					}
				}
			}()
		}
		wg.Wait()
		if f := hit.Load(); f != nil {
			fmt.Printf("KILLED %s %d %s: %s\n", id, f.index, f.v.Class, clip([]byte(f.v.Msg), 150))
			return 1
		}
	}
	fmt.Println("SURVIVED")
	return 0
}

func describe(c *Case) {
	for _, f := range c.World.Files {
		fmt.Printf("--- %s\n%s\n", f.Path, clip(f.Content(), 1500))
	}
	for _, r := range c.Runs {
		b, _ := json.Marshal(r)
		fmt.Printf("run on %s: %s\n", c.World.Root, clip(b, 1200))
	}
}

func sampleOf(i int, c *Case) Sample {
	s := Sample{Index: i, Kind: c.Kind, Files: len(c.World.Files), Runs: c.Runs}
	for k := range c.World.Files {
		s.Bytes += len(c.World.Files[k].Content())
	}
	if len(c.World.Files) > 0 {
		s.Head = fmt.Sprintf("%q", clip(c.World.Files[0].Content(), 600))
	}
	return s
}

func evidence(p *Prop, tier string, seed uint64, done, full int64, wall time.Duration, samples []Sample) map[string]any {
	c := counters
	hours := (wall - buildTime).Hours()
	return map[string]any{
		"evaluations":                    done,
		"distinct_nontrivial":            len(c.Traces),
		"rule":                           p.Rule + ". Distinct and non-trivial: executions whose sequence of simulated system calls, faults and editor actions (operation, sizes, offsets, errors, paths) differs from every other one of this run",
		"samples":                        samples,
		"compared_with_model_in_full":    full,
		"mishaps_of_the_harness":         mishaps.Load(),
		"simulated_runs":                 c.Runs.Load(),
		"simulated_runs_per_hour":        int64(float64(c.Runs.Load()) / hours),
		"seeds":                          done,
		"seeds_per_hour":                 int64(float64(done) / hours),
		"base_seed":                      seed,
		"simulated_time_covered_seconds": float64(c.SimNs.Load()) / 1e9,
		"faults_injected_and_reached":    c.Faults,
		"distinct_traces":                len(c.Traces),
		"distinct_states":                len(c.States),
		"state_measure":                  "command, exit status and standard output of a run, hashed",
		"peak_cpu_seconds_of_a_run":      float64(c.PeakCPU.Load()) / 1e9,
		"runs_by_command":                c.Commands,
		"probes":                         c.Probes,
		"real_components":                []string{"gledger: all packages, built from the working tree", "cobra, pflag, humanize", "the Go standard library and runtime above the system call layer"},
		"simulated_components":           []string{"open, openat, read, pread, write, close, stat and lseek on every file but time zone data", "wall and monotonic clock, time zone", "runtime random numbers (hash map seeds and iteration order)", "the concurrent editor", "process kill"},
		"time_zone_data":                 "read from the real /usr/share/zoneinfo",
	}
}

func writeEvidence(id string, cov map[string]any, start time.Time, violations int) {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed := cov["base_seed"].(uint64) & (1<<62 - 1)
	e := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": violations,
		"assumptions": []string{"the reference model states what users rely on", "the simulated kernel behaves like Linux for the calls it handles (EINTR, short reads and writes, errors, unlinked and replaced files)", "the scheduler seam is one OS thread of Go code at a time: gledger has one goroutine"},
	}
	dir := filepath.Join(rootDir, "evidence")
	os.MkdirAll(dir, 0755)
	if err := os.WriteFile(filepath.Join(dir, id+".json"), mustJSON(e), 0644); err != nil {
		fatal(3, "%v", err)
	}
}

func runReplay(repo, file string, verbose bool) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal(2, "%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		fatal(2, "%s: %v", file, err)
	}
	bin, err := buildSim(repo)
	if err != nil {
		fatal(3, "%v", err)
	}
	defer os.RemoveAll(filepath.Dir(bin))
	v, _ := checkCase(bin, rp.Case)
	describe(rp.Case)
	if v == nil {
		fmt.Println("the property holds on this case")
		return 0
	}
	fmt.Printf("%s: %s\n", v.Class, v.Msg)
	if *v == rp.Violation {
		fmt.Println("exactly as recorded")
	} else {
		fmt.Printf("recorded was: %s: %s\n", rp.Violation.Class, rp.Violation.Msg)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, file)
	return 1
}
