package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"sync"
	"time"
)

func stack() []byte { return debug.Stack() }

func timeIn(sec int64, l *time.Location) time.Time { return time.Unix(sec, 0).In(l) }
func timeDate(y, m, d int, l *time.Location) int64 {
	return time.Date(y, time.Month(m), d, 0, 0, 0, 0, l).Unix()
}

// selftest executes many runs three times, with different numbers of
// workers, and compares everything they produced, traces included.
func selftest(repo string, seed uint64, n int) int {
	bin, err := buildSim(repo)
	if err != nil {
		fatal(3, "%v", err)
	}
	defer os.RemoveAll(filepath.Dir(bin))
	if n == 0 {
		n = 200
	}
	var ids []string
	for id := range props {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	type job struct {
		at string
		w  *World
		r  *Run
	}
	var jobs []job
	for _, id := range ids {
		for i := 0; i < n; i++ {
			c := props[id].generate(bin, seed, i)
			d := props[id].generate(bin, seed, i)
			if !bytes.Equal(mustJSON(c), mustJSON(d)) {
				fmt.Printf("%s case %d is not a function of its seed\n", id, i)
				return 1
			}
			for k := range c.Runs {
				jobs = append(jobs, job{fmt.Sprintf("%s case %d", id, i), &c.World, &c.Runs[k]})
			}
		}
	}
	sum := func(workers int) []uint64 {
		out := make([]uint64, len(jobs))
		var wg sync.WaitGroup
		for k := 0; k < workers; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := k; i < len(jobs); i += workers {
					res := execute(bin, jobs[i].w, jobs[i].r)
					out[i] = hash64(res.Exit, res.Signal, res.Stdout, res.Stderr, res.Trace)
				}
			}()
		}
		wg.Wait()
		return out
	}
	a, b, c := sum(1), sum(8), sum(24)
	bad := 0
	for i := range jobs {
		if a[i] != b[i] || a[i] != c[i] {
			bad++
			if bad < 5 {
				fmt.Printf("run %d (%s) is not repeatable: %s\n", i, jobs[i].at, mustJSON(jobs[i].r))
				size := 0
				for _, f := range jobs[i].w.Files {
					size += len(f.Content())
				}
				for k := 0; k < 3; k++ {
					res := execute(bin, jobs[i].w, jobs[i].r)
					fmt.Printf("  %d bytes of journal: exit %d signal %v stdout %x (%d) stderr %q trace %x (%d) in %v\n", size, res.Exit, res.Signal, hash64(res.Stdout), len(res.Stdout), res.Stderr, hash64(res.Trace), len(res.Trace), res.Wall)
				}
			}
		}
	}
	fmt.Printf("%d runs, each three times with 1, 8 and 24 workers: %d differ\n", len(jobs), bad)
	if bad > 0 {
		return 1
	}
	return 0
}
