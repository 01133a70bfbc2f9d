package main

import (
	"bytes"
	"strings"
	"time"
)

// outOfTime ends the search for a smaller case.
type outOfTime struct{}

// shrink looks for a smaller case which violates in the same way.
func shrink(bin string, c *Case, v *Violation, limit time.Duration) (best *Case, bv *Violation, tried int) {
	deadline := time.Now().Add(limit)
	best, bv = c.Clone(), v
	try := func(d *Case) bool {
		if time.Now().After(deadline) {
			panic(outOfTime{})
		}
		tried++
		w, _ := checkCase(bin, d)
		if w != nil && w.Class == v.Class {
			best, bv = d, w
			return true
		}
		return false
	}
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(outOfTime); !ok {
				panic(p)
			}
		}
	}()
	for pass := 0; pass < 8; pass++ {
		before := string(mustJSON(best))
		shrinkRuns(&best, try)
		shrinkWorld(&best, try)
		if string(mustJSON(best)) == before || time.Now().After(deadline) {
			break
		}
	}
	return best, bv, tried
}

func shrinkRuns(best **Case, try func(*Case) bool) {
	// fewer runs, where their number has no meaning
	if k := (*best).Kind; k == "judge" || k == "same" || k == "fuzz" || k == "output" || k == "kill" {
		for i := len((*best).Runs) - 1; i >= 0 && len((*best).Runs) > 1; i-- {
			d := (*best).Clone()
			d.Runs = append(d.Runs[:i:i], d.Runs[i+1:]...)
			try(d)
		}
	}
	each := func(f func(r *Run) bool) {
		d := (*best).Clone()
		ch := false
		for i := range d.Runs {
			ch = f(&d.Runs[i]) || ch
		}
		if ch && try(d) {
			return
		}
		for i := range (*best).Runs {
			d := (*best).Clone()
			if f(&d.Runs[i]) {
				try(d)
			}
		}
	}
	for i := range (*best).Runs {
		for k := len((*best).Runs[i].Faults) - 1; k >= 0; k-- {
			d := (*best).Clone()
			f := d.Runs[i].Faults
			d.Runs[i].Faults = append(f[:k:k], f[k+1:]...)
			try(d)
		}
		for k := len((*best).Runs[i].Edits) - 1; k >= 0; k-- {
			d := (*best).Clone()
			f := d.Runs[i].Edits
			d.Runs[i].Edits = append(f[:k:k], f[k+1:]...)
			try(d)
		}
	}
	each(func(r *Run) bool { ch := r.RMode != 0; r.RMode, r.RK, r.RSeed = 0, 0, 0; return ch })
	each(func(r *Run) bool {
		if r.RMode != 2 {
			return false
		}
		r.RMode, r.RSeed = 1, 0
		return true
	})
	each(func(r *Run) bool { ch := r.WMode != 0; r.WMode, r.WK, r.WSeed = 0, 0, 0; return ch })
	each(func(r *Run) bool {
		ch := r.LatOpen != 0 || r.LatRead != 0 || r.LatWrite != 0
		r.LatOpen, r.LatRead, r.LatWrite = 0, 0, 0
		return ch
	})
	each(func(r *Run) bool { ch := r.Nsec != 0; r.Nsec = 0; return ch })
	each(func(r *Run) bool { ch := r.TZ != "UTC"; r.TZ = "UTC"; return ch })
	each(func(r *Run) bool { ch := r.Now != 1600000000; r.Now = 1600000000; return ch })
	each(func(r *Run) bool { ch := r.MapSeed != 1; r.MapSeed = 1; return ch })
	each(func(r *Run) bool { ch := r.UseEnv; r.UseEnv = false; return ch })
	each(func(r *Run) bool { ch := r.TZForm != 0; r.TZForm = 0; return ch })
	each(func(r *Run) bool { ch := r.Env != 0; r.Env = 0; return ch })
	each(func(r *Run) bool { ch := len(r.Vars) > 0; r.Vars = nil; return ch })
	each(func(r *Run) bool { ch := r.Spell != 0; r.Spell = 0; return ch })
	each(func(r *Run) bool { ch := r.FdLimit != 256; r.FdLimit = 256; return ch })
	// arguments, the same one in every run
	for k := 12; k >= 1; k-- {
		each(func(r *Run) bool {
			if k >= len(r.Args) {
				return false
			}
			r.Args = append(r.Args[:k:k], r.Args[k+1:]...)
			return true
		})
	}
}

func shrinkWorld(best **Case, try func(*Case) bool) {
	for i := len((*best).World.Files) - 1; i >= 1; i-- {
		d := (*best).Clone()
		d.World.Files = append(d.World.Files[:i:i], d.World.Files[i+1:]...)
		try(d)
	}
	for i := range (*best).World.Files {
		if f := &(*best).World.Files[i]; f.Pipe || f.Sym {
			d := (*best).Clone()
			d.World.Files[i].Pipe, d.World.Files[i].Sym = false, false
			try(d)
		}
	}
	for i := range (*best).World.Files {
		// chunks of blocks, then blocks of lines
		shrinkList(best, try, len((*best).World.Files[i].Blocks), func(d *Case, lo, hi int) {
			f := &d.World.Files[i]
			f.Blocks = append(f.Blocks[:lo:lo], f.Blocks[hi:]...)
		})
		if len((*best).World.Files[i].Blocks) > 0 {
			d := (*best).Clone()
			f := &d.World.Files[i]
			f.Blocks = splitLines(f.Content())
			if len(f.Blocks) <= 400 {
				*best = d // the same bytes
				shrinkList(best, try, len(f.Blocks), func(d *Case, lo, hi int) {
					f := &d.World.Files[i]
					f.Blocks = append(f.Blocks[:lo:lo], f.Blocks[hi:]...)
				})
			}
		}
		// shorter lines
		for k := range (*best).World.Files[i].Blocks {
			for _, cut := range []int{2, 4, 16, 64} {
				b := (*best).World.Files[i].Blocks[k]
				if len(b) < 12*cut/2 {
					continue
				}
				step := len(b) / cut
				if step > 0 && len(b) > 24 {
					for at := 4; at+step < len(b)-1; at += step {
						d := (*best).Clone()
						nb := append(Bytes(nil), b[:at]...)
						d.World.Files[i].Blocks[k] = append(nb, b[at+step:]...)
						if try(d) {
							break
						}
					}
				}
			}
		}
	}
}

func splitLines(b []byte) []Bytes {
	var out []Bytes
	for len(b) > 0 {
		i := bytes.IndexByte(b, '\n') + 1
		if i == 0 {
			i = len(b)
		}
		out = append(out, Bytes(b[:i:i]))
		b = b[i:]
	}
	return out
}

func shrinkList(best **Case, try func(*Case) bool, n int, cut func(d *Case, lo, hi int)) {
	for size := n; size >= 1; size /= 2 {
		for lo := 0; lo < n; {
			hi := min(n, lo+size)
			d := (*best).Clone()
			cut(d, lo, hi)
			if try(d) {
				n -= hi - lo
			} else {
				lo = hi
			}
		}
	}
}

var _ = strings.TrimSpace
