package main

// Builds gledger from /repo against a patched copy of three files of the Go
// standard library (package syscall, time and runtime), so that the real
// program runs against the simulated kernel, clock and randomness of
// overlay/glsim_syscall.go. Nothing in /repo changes.

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

type patch struct {
	file string // relative to GOROOT/src
	subs [][2]string
}

// hook sends a system call to the simulated kernel, at whose door the
// scheduler may turn to another goroutine, and inside of which it does not.
func hook(sig, results, call string) [2]string {
	body := "\t\tglsimEnter()\n\t\t" + results + " := " + call + "\n\t\tglsimLeave()\n"
	if k := strings.LastIndex(results, ", ok"); k >= 0 {
		body += "\t\tif ok {\n\t\t\treturn " + results[:k] + "\n\t\t}"
	} else {
		body += "\t\treturn " + results
	}
	return [2]string{sig, sig + "\n\tif GlsimOn {\n" + body + "\n\t}"}
}

var patches = []patch{
	{"syscall/zsyscall_linux_amd64.go", [][2]string{
		hook("func openat(dirfd int, path string, flags int, mode uint32) (fd int, err error) {",
			"r, e, ok", "glsimOpen(dirfd, path, flags)"),
		hook("func read(fd int, p []byte) (n int, err error) {",
			"r, e, ok", "glsimRead(fd, p, -1)"),
		hook("func pread(fd int, p []byte, offset int64) (n int, err error) {",
			"r, e, ok", "glsimRead(fd, p, offset)"),
		hook("func write(fd int, p []byte) (n int, err error) {",
			"r, e, ok", "glsimWrite(fd, p)"),
		hook("func Close(fd int) (err error) {",
			"e, ok", "glsimClose(fd)"),
		hook("func Fstat(fd int, stat *Stat_t) (err error) {",
			"e, ok", "glsimFstat(fd, stat)"),
		hook("func fstatat(fd int, path string, stat *Stat_t, flags int) (err error) {",
			"e, ok", "glsimFstatat(fd, path, stat, flags)"),
		hook("func readlinkat(dirfd int, path string, buf []byte) (n int, err error) {",
			"r, e", "glsimReadlink(dirfd, path, buf)"),
		hook("func Seek(fd int, offset int64, whence int) (off int64, err error) {",
			"r, e, ok", "glsimSeek(fd, offset, whence)"),
		hook("func Getcwd(buf []byte) (n int, err error) {",
			"r, e", "copy(buf, glsim.cwd+\"\\x00\"), error(nil)"),
		hook("func Getdents(fd int, buf []byte) (n int, err error) {",
			"r, e, ok", "glsimGetdents(fd, buf)"),
	}},
	{"syscall/syscall_linux.go", [][2]string{
		{"func RawSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {",
			"func RawSyscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n\tif glsimRefuse(trap) {\n\t\treturn ^uintptr(0), 0, EPERM\n\t}"},
	}},
	{"syscall/exec_unix.go", [][2]string{
		{"func forkExec(argv0 string, argv []string, attr *ProcAttr) (pid int, err error) {",
			"func forkExec(argv0 string, argv []string, attr *ProcAttr) (pid int, err error) {\n\tif GlsimOn {\n\t\tGlsimEffect(\"exec \" + argv0)\n\t\treturn 0, EPERM\n\t}"},
	}},
	{"time/time.go", [][2]string{
		{"//go:linkname runtimeNow\nfunc runtimeNow() (sec int64, nsec int32, mono int64)",
			"//go:linkname runtimeNow\nfunc runtimeNow() (sec int64, nsec int32, mono int64)\n\nfunc glsimNow() (sec int64, nsec int32, mono int64) {\n\tif syscall.GlsimOn {\n\t\treturn syscall.GlsimTime(true)\n\t}\n\treturn runtimeNow()\n}\n\nfunc glsimNano() int64 {\n\tif syscall.GlsimOn {\n\t\t_, _, m := syscall.GlsimTime(false)\n\t\treturn m\n\t}\n\treturn runtimeNano()\n}"},
		{"	sec, nsec, mono := runtimeNow()\n	if mono == 0 {", "	sec, nsec, mono := glsimNow()\n	if mono == 0 {"},
		{"subMono(runtimeNano()-startNano, t.ext)", "subMono(glsimNano()-startNano, t.ext)"},
		{"subMono(t.ext, runtimeNano()-startNano)", "subMono(t.ext, glsimNano()-startNano)"},
		{"var startNano int64 = runtimeNano() - 1", "var startNano int64 = glsimNano() - 1"},
		{"import (\n", "import (\n\t\"syscall\"\n"},
	}},
	{"time/zoneinfo_read.go", [][2]string{
		{"	sec, _, _ := runtimeNow()", "	sec, _, _ := glsimNow()"},
	}},
	{"runtime/rand.go", [][2]string{
		{"	globalRand.state.Init(*seed)\n	clear(seed[:])",
			"	glsimSeed()\n	if glsimRandOn {\n		for i := range seed {\n			seed[i] = byte(glsimNext() >> 11)\n		}\n	}\n	globalRand.state.Init(*seed)\n	clear(seed[:])"},
		{"func rand() uint64 {\n", "func rand() uint64 {\n	if glsimRandOn {\n		return glsimNext()\n	}\n	return glsimRealRand()\n}\n\nfunc glsimRealRand() uint64 {\n"},
		{"	mp.cheaprand = uint32(rand())\n	mp.cheaprand64 = rand()", "	mp.cheaprand = uint32(glsimCheap(mp.id))\n	mp.cheaprand64 = glsimCheap(mp.id + 1000)"},
		{"func allZero(b []byte) bool {", `// glsim: one deterministic stream for everything the program draws.
var glsimRandOn bool
var glsimRandState uint64

//go:nosplit
func glsimNext() uint64 {
	glsimRandState += 0x9e3779b97f4a7c15
	z := glsimRandState
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

// glsimCheap seeds what a thread draws (select, scheduling) without touching
// the stream above: how many threads there are is not up to the program.
func glsimCheap(id int64) uint64 {
	if !glsimRandOn {
		return glsimRealRand()
	}
	z := glsimSeedValue + uint64(id)*0x9e3779b97f4a7c15 + 1
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	return (z ^ z>>27) | 1
}

var glsimSeedValue uint64

// Which goroutine runs, when there are several, is drawn as well, from a
// stream of its own: small seeds leave the order as it is.
var (
	glsimSchedOn   bool
	glsimSchedRand uint64
	glsimGap       uint64 // allocations between preemptions, 0 if there are none
	glsimLeft      uint64
	glsimBusy      int // in the simulated kernel
	glsimCPUs      = 4
	glsimSwitches  uint64
)

func glsimPlan(seed uint64) {
	if seed < 16 {
		return
	}
	z := (seed ^ seed>>29) * 0xbf58476d1ce4e5b9
	z ^= z >> 32
	glsimSchedRand = z | 1
	glsimCPUs = int(1 + z>>8%8)
	switch z % 5 {
	case 0:
		return
	case 1:
	case 2:
		glsimGap = 1000
	case 3:
		glsimGap = 100
	case 4:
		glsimGap = 8
	}
	glsimSchedOn = true
	glsimLeft = glsimGap
}

//go:nosplit
func glsimDraw() uint64 {
	glsimSchedRand ^= glsimSchedRand << 13
	glsimSchedRand ^= glsimSchedRand >> 7
	glsimSchedRand ^= glsimSchedRand << 17
	return glsimSchedRand >> 11
}

// glsimTick is called at allocations and may have the goroutine preempted.
//
//go:nosplit
func glsimTick() {
	if glsimGap == 0 || glsimBusy != 0 {
		return
	}
	gp := getg()
	if gp != gp.m.curg || gp.m.locks != 0 || gp.m.mallocing != 0 {
		return
	}
	if glsimLeft--; glsimLeft == 0 {
		glsimLeft = 1 + glsimDraw()%(2*glsimGap)
		glsimSwitches++
		gp.stackguard0 = stackPreempt
	}
}

//go:linkname glsimEnter syscall.glsimEnter
func glsimEnter() {
	w := getg().m.p.ptr().timers.wakeTime()
	if w != 0 && w <= faketime || glsimSchedOn && glsimDraw()%3 == 0 {
		Gosched()
	}
	glsimBusy++
}

//go:linkname glsimLeave syscall.glsimLeave
func glsimLeave() {
	glsimBusy--
}

// The clock of the scheduler is simulated as well. It moves on with the
// system calls, and, when all wait for it, to what they wait for.
var glsimClock int64

//go:linkname glsimAdvance syscall.glsimAdvance
func glsimAdvance(ns int64) {
	faketime += ns
	glsimClock += ns
}

//go:linkname glsimDrift syscall.glsimDrift
func glsimDrift() int64 {
	d := faketime - glsimClock
	glsimClock = faketime
	return d
}

func glsimSeed() {
	for n := int32(0); ; n++ {
		p := argv_index(argv, argc+1+n)
		if p == nil {
			return
		}
		s := gostringnocopy(p)
		if len(s) > 6 && s[:6] == "GLSIM=" {
			var v uint64
			for i := 6; i < len(s); i++ {
				v = v*10 + uint64(s[i]-'0')
			}
			glsimRandState = v
			glsimSeedValue = v
			glsimRandOn = true
			faketime, glsimClock = 1<<50, 1<<50
			glsimPlan(v)
			return
		}
	}
}

func allZero(b []byte) bool {`},
	}},
	{"runtime/proc.go", [][2]string{
		// no goroutine is taken off because of the time it has run
		{"func retake(now int64) uint32 {\n", "func retake(now int64) uint32 {\n	if glsimRandOn {\n		return 0\n	}\n"},
		{"const randomizeScheduler = raceenabled", "const glsimRandomize = true"},
		{"if randomizeScheduler && next && randn(2) == 0 {", "if glsimSchedOn && next && glsimDraw()%2 == 0 {"},
		{"	if randomizeScheduler {\n", "	if glsimSchedOn {\n"},
		{"	if randomizeScheduler {\n", "	if glsimSchedOn {\n"},
		{"			j := cheaprandn(i + 1)\n", "			j := uint32(glsimDraw() % uint64(i+1))\n"},
		{"			j := cheaprandn(i + 1)\n", "			j := uint32(glsimDraw() % uint64(i+1))\n"},
		{"		maxstacksize = 1000000000\n", "		maxstacksize = 1000000000\n		if glsimRandOn {\n			maxstacksize = 64 << 20\n		}\n"},
	}},
	{"runtime/malloc.go", [][2]string{
		{"func mallocgc(size uintptr, typ *_type, needzero bool) unsafe.Pointer {\n", "func mallocgc(size uintptr, typ *_type, needzero bool) unsafe.Pointer {\n	glsimTick()\n"},
	}},
	{"runtime/chan.go", [][2]string{
		{"func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n", "func chansend(c *hchan, ep unsafe.Pointer, block bool, callerpc uintptr) bool {\n	glsimTick()\n"},
		{"func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n", "func chanrecv(c *hchan, ep unsafe.Pointer, block bool) (selected, received bool) {\n	glsimTick()\n"},
	}},
	{"runtime/debug.go", [][2]string{
		{"	return int(numCPUStartup)\n", "	if glsimRandOn {\n		return glsimCPUs\n	}\n	return int(numCPUStartup)\n"},
		{"	if n <= 0 {\n		unlock(&sched.lock)\n		return ret\n", "	if glsimRandOn { // there is one, whatever the program asks for\n		unlock(&sched.lock)\n		return glsimCPUs\n	}\n	if n <= 0 {\n		unlock(&sched.lock)\n		return ret\n"},
	}},
	{"runtime/sema.go", [][2]string{
		{"func internal_sync_nanotime() int64 {\n", "func internal_sync_nanotime() int64 {\n	if glsimRandOn {\n		return 1\n	}\n"},
	}},
	{"runtime/time_nofake.go", [][2]string{
		{"func nanotime() int64 {\n", "func nanotime() int64 {\n	if faketime != 0 {\n		return faketime\n	}\n"},
	}},
}

func goEnv() []string {
	var env []string
	for _, kv := range os.Environ() {
		switch strings.SplitN(kv, "=", 2)[0] {
		case "GOFLAGS", "GOPROXY", "CGO_ENABLED", "GOTOOLCHAIN", "GOOS", "GOARCH", "GOWORK", "GOEXPERIMENT", "PWD", "GOAMD64", "GOCACHE":
			continue
		}
		env = append(env, kv)
	}
	return append(env, "GOFLAGS=", "GOPROXY=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local", "GOWORK=off", "GOEXPERIMENT=nosizespecializedmalloc", "GOCACHE="+filepath.Join(buildDir, "gocache"))
}

func goTool(dir string, args ...string) (string, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	return strings.TrimSpace(string(out)), err
}

// writeWhole writes a file so that whoever reads it meanwhile finds it whole.
func writeWhole(name string, b []byte) error {
	f, err := os.CreateTemp(filepath.Dir(name), "w-")
	if err != nil {
		return err
	}
	if _, err = f.Write(b); err == nil {
		err = f.Close()
	}
	if err == nil {
		err = os.Rename(f.Name(), name)
	}
	if err != nil {
		os.Remove(f.Name())
	}
	return err
}

// buildSim builds the simulated gledger from repo and returns its path.
func buildSim(repo string) (string, error) {
	start := time.Now()
	if err := os.MkdirAll(filepath.Join(buildDir, "overlay"), 0755); err != nil {
		return "", err
	}
	goroot, err := goTool("/", "env", "GOROOT")
	if err != nil {
		return "", fmt.Errorf("go env GOROOT: %v %s", err, goroot)
	}
	replace := map[string]string{
		filepath.Join(goroot, "src/syscall/glsim_syscall.go"): filepath.Join(simDir, "overlay/glsim_syscall.go"),
	}
	for _, p := range patches {
		src := filepath.Join(goroot, "src", p.file)
		b, err := os.ReadFile(src)
		if err != nil {
			return "", err
		}
		s := string(b)
		for _, sub := range p.subs {
			if strings.Count(s, sub[0]) < 1 {
				return "", fmt.Errorf("%s: the Go distribution has changed: %q not found", p.file, sub[0])
			}
			s = strings.Replace(s, sub[0], sub[1], 1)
		}
		dst := filepath.Join(buildDir, "overlay", strings.ReplaceAll(p.file, "/", "_"))
		if old, err := os.ReadFile(dst); err != nil || string(old) != s {
			if err := writeWhole(dst, []byte(s)); err != nil {
				return "", err
			}
		}
		replace[src] = dst
	}
	oj, _ := json.MarshalIndent(map[string]any{"Replace": replace}, "", " ")
	overlay := filepath.Join(buildDir, "overlay.json")
	if err := writeWhole(overlay, oj); err != nil {
		return "", err
	}
	tmp, err := os.MkdirTemp(buildDir, "sim-")
	if err != nil {
		return "", err
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			return "", err
		}
		if err := os.WriteFile(filepath.Join(tmp, f), b, 0644); err != nil {
			return "", err
		}
	}
	bin := filepath.Join(tmp, "gledger-sim")
	out, err := goTool(repo, "build", "-mod=mod", "-modfile="+filepath.Join(tmp, "go.mod"), "-overlay="+overlay, "-buildvcs=false", "-o", bin, ".")
	if err != nil {
		os.RemoveAll(tmp)
		return "", fmt.Errorf("building %s for simulation: %v\n%s", repo, err, out)
	}
	buildTime = time.Since(start)
	return bin, nil
}

var buildTime time.Duration
