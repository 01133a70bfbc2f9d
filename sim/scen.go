package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unicode/utf8"
	"unsafe"
)

// Bytes is text in JSON when it can be, base64 otherwise.
type Bytes []byte

func (b Bytes) MarshalJSON() ([]byte, error) {
	if utf8.Valid(b) {
		return json.Marshal(string(b))
	}
	return json.Marshal(map[string]string{"base64": base64.StdEncoding.EncodeToString(b)})
}

func (b *Bytes) UnmarshalJSON(j []byte) error {
	var s string
	if err := json.Unmarshal(j, &s); err == nil {
		*b = Bytes(s)
		return nil
	}
	var m map[string]string
	if err := json.Unmarshal(j, &m); err != nil {
		return err
	}
	d, err := base64.StdEncoding.DecodeString(m["base64"])
	*b = d
	return err
}

// File is one name in the simulated file system.
type File struct {
	Path   string  `json:"path"` // absolute, clean
	Dir    bool    `json:"dir,omitempty"`
	NoPerm bool    `json:"noperm,omitempty"`
	Pipe   bool    `json:"pipe,omitempty"` // a FIFO whose writer delivers the content to every reader
	Sym    bool    `json:"sym,omitempty"`  // a symbolic link to the file, which is called Path + ".real"
	Link   string  `json:"link,omitempty"` // hard link to another path
	Blocks []Bytes `json:"blocks"`
}

func (f *File) Content() []byte {
	var n int
	for _, b := range f.Blocks {
		n += len(b)
	}
	out := make([]byte, 0, n)
	for _, b := range f.Blocks {
		out = append(out, b...)
	}
	return out
}

type World struct {
	Root  string `json:"root"` // how the journal is named on the command line
	Files []File `json:"files"`
}

func (w *World) Find(path string) *File {
	for i := range w.Files {
		if w.Files[i].Path == path {
			return &w.Files[i]
		}
	}
	return nil
}

func (w *World) Clone() World {
	c := World{Root: w.Root, Files: append([]File(nil), w.Files...)}
	for i := range c.Files {
		c.Files[i].Blocks = append([]Bytes(nil), c.Files[i].Blocks...)
	}
	return c
}

const (
	opOpen = iota
	opRead
	opWrite
	opClose
	opStat
	opWriteErr // to standard error
)

type Fault struct {
	Op     int    `json:"op"`
	N      int    `json:"n"`
	Path   string `json:"path,omitempty"`
	Errno  int    `json:"errno,omitempty"`
	Cap    int    `json:"cap,omitempty"`
	Sticky bool   `json:"sticky,omitempty"`
}

const (
	edAppend   = 1
	edTruncate = 2
	edOverwr   = 3
	edReplace  = 4
	edUnlink   = 5
	edStall    = 6
	edWallJump = 7
)

type Edit struct {
	Step int    `json:"step"`
	Kind int    `json:"kind"`
	Path string `json:"path,omitempty"`
	Num  int64  `json:"num,omitempty"`
	Data Bytes  `json:"data,omitempty"`
}

// Run is one simulated execution of the program.
type Run struct {
	Args     []string `json:"args"`
	Spell    uint64   `json:"spell,omitempty"`   // says the same as Args in another way (cli.go)
	UseEnv   bool     `json:"use_env,omitempty"` // journal named by LEDGER_FILE instead of -f
	TZ       string   `json:"tz"`
	TZForm   int      `json:"tz_form,omitempty"` // how the zone is named: see zone
	Env      uint64   `json:"env,omitempty"`     // more environment variables, which mean nothing to gledger
	Vars     []string `json:"vars,omitempty"`    // and others
	Now      int64    `json:"now"`               // unix seconds
	Nsec     int64    `json:"nsec,omitempty"`
	LatOpen  int64    `json:"lat_open"`
	LatRead  int64    `json:"lat_read"`
	LatWrite int64    `json:"lat_write"`
	MapSeed  uint64   `json:"map_seed"`
	FdLimit  int      `json:"fd_limit"`
	Budget   int      `json:"budget"`
	KillStep int      `json:"kill_step,omitempty"`
	RMode    int      `json:"rmode,omitempty"`
	RK       int      `json:"rk,omitempty"`
	RSeed    uint64   `json:"rseed,omitempty"`
	WMode    int      `json:"wmode,omitempty"`
	WK       int      `json:"wk,omitempty"`
	WSeed    uint64   `json:"wseed,omitempty"`
	Faults   []Fault  `json:"faults,omitempty"`
	Edits    []Edit   `json:"edits,omitempty"`
}

func (r Run) Clone() Run {
	r.Args = append([]string(nil), r.Args...)
	r.Vars = append([]string(nil), r.Vars...)
	r.Faults = append([]Fault(nil), r.Faults...)
	r.Edits = append([]Edit(nil), r.Edits...)
	return r
}

const simCwd = "/sim"

// surroundings adds variables a program might look at, although nothing says
// that it does, to an environment or takes them from it.
func surroundings(seed uint64, env []string) []string {
	if seed == 0 {
		return env
	}
	r := NewRng(seed)
	values := [][]string{
		{"LANG", "en_US.UTF-8", "en_GB.UTF-8", "de_DE.UTF-8", "C", "POSIX", "sv_SE", "tr_TR.UTF-8", "", "-"},
		{"LC_ALL", "en_US.UTF-8", "de_DE.UTF-8", "C", "fr_FR.ISO-8859-1", ""},
		{"LC_COLLATE", "en_US.UTF-8", "C"}, {"LC_TIME", "en_US.UTF-8", "de_DE.UTF-8"}, {"LC_NUMERIC", "de_DE.UTF-8", "C"}, {"LC_MONETARY", "en_GB.UTF-8"},
		{"COLUMNS", "1", "20", "40", "59", "80", "132", "0", "-1", "x"}, {"LINES", "1", "24", "0"},
		{"TERM", "dumb", "xterm-256color", "vt100", ""}, {"NO_COLOR", "1", ""}, {"CLICOLOR_FORCE", "1"}, {"FORCE_COLOR", "1"},
		{"PAGER", "less", "cat", ""}, {"EDITOR", "vi"}, {"USER", "root", "me"}, {"LOGNAME", "me"}, {"HOSTNAME", "host"},
		{"HOME", "/home/me", "/", "", "-", "/nonexistent", "/data"}, {"TMPDIR", "/tmp", "/sim", "/nonexistent"},
		{"XDG_CONFIG_HOME", "/sim/.config"}, {"XDG_CACHE_HOME", "/sim/.cache"}, {"XDG_STATE_HOME", "/sim"},
		{"LEDGER", "/sim/decoy.journal"}, {"GLEDGER_FILE", "/sim/decoy.journal"}, {"HLEDGER_FILE", "/sim/decoy.journal"}, {"JOURNAL", "/sim/decoy.journal"},
		{"LEDGER_BEGIN", "2015"}, {"LEDGER_INIT", "/sim/decoy.journal"}, {"SOURCE_DATE_EPOCH", "0", "1000000000"}, {"FAKETIME", "2001-01-01"},
		{"DEBUG", "1"}, {"GLEDGER_DEBUG", "1"}, {"VERBOSE", "1"}, {"CI", "true"}, {"POSIXLY_CORRECT", "1"}, {"PWD", "/data", "", "-"}, {"SHELL", "/bin/zsh"},
	}
	for n := r.Small(1, 12); n > 0; n-- {
		v := pick(r, values)
		if r.P(3) {
			v = pick(r, [][]string{values[0], values[6], values[17], values[1]})
		}
		name, value := v[0]+"=", pick(r, v[1:])
		kept := env[:0:0]
		for _, e := range env {
			if !strings.HasPrefix(e, name) {
				kept = append(kept, e)
			}
		}
		env = kept
		if value != "-" {
			env = append(env, name+value)
		}
	}
	return env
}

// zone is what TZ is set to, if it is, to name the zone of the run.
func (r *Run) zone() (string, bool) {
	if r.TZ == "" || r.TZ == "UTC" {
		return r.TZ, true
	}
	switch r.TZForm {
	case 1:
		return ":" + r.TZ, true
	case 2:
		return "/usr/share/zoneinfo/" + r.TZ, true
	case 3:
		return ":/usr/share/zoneinfo/" + r.TZ, true
	case 4:
		return ":/etc/localtime", true
	case 5:
		return "", false
	}
	return r.TZ, true
}

// localtime is the file which /etc/localtime links to.
func (r *Run) localtime() string {
	if r.TZForm < 4 || r.TZ == "" || r.TZ == "UTC" {
		return ""
	}
	return "/usr/share/zoneinfo/" + r.TZ
}

func encodeScenario(w *World, r *Run) []byte {
	b := make([]byte, 0, 4096)
	u := func(v uint64) {
		for i := 0; i < 8; i++ {
			b = append(b, byte(v>>(8*i)))
		}
	}
	by := func(p []byte) { u(uint64(len(p))); b = append(b, p...) }
	u(0x31304d49534c47)
	u(uint64(r.Now))
	u(uint64(r.Nsec))
	u(uint64(r.LatOpen))
	u(uint64(r.LatRead))
	u(uint64(r.LatWrite))
	u(1000)
	u(uint64(r.FdLimit))
	u(uint64(r.Budget))
	u(uint64(r.KillStep))
	k := func(m, k int) uint64 {
		if k < 1 {
			return 1
		}
		return uint64(k)
	}
	u(uint64(r.RMode))
	u(k(r.RMode, r.RK))
	u(r.RSeed)
	u(uint64(r.WMode))
	u(k(r.WMode, r.WK))
	u(r.WSeed)
	by([]byte(simCwd))
	by([]byte(r.localtime()))
	// inodes: one per file which is not a link, plus the directories
	type ent struct {
		path string
		ino  int
		sym  bool
	}
	var ents []ent
	var nIno int
	idx := map[string]int{}
	mark := len(b)
	u(0)
	addIno := func(kind uint64, mode uint64, content []byte) int {
		u(kind)
		u(mode)
		by(content)
		nIno++
		return nIno - 1
	}
	for i := range w.Files {
		f := &w.Files[i]
		if f.Link != "" {
			continue
		}
		mode := uint64(0644)
		if f.NoPerm {
			mode = 0
		}
		kind := uint64(0)
		if f.Dir {
			kind = 1
		} else if f.Pipe {
			kind = 2
		}
		idx[f.Path] = addIno(kind, mode, f.Content())
		ents = append(ents, ent{f.Path, idx[f.Path], f.Sym})
	}
	for i := range w.Files {
		f := &w.Files[i]
		if f.Link == "" {
			continue
		}
		if in, ok := idx[f.Link]; ok {
			ents = append(ents, ent{f.Path, in, false})
			idx[f.Path] = in
		}
	}
	dirs := map[string]bool{}
	for _, e := range append([]ent(nil), ents...) {
		p := e.path
		for {
			i := strings.LastIndexByte(p, '/')
			if i <= 0 {
				break
			}
			p = p[:i]
			if _, ok := idx[p]; ok || dirs[p] {
				continue
			}
			dirs[p] = true
			ents = append(ents, ent{p, addIno(1, 0755, nil), false})
		}
	}
	for i := 0; i < 8; i++ {
		b[mark+i] = byte(uint64(nIno) >> (8 * i))
	}
	u(uint64(len(ents)))
	for _, e := range ents {
		by([]byte(e.path))
		u(uint64(e.ino))
		if e.sym {
			u(1)
		} else {
			u(0)
		}
	}
	u(uint64(len(r.Faults)))
	for _, f := range r.Faults {
		u(uint64(f.Op))
		u(uint64(f.N))
		by([]byte(f.Path))
		u(uint64(f.Errno))
		u(uint64(f.Cap))
		if f.Sticky {
			u(1)
		} else {
			u(0)
		}
	}
	u(uint64(len(r.Edits)))
	for _, e := range r.Edits {
		u(uint64(e.Step))
		u(uint64(e.Kind))
		by([]byte(e.Path))
		u(uint64(e.Num))
		by(e.Data)
	}
	return b
}

// Event is one record of the trace of a run.
type Event struct {
	Op   byte
	Step int
	Wall int64 // ns
	F    []int64
	Path string
	Data []byte
}

type Result struct {
	Exit    int // -1 when killed by a signal
	Signal  int
	Stdout  []byte
	Stderr  []byte
	Trace   []byte
	Events  []Event
	Wall    time.Duration
	CPU     int64 // nanoseconds
	MemFree int64 // bytes the host had left after a run that failed
	Stuck   bool  // ended by the watchdog
}

// Memory given to a run: ordinary cases need less than half of it.
const memoryLimit = 2 << 30

// outOfMemory tells whether the run ended for lack of memory, and it was its own
// limit that it met rather than the host's.
func (res *Result) outOfMemory() (short, own bool) {
	if res.Exit != 2 {
		return false, false
	}
	for _, s := range []string{"cannot allocate memory", "out of memory", "newosproc"} {
		if bytes.Contains(res.Stderr, []byte(s)) {
			return true, res.MemFree > 2*memoryLimit
		}
	}
	return false, false
}

func memFree() int64 {
	b, _ := os.ReadFile("/proc/meminfo")
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) > 1 && f[0] == "MemAvailable:" {
			n, _ := strconv.ParseInt(f[1], 10, 64)
			return n << 10
		}
	}
	return 0
}

func memfd(name string) (int, error) {
	p, _ := syscall.BytePtrFromString(name)
	fd, _, e := syscall.Syscall(319, uintptr(unsafe.Pointer(p)), 1 /*CLOEXEC*/, 0)
	if e != 0 {
		return -1, e
	}
	return int(fd), nil
}

func readFd(fd int) ([]byte, error) {
	var st syscall.Stat_t
	if err := syscall.Fstat(fd, &st); err != nil {
		return nil, err
	}
	b := make([]byte, st.Size)
	off := 0
	for off < len(b) {
		n, err := syscall.Pread(fd, b[off:], int64(off))
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			return nil, err
		}
		if n == 0 {
			break
		}
		off += n
	}
	return b[:off], nil
}

var devNull = sync.OnceValue(func() int {
	fd, err := syscall.Open("/dev/null", syscall.O_RDONLY|syscall.O_CLOEXEC, 0)
	if err != nil {
		panic(err)
	}
	return fd
})

// Stats of everything executed, for the evidence file.
type Counters struct {
	Runs     atomic.Int64
	SimNs    atomic.Int64
	PeakCPU  atomic.Int64 // ns
	mu       sync.Mutex
	Faults   map[string]int64
	Traces   map[uint64]struct{}
	States   map[uint64]struct{}
	Commands map[string]int64
	Probes   map[string]int64
}

var counters = &Counters{Faults: map[string]int64{}, Traces: map[uint64]struct{}{}, States: map[uint64]struct{}{}, Commands: map[string]int64{}, Probes: map[string]int64{}}

func (c *Counters) probe(name string) {
	c.mu.Lock()
	c.Probes[name]++
	c.mu.Unlock()
}

type HarnessError struct{ msg string }

func (h HarnessError) Error() string { return h.msg }

func harnessFail(format string, args ...any) { panic(HarnessError{fmt.Sprintf(format, args...)}) }

// execute runs the simulated program once. Everything it depends on is in w and r.
// execute runs the program once. The host may be out of memory for a moment,
// which says nothing about the program: such a run is made again.
func execute(bin string, w *World, r *Run) *Result {
	for try := 0; ; try++ {
		res := executeOnce(bin, w, r)
		if short, own := res.outOfMemory(); try == 4 || !short || own {
			account(w, r, res)
			return res
		}
		time.Sleep(time.Duration(100<<try) * time.Millisecond)
	}
}

func executeOnce(bin string, w *World, r *Run) *Result {
	start := time.Now()
	var fds [4]int
	for i, n := range []string{"out", "err", "scen", "trace"} {
		fd, err := memfd(n)
		if err != nil {
			harnessFail("memfd: %v", err)
		}
		fds[i] = fd
		defer syscall.Close(fd)
	}
	scen := encodeScenario(w, r)
	for off := 0; off < len(scen); {
		n, err := syscall.Pwrite(fds[2], scen[off:], int64(off))
		if err != nil {
			harnessFail("write scenario: %v", err)
		}
		off += n
	}
	// no kernel passes on a NUL byte inside of an argument
	args := []string{"gledger"}
	argv := r.Args
	ledgerFile, inEnv := w.Root, r.UseEnv
	if r.Spell != 0 {
		argv, ledgerFile, inEnv = spelled(r.Spell, r.Args, w.Root)
	}
	for _, a := range argv {
		args = append(args, noNUL(a))
	}
	env := []string{"GLSIM=" + strconv.FormatUint(r.MapSeed, 10), "GOMAXPROCS=1", "GOGC=off", "GOMEMLIMIT=1GiB", "GODEBUG=asyncpreemptoff=1", "PWD=" + simCwd, "HOME=/sim", "PATH=/sim/bin", "LANG=C.UTF-8"}
	if tz, set := r.zone(); set {
		env = append(env, "TZ="+tz)
	}
	env = surroundings(r.Env, env)
	for _, v := range r.Vars {
		env = append(env, noNUL(v))
	}
	if inEnv {
		env = append(env, "LEDGER_FILE="+noNUL(ledgerFile))
	}
	if r.Spell == 0 && !r.UseEnv && w.Root != "" {
		args = append(args, "--file="+noNUL(w.Root))
	}
	attr := &syscall.ProcAttr{Dir: "/", Env: env, Files: []uintptr{uintptr(devNull()), uintptr(fds[0]), uintptr(fds[1]), uintptr(fds[2]), uintptr(fds[3])}}
	var pid int
	var err error
	for try := 0; ; try++ {
		pid, err = syscall.ForkExec(bin, args, attr)
		if err == nil {
			break
		}
		if try > 50 || (err != syscall.EAGAIN && err != syscall.ENOMEM && err != syscall.ETXTBSY) {
			harnessFail("start %s: %v", bin, err)
		}
		time.Sleep(20 * time.Millisecond)
	}
	var stuck atomic.Bool
	watchdog := time.AfterFunc(60*time.Second, func() { stuck.Store(true); syscall.Kill(pid, syscall.SIGKILL) })
	var ws syscall.WaitStatus
	var usage syscall.Rusage
	for {
		_, err := syscall.Wait4(pid, &ws, 0, &usage)
		if err == syscall.EINTR {
			continue
		}
		if err != nil {
			harnessFail("wait: %v", err)
		}
		break
	}
	watchdog.Stop()
	res := &Result{CPU: usage.Utime.Nano() + usage.Stime.Nano(), Stuck: stuck.Load()}
	if ws.Signaled() {
		res.Exit, res.Signal = -1, int(ws.Signal())
	} else {
		res.Exit = ws.ExitStatus()
	}
	if res.Exit == 2 {
		res.MemFree = memFree()
	}
	if res.Stdout, err = readFd(fds[0]); err != nil {
		harnessFail("stdout: %v", err)
	}
	if res.Stderr, err = readFd(fds[1]); err != nil {
		harnessFail("stderr: %v", err)
	}
	if res.Trace, err = readFd(fds[3]); err != nil {
		harnessFail("trace: %v", err)
	}
	if res.Exit == 99 || bytes.Contains(res.Stderr, []byte("GLSIM-HARNESS")) {
		harnessFail("simulated kernel: %s", res.Stderr)
	}
	res.Events = parseTrace(res.Trace)
	res.Wall = time.Since(start)
	return res
}

func parseTrace(b []byte) []Event {
	var out []Event
	i := 0
	num := func() int64 {
		neg := false
		if i < len(b) && b[i] == '-' {
			neg = true
			i++
		}
		v := int64(0)
		for i < len(b) && b[i] >= '0' && b[i] <= '9' {
			v = v*10 + int64(b[i]-'0')
			i++
		}
		if neg {
			return -v
		}
		return v
	}
	nf := map[byte]int{'O': 3, 'R': 4, 'W': 4, 'Z': 4, 'C': 2, 'S': 1, 'N': 0, 'E': 3, 'K': 0, 'B': 0, 'V': 2, 'P': 0}
	for i < len(b) {
		e := Event{Op: b[i]}
		i++
		if e.Op == 'X' {
			i++
			e.F = []int64{num()}
			i++
			out = append(out, e)
			continue
		}
		n, ok := nf[e.Op]
		if !ok {
			harnessFail("trace: bad record at %d", i)
		}
		i++
		e.Step = int(num())
		i++
		e.Wall = num()
		for k := 0; k < n; k++ {
			i++
			e.F = append(e.F, num())
		}
		i++
		l := int(num())
		i++
		if i+l > len(b) {
			break
		}
		e.Path = string(b[i : i+l])
		i += l + 1
		l = int(num())
		i++
		if i+l > len(b) {
			break
		}
		e.Data = b[i : i+l]
		i += l + 1
		out = append(out, e)
	}
	return out
}

var errnoNames = map[int]string{1: "EPERM", 2: "ENOENT", 4: "EINTR", 5: "EIO", 6: "ENXIO", 9: "EBADF", 11: "EAGAIN", 12: "ENOMEM", 13: "EACCES", 16: "EBUSY", 20: "ENOTDIR", 21: "EISDIR", 23: "ENFILE", 24: "EMFILE", 26: "ETXTBSY", 27: "EFBIG", 28: "ENOSPC", 32: "EPIPE", 36: "ENAMETOOLONG", 40: "ELOOP", 61: "ENODATA", 74: "EBADMSG", 75: "EOVERFLOW", 107: "ENOTCONN", 110: "ETIMEDOUT", 116: "ESTALE", 117: "EUCLEAN", 121: "EREMOTEIO", 122: "EDQUOT"}

func errnoName(e int) string {
	if n, ok := errnoNames[e]; ok {
		return n
	}
	return fmt.Sprintf("errno%d", e)
}

// account adds what a run did to the counters.
func account(w *World, r *Run, res *Result) {
	c := counters
	c.Runs.Add(1)
	for p := c.PeakCPU.Load(); res.CPU > p && !c.PeakCPU.CompareAndSwap(p, res.CPU); p = c.PeakCPU.Load() {
	}
	kinds := map[string]int64{}
	var th uint64 = 14695981039346656037
	mix := func(v uint64) { th ^= v; th *= 1099511628211; th ^= th >> 29 }
	end := r.Now*1000000000 + r.Nsec
	begin := end
	mono := int64(0)
	for _, e := range res.Events {
		mix(uint64(e.Op))
		for _, f := range e.F {
			mix(uint64(f))
		}
		mix(hash64(e.Path))
		if e.Wall > end {
			end = e.Wall
		}
		switch e.Op {
		case 'O':
			mono += r.LatOpen
			if e.F[2] != 0 {
				kinds["open fails "+errnoName(int(e.F[2]))]++
			}
		case 'R':
			mono += r.LatRead
			if e.F[3] != 0 {
				kinds["read fails "+errnoName(int(e.F[3]))]++
			} else if len(e.Data) > 0 && int64(len(e.Data)) < e.F[1] {
				kinds["short read"]++
			}
		case 'W':
			mono += r.LatWrite
			if e.F[3] != 0 {
				kinds["write fails "+errnoName(int(e.F[3]))]++
			} else if e.F[2] < e.F[1] {
				kinds["short write"]++
			}
		case 'Z':
			mono += r.LatWrite
			if e.F[3] != 0 {
				kinds["write to standard error fails "+errnoName(int(e.F[3]))]++
			} else if e.F[2] < e.F[1] {
				kinds["short write to standard error"]++
			}
		case 'C':
			if e.F[1] != 0 {
				kinds["close fails "+errnoName(int(e.F[1]))]++
			}
		case 'E':
			if e.F[2] != 0 {
				kinds[map[int64]string{1: "file appended to while read", 2: "file truncated while read", 3: "file overwritten while read", 4: "file replaced by rename while read", 5: "file unlinked while read", 6: "process stalled", 7: "wall clock jumps"}[e.F[0]]]++
				if e.F[0] == 6 {
					mono += e.F[1]
				}
			}
		case 'K':
			kinds["killed"]++
		case 'B':
			kinds["step budget exhausted"]++
		}
	}
	_ = begin
	c.SimNs.Add(mono)
	cmd := "none"
	for _, a := range r.Args {
		if !strings.HasPrefix(a, "-") {
			cmd = a
			break
		}
	}
	sh := hash64(res.Stdout, res.Exit, cmd)
	c.mu.Lock()
	for k, v := range kinds {
		c.Faults[k] += v
	}
	if len(c.Traces) < 4000000 {
		c.Traces[th] = struct{}{}
		c.States[sh] = struct{}{}
	}
	c.Commands[cmd]++
	c.mu.Unlock()
}

// opened lists what each successful open delivered, in order.
type Delivered struct {
	Path    string // clean absolute path
	Arg     string // path as the program gave it
	Data    []byte // delivered up to and excluding the first end of file
	EOF     bool   // an end of file was delivered
	ReadErr int
	Probe   bool // opened and closed before it was opened to be read
	read    bool
}

func delivered(res *Result) []*Delivered {
	var out []*Delivered
	cur := map[int64]*Delivered{}
	tried := map[string]*Delivered{} // closed without having been read
	for _, e := range res.Events {
		switch e.Op {
		case 'C':
			if d := cur[e.F[0]]; d != nil && !d.read {
				tried[d.Path] = d
			}
		case 'O':
			if d := tried[e.Path]; d != nil {
				d.Probe = true
				delete(tried, e.Path)
			}
			if e.F[2] == 0 {
				d := &Delivered{Path: e.Path, Arg: string(e.Data)}
				cur[e.F[1]] = d
				out = append(out, d)
			}
		case 'R':
			d := cur[e.F[0]]
			if d == nil || d.EOF {
				continue
			}
			d.read = true
			if e.F[3] != 0 {
				if e.F[3] != 4 {
					d.ReadErr = int(e.F[3])
				}
				continue
			}
			if len(e.Data) == 0 && e.F[1] > 0 {
				d.EOF = true
				continue
			}
			d.Data = append(d.Data, e.Data...)
		}
	}
	return out
}

func mustJSON(v any) []byte {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		panic(err)
	}
	return b
}

var _ = os.Stdout

func noNUL(s string) string { return strings.ReplaceAll(s, "\x00", "") }
