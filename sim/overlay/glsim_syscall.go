// Package-level simulated kernel for deterministic simulation of gledger.
//
// This file is NOT part of the Go distribution and NOT part of gledger: it is
// added to package syscall through `go build -overlay` by /verif/sim (build.go)
// and only in the simulation build. Without GLSIM in the environment every
// hook is inert.
//
// The scenario (file system contents, clock, fault plan, concurrent editor) is
// read from descriptor 3; every simulated event is appended to descriptor 4.

package syscall

import (
	"internal/runtime/syscall/linux"
	"unsafe"
)

// GlsimOn is true when this process is a simulated run.
var GlsimOn bool

type glsimInode struct {
	dir     bool
	mode    uint64 // 0: open fails with EACCES
	content []byte
	ino     uint64
	pipe    bool
	mtime   int64
}

type glsimName struct {
	path  string
	inode *glsimInode
	sym   bool // a symbolic link to path + ".real", which is the file
}

type glsimFault struct {
	op     uint64 // 0 open, 1 read, 2 write, 3 close, 4 stat
	n      uint64 // fires on the n-th such operation (1-based) on path ("" = any)
	path   string
	errno  uint64
	cap    uint64 // errno == 0: at most cap bytes
	sticky uint64 // keeps firing from then on
	seen   uint64
	fired  uint64
}

type glsimEdit struct {
	step uint64
	kind uint64 // 1 append, 2 truncate, 3 overwrite in place, 4 replace by rename, 5 unlink, 6 stall, 7 wall clock jump
	path string
	num  int64
	data []byte
	done bool
}

type glsimFile struct {
	inode *glsimInode
	path  string
	off   int64
	open  bool
	dead  bool
}

const glsimFdBase = 1000

var glsim struct {
	wall, mono                   int64 // ns
	latOpen, latRead, latWr, lat int64
	fdLimit, budget, killStep    uint64
	rMode, rK, rSeed             uint64
	wMode, wK, wSeed             uint64
	cwd                          string
	localtime                    string // what /etc/localtime links to
	names                        []glsimName
	faults                       []glsimFault
	edits                        []glsimEdit
	fds                          []glsimFile
	step                         uint64
	nextIno                      uint64
	buf                          []byte
	deny                         [512]uint8
	denied                       [64]uint16
	ndenied                      uint64
}

func glsimRawWrite(fd uintptr, p []byte) {
	for len(p) > 0 {
		n, _, e := linux.Syscall6(SYS_WRITE, fd, uintptr(unsafe.Pointer(&p[0])), uintptr(len(p)), 0, 0, 0)
		if e == uintptr(EINTR) {
			continue
		}
		if e != 0 || n == 0 {
			return
		}
		p = p[n:]
	}
}

func glsimDie(code uintptr) {
	linux.Syscall6(SYS_EXIT_GROUP, code, 0, 0, 0, 0, 0)
}

func glsimFatal(s string) {
	glsimRawWrite(2, []byte("GLSIM-HARNESS: "+s+"\n"))
	glsimDie(99)
}

type glsimDec struct {
	b   []byte
	off int
}

func (d *glsimDec) u() uint64 {
	if d.off+8 > len(d.b) {
		glsimFatal("short scenario")
	}
	var v uint64
	for i := 0; i < 8; i++ {
		v |= uint64(d.b[d.off+i]) << (8 * i)
	}
	d.off += 8
	return v
}

func (d *glsimDec) bytes() []byte {
	n := int(d.u())
	if n < 0 || d.off+n > len(d.b) {
		glsimFatal("bad scenario")
	}
	r := d.b[d.off : d.off+n : d.off+n]
	d.off += n
	return r
}

func init() {
	if _, ok := Getenv("GLSIM"); !ok {
		return
	}
	// Limits: a run that burns ten CPU seconds or 2 GB makes no progress.
	lim := [2]uint64{10, 11}
	linux.Syscall6(SYS_SETRLIMIT, 0 /*RLIMIT_CPU*/, uintptr(unsafe.Pointer(&lim)), 0, 0, 0, 0)
	core := [2]uint64{0, 0}
	linux.Syscall6(SYS_SETRLIMIT, 4 /*RLIMIT_CORE*/, uintptr(unsafe.Pointer(&core)), 0, 0, 0, 0)
	data := [2]uint64{2 << 30, 2 << 30}
	linux.Syscall6(SYS_SETRLIMIT, 2 /*RLIMIT_DATA*/, uintptr(unsafe.Pointer(&data)), 0, 0, 0, 0)

	var scen []byte
	chunk := make([]byte, 65536)
	for {
		n, _, e := linux.Syscall6(SYS_READ, 3, uintptr(unsafe.Pointer(&chunk[0])), uintptr(len(chunk)), 0, 0, 0)
		if e == uintptr(EINTR) {
			continue
		}
		if e != 0 {
			glsimFatal("cannot read scenario")
		}
		if n == 0 {
			break
		}
		scen = append(scen, chunk[:n]...)
	}
	d := &glsimDec{b: scen}
	if d.u() != 0x31304d49534c47 {
		glsimFatal("bad magic")
	}
	g := &glsim
	sec, nsec := int64(d.u()), int64(d.u())
	g.wall = sec*1000000000 + nsec
	g.mono = 1000000000
	g.latOpen, g.latRead, g.latWr, g.lat = int64(d.u()), int64(d.u()), int64(d.u()), int64(d.u())
	g.fdLimit, g.budget, g.killStep = d.u(), d.u(), d.u()
	g.rMode, g.rK, g.rSeed = d.u(), d.u(), d.u()
	g.wMode, g.wK, g.wSeed = d.u(), d.u(), d.u()
	g.cwd = string(d.bytes())
	g.localtime = string(d.bytes())
	nIno := int(d.u())
	inodes := make([]*glsimInode, nIno)
	for i := range inodes {
		in := &glsimInode{}
		kind := d.u()
		in.dir, in.pipe = kind == 1, kind == 2
		in.mtime = sec - 86400
		in.mode = d.u()
		in.content = d.bytes()
		in.ino = uint64(i) + 11
		inodes[i] = in
	}
	g.nextIno = uint64(nIno) + 11
	nNames := int(d.u())
	for i := 0; i < nNames; i++ {
		p := string(d.bytes())
		in := inodes[d.u()]
		g.names = append(g.names, glsimName{p, in, d.u() != 0})
	}
	nf := int(d.u())
	for i := 0; i < nf; i++ {
		var f glsimFault
		f.op, f.n = d.u(), d.u()
		f.path = string(d.bytes())
		f.errno, f.cap, f.sticky = d.u(), d.u(), d.u()
		g.faults = append(g.faults, f)
	}
	ne := int(d.u())
	for i := 0; i < ne; i++ {
		var e glsimEdit
		e.step, e.kind = d.u(), d.u()
		e.path = string(d.bytes())
		e.num = int64(d.u())
		e.data = d.bytes()
		g.edits = append(g.edits, e)
	}
	for _, t := range glsimDenyList {
		g.deny[t] = 1
	}
	GlsimOn = true
}

// Calls that change files, names, processes or the network: gledger has no
// business making any of them. They are refused and recorded.
var glsimDenyList = [...]uint16{
	SYS_OPEN, SYS_OPENAT, SYS_CREAT, SYS_LINK, SYS_LINKAT, SYS_SYMLINK, SYS_SYMLINKAT, SYS_UNLINK, SYS_UNLINKAT,
	SYS_RENAME, SYS_RENAMEAT, 316, SYS_MKDIR, SYS_MKDIRAT, SYS_RMDIR, SYS_TRUNCATE, SYS_FTRUNCATE,
	SYS_CHMOD, SYS_FCHMOD, SYS_FCHMODAT, 452, SYS_CHOWN, SYS_FCHOWN, SYS_LCHOWN, SYS_FCHOWNAT,
	SYS_UTIME, SYS_UTIMES, SYS_UTIMENSAT, SYS_FUTIMESAT, SYS_MKNOD, SYS_MKNODAT, SYS_FALLOCATE,
	SYS_PWRITE64, SYS_WRITEV, SYS_SENDFILE, SYS_SPLICE, SYS_TEE, 326, SYS_SOCKET, SYS_CONNECT, SYS_BIND,
	SYS_FORK, SYS_VFORK, SYS_CLONE, 435, SYS_EXECVE, SYS_SETXATTR, SYS_FSETXATTR, SYS_REMOVEXATTR, SYS_MOUNT,
	SYS_UMOUNT2, SYS_CHROOT, SYS_PIVOT_ROOT, SYS_REBOOT, SYS_KILL, SYS_TGKILL, SYS_PTRACE, SYS_SETHOSTNAME,
	SYS_SETTIMEOFDAY, SYS_ADJTIMEX,
}

// glsimRefuse is called from the nosplit system call stubs.
//
//go:nosplit
func glsimRefuse(trap uintptr) bool {
	if !GlsimOn || trap >= 512 || glsim.deny[trap] == 0 {
		return false
	}
	if glsim.ndenied < uint64(len(glsim.denied)) {
		glsim.denied[glsim.ndenied] = uint16(trap)
	}
	glsim.ndenied++
	// "X nnn\n" straight to the trace, without growing the stack.
	var b [6]byte
	b[0], b[1] = 'X', ' '
	b[2] = '0' + byte(trap/100)
	b[3] = '0' + byte(trap/10%10)
	b[4] = '0' + byte(trap%10)
	b[5] = '\n'
	linux.Syscall6(SYS_WRITE, 4, uintptr(unsafe.Pointer(&b)), 6, 0, 0, 0)
	return true
}

func glsimNum(b []byte, v int64) []byte {
	b = append(b, ' ')
	if v < 0 {
		b = append(b, '-')
		v = -v
	}
	var t [20]byte
	i := len(t)
	for {
		i--
		t[i] = byte('0' + v%10)
		v /= 10
		if v == 0 {
			break
		}
	}
	return append(b, t[i:]...)
}

// glsimLog writes one trace record: op step wall fields... [path] \n [data \n]
func glsimLog(op byte, path string, data []byte, fields ...int64) {
	b := glsim.buf[:0]
	b = append(b, op)
	b = glsimNum(b, int64(glsim.step))
	b = glsimNum(b, glsim.wall)
	for _, f := range fields {
		b = glsimNum(b, f)
	}
	b = glsimNum(b, int64(len(path)))
	b = append(b, ' ')
	b = append(b, path...)
	b = glsimNum(b, int64(len(data)))
	b = append(b, ' ')
	b = append(b, data...)
	b = append(b, '\n')
	glsim.buf = b
	glsimRawWrite(4, b)
}

func glsimRand(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

// glsimStep starts one simulated operation: the clock moves on, whatever the
// editor does at this point happens, and the process may be killed.
func glsimStep(lat int64) {
	g := &glsim
	g.step++
	glsimAdvance(lat)
	lat += glsimDrift()
	g.wall += lat
	g.mono += lat
	for i := range g.edits {
		e := &g.edits[i]
		if e.done || e.step > g.step {
			continue
		}
		e.done = true
		in := glsimLookup(e.path)
		ok := int64(1)
		switch e.kind {
		case 1:
			if in == nil {
				ok = 0
				break
			}
			in.content = append(in.content[:len(in.content):len(in.content)], e.data...)
			in.mtime = g.wall / 1000000000
		case 2:
			if in == nil || int64(len(in.content)) < e.num {
				ok = 0
				break
			}
			in.content = in.content[:e.num:e.num]
			in.mtime = g.wall / 1000000000
		case 3:
			if in == nil {
				ok = 0
				break
			}
			in.content = e.data
			in.mtime = g.wall / 1000000000
		case 4:
			g.nextIno++
			n := &glsimInode{mode: 0644, content: e.data, ino: g.nextIno, mtime: g.wall / 1000000000}
			for j := range g.names {
				if g.names[j].path == e.path {
					g.names[j].inode, g.names[j].sym = n, false
					n = nil
					break
				}
			}
			if n != nil {
				g.names = append(g.names, glsimName{path: e.path, inode: n})
			}
		case 5:
			for j := range g.names {
				if g.names[j].path == e.path {
					g.names = append(g.names[:j:j], g.names[j+1:]...)
					break
				}
			}
		case 6:
			g.wall += e.num
			g.mono += e.num
			glsimAdvance(e.num)
		case 7:
			g.wall += e.num
			if g.wall < 0 {
				g.wall = 0
			}
		}
		glsimLog('E', e.path, nil, int64(e.kind), e.num, ok)
	}
	if g.killStep != 0 && g.step == g.killStep {
		glsimLog('K', "", nil)
		pid, _, _ := linux.Syscall6(SYS_GETPID, 0, 0, 0, 0, 0, 0)
		linux.Syscall6(SYS_KILL, pid, uintptr(SIGKILL), 0, 0, 0, 0)
	}
	if g.step > g.budget {
		glsimLog('B', "", nil)
		glsimDie(98)
	}
}

func glsimFaultFor(op uint64, path string) *glsimFault {
	var hit *glsimFault
	for i := range glsim.faults {
		f := &glsim.faults[i]
		if f.op != op || (f.path != "" && f.path != path) {
			continue
		}
		f.seen++
		if hit == nil && (f.seen == f.n || (f.sticky != 0 && f.seen > f.n)) {
			f.fired++
			hit = f
		}
	}
	return hit
}

func glsimClean(p string) string {
	if len(p) == 0 || p[0] != '/' {
		p = glsim.cwd + "/" + p
	}
	var out []byte
	for i := 0; i < len(p); {
		if p[i] == '/' {
			i++
			continue
		}
		j := i
		for j < len(p) && p[j] != '/' {
			j++
		}
		seg := p[i:j]
		i = j
		if seg == "." {
			continue
		}
		if seg == ".." {
			k := len(out)
			for k > 0 && out[k-1] != '/' {
				k--
			}
			if k > 0 {
				k--
			}
			out = out[:k]
			continue
		}
		out = append(out, '/')
		out = append(out, seg...)
	}
	if len(out) == 0 {
		return "/"
	}
	return string(out)
}

func glsimLookup(path string) *glsimInode {
	for i := range glsim.names {
		if glsim.names[i].path == path {
			return glsim.names[i].inode
		}
	}
	return nil
}

// glsimFollow gives the name of a link for the name of what it points to, so
// that a file has one name in the trace, and tells whether full is that link.
func glsimFollow(full string) (name string, link bool) {
	for i := range glsim.names {
		n := &glsim.names[i]
		if !n.sym {
			continue
		}
		if full == n.path {
			return full, true
		}
		if len(full) == len(n.path)+5 && full[:len(n.path)] == n.path && full[len(n.path):] == ".real" {
			return n.path, false
		}
	}
	return full, false
}

// glsimDir is glsimLookup for calls that only look: a directory that holds a
// named file, or is the working directory, exists without being listed.
func glsimDir(path string) *glsimInode {
	if in := glsimLookup(path); in != nil {
		return in
	}
	within := func(p string) bool {
		return path == "/" || p == path || (len(p) > len(path) && p[:len(path)] == path && p[len(path)] == '/')
	}
	ok := within(glsim.cwd)
	for i := range glsim.names {
		ok = ok || within(glsim.names[i].path)
	}
	if !ok {
		return nil
	}
	ino := uint64(14695981039346656037)
	for i := 0; i < len(path); i++ {
		ino = (ino ^ uint64(path[i])) * 1099511628211
	}
	return &glsimInode{dir: true, mode: 0755, ino: ino | 1<<63}
}

// Reads of time zone data go to the real files, read-only.
func glsimPassthrough(p string, flags int) bool {
	if flags&(O_WRONLY|O_RDWR|O_CREAT|O_TRUNC|O_APPEND) != 0 {
		return false
	}
	for _, pre := range [...]string{"/usr/share/zoneinfo", "/usr/lib/zoneinfo", "/usr/share/lib/zoneinfo", "/usr/lib/locale/TZ", "/etc/zoneinfo", "/etc/localtime"} {
		if len(p) >= len(pre) && p[:len(pre)] == pre {
			return true
		}
	}
	return false
}

func glsimOpen(dirfd int, path string, flags int) (fd int, err error, handled bool) {
	if glsimPassthrough(path, flags) {
		if path == "/etc/localtime" {
			if path = glsim.localtime; path == "" {
				return -1, ENOENT, true
			}
		}
		p, e := BytePtrFromString(path)
		if e != nil {
			return -1, e, true
		}
		r, _, en := linux.Syscall6(SYS_OPENAT, uintptr(uint32(0xffffff9c)), uintptr(unsafe.Pointer(p)), uintptr(flags), 0, 0, 0)
		if en != 0 {
			return -1, Errno(en), true
		}
		return int(r), nil, true
	}
	g := &glsim
	glsimStep(g.latOpen)
	full := path
	if dirfd == _AT_FDCWD || (len(path) > 0 && path[0] == '/') {
		full = glsimClean(path)
	} else if dirfd >= glsimFdBase && dirfd-glsimFdBase < len(g.fds) {
		full = glsimClean(g.fds[dirfd-glsimFdBase].path + "/" + path)
	}
	full, link := glsimFollow(full)
	fail := func(e Errno) (int, error, bool) {
		glsimLog('O', full, []byte(path), int64(flags), -1, int64(e))
		return -1, e, true
	}
	for i := 0; i < len(path); i++ {
		if path[i] == 0 {
			return -1, EINVAL, true
		}
	}
	if flags&(O_WRONLY|O_RDWR|O_CREAT|O_TRUNC|O_APPEND) != 0 {
		// A file opened for writing: recorded, refused.
		return fail(EROFS)
	}
	if f := glsimFaultFor(0, full); f != nil && f.errno != 0 {
		return fail(Errno(f.errno))
	}
	if len(path) == 0 {
		return fail(ENOENT)
	}
	if len(path) >= 4096 {
		return fail(ENAMETOOLONG)
	}
	in := glsimLookup(full)
	if in == nil {
		return fail(ENOENT)
	}
	if in.mode == 0 {
		return fail(EACCES)
	}
	if link && flags&O_NOFOLLOW != 0 {
		return fail(ELOOP)
	}
	n := uint64(0)
	slot := -1
	for i := range g.fds {
		if g.fds[i].open {
			n++
		} else if slot < 0 {
			slot = i
		}
	}
	if n >= g.fdLimit {
		return fail(EMFILE)
	}
	if slot < 0 {
		g.fds = append(g.fds, glsimFile{})
		slot = len(g.fds) - 1
	}
	g.fds[slot] = glsimFile{inode: in, path: full, open: true}
	glsimLog('O', full, []byte(path), int64(flags), int64(glsimFdBase+slot), 0)
	return glsimFdBase + slot, nil, true
}

func glsimFd(fd int) *glsimFile {
	if fd < glsimFdBase || fd-glsimFdBase >= len(glsim.fds) || !glsim.fds[fd-glsimFdBase].open {
		return nil
	}
	return &glsim.fds[fd-glsimFdBase]
}

func glsimRead(fd int, p []byte, at int64) (n int, err error, handled bool) {
	if fd < glsimFdBase {
		if fd == 0 {
			return 0, nil, true
		}
		return 0, nil, false
	}
	g := &glsim
	glsimStep(g.latRead)
	f := glsimFd(fd)
	if f == nil {
		glsimLog('R', "", nil, int64(fd), int64(len(p)), -1, int64(EBADF))
		return -1, EBADF, true
	}
	fail := func(e Errno) (int, error, bool) {
		glsimLog('R', f.path, nil, int64(fd), int64(len(p)), f.off, int64(e))
		return -1, e, true
	}
	short := len(p)
	if ft := glsimFaultFor(1, f.path); ft != nil {
		if ft.errno != 0 {
			return fail(Errno(ft.errno))
		}
		if int(ft.cap) < short && ft.cap > 0 {
			short = int(ft.cap)
		}
	}
	if f.inode.dir {
		return fail(EISDIR)
	}
	switch g.rMode {
	case 1:
		if int(g.rK) < short {
			short = int(g.rK)
		}
	case 2:
		k := int(glsimRand(&g.rSeed)%g.rK) + 1
		if k < short {
			short = k
		}
	}
	if f.inode.pipe && at >= 0 {
		return fail(ESPIPE)
	}
	off := f.off
	if at >= 0 {
		off = at
	}
	if off > int64(len(f.inode.content)) {
		off = int64(len(f.inode.content))
	}
	n = copy(p[:short], f.inode.content[off:])
	glsimLog('R', f.path, p[:n], int64(fd), int64(len(p)), off, 0)
	if at < 0 {
		f.off += int64(n)
	}
	return n, nil, true
}

func glsimWrite(fd int, p []byte) (n int, err error, handled bool) {
	g := &glsim
	glsimStep(g.latWr)
	op, kind := uint64(2), byte('W')
	if fd == 2 {
		op, kind = 5, 'Z'
	} else if fd != 1 {
		glsimLog('V', "", nil, int64(fd), int64(len(p)))
		return -1, EROFS, true
	}
	short := len(p)
	if ft := glsimFaultFor(op, ""); ft != nil {
		if ft.errno != 0 {
			glsimLog(kind, "", nil, int64(fd), int64(len(p)), -1, int64(ft.errno))
			return -1, Errno(ft.errno), true
		}
		if int(ft.cap) < short && ft.cap > 0 {
			short = int(ft.cap)
		}
	}
	switch g.wMode {
	case 1:
		if int(g.wK) < short {
			short = int(g.wK)
		}
	case 2:
		k := int(glsimRand(&g.wSeed)%g.wK) + 1
		if k < short {
			short = k
		}
	}
	glsimRawWrite(uintptr(fd), p[:short])
	glsimLog(kind, "", nil, int64(fd), int64(len(p)), int64(short), 0)
	return short, nil, true
}

func glsimClose(fd int) (err error, handled bool) {
	if fd < glsimFdBase {
		return nil, false
	}
	glsimStep(glsim.lat)
	f := glsimFd(fd)
	if f == nil {
		glsimLog('C', "", nil, int64(fd), int64(EBADF))
		return EBADF, true
	}
	f.open = false
	e := Errno(0)
	if ft := glsimFaultFor(3, f.path); ft != nil {
		e = Errno(ft.errno)
	}
	glsimLog('C', f.path, nil, int64(fd), int64(e))
	if e != 0 {
		return e, true
	}
	return nil, true
}

func glsimFill(in *glsimInode, st *Stat_t) {
	*st = Stat_t{}
	st.Ino = in.ino
	st.Dev = 77
	st.Nlink = 1
	st.Size = int64(len(in.content))
	st.Blksize = 4096
	st.Blocks = (st.Size + 511) / 512
	if in.dir {
		st.Mode = S_IFDIR | 0755
	} else if in.pipe {
		st.Mode = S_IFIFO | uint32(in.mode)
		st.Size, st.Blocks = 0, 0
	} else {
		st.Mode = S_IFREG | uint32(in.mode)
	}
	st.Mtim.Sec = in.mtime
}

func glsimFstat(fd int, st *Stat_t) (err error, handled bool) {
	if fd < glsimFdBase {
		return nil, false
	}
	f := glsimFd(fd)
	if f == nil {
		return EBADF, true
	}
	glsimFill(f.inode, st)
	return nil, true
}

func glsimFstatat(dirfd int, path string, st *Stat_t, flags int) (err error, handled bool) {
	if path == "/etc/localtime" && glsim.localtime == "" {
		return ENOENT, true
	}
	if glsimPassthrough(path, 0) {
		return nil, false
	}
	full := path
	if dirfd == _AT_FDCWD || (len(path) > 0 && path[0] == '/') {
		full = glsimClean(path)
	} else if f := glsimFd(dirfd); f != nil {
		full = glsimClean(f.path + "/" + path)
	}
	glsimStep(glsim.lat)
	full, link := glsimFollow(full)
	in := glsimDir(full)
	e := Errno(0)
	if ft := glsimFaultFor(4, full); ft != nil {
		e = Errno(ft.errno)
	}
	if in == nil {
		e = ENOENT
	}
	glsimLog('S', full, nil, int64(e))
	if e != 0 {
		return e, true
	}
	glsimFill(in, st)
	if link && flags&_AT_SYMLINK_NOFOLLOW != 0 {
		st.Ino |= 1 << 40
		st.Mode = S_IFLNK | 0777
		st.Size, st.Blocks = int64(len(full)+5), 0
	}
	return nil, true
}

// glsimGetdents lists a directory, in the order of the scenario.
func glsimGetdents(fd int, buf []byte) (n int, err error, handled bool) {
	if fd < glsimFdBase {
		return 0, nil, false
	}
	glsimStep(glsim.lat)
	f := glsimFd(fd)
	if f == nil {
		return -1, EBADF, true
	}
	e := Errno(0)
	if !f.inode.dir {
		e = ENOTDIR
	}
	glsimLog('S', f.path, nil, int64(e))
	if e != 0 {
		return -1, e, true
	}
	within := f.path + "/"
	if f.path == "/" {
		within = "/"
	}
	type entry struct {
		name string
		kind byte
		ino  uint64
	}
	list := []entry{{".", 4, 1}, {"..", 4, 1}}
	add := func(name string, kind byte, ino uint64) {
		for i := range list {
			if list[i].name == name {
				return
			}
		}
		list = append(list, entry{name, kind, ino})
	}
	for i := range glsim.names {
		g := &glsim.names[i]
		if len(g.path) <= len(within) || g.path[:len(within)] != within {
			continue
		}
		rest := g.path[len(within):]
		deep := false
		for j := 0; j < len(rest); j++ {
			if rest[j] == '/' {
				rest, deep = rest[:j], true
			}
		}
		switch {
		case deep || g.inode.dir:
			add(rest, 4, g.inode.ino)
		case g.sym:
			add(rest, 10, g.inode.ino)
			add(rest+".real", 8, g.inode.ino)
		case g.inode.pipe:
			add(rest, 1, g.inode.ino)
		default:
			add(rest, 8, g.inode.ino)
		}
	}
	for f.off < int64(len(list)) {
		l := list[f.off]
		size := (19 + len(l.name) + 1 + 7) &^ 7
		if n+size > len(buf) {
			if n == 0 {
				return -1, EINVAL, true
			}
			break
		}
		f.off++
		b := buf[n : n+size]
		for i := range b {
			b[i] = 0
		}
		for i := 0; i < 8; i++ {
			b[i] = byte(l.ino >> (8 * i))
			b[8+i] = byte(uint64(f.off) >> (8 * i))
		}
		b[16], b[17], b[18] = byte(size), byte(size>>8), l.kind
		copy(b[19:], l.name)
		n += size
	}
	return n, nil, true
}

func glsimReadlink(dirfd int, path string, buf []byte) (n int, err error) {
	full := path
	if f := glsimFd(dirfd); f != nil && (len(path) == 0 || path[0] != '/') {
		full = f.path + "/" + path
	}
	full = glsimClean(full)
	glsimStep(glsim.lat)
	full, link := glsimFollow(full)
	glsimLog('S', full, nil, 0)
	if glsimDir(full) == nil {
		return -1, ENOENT
	}
	if !link {
		return -1, EINVAL
	}
	i := len(full)
	for full[i-1] != '/' {
		i--
	}
	return copy(buf, full[i:]+".real"), nil
}

func glsimSeek(fd int, off int64, whence int) (n int64, err error, handled bool) {
	f := glsimFd(fd)
	if f == nil {
		return 0, nil, false
	}
	if f.inode.pipe || f.inode.dir {
		return -1, ESPIPE, true
	}
	switch whence {
	case 0:
		f.off = off
	case 1:
		f.off += off
	case 2:
		f.off = int64(len(f.inode.content)) + off
	}
	return f.off, nil, true
}

// GlsimTime returns the simulated wall and monotonic clocks.
func GlsimTime(wall bool) (sec int64, nsec int32, mono int64) {
	g := &glsim
	d := glsimDrift()
	g.wall += d
	g.mono += d
	if wall {
		glsimLog('N', "", nil)
	}
	return g.wall / 1000000000, int32(g.wall % 1000000000), g.mono
}

// The scheduler's part, in package runtime.
func glsimEnter()
func glsimLeave()
func glsimAdvance(ns int64)
func glsimDrift() int64

// GlsimEffect records an attempt to act on something other than standard output.
func GlsimEffect(what string) {
	glsimLog('P', what, nil)
}
