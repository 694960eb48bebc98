// Package simos is a simulated kernel: files, descriptors, faults and process crashes.
// Go's own os package runs on top of it (see /verif/instr).
package simos

import (
	"fmt"
	"path"
	"sort"
	"strings"
	"sync"
	"syscall"
	"unsafe"

	"inisim/simrt"
)

// Fault makes the Nth (from 1) call of kind Op fail. Op is "open", "read", "write",
// "close", "stat", "rename", "unlink", "truncate", "fsync", "chmod", "mkdir", "link", "seek" or
// "any"; Path restricts it to one file. Kinds: an error name such as "EIO"; "short"
// (transfer N bytes, at least one unless the call asked for none), "part-EIO" (transfer N bytes, then fail
// the next call as well), "crash" (the process dies before the call takes effect, or
// after N bytes of a write), "crash-after" (after it took effect). Sticky faults stay.
type Fault struct {
	Op     string `json:"op"`
	Path   string `json:"path,omitempty"`
	Nth    int    `json:"nth"`
	Kind   string `json:"kind"`
	N      int    `json:"n,omitempty"`
	Sticky bool   `json:"sticky,omitempty"`
}

// Crash is the panic value with which a simulated process dies.
type Crash struct{}

// SimPassOn tells simrt.Catch not to swallow it.
func (Crash) SimPassOn() {}

// Event is one system call as seen by the kernel.
type Event struct {
	Op   string
	Path string
	FD   int
	N    int
	Err  string
}

func (e Event) String() string {
	s := e.Op + " " + e.Path
	if e.FD != 0 {
		s += fmt.Sprintf(" fd%d", e.FD)
	}
	s += fmt.Sprintf(" = %d", e.N)
	if e.Err != "" {
		s += " " + e.Err
	}
	return s
}

type inode struct {
	data  []byte
	mode  uint32
	isDir bool
	ino   uint64
	nlink int
	deny  bool // access is denied (permissions)
	wdeny bool // writing is denied
}

type desc struct {
	ino   *inode
	path  string
	off   int64
	flags int
	dead  bool // opened by a process that died since
	ended bool // a read has returned the end of the file
	dirs  []string
}

type active struct {
	Fault
	seen  int
	fired bool
}

// Kernel is one machine. It survives process crashes.
type Kernel struct {
	mu     sync.Mutex
	files  map[string]*inode
	fds    map[int]*desc
	base   int
	next   int
	ino    uint64
	faults []*active
	dead   bool
	locked bool // use mu

	Capacity int // bytes the disk holds in total; 0 is unlimited
	Umask    uint32
	Log      []Event
	Opens    map[string]int
	Seen     map[string]int // calls naming the path
	Fired    map[string]int
	Broken   map[string]int // opens and reads of the path that failed by injection
	Calls    int
	MaxFDs   int
	Opened   []string // paths in the order they were successfully opened
	Closed   []string
}

var (
	current *Kernel
	counter int
)

// New makes a machine with an empty disk and makes it the current one.
func New() *Kernel {
	counter++
	k := &Kernel{
		files:  map[string]*inode{},
		fds:    map[int]*desc{},
		base:   syscall.VerifFD + (counter%100000)*1000,
		Umask:  0o022,
		Opens:  map[string]int{},
		Seen:   map[string]int{},
		Fired:  map[string]int{},
		Broken: map[string]int{},
		locked: simrt.RaceBuild,
	}
	k.next = k.base
	k.mkdir("/simfs")
	k.mkdir("/simfs/tmp")
	current = k
	syscall.VerifSim = hook{}
	return k
}

func (k *Kernel) mkdir(p string) {
	k.ino++
	k.files[p] = &inode{isDir: true, mode: 0o755, ino: k.ino, nlink: 1}
}

// SetFaults arms the given faults; counters start anew.
func (k *Kernel) SetFaults(fs []Fault) {
	k.faults = k.faults[:0]
	for _, f := range fs {
		k.faults = append(k.faults, &active{Fault: f})
	}
}

// Mkdir makes a directory.
func (k *Kernel) Mkdir(p string) { k.mkdir(p) }

// Put stores a file from outside the simulated process.
func (k *Kernel) Put(p string, data []byte) {
	if f := k.files[p]; f != nil && !f.isDir {
		f.data = append([]byte(nil), data...)
		return
	}
	k.ino++
	k.files[p] = &inode{data: append([]byte(nil), data...), mode: 0o644, ino: k.ino, nlink: 1}
}

// Chmod sets who may access a file: the simulated process is not privileged.
func (k *Kernel) SetMode(p string, mode uint32) {
	if f := k.files[p]; f != nil {
		f.mode = mode
		f.deny = mode&0o400 == 0
		f.wdeny = mode&0o200 == 0
	}
}

// Get reads a file from outside the simulated process.
func (k *Kernel) Get(p string) ([]byte, bool) {
	f := k.files[p]
	if f == nil || f.isDir {
		return nil, false
	}
	return append([]byte(nil), f.data...), true
}

// Remove deletes a file from outside.
func (k *Kernel) Remove(p string) { delete(k.files, p) }

// List returns the paths of all regular files.
func (k *Kernel) List() []string {
	var l []string
	for p, f := range k.files {
		if !f.isDir {
			l = append(l, p)
		}
	}
	sort.Strings(l)
	return l
}

// OpenFDs returns the paths of descriptors the current process has open.
func (k *Kernel) OpenFDs() []string {
	var l []string
	for _, d := range k.fds {
		l = append(l, d.path)
	}
	sort.Strings(l)
	return l
}

// Dead tells whether the process has crashed.
func (k *Kernel) Dead() bool { return k.dead }

// Restart starts a new process after a crash: descriptors are gone, the disk stays.
func (k *Kernel) Restart() {
	k.dead = false
	k.fds = map[int]*desc{}
	k.faults = nil
	// Descriptors of the old process must mean nothing to the new one.
	k.next += 50
}

// Used returns the number of bytes on the disk.
func (k *Kernel) Used() int {
	n := 0
	seen := map[*inode]bool{}
	for _, f := range k.files {
		if !seen[f] {
			seen[f] = true
			n += len(f.data)
		}
	}
	return n
}

var errnos = map[string]syscall.Errno{
	"EIO": syscall.EIO, "ENOSPC": syscall.ENOSPC, "EINTR": syscall.EINTR, "EACCES": syscall.EACCES,
	"EMFILE": syscall.EMFILE, "ENFILE": syscall.ENFILE, "EISDIR": syscall.EISDIR, "ENOENT": syscall.ENOENT, "EROFS": syscall.EROFS,
	"EDQUOT": syscall.EDQUOT, "EPERM": syscall.EPERM, "EFBIG": syscall.EFBIG, "ENOTDIR": syscall.ENOTDIR,
	"ELOOP": syscall.ELOOP, "ENAMETOOLONG": syscall.ENAMETOOLONG, "EBUSY": syscall.EBUSY, "ETIMEDOUT": syscall.ETIMEDOUT,
	"EAGAIN": syscall.EAGAIN, "ENODEV": syscall.ENODEV, "ENXIO": syscall.ENXIO, "ESTALE": syscall.ESTALE,
	"ENOMEM": syscall.ENOMEM, "EOVERFLOW": syscall.EOVERFLOW,
}

// die ends the simulated process.
func (k *Kernel) die() {
	k.dead = true
	if k.locked {
		k.mu.Unlock()
	}
	panic(Crash{})
}

type verdict struct {
	errno syscall.Errno
	limit int // transfer at most this many bytes; -1: no limit
	crash bool
	after bool
	part  bool // some bytes, an error at the next call
}

func (k *Kernel) check(op, p string) verdict {
	v := verdict{limit: -1}
	k.Calls++
	if k.dead {
		k.die()
	}
	for _, f := range k.faults {
		if f.Op != op && f.Op != "any" || f.Path != "" && f.Path != p {
			continue
		}
		f.seen++
		if f.seen != f.Nth && !(f.Sticky && f.seen > f.Nth) && !(f.Kind == "part-EIO" && f.seen == f.Nth+1) {
			continue
		}
		if f.Op == "any" && f.Kind == "EINTR" && op != "open" && op != "read" && op != "write" {
			continue
		}
		kind := f.Kind
		switch {
		case kind == "short":
			if op == "read" || op == "write" {
				v.limit = f.N
			} else {
				continue
			}
		case kind == "part-EIO":
			if op != "read" && op != "write" {
				continue
			}
			if f.seen == f.Nth {
				v.limit, v.part = f.N, true
			} else {
				v.errno = syscall.EIO
			}
		case kind == "crash":
			v.crash = true
			if op == "write" {
				v.limit = f.N
			} else {
				v.limit = 0
			}
		case kind == "crash-after":
			v.crash, v.after = true, true
		default:
			e, ok := errnos[kind]
			if !ok {
				panic("simos: unknown fault kind " + kind)
			}
			v.errno = e
		}
		f.fired = true
		k.Fired[op+":"+kind]++
		if (op == "open" || op == "read") && kind != "short" && kind != "EINTR" && (kind != "part-EIO" || v.errno != 0) {
			k.Broken[p]++
		}
	}
	if v.crash && !v.after && op != "write" {
		k.log(op, p, 0, 0, "crash")
		k.die()
	}
	return v
}

func (k *Kernel) log(op, p string, fd, n int, err string) {
	k.Seen[p]++
	if len(k.Log) < 4000 {
		if fd != 0 {
			fd -= k.base - 1
		}
		k.Log = append(k.Log, Event{op, p, fd, n, err})
	}
}

func (k *Kernel) end(v verdict, op, p string, fd, n int, e syscall.Errno) error {
	if e != 0 {
		k.log(op, p, fd, n, e.Error())
	} else {
		k.log(op, p, fd, n, "")
	}
	if v.crash {
		k.die()
	}
	if e != 0 {
		return e
	}
	return nil
}

type hook struct{}

func clean(p string) string { return path.Clean(p) }

func (k *Kernel) parentOK(p string) syscall.Errno {
	d := k.files[path.Dir(p)]
	if d == nil {
		return syscall.ENOENT
	}
	if !d.isDir {
		return syscall.ENOTDIR
	}
	return 0
}

func enter() *Kernel {
	k := current
	if k.locked {
		k.mu.Lock()
	}
	return k
}

func (k *Kernel) leave() {
	if k.locked {
		k.mu.Unlock()
	}
}

func (hook) Openat(p string, flags int, mode uint32) (int, error) {
	simrt.Yield(1<<25 + 1)
	k := enter()
	raw := p
	p = clean(p)
	v := k.check("open", p)
	fail := func(e syscall.Errno) (int, error) {
		err := k.end(v, "open", p, 0, 0, e)
		k.leave()
		return -1, err
	}
	if v.errno != 0 {
		return fail(v.errno)
	}
	f := k.files[p]
	acc := flags & syscall.O_ACCMODE
	if f == nil {
		if e := k.parentOK(p); e != 0 {
			return fail(e)
		}
		if flags&syscall.O_CREAT == 0 {
			return fail(syscall.ENOENT)
		}
		if strings.HasSuffix(raw, "/") {
			return fail(syscall.EISDIR)
		}
		if d := k.files[path.Dir(p)]; d.wdeny {
			return fail(syscall.EACCES)
		}
		if k.MaxFDs > 0 && len(k.fds) >= k.MaxFDs {
			return fail(syscall.EMFILE)
		}
		k.ino++
		f = &inode{mode: mode &^ k.Umask & 0o7777, ino: k.ino, nlink: 1}
		k.files[p] = f
	} else {
		if flags&syscall.O_CREAT != 0 && flags&syscall.O_EXCL != 0 {
			return fail(syscall.EEXIST)
		}
		if f.isDir && acc != syscall.O_RDONLY {
			return fail(syscall.EISDIR)
		}
		if flags&syscall.O_DIRECTORY != 0 && !f.isDir {
			return fail(syscall.ENOTDIR)
		}
		if f.deny && acc != syscall.O_WRONLY || f.wdeny && acc != syscall.O_RDONLY {
			return fail(syscall.EACCES)
		}
		if k.MaxFDs > 0 && len(k.fds) >= k.MaxFDs {
			return fail(syscall.EMFILE)
		}
		if flags&syscall.O_TRUNC != 0 && acc != syscall.O_RDONLY {
			f.data = nil
		}
	}
	fd := k.next
	k.next++
	k.fds[fd] = &desc{ino: f, path: p, flags: flags}
	k.Opens[p]++
	k.Opened = append(k.Opened, p)
	err := k.end(v, "open", p, fd, fd-k.base, 0)
	k.leave()
	return fd, err
}

func (k *Kernel) fd(fd int) *desc { return k.fds[fd] }

func (hook) Close(fd int) error {
	if current == nil || fd < current.base || fd >= current.base+1000 {
		return nil // a descriptor of an earlier run, closed by a finalizer
	}
	simrt.Yield(1<<25 + 2)
	k := enter()
	defer k.leave2()
	d := k.fd(fd)
	if d == nil {
		k.log("close", "?", fd, 0, "EBADF")
		return syscall.EBADF
	}
	v := k.check("close", d.path)
	// As on Linux, the descriptor is gone even if close reports an error.
	delete(k.fds, fd)
	k.Closed = append(k.Closed, d.path)
	return k.end(v, "close", d.path, fd, 0, v.errno)
}

// leave2 is leave for use in defers: die has unlocked already.
func (k *Kernel) leave2() {
	if k.locked && !k.dead {
		k.mu.Unlock()
	}
}

func (hook) Read(fd int, p []byte) (int, error) {
	simrt.Yield(1<<25 + 3)
	k := enter()
	defer k.leave2()
	d := k.fd(fd)
	if d == nil {
		k.log("read", "?", fd, 0, "EBADF")
		return -1, syscall.EBADF
	}
	n, err := k.pread(d, fd, p, d.off)
	if n > 0 {
		d.off += int64(n)
	}
	return n, err
}

func (k *Kernel) pread(d *desc, fd int, p []byte, off int64) (int, error) {
	v := verdict{limit: -1}
	if !d.ended { // whoever was told that the file ends here need not ask again
		v = k.check("read", d.path)
	}
	if d.ino.isDir {
		return -1, k.end(v, "read", d.path, fd, -1, syscall.EISDIR)
	}
	if d.flags&syscall.O_ACCMODE == syscall.O_WRONLY {
		return -1, k.end(v, "read", d.path, fd, -1, syscall.EBADF)
	}
	if v.part && off >= int64(len(d.ino.data)) {
		v.errno = syscall.EIO // there is no part to deliver first
		k.Broken[d.path]++
	}
	if v.errno != 0 {
		return -1, k.end(v, "read", d.path, fd, -1, v.errno)
	}
	n := 0
	if off < int64(len(d.ino.data)) {
		src := d.ino.data[off:]
		if v.limit >= 0 && len(src) > 0 && !v.crash {
			lim := v.limit
			if lim < 1 {
				lim = 1
			}
			if lim < len(src) {
				src = src[:lim]
			}
		}
		n = copy(p, src)
	}
	d.ended = d.ended || n == 0 && len(p) > 0
	return n, k.end(v, "read", d.path, fd, n, 0)
}

func (hook) Pread(fd int, p []byte, off int64) (int, error) {
	simrt.Yield(1<<25 + 3)
	k := enter()
	defer k.leave2()
	d := k.fd(fd)
	if d == nil {
		return -1, syscall.EBADF
	}
	return k.pread(d, fd, p, off)
}

func (hook) Write(fd int, p []byte) (int, error) {
	simrt.Yield(1<<25 + 4)
	k := enter()
	defer k.leave2()
	d := k.fd(fd)
	if d == nil {
		k.log("write", "?", fd, 0, "EBADF")
		return -1, syscall.EBADF
	}
	if d.flags&syscall.O_APPEND != 0 {
		d.off = int64(len(d.ino.data))
	}
	n, err := k.pwrite(d, fd, p, d.off)
	if n > 0 {
		d.off += int64(n)
	}
	return n, err
}

func (k *Kernel) pwrite(d *desc, fd int, p []byte, off int64) (int, error) {
	v := k.check("write", d.path)
	if d.flags&syscall.O_ACCMODE == syscall.O_RDONLY {
		return -1, k.end(v, "write", d.path, fd, -1, syscall.EBADF)
	}
	if v.errno != 0 && !v.crash {
		return -1, k.end(v, "write", d.path, fd, -1, v.errno)
	}
	n := len(p)
	if v.limit >= 0 && v.limit < n && !v.after {
		n = v.limit
		if n < 1 && len(p) > 0 && !v.crash {
			n = 1
		}
	}
	if k.Capacity > 0 {
		room := k.Capacity - k.Used()
		grow := int(off) + n - len(d.ino.data)
		if grow > room {
			n -= grow - room
			if n <= 0 {
				k.Fired["write:disk-full"]++
				return -1, k.end(v, "write", d.path, fd, -1, syscall.ENOSPC)
			}
			k.Fired["write:disk-full-partial"]++
		}
	}
	end := int(off) + n
	if end > len(d.ino.data) {
		nd := make([]byte, end)
		copy(nd, d.ino.data)
		d.ino.data = nd
	}
	copy(d.ino.data[off:], p[:n])
	return n, k.end(v, "write", d.path, fd, n, 0)
}

func (hook) Pwrite(fd int, p []byte, off int64) (int, error) {
	simrt.Yield(1<<25 + 4)
	k := enter()
	defer k.leave2()
	d := k.fd(fd)
	if d == nil {
		return -1, syscall.EBADF
	}
	return k.pwrite(d, fd, p, off)
}

func (f *inode) fill(st *syscall.Stat_t) {
	*st = syscall.Stat_t{}
	st.Ino = f.ino
	st.Dev = 4242
	st.Nlink = uint64(f.nlink)
	st.Mode = f.mode & 0o7777
	if f.isDir {
		st.Mode |= syscall.S_IFDIR
	} else {
		st.Mode |= syscall.S_IFREG
	}
	st.Size = int64(len(f.data))
	st.Blksize = 4096
}

func (hook) Fstat(fd int, st *syscall.Stat_t) error {
	k := enter()
	defer k.leave2()
	d := k.fd(fd)
	if d == nil {
		return syscall.EBADF
	}
	v := k.check("stat", d.path)
	if v.errno == 0 {
		d.ino.fill(st)
	}
	return k.end(v, "fstat", d.path, fd, 0, v.errno)
}

func (hook) Stat(p string, st *syscall.Stat_t) error {
	simrt.Yield(1<<25 + 5)
	k := enter()
	defer k.leave2()
	p = clean(p)
	v := k.check("stat", p)
	e := v.errno
	if e == 0 {
		if f := k.files[p]; f != nil {
			f.fill(st)
		} else {
			e = syscall.ENOENT
		}
	}
	return k.end(v, "stat", p, 0, 0, e)
}

func (f *inode) resize(n int64) {
	nd := make([]byte, n)
	copy(nd, f.data)
	f.data = nd
}

func (hook) Ftruncate(fd int, n int64) error {
	simrt.Yield(1<<25 + 6)
	k := enter()
	defer k.leave2()
	d := k.fd(fd)
	if d == nil {
		return syscall.EBADF
	}
	v := k.check("truncate", d.path)
	if v.errno == 0 {
		d.ino.resize(n)
	}
	return k.end(v, "ftruncate", d.path, fd, int(n), v.errno)
}

func (hook) Truncate(p string, n int64) error {
	simrt.Yield(1<<25 + 6)
	k := enter()
	defer k.leave2()
	p = clean(p)
	v := k.check("truncate", p)
	e := v.errno
	if e == 0 {
		if f := k.files[p]; f == nil {
			e = syscall.ENOENT
		} else if f.wdeny {
			e = syscall.EACCES
		} else {
			f.resize(n)
		}
	}
	return k.end(v, "truncate", p, 0, int(n), e)
}

func (hook) Seek(fd int, off int64, whence int) (int64, error) {
	k := enter()
	defer k.leave2()
	d := k.fd(fd)
	if d == nil {
		return -1, syscall.EBADF
	}
	v := k.check("seek", d.path)
	if v.errno != 0 {
		return -1, k.end(v, "seek", d.path, fd, -1, v.errno)
	}
	d.ended = false
	switch whence {
	case 0:
		d.off = off
	case 1:
		d.off += off
	case 2:
		d.off = int64(len(d.ino.data)) + off
	}
	return d.off, k.end(v, "seek", d.path, fd, int(d.off), 0)
}

func (hook) Fsync(fd int) error {
	simrt.Yield(1<<25 + 7)
	k := enter()
	defer k.leave2()
	d := k.fd(fd)
	if d == nil {
		return syscall.EBADF
	}
	v := k.check("fsync", d.path)
	return k.end(v, "fsync", d.path, fd, 0, v.errno)
}

func (hook) Fchmod(fd int, mode uint32) error {
	k := enter()
	defer k.leave2()
	d := k.fd(fd)
	if d == nil {
		return syscall.EBADF
	}
	v := k.check("chmod", d.path)
	if v.errno == 0 {
		d.ino.mode = mode
	}
	return k.end(v, "fchmod", d.path, fd, 0, v.errno)
}

func (hook) Chmod(p string, mode uint32) error {
	k := enter()
	defer k.leave2()
	p = clean(p)
	v := k.check("chmod", p)
	e := v.errno
	if e == 0 {
		if f := k.files[p]; f == nil {
			e = syscall.ENOENT
		} else {
			f.mode = mode
		}
	}
	return k.end(v, "chmod", p, 0, 0, e)
}

func (hook) Unlink(p string, flags int) error {
	simrt.Yield(1<<25 + 8)
	k := enter()
	defer k.leave2()
	p = clean(p)
	v := k.check("unlink", p)
	e := v.errno
	if e == 0 {
		f := k.files[p]
		switch {
		case f == nil:
			e = syscall.ENOENT
		case f.isDir && flags&0x200 == 0:
			e = syscall.EISDIR
		case !f.isDir && flags&0x200 != 0:
			e = syscall.ENOTDIR
		default:
			f.nlink--
			delete(k.files, p)
		}
	}
	return k.end(v, "unlink", p, 0, 0, e)
}

func (hook) Rename(from, to string) error {
	simrt.Yield(1<<25 + 9)
	k := enter()
	defer k.leave2()
	from, to = clean(from), clean(to)
	v := k.check("rename", from)
	e := v.errno
	if e == 0 {
		f, t := k.files[from], k.files[to]
		switch {
		case f == nil:
			e = syscall.ENOENT
		case k.parentOK(to) != 0:
			e = k.parentOK(to)
		case t != nil && t.isDir && !f.isDir:
			e = syscall.EISDIR
		default:
			k.files[to] = f
			if from != to {
				delete(k.files, from)
			}
		}
	}
	return k.end(v, "rename", from+" -> "+to, 0, 0, e)
}

func (hook) Link(from, to string) error {
	k := enter()
	defer k.leave2()
	from, to = clean(from), clean(to)
	v := k.check("link", from)
	e := v.errno
	if e == 0 {
		switch {
		case k.files[from] == nil:
			e = syscall.ENOENT
		case k.files[to] != nil:
			e = syscall.EEXIST
		default:
			k.files[to] = k.files[from]
			k.files[to].nlink++
		}
	}
	return k.end(v, "link", from+" -> "+to, 0, 0, e)
}

func (hook) Mkdir(p string, mode uint32) error {
	k := enter()
	defer k.leave2()
	p = clean(p)
	v := k.check("mkdir", p)
	e := v.errno
	if e == 0 {
		if k.files[p] != nil {
			e = syscall.EEXIST
		} else if e = k.parentOK(p); e == 0 {
			k.mkdir(p)
		}
	}
	return k.end(v, "mkdir", p, 0, 0, e)
}

func (hook) Getdents(fd int, buf []byte) (int, error) {
	k := enter()
	defer k.leave2()
	d := k.fd(fd)
	if d == nil {
		return -1, syscall.EBADF
	}
	if !d.ino.isDir {
		return -1, syscall.ENOTDIR
	}
	if d.dirs == nil {
		d.dirs = []string{}
		for p := range k.files {
			if path.Dir(p) == d.path && p != d.path {
				d.dirs = append(d.dirs, p)
			}
		}
		sort.Strings(d.dirs)
	}
	n := 0
	for len(d.dirs) > 0 {
		name := path.Base(d.dirs[0])
		size := (19 + len(name) + 1 + 7) &^ 7
		if n+size > len(buf) {
			break
		}
		de := (*syscall.Dirent)(unsafe.Pointer(&buf[n]))
		f := k.files[d.dirs[0]]
		de.Ino = 1
		de.Type = syscall.DT_REG
		if f != nil {
			de.Ino = f.ino
			if f.isDir {
				de.Type = syscall.DT_DIR
			}
		}
		de.Reclen = uint16(size)
		for i := 0; i < len(name); i++ {
			buf[n+19+i] = name[i]
		}
		buf[n+19+len(name)] = 0
		n += size
		d.dirs = d.dirs[1:]
	}
	return n, nil
}
