package rt

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"
)

// FS is the disk of a simulated host. Every file has a cached content (what running processes see) and a durable
// content (what survives a power loss); the directory likewise, through a log of metadata operations not yet
// durable.
type FS struct {
	dir     []dirent // visible names
	durable []dirent // names that survive a power loss for sure
	pending []metaOp // metadata operations not yet known to be durable, in order
	inodes  uint64
	Cfg     DiskFaults
	Writes  int
	Used    int64
	Limit   int64 // 0: unlimited
	OnEvent func(op string)
	OnFail  func(op, name string) // an operation is about to fail
	Mounts  []string              // directories that are file systems of their own
	Slept   int64                 // time taken by slow operations
	slowOps []int64               // when those under way began
}

// DiskFaults configures fault injection on a disk (probabilities per operation).
type DiskFaults struct {
	Full, EIO, Short, Slow float64 // Short: reads
	SlowMax                int64   // of a slow operation, if not 20 ms
}

type inode struct {
	id      uint64
	data    []byte
	durable []byte
	dirty   bool
	mods    uint64
	isDir   bool
	mode    fs.FileMode
	mtime   time.Time
}

type dirent struct {
	name string
	ino  *inode
}

type metaOp struct {
	from, to string // rename from->to; create: from=="" ; remove: to==""
	ino      *inode
}

func newFS() *FS {
	f := &FS{}
	for _, d := range []string{"/", "/tmp", "/data"} {
		ino := f.newInode()
		ino.isDir = true
		f.dir = append(f.dir, dirent{d, ino})
		f.durable = append(f.durable, dirent{d, ino})
	}
	return f
}

func (f *FS) newInode() *inode { f.inodes++; return &inode{id: f.inodes, mode: 0600} }

func clean(name string) string {
	if !strings.HasPrefix(name, "/") {
		name = "/data/" + name
	}
	return filepath.Clean(name)
}

func find(d []dirent, name string) *inode {
	for i := range d {
		if d[i].name == name {
			return d[i].ino
		}
	}
	return nil
}

func set(d *[]dirent, name string, ino *inode) {
	for i := range *d {
		if (*d)[i].name == name {
			if ino == nil {
				*d = append((*d)[:i], (*d)[i+1:]...)
			} else {
				(*d)[i].ino = ino
			}
			return
		}
	}
	if ino != nil {
		*d = append(*d, dirent{name, ino})
	}
}

func (f *FS) lookup(name string) *inode { return find(f.dir, clean(name)) }

func (f *FS) apply(d *[]dirent, op metaOp) {
	switch {
	case op.from == "":
		set(d, op.to, op.ino)
	case op.to == "":
		set(d, op.from, nil)
	default:
		set(d, op.from, nil)
		set(d, op.to, op.ino)
	}
}

func (f *FS) meta(op metaOp) {
	f.apply(&f.dir, op)
	f.pending = append(f.pending, op)
	if n := len(f.pending); n >= 128 {
		// the journal is committed now and then, whatever happens (and the lost versions need not be kept for ever)
		for _, op := range f.pending[:n/2] {
			f.apply(&f.durable, op)
		}
		f.pending = append([]metaOp(nil), f.pending[n/2:]...)
	}
}

// SleptNow is Slept with the time of an operation under way.
func (f *FS) SleptNow() int64 {
	n := f.Slept
	for _, t0 := range f.slowOps {
		n += gs.now - t0
	}
	return n
}

// syncDir makes all metadata operations durable.
func (f *FS) syncDir() {
	for _, op := range f.pending {
		f.apply(&f.durable, op)
	}
	f.pending = nil
}

// Peek returns the content a process would read now.
func (f *FS) Peek(name string) ([]byte, bool) {
	if ino := f.lookup(name); ino != nil && !ino.isDir {
		return append([]byte(nil), ino.data...), true
	}
	return nil, false
}

// Version identifies the content of a file: it changes when the file is replaced or modified.
func (f *FS) Version(name string) (v [2]uint64) {
	if ino := f.lookup(name); ino != nil && !ino.isDir {
		v = [2]uint64{ino.id, ino.mods}
	}
	return v
}

// Put stores a durable file, for test set-up.
func (f *FS) Put(name string, data []byte) {
	ino := f.newInode()
	ino.data = append([]byte(nil), data...)
	ino.durable = append([]byte(nil), data...)
	set(&f.dir, clean(name), ino)
	set(&f.durable, clean(name), ino)
}

// Mkdir makes a durable directory, for test set-up.
func (f *FS) Mkdir(name string) {
	ino := f.newInode()
	ino.isDir = true
	set(&f.dir, clean(name), ino)
	set(&f.durable, clean(name), ino)
}

// Files lists the visible files.
func (f *FS) Files() []string {
	var l []string
	for _, d := range f.dir {
		if !d.ino.isDir {
			l = append(l, d.name)
		}
	}
	return l
}

// PowerLoss drops everything that was not durable: a prefix of the pending metadata operations survives, and of
// each unsynced file's data some prefix, possibly torn.
func (f *FS) PowerLoss() {
	s := gs
	s.Fault(FPowerLoss)
	keep := len(f.pending)
	if keep > 0 {
		// default (0) keeps everything: ordered metadata usually reaches the disk before unsynced data does
		lost := int(s.choose(KDiskFault, int64(keep)+1, func() int64 {
			if s.rng.P(0.6) {
				return 0
			}
			return int64(s.rng.Intn(keep + 1))
		}))
		if lost > 0 {
			s.Fault(FLostRename)
		}
		keep -= lost
	}
	for _, op := range f.pending[:keep] {
		f.apply(&f.durable, op)
	}
	f.pending = nil
	f.dir = append([]dirent(nil), f.durable...)
	seen := []*inode{}
	for i := range f.dir {
		ino := f.dir[i].ino
		dup := false
		for _, x := range seen {
			dup = dup || x == ino
		}
		if dup || ino.isDir {
			continue
		}
		seen = append(seen, ino)
		if ino.dirty {
			switch s.choose(KDiskFault, 4, func() int64 { return int64(s.rng.Intn(4)) }) {
			case 0: // everything reached the disk
			case 1: // nothing since the last sync did
				ino.data = append([]byte(nil), ino.durable...)
				s.Fault(FTornWrite)
			case 2: // the length did, the data did not
				ino.data = make([]byte, len(ino.data))
				copy(ino.data, ino.durable)
				s.Fault(FTornWrite)
			case 3: // a prefix did
				if n := len(ino.data); n > 0 {
					ino.data = ino.data[:Choose(KDiskFault, n)]
				}
				s.Fault(FTornWrite)
			}
		}
		ino.durable = append([]byte(nil), ino.data...)
		ino.dirty = false
	}
	s.Tracef("power loss: disk holds %v", f.Files())
}

func (f *FS) event(op string) {
	Yield()
	if f.Cfg.Slow > 0 && gs.Quiet == 0 && !gs.cur.killed && Chance(KDiskFault, f.Cfg.Slow) {
		gs.Fault(FSlowDisk)
		t0 := gs.now
		f.slowOps = append(f.slowOps, t0)
		func() {
			defer func() {
				for i, t := range f.slowOps {
					if t == t0 {
						f.slowOps = append(f.slowOps[:i], f.slowOps[i+1:]...)
						break
					}
				}
				f.Slept += gs.now - t0
			}()
			max := f.Cfg.SlowMax
			if max == 0 {
				max = int64(20 * time.Millisecond)
			}
			Time_Sleep(time.Duration(1 + Range(KDiskFault, max, true)))
		}()
	}
	if f.OnEvent != nil && !gs.cur.killed {
		f.OnEvent(op)
	}
}

func curFS() *FS { return gs.cur.Node.Host.FS }

func pathErr(op, name string, e error) error { return &fs.PathError{Op: op, Path: name, Err: e} }

var errDead = errors.New("process is dead")

func (f *FS) fail(op, name string) error {
	s := gs
	if s.cur.killed {
		return pathErr(op, name, errDead)
	}
	if s.Quiet > 0 {
		return nil
	}
	if f.Cfg.EIO > 0 && Chance(KDiskFault, f.Cfg.EIO) {
		s.Fault(FDiskEIO)
		if f.OnFail != nil {
			f.OnFail(op, name)
		}
		s.Tracef("disk error on %s %s", op, name)
		return pathErr(op, name, syscall.EIO)
	}
	if f.Cfg.Full > 0 && (op == "write" || op == "open" || op == "sync" || op == "close") && Chance(KDiskFault, f.Cfg.Full) {
		s.Fault(FDiskFull)
		if f.OnFail != nil {
			f.OnFail(op, name)
		}
		s.Tracef("disk full on %s %s", op, name)
		return pathErr(op, name, syscall.ENOSPC)
	}
	return nil
}

// Os_File replaces os.File.
type Os_File struct {
	name   string
	ino    *inode
	fs     *FS
	pos    int64
	flag   int
	closed bool
	log    bool
}

var (
	Os_Stderr = &Os_File{name: "/dev/stderr", log: true}
	Os_Stdout = &Os_File{name: "/dev/stdout", log: true}
	Os_Stdin  = &Os_File{name: "/dev/stdin", log: true}
)

func Os_TempDir() string { return "/tmp" }

func Os_Open(name string) (*Os_File, error) { return Os_OpenFile(name, os.O_RDONLY, 0) }
func Os_Create(name string) (*Os_File, error) {
	return Os_OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func Os_OpenFile(name string, flag int, perm os.FileMode) (*Os_File, error) {
	f := curFS()
	f.event("open")
	if err := f.fail("open", name); err != nil {
		return nil, err
	}
	ino := f.lookup(name)
	if ino == nil {
		if flag&os.O_CREATE == 0 {
			return nil, pathErr("open", name, syscall.ENOENT)
		}
		if d := f.lookup(filepath.Dir(clean(name))); d == nil || !d.isDir {
			return nil, pathErr("open", name, syscall.ENOENT)
		}
		ino = f.newInode()
		ino.mode = perm &^ 022
		ino.mtime = Time_Now()
		f.meta(metaOp{"", clean(name), ino})
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, pathErr("open", name, syscall.EEXIST)
		}
		if ino.isDir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
			return nil, pathErr("open", name, syscall.EISDIR)
		}
	}
	if flag&os.O_TRUNC != 0 && len(ino.data) > 0 {
		f.Used -= int64(len(ino.data))
		ino.data = nil
		ino.dirty = true
		ino.mods++
	}
	h := &Os_File{name: name, ino: ino, fs: f, flag: flag}
	gs.Tracef("open %s", name)
	return h, nil
}

func (h *Os_File) chk(op string) error {
	if h == nil {
		return os.ErrInvalid
	}
	if h.closed {
		return pathErr(op, h.name, os.ErrClosed)
	}
	return nil
}

func (h *Os_File) Name() string { return h.name }
func (h *Os_File) Fd() uintptr  { return 1000 }

func (h *Os_File) Write(p []byte) (int, error) {
	if h != nil && h.log {
		return LogWriter{}.Write(p)
	}
	if err := h.chk("write"); err != nil {
		return 0, err
	}
	f := h.fs
	f.event("write")
	if err := h.chk("write"); err != nil {
		return 0, err
	}
	n := len(p)
	err := f.fail("write", h.name)
	if err != nil {
		n = 0
		if n0 := len(p); n0 > 1 && Chance(KDiskFault, 0.5) { // part of the data went in before the error
			n = Choose(KDiskFault, n0)
			gs.Fault(FDiskShort)
		}
	}
	if f.Limit > 0 && err == nil && f.Used+int64(n) > f.Limit {
		n = int(max64(0, f.Limit-f.Used))
		err = pathErr("write", h.name, syscall.ENOSPC)
		gs.Fault(FDiskFull)
		if f.OnFail != nil {
			f.OnFail("write", h.name)
		}
	}
	if h.flag&os.O_APPEND != 0 {
		h.pos = int64(len(h.ino.data))
	}
	// Long writes become visible in pieces, other tasks may run in between.
	off := 0
	for off < n {
		k := n - off
		if k > 64 {
			k = k/2 + 1
		}
		raceRead(p[off : off+k])
		h.put(p[off : off+k])
		off += k
		if off < n {
			f.event("write-part")
			if Killed() {
				return off, errDead
			}
		}
	}
	gs.Tracef("write %d bytes to %s: %v", n, h.name, err)
	return n, err
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func (h *Os_File) put(p []byte) {
	end := h.pos + int64(len(p))
	if end > int64(len(h.ino.data)) {
		h.fs.Used += end - int64(len(h.ino.data))
		nd := make([]byte, end)
		copy(nd, h.ino.data)
		h.ino.data = nd
	} else {
		h.ino.data = append([]byte(nil), h.ino.data...)
	}
	copy(h.ino.data[h.pos:], p)
	h.pos = end
	h.ino.dirty = true
	h.ino.mods++
	h.ino.mtime = Time_Now()
	h.fs.Writes++
}

func (h *Os_File) WriteString(s string) (int, error) { return h.Write([]byte(s)) }
func (h *Os_File) WriteAt(p []byte, off int64) (int, error) {
	old := h.pos
	h.pos = off
	n, err := h.Write(p)
	h.pos = old
	return n, err
}

func (h *Os_File) Read(p []byte) (int, error) {
	if h != nil && h.log {
		return 0, io.EOF
	}
	if err := h.chk("read"); err != nil {
		return 0, err
	}
	raceWrite(p)
	h.fs.event("read")
	if err := h.fs.fail("read", h.name); err != nil {
		return 0, err
	}
	if h.pos >= int64(len(h.ino.data)) {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(p, h.ino.data[h.pos:])
	if n > 1 && h.fs.Cfg.Short > 0 && gs.Quiet == 0 && Chance(KDiskFault, h.fs.Cfg.Short) {
		n = 1 + Choose(KDiskFault, n-1)
		gs.Fault(FShortRead)
	}
	h.pos += int64(n)
	return n, nil
}

func (h *Os_File) ReadAt(p []byte, off int64) (int, error) {
	old := h.pos
	h.pos = off
	n, err := io.ReadFull(h, p)
	h.pos = old
	if err == io.ErrUnexpectedEOF {
		err = io.EOF
	}
	return n, err
}

func (h *Os_File) Seek(off int64, whence int) (int64, error) {
	if err := h.chk("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekStart:
		h.pos = off
	case io.SeekCurrent:
		h.pos += off
	case io.SeekEnd:
		h.pos = int64(len(h.ino.data)) + off
	}
	return h.pos, nil
}

func (h *Os_File) Truncate(n int64) error {
	if err := h.chk("truncate"); err != nil {
		return err
	}
	h.fs.event("truncate")
	nd := make([]byte, n)
	copy(nd, h.ino.data)
	h.ino.data = nd
	h.ino.dirty = true
	h.ino.mods++
	return nil
}

func (h *Os_File) Sync() error {
	if h != nil && h.log {
		return nil
	}
	if err := h.chk("sync"); err != nil {
		return err
	}
	h.fs.event("sync")
	if err := h.fs.fail("sync", h.name); err != nil {
		return err
	}
	if h.ino.isDir {
		h.fs.syncDir()
		return nil
	}
	h.ino.durable = append([]byte(nil), h.ino.data...)
	h.ino.dirty = false
	gs.Tracef("sync %s", h.name)
	return nil
}

func (h *Os_File) Close() error {
	if h != nil && h.log {
		return nil
	}
	if err := h.chk("close"); err != nil {
		return err
	}
	h.fs.event("close")
	h.closed = true
	if err := h.fs.fail("close", h.name); err != nil && h.flag != os.O_RDONLY {
		return err
	}
	return nil
}

func (h *Os_File) Chmod(m os.FileMode) error { h.ino.mode = m; return nil }

func (h *Os_File) Stat() (os.FileInfo, error) {
	if err := h.chk("stat"); err != nil {
		return nil, err
	}
	return fileInfo{filepath.Base(h.name), h.ino}, nil
}

func (h *Os_File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(onlyWriter{h}, r) }

type onlyWriter struct{ w io.Writer }

func (o onlyWriter) Write(p []byte) (int, error) { return o.w.Write(p) }

type fileInfo struct {
	name string
	ino  *inode
}

func (i fileInfo) Name() string       { return i.name }
func (i fileInfo) Size() int64        { return int64(len(i.ino.data)) }
func (i fileInfo) Mode() fs.FileMode  { return i.ino.mode }
func (i fileInfo) ModTime() time.Time { return i.ino.mtime }
func (i fileInfo) IsDir() bool        { return i.ino.isDir }
func (i fileInfo) Sys() any           { return nil }

func Os_Rename(from, to string) error {
	f := curFS()
	f.event("rename")
	if err := f.fail("rename", from); err != nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: errors.Unwrap(err)}
	}
	ino := f.lookup(from)
	if ino == nil {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.ENOENT}
	}
	if d := f.lookup(filepath.Dir(clean(to))); d == nil || !d.isDir {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.ENOENT}
	}
	if f.mount(from) != f.mount(to) {
		return &os.LinkError{Op: "rename", Old: from, New: to, Err: syscall.EXDEV}
	}
	f.meta(metaOp{clean(from), clean(to), ino})
	gs.Tracef("rename %s to %s", from, to)
	f.event("renamed")
	return nil
}

// mount returns the file system a name is in.
func (f *FS) mount(name string) string {
	m := ""
	for _, d := range f.Mounts {
		if strings.HasPrefix(clean(name)+"/", d+"/") && len(d) > len(m) {
			m = d
		}
	}
	return m
}

func Os_Link(from, to string) error {
	f := curFS()
	f.event("link")
	ino := f.lookup(from)
	if ino == nil {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: syscall.ENOENT}
	}
	if f.lookup(to) != nil {
		return &os.LinkError{Op: "link", Old: from, New: to, Err: syscall.EEXIST}
	}
	f.meta(metaOp{"", clean(to), ino})
	return nil
}

func Os_Remove(name string) error {
	f := curFS()
	f.event("remove")
	if err := f.fail("remove", name); err != nil {
		return err
	}
	if f.lookup(name) == nil {
		return pathErr("remove", name, syscall.ENOENT)
	}
	f.meta(metaOp{clean(name), "", nil})
	gs.Tracef("remove %s", name)
	f.event("removed")
	return nil
}

func Os_RemoveAll(name string) error {
	f := curFS()
	for _, n := range append([]dirent(nil), f.dir...) {
		if n.name == clean(name) || strings.HasPrefix(n.name, clean(name)+"/") {
			f.meta(metaOp{n.name, "", nil})
		}
	}
	return nil
}

func Os_Mkdir(name string, perm os.FileMode) error {
	f := curFS()
	f.event("mkdir")
	if f.lookup(name) != nil {
		return pathErr("mkdir", name, syscall.EEXIST)
	}
	ino := f.newInode()
	ino.isDir = true
	f.meta(metaOp{"", clean(name), ino})
	return nil
}

func Os_MkdirAll(name string, perm os.FileMode) error {
	if ino := curFS().lookup(name); ino != nil {
		return nil
	}
	if p := filepath.Dir(clean(name)); p != "/" {
		if err := Os_MkdirAll(p, perm); err != nil {
			return err
		}
	}
	return Os_Mkdir(name, perm)
}

func Os_Stat(name string) (os.FileInfo, error) {
	f := curFS()
	f.event("stat")
	ino := f.lookup(name)
	if ino == nil {
		return nil, pathErr("stat", name, syscall.ENOENT)
	}
	return fileInfo{filepath.Base(name), ino}, nil
}

func Os_Lstat(name string) (os.FileInfo, error) { return Os_Stat(name) }
func Os_Chmod(name string, m os.FileMode) error { return nil }
func Os_Truncate(name string, n int64) error {
	h, err := Os_OpenFile(name, os.O_RDWR, 0)
	if err != nil {
		return err
	}
	defer h.Close()
	return h.Truncate(n)
}

func Os_ReadFile(name string) ([]byte, error) {
	h, err := Os_Open(name)
	if err != nil {
		return nil, err
	}
	defer h.Close()
	return io.ReadAll(onlyReader{h})
}

type onlyReader struct{ r io.Reader }

func (o onlyReader) Read(p []byte) (int, error) { return o.r.Read(p) }

func Os_WriteFile(name string, data []byte, perm os.FileMode) error {
	h, err := Os_OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = h.Write(data)
	if err1 := h.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func Os_CreateTemp(dir, pattern string) (*Os_File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for try := 0; ; try++ {
		name := filepath.Join(dir, fmt.Sprintf("%s%010d%s", pre, gs.entropy()%1e10, suf))
		h, err := Os_OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if err != nil && os.IsExist(err) && try < 100 {
			continue
		}
		return h, err
	}
}

func Os_MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = "/tmp"
	}
	name := filepath.Join(dir, fmt.Sprintf("%s%010d", strings.ReplaceAll(pattern, "*", ""), gs.entropy()%1e10))
	return name, Os_Mkdir(name, 0700)
}

func Os_ReadDir(dir string) ([]os.DirEntry, error) {
	f := curFS()
	var l []os.DirEntry
	for _, d := range f.dir {
		if filepath.Dir(d.name) == clean(dir) && d.name != "/" {
			l = append(l, fs.FileInfoToDirEntry(fileInfo{filepath.Base(d.name), d.ino}))
		}
	}
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if l[j].Name() < l[i].Name() {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	return l, nil
}

func Os_Getpid() int               { return 4242 + gs.cur.Node.ID }
func Os_Hostname() (string, error) { return gs.cur.Node.Host.Name, nil }

func Ioutil_TempFile(dir, pattern string) (*Os_File, error) { return Os_CreateTemp(dir, pattern) }
func Ioutil_TempDir(dir, pattern string) (string, error)    { return Os_MkdirTemp(dir, pattern) }
func Ioutil_ReadFile(name string) ([]byte, error)           { return Os_ReadFile(name) }
func Ioutil_WriteFile(name string, data []byte, perm os.FileMode) error {
	return Os_WriteFile(name, data, perm)
}
func Ioutil_ReadDir(dir string) ([]os.FileInfo, error) {
	es, err := Os_ReadDir(dir)
	var l []os.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		l = append(l, i)
	}
	return l, err
}
