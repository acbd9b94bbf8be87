package simrt

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"
)

// FS is a node's disk.  Names and contents survive a process crash as they
// are; after a power loss only what was synced is certain: namespace changes
// survive as a prefix of their order, file contents as the synced image or a
// prefix of the unsynced one.
type FS struct {
	n       *Node
	names   map[string]*inode
	durable map[string]*inode
	pending []func(m map[string]*inode)
	ldbs    map[string]*ldbFiles
	tmp     int
	Limit   int64 // bytes free (0: no limit)
	used    int64
	locks   map[*Flock]bool
}

type inode struct {
	dir      bool
	data     []byte
	synced   []byte
	everSync bool
	mode     os.FileMode
	holder   *Flock
	shared   map[*Flock]bool
	mtime    int64
}

func newFS(n *Node) *FS {
	return &FS{n: n, names: map[string]*inode{}, durable: map[string]*inode{}, ldbs: map[string]*ldbFiles{}, locks: map[*Flock]bool{}}
}

func fsOf() *FS {
	n := curNode()
	if n == nil {
		if W == nil || len(W.Nodes) == 0 {
			panic("simrt: file access outside a node")
		}
		return W.Nodes[0].FS
	}
	return n.FS
}

func perr(op, path string, e error) error { return &os.PathError{Op: op, Path: path, Err: e} }

var errDead = errors.New("simulated machine is off")

func (fs *FS) link(path string, i *inode) {
	fs.names[path] = i
	fs.pending = append(fs.pending, func(m map[string]*inode) { m[path] = i })
}
func (fs *FS) unlink(path string) {
	delete(fs.names, path)
	fs.pending = append(fs.pending, func(m map[string]*inode) { delete(m, path) })
}
func (fs *FS) syncNames() {
	for _, f := range fs.pending {
		f(fs.durable)
	}
	fs.pending = nil
}

// proc is the process the current task belongs to.
func (fs *FS) proc() *Node {
	if n := curNode(); n != nil && n.FS == fs {
		return n
	}
	return fs.n
}

func (fs *FS) crash(by *Node, power bool) {
	w := fs.n.w
	if power {
		s := w.C.Stream("power")
		// 0 keeps everything: the simplest outcome
		drop := s.Draw(len(fs.pending) + 1)
		for _, f := range fs.pending[:len(fs.pending)-drop] {
			f(fs.durable)
		}
		fs.pending = nil
		names := map[string]*inode{}
		var ps []string
		for p := range fs.durable {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			i := fs.durable[p]
			names[p] = i
			if i.dir || string(i.data) == string(i.synced) && i.everSync {
				continue
			}
			switch s.Draw(3) {
			case 0: // it had reached the disk
			case 1:
				i.data = append([]byte{}, i.synced...)
				w.Stats["fault.unsynced_lost"]++
			case 2:
				i.data = append([]byte{}, i.data[:s.Draw(len(i.data)+1)]...)
				w.Stats["fault.torn_file"]++
			}
			i.synced = append([]byte{}, i.data...)
		}
		fs.names = names
		fs.durable = map[string]*inode{}
		for p, i := range names {
			fs.durable[p] = i
		}
	}
	for f := range fs.locks {
		if f.fh == nil || f.fh.node == by || power {
			f.drop()
		}
	}
	if by != fs.n && !power {
		return // another process of the machine
	}
	var ls []string
	for p := range fs.ldbs {
		ls = append(ls, p)
	}
	sort.Strings(ls)
	for _, p := range ls {
		fs.ldbs[p].crash(power)
	}
}

func (fs *FS) fault(rate int, kind string) bool {
	n := fs.proc()
	if rate <= 0 || n.Faults == nil || n.w.cur == nil || n.w.cur.exiting {
		return false
	}
	if n.Faults.Chance(rate, 1000) {
		n.w.Stats["fault."+kind]++
		n.w.cur.Faults++
		n.w.Log("FAULT %s on %s", kind, n.Name)
		return true
	}
	return false
}

// Harness access to a node's files (no faults, no scheduling).
func (fs *FS) Peek(path string) ([]byte, bool) {
	i, ok := fs.names[filepath.Clean(path)]
	if !ok || i.dir {
		return nil, false
	}
	return i.data, true
}
func (fs *FS) Put(path string, b []byte) {
	path = filepath.Clean(path)
	i := &inode{data: append([]byte{}, b...), mode: 0600}
	i.synced, i.everSync = append([]byte{}, b...), true
	fs.names[path] = i
	fs.durable[path] = i
}
func (fs *FS) List() []string {
	var ps []string
	for p := range fs.names {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	return ps
}
func (fs *FS) Delete(path string) {
	delete(fs.names, filepath.Clean(path))
	delete(fs.durable, filepath.Clean(path))
}

type File struct {
	fs     *FS
	i      *inode
	name   string
	path   string
	pos    int64
	flag   int
	closed bool
	inc    int
	node   *Node
}

// IoStep is a scheduling point of the environment.
func IoStep() { ioStep() }

func ioStep() {
	if inSim() {
		Y(W.cur.site)
	}
}

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	fs := fsOf()
	ioStep()
	if gone() {
		return nil, perr("open", name, errDead)
	}
	if fs.fault(fs.proc().Rates.OpenErr, "disk_open_error") {
		return nil, perr("open", name, syscall.EMFILE)
	}
	p := filepath.Clean(name)
	i, ok := fs.names[p]
	if !ok && (p == "/" || p == ".") {
		i, ok = &inode{dir: true}, true
	}
	if ok && flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
		return nil, perr("open", name, syscall.EEXIST)
	}
	if !ok {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if d := filepath.Dir(p); d != "/" && d != "." {
			if di, ok := fs.names[d]; !ok || !di.dir {
				return nil, perr("open", name, syscall.ENOENT)
			}
		}
		i = &inode{mode: perm, mtime: W.now}
		fs.link(p, i)
	}
	if i.dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		return nil, perr("open", name, syscall.EISDIR)
	}
	if flag&os.O_TRUNC != 0 && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		fs.used -= int64(len(i.data))
		i.data = nil
	}
	ioStep()
	return &File{fs: fs, i: i, name: name, path: p, flag: flag, node: fs.proc(), inc: fs.proc().Inc}, nil
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

func (f *File) ok(op string) error {
	ioStep()
	if f == nil {
		return os.ErrInvalid
	}
	if gone() || f.inc != f.node.Inc {
		return perr(op, f.name, errDead)
	}
	if f.closed {
		return perr(op, f.name, os.ErrClosed)
	}
	return nil
}

func (f *File) Name() string { return f.name }
func (f *File) Fd() uintptr  { return 3 }

func (f *File) Read(b []byte) (int, error) {
	if err := f.ok("read"); err != nil {
		return 0, err
	}
	if f.i.dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if f.fs.fault(f.fs.proc().Rates.ReadErr, "disk_read_error") {
		return 0, perr("read", f.name, syscall.EIO)
	}
	if f.pos >= int64(len(f.i.data)) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(b, f.i.data[f.pos:])
	f.pos += int64(n)
	return n, nil
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if err := f.ok("read"); err != nil {
		return 0, err
	}
	if off >= int64(len(f.i.data)) {
		return 0, io.EOF
	}
	n := copy(b, f.i.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

func (f *File) put(b []byte) {
	if f.flag&os.O_APPEND != 0 {
		f.pos = int64(len(f.i.data))
	}
	end := f.pos + int64(len(b))
	// never in place: readers and crash images keep their slices
	nd := make([]byte, max64(end, int64(len(f.i.data))))
	copy(nd, f.i.data)
	copy(nd[f.pos:], b)
	f.fs.used += int64(len(nd) - len(f.i.data))
	f.i.data = nd
	f.i.mtime = W.now
	f.pos = end
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func (f *File) Write(b []byte) (int, error) {
	if err := f.ok("write"); err != nil {
		return 0, err
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	fs := f.fs
	if fs.fault(fs.proc().Rates.WriteErr, "disk_write_error") {
		return 0, perr("write", f.name, syscall.EIO)
	}
	if fs.fault(fs.proc().Rates.ShortWrite, "disk_full") {
		k := 0
		if len(b) > 0 {
			k = fs.proc().Faults.Draw(len(b))
		}
		f.put(b[:k])
		return k, perr("write", f.name, syscall.ENOSPC)
	}
	// pieces, so that a crash or another task can come in between
	done := 0
	for done < len(b) {
		k := (len(b)-1)/3 + 1
		if k < 64 {
			k = 64
		}
		if done+k > len(b) {
			k = len(b) - done
		}
		f.put(b[done : done+k])
		done += k
		if err := f.ok("write"); err != nil {
			return done, err
		}
	}
	return done, nil
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	old := f.pos
	f.pos = off
	n, err := f.Write(b)
	f.pos = old
	return n, err
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if err := f.ok("seek"); err != nil {
		return 0, err
	}
	switch whence {
	case io.SeekStart:
		f.pos = off
	case io.SeekCurrent:
		f.pos += off
	case io.SeekEnd:
		f.pos = int64(len(f.i.data)) + off
	}
	return f.pos, nil
}

func (f *File) Truncate(n int64) error {
	if err := f.ok("truncate"); err != nil {
		return err
	}
	nd := make([]byte, n)
	copy(nd, f.i.data)
	f.i.data = nd
	return nil
}

func (f *File) Sync() error {
	if err := f.ok("sync"); err != nil {
		return err
	}
	if f.fs.fault(f.fs.proc().Rates.SyncErr, "disk_sync_error") {
		return perr("sync", f.name, syscall.EIO)
	}
	f.i.synced = append([]byte{}, f.i.data...)
	f.i.everSync = true
	f.fs.syncNames()
	return nil
}

func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if gone() {
		return nil
	}
	if f.closed {
		return perr("close", f.name, os.ErrClosed)
	}
	ioStep()
	f.closed = true
	return nil
}

func (f *File) Chmod(m os.FileMode) error { f.i.mode = m; return nil }
func (f *File) Stat() (os.FileInfo, error) {
	if err := f.ok("stat"); err != nil {
		return nil, err
	}
	return infoOf(filepath.Base(f.path), f.i), nil
}
func (f *File) Chown(uid, gid int) error { return nil }
func (f *File) Readdirnames(n int) ([]string, error) {
	is, err := ReadDir(f.name)
	var out []string
	for _, i := range is {
		out = append(out, i.Name())
	}
	return out, err
}
func (f *File) ReadDir(n int) ([]os.DirEntry, error) { return ReadDirEntries(f.name) }
func (f *File) Readdir(n int) ([]os.FileInfo, error) { return ReadDir(f.name) }

type finfo struct {
	name string
	i    *inode
	size int64
	mode os.FileMode
	time int64
}

func infoOf(name string, i *inode) finfo {
	m := i.mode
	if i.dir {
		m |= os.ModeDir
	}
	return finfo{name, i, int64(len(i.data)), m, i.mtime}
}

func (f finfo) Name() string       { return f.name }
func (f finfo) Size() int64        { return f.size }
func (f finfo) Mode() os.FileMode  { return f.mode }
func (f finfo) ModTime() time.Time { return time.Unix(0, f.time).UTC() }
func (f finfo) IsDir() bool        { return f.i.dir }
func (f finfo) Sys() interface{}   { return nil }

func Stat(name string) (os.FileInfo, error) {
	fs := fsOf()
	ioStep()
	if gone() {
		return nil, perr("stat", name, errDead)
	}
	p := filepath.Clean(name)
	i, ok := fs.names[p]
	if !ok {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return infoOf(filepath.Base(p), i), nil
}

func Remove(name string) error {
	fs := fsOf()
	ioStep()
	if gone() {
		return perr("remove", name, errDead)
	}
	p := filepath.Clean(name)
	i, ok := fs.names[p]
	if !ok {
		return perr("remove", name, syscall.ENOENT)
	}
	if i.dir {
		for q := range fs.names {
			if strings.HasPrefix(q, p+"/") {
				return perr("remove", name, syscall.ENOTEMPTY)
			}
		}
	}
	fs.unlink(p)
	return nil
}

func RemoveAll(name string) error {
	fs := fsOf()
	ioStep()
	if gone() {
		return perr("removeall", name, errDead)
	}
	p := filepath.Clean(name)
	for _, q := range fs.List() {
		if q == p || strings.HasPrefix(q, p+"/") {
			fs.unlink(q)
		}
	}
	return nil
}

func Rename(a, b string) error {
	fs := fsOf()
	ioStep()
	if gone() {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: errDead}
	}
	if fs.fault(fs.proc().Rates.RenameErr, "disk_rename_error") {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.EIO}
	}
	pa, pb := filepath.Clean(a), filepath.Clean(b)
	i, ok := fs.names[pa]
	if !ok {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	delete(fs.names, pa)
	fs.names[pb] = i
	fs.pending = append(fs.pending, func(m map[string]*inode) { delete(m, pa); m[pb] = i })
	ioStep()
	return nil
}

func Link(a, b string) error {
	fs := fsOf()
	ioStep()
	i, ok := fs.names[filepath.Clean(a)]
	if !ok {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: syscall.ENOENT}
	}
	if _, ok := fs.names[filepath.Clean(b)]; ok {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: syscall.EEXIST}
	}
	fs.link(filepath.Clean(b), i)
	return nil
}

func Mkdir(name string, perm os.FileMode) error {
	fs := fsOf()
	ioStep()
	if gone() {
		return perr("mkdir", name, errDead)
	}
	p := filepath.Clean(name)
	if _, ok := fs.names[p]; ok {
		return perr("mkdir", name, syscall.EEXIST)
	}
	fs.link(p, &inode{dir: true, mode: perm})
	return nil
}

func MkdirAll(name string, perm os.FileMode) error {
	fs := fsOf()
	ioStep()
	if gone() {
		return perr("mkdir", name, errDead)
	}
	p := filepath.Clean(name)
	for q := p; q != "/" && q != "."; q = filepath.Dir(q) {
		if i, ok := fs.names[q]; ok {
			if !i.dir {
				return perr("mkdir", name, syscall.ENOTDIR)
			}
			continue
		}
		fs.link(q, &inode{dir: true, mode: perm, everSync: true})
	}
	return nil
}

func Chmod(name string, m os.FileMode) error {
	if i, ok := fsOf().names[filepath.Clean(name)]; ok {
		i.mode = m
		return nil
	}
	return perr("chmod", name, syscall.ENOENT)
}

func Truncate(name string, n int64) error {
	f, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	return f.Truncate(n)
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

func TempDir(dir, pattern string) (string, error) {
	fs := fsOf()
	if dir == "" {
		dir = "/tmp"
	}
	fs.tmp++
	p := filepath.Join(dir, strings.Replace(pattern, "*", "", 1)+fmt.Sprint(fs.tmp))
	return p, MkdirAll(p, 0700)
}

func TempFile(dir, pattern string) (*File, error) {
	fs := fsOf()
	if dir == "" {
		dir = "/tmp"
		if err := MkdirAll(dir, 0777); err != nil {
			return nil, err
		}
	}
	for {
		fs.tmp++
		name := pattern + fmt.Sprint(fs.tmp)
		if i := strings.LastIndex(pattern, "*"); i >= 0 {
			name = pattern[:i] + fmt.Sprint(fs.tmp) + pattern[i+1:]
		}
		f, err := OpenFile(filepath.Join(dir, name), os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		if os.IsExist(err) {
			continue
		}
		return f, err
	}
}

func ReadDir(name string) ([]os.FileInfo, error) {
	fs := fsOf()
	ioStep()
	p := filepath.Clean(name)
	if i, ok := fs.names[p]; !ok || !i.dir {
		return nil, perr("open", name, syscall.ENOENT)
	}
	var fi []os.FileInfo
	for _, q := range fs.List() {
		if filepath.Dir(q) == p && q != p {
			fi = append(fi, infoOf(filepath.Base(q), fs.names[q]))
		}
	}
	return fi, nil
}

func ReadDirEntries(name string) ([]os.DirEntry, error) {
	fi, err := ReadDir(name)
	var es []os.DirEntry
	for _, i := range fi {
		es = append(es, dirEntry{i})
	}
	return es, err
}

type dirEntry struct{ os.FileInfo }

func (d dirEntry) Type() os.FileMode          { return d.Mode().Type() }
func (d dirEntry) Info() (os.FileInfo, error) { return d.FileInfo, nil }

// Flock is github.com/gofrs/flock over the simulated disk: the lock belongs
// to the inode the path named when it was opened.
type Flock struct {
	path string
	m    RWMutex
	fh   *File
	l    bool
	r    bool
}

func NewFlock(path string) *Flock { return &Flock{path: path} }

func (f *Flock) Close() error   { return f.Unlock() }
func (f *Flock) Path() string   { return f.path }
func (f *Flock) String() string { return f.path }
func (f *Flock) Locked() bool {
	f.m.RLock()
	defer f.m.RUnlock()
	return f.l
}
func (f *Flock) RLocked() bool {
	f.m.RLock()
	defer f.m.RUnlock()
	return f.r
}

func (f *Flock) try(excl bool) (bool, error) {
	f.m.Lock()
	defer f.m.Unlock()
	if excl && f.l || !excl && f.r {
		return true, nil
	}
	if f.fh == nil {
		fh, err := OpenFile(f.path, os.O_CREATE|os.O_RDONLY, 0600)
		if err != nil {
			return false, err
		}
		f.fh = fh
	}
	ioStep()
	if gone() {
		return false, errDead
	}
	i := f.fh.i
	if i.holder != nil && i.holder != f || excl && (len(i.shared) > 1 || len(i.shared) == 1 && !i.shared[f]) {
		return false, nil
	}
	if excl {
		i.holder = f
		delete(i.shared, f)
		f.l = true
	} else {
		if i.holder == f {
			i.holder = nil
		}
		if i.shared == nil {
			i.shared = map[*Flock]bool{}
		}
		i.shared[f] = true
		f.r = true
	}
	f.fh.fs.locks[f] = true
	return true, nil
}

func (f *Flock) TryLock() (bool, error)  { return f.try(true) }
func (f *Flock) TryRLock() (bool, error) { return f.try(false) }
func (f *Flock) lock(excl bool) error {
	for {
		ok, err := f.try(excl)
		if ok || err != nil {
			return err
		}
		Sleep(time.Millisecond)
		if gone() {
			return errDead
		}
	}
}
func (f *Flock) lockCtx(ctx context.Context, excl bool, retry time.Duration) (bool, error) {
	if err := ctx.Err(); err != nil {
		return false, err
	}
	for {
		if ok, err := f.try(excl); ok || err != nil {
			return ok, err
		}
		Sleep(retry)
		if gone() {
			return false, errDead
		}
		if err := ctx.Err(); err != nil {
			return false, err
		}
	}
}
func (f *Flock) TryLockContext(ctx context.Context, retry time.Duration) (bool, error) {
	return f.lockCtx(ctx, true, retry)
}
func (f *Flock) TryRLockContext(ctx context.Context, retry time.Duration) (bool, error) {
	return f.lockCtx(ctx, false, retry)
}
func (f *Flock) Lock() error  { return f.lock(true) }
func (f *Flock) RLock() error { return f.lock(false) }

func (f *Flock) Unlock() error {
	f.m.Lock()
	defer f.m.Unlock()
	if gone() {
		return nil
	}
	if !f.l && !f.r || f.fh == nil {
		return nil
	}
	f.drop()
	ioStep()
	f.fh.Close()
	f.l, f.r, f.fh = false, false, nil
	return nil
}

// drop releases what the lock object holds, as closing its file does.
func (f *Flock) drop() {
	if f.fh == nil {
		return
	}
	i := f.fh.i
	if i.holder == f {
		i.holder = nil
	}
	delete(i.shared, f)
	delete(f.fh.fs.locks, f)
}

// Sync makes everything durable now (harness).
func (fs *FS) Sync() {
	for _, i := range fs.names {
		i.synced, i.everSync = append([]byte{}, i.data...), true
	}
	for _, d := range fs.ldbs {
		for _, f := range d.files {
			f.synced = len(f.data)
		}
	}
	fs.syncNames()
}

// Getpid is another one for each simulated process.
func Getpid() int {
	if W == nil {
		return 1
	}
	if n := curNode(); n != nil {
		for i, x := range W.Nodes {
			if x == n {
				return 1000 + 100*n.Inc + i
			}
		}
	}
	return 1
}

func Chown(name string, uid, gid int) error {
	_, err := Stat(name)
	return err
}

func Chtimes(name string, a, m time.Time) error {
	_, err := Stat(name)
	return err
}

func SameFile(a, b os.FileInfo) bool {
	x, ok1 := a.(finfo)
	y, ok2 := b.(finfo)
	return ok1 && ok2 && x.i == y.i
}

// Glob stands for filepath.Glob, for patterns in the last element only.
func Glob(pattern string) ([]string, error) {
	dir, base := filepath.Split(pattern)
	is, err := ReadDir(filepath.Clean(dir))
	if err != nil {
		return nil, nil
	}
	var out []string
	for _, i := range is {
		ok, err := filepath.Match(base, i.Name())
		if err != nil {
			return nil, err
		}
		if ok {
			out = append(out, dir+i.Name())
		}
	}
	return out, nil
}

// Walk stands for filepath.Walk.
func Walk(root string, fn filepath.WalkFunc) error {
	i, err := Stat(root)
	if err != nil {
		return fn(root, nil, err)
	}
	err = walk(root, i, fn)
	if err == filepath.SkipDir || err == filepath.SkipAll {
		return nil
	}
	return err
}

func walk(path string, i os.FileInfo, fn filepath.WalkFunc) error {
	if err := fn(path, i, nil); err != nil {
		if err == filepath.SkipDir && i.IsDir() {
			return nil
		}
		return err
	}
	if !i.IsDir() {
		return nil
	}
	is, err := ReadDir(path)
	if err != nil {
		return fn(path, i, err)
	}
	for _, k := range is {
		if err := walk(filepath.Join(path, k.Name()), k, fn); err != nil {
			if err == filepath.SkipDir {
				break
			}
			return err
		}
	}
	return nil
}
