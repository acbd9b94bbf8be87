package simrt

import (
	"errors"
	"io"
	"os"
	"path/filepath"
	"sort"

	"github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/opt"
	"github.com/syndtr/goleveldb/leveldb/storage"
)

// ldbFiles is the directory of one LevelDB database on a node's disk.  The
// database engine itself is the real one; its own goroutines never touch a
// file after opening (compaction triggers are out of reach), so every disk
// operation happens inside the call of a simulated task.
type ldbFiles struct {
	fs     *FS
	files  map[storage.FileDesc]*ldbFile
	meta   storage.FileDesc
	hasM   bool
	locked *ldbStore
	ops    int64
}

type ldbFile struct {
	data   []byte
	synced int
}

func (d *ldbFiles) crash(power bool) {
	d.locked = nil
	if !power {
		return
	}
	w := d.fs.n.w
	s := w.C.Stream("power")
	var fds []storage.FileDesc
	for fd := range d.files {
		fds = append(fds, fd)
	}
	sort.Slice(fds, func(i, j int) bool {
		return fds[i].Type < fds[j].Type || fds[i].Type == fds[j].Type && fds[i].Num < fds[j].Num
	})
	for _, fd := range fds {
		f := d.files[fd]
		if n := len(f.data) - f.synced; n > 0 {
			drop := s.Draw(n + 1) // 0: everything had reached the disk
			if drop > 0 {
				w.Stats["fault.unsynced_lost"]++
			}
			f.data = append([]byte{}, f.data[:len(f.data)-drop]...)
			f.synced = len(f.data)
		}
	}
}

var errStoreDead = errors.New("simulated disk is gone")

type ldbStore struct {
	d    *ldbFiles
	inc  int
	path string
	shut bool
}

func (s *ldbStore) dead() bool {
	return s.shut || s.d.fs.n.dead || s.d.fs.n.Inc != s.inc || s.d.locked != nil && s.d.locked != s || W != s.d.fs.n.w
}

// step counts a disk operation and lets an armed crash strike inside it.
func (s *ldbStore) step() bool {
	if s.dead() {
		return false
	}
	n := s.d.fs.n
	if n.w.cur == nil || n.w.cur.node != n {
		return true
	}
	n.w.steps++
	if n.crashIn > 0 {
		n.crashIn--
		if n.crashIn == 0 {
			n.Crash(n.crashPower)
			return false
		}
	}
	return true
}

func (s *ldbStore) Lock() (storage.Locker, error) {
	if s.d.locked != nil {
		return nil, storage.ErrLocked
	}
	s.d.locked = s
	return ldbLock{s}, nil
}

type ldbLock struct{ s *ldbStore }

func (l ldbLock) Unlock() {
	if l.s.d.locked == l.s {
		l.s.d.locked = nil
	}
}

func (s *ldbStore) Log(string) {}

func (s *ldbStore) SetMeta(fd storage.FileDesc) error {
	if !s.step() {
		return errStoreDead
	}
	// goleveldb renames CURRENT without syncing the manifest it names; file
	// systems write the data out before such a rename, and so does this disk.
	if f := s.d.files[fd]; f != nil {
		f.synced = len(f.data)
	}
	s.d.meta, s.d.hasM = fd, true
	return nil
}

func (s *ldbStore) GetMeta() (storage.FileDesc, error) {
	if !s.d.hasM {
		return storage.FileDesc{}, os.ErrNotExist
	}
	return s.d.meta, nil
}

func (s *ldbStore) List(ft storage.FileType) ([]storage.FileDesc, error) {
	var fds []storage.FileDesc
	for fd := range s.d.files {
		if fd.Type&ft != 0 {
			fds = append(fds, fd)
		}
	}
	sort.Slice(fds, func(i, j int) bool {
		return fds[i].Type < fds[j].Type || fds[i].Type == fds[j].Type && fds[i].Num < fds[j].Num
	})
	return fds, nil
}

func (s *ldbStore) Open(fd storage.FileDesc) (storage.Reader, error) {
	if s.dead() {
		return nil, errStoreDead
	}
	f, ok := s.d.files[fd]
	if !ok {
		return nil, os.ErrNotExist
	}
	return &ldbReader{s: s, f: f}, nil
}

func (s *ldbStore) Create(fd storage.FileDesc) (storage.Writer, error) {
	if !s.step() {
		return nil, errStoreDead
	}
	f := &ldbFile{}
	s.d.files[fd] = f
	return &ldbWriter{s, f}, nil
}

func (s *ldbStore) Remove(fd storage.FileDesc) error {
	if !s.step() {
		return errStoreDead
	}
	if _, ok := s.d.files[fd]; !ok {
		return os.ErrNotExist
	}
	delete(s.d.files, fd)
	return nil
}

func (s *ldbStore) Rename(a, b storage.FileDesc) error {
	if !s.step() {
		return errStoreDead
	}
	f, ok := s.d.files[a]
	if !ok {
		return os.ErrNotExist
	}
	delete(s.d.files, a)
	s.d.files[b] = f
	return nil
}

func (s *ldbStore) Close() error {
	if s.d.locked == s {
		s.d.locked = nil
	}
	s.shut = true
	return nil
}

type ldbReader struct {
	s   *ldbStore
	f   *ldbFile
	pos int64
}

func (r *ldbReader) rerr() error {
	if r.s.dead() {
		return errStoreDead
	}
	fs := r.s.d.fs
	if fs.n.w.cur != nil && fs.n.w.cur.node == fs.n && fs.fault(fs.n.Rates.ReadErr, "disk_read_error") {
		return errors.New("simulated disk read error")
	}
	return nil
}

func (r *ldbReader) Read(b []byte) (int, error) {
	if err := r.rerr(); err != nil {
		return 0, err
	}
	if r.pos >= int64(len(r.f.data)) {
		return 0, io.EOF
	}
	n := copy(b, r.f.data[r.pos:])
	r.pos += int64(n)
	return n, nil
}
func (r *ldbReader) ReadAt(b []byte, off int64) (int, error) {
	if err := r.rerr(); err != nil {
		return 0, err
	}
	if off >= int64(len(r.f.data)) {
		return 0, io.EOF
	}
	n := copy(b, r.f.data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}
func (r *ldbReader) Seek(off int64, wh int) (int64, error) {
	switch wh {
	case io.SeekStart:
		r.pos = off
	case io.SeekCurrent:
		r.pos += off
	case io.SeekEnd:
		r.pos = int64(len(r.f.data)) + off
	}
	return r.pos, nil
}
func (r *ldbReader) Close() error { return nil }

type ldbWriter struct {
	s *ldbStore
	f *ldbFile
}

func (wr *ldbWriter) Write(b []byte) (int, error) {
	s := wr.s
	if s.dead() {
		return 0, errStoreDead
	}
	n := s.d.fs.n
	if !s.step() {
		// the crash struck inside this write: a prefix reached the file
		k := n.w.C.Stream("power").Draw(len(b) + 1)
		if k > 0 {
			n.w.Stats["fault.torn_write"]++
		}
		wr.f.data = append(append([]byte{}, wr.f.data...), b[:k]...)
		return 0, errStoreDead
	}
	if n.w.cur != nil && n.w.cur.node == n {
		if s.d.fs.fault(n.Rates.WriteErr, "disk_write_error") {
			return 0, errors.New("simulated disk write error")
		}
		if s.d.fs.fault(n.Rates.ShortWrite, "disk_full") {
			k := 0
			if len(b) > 0 {
				k = n.Faults.Draw(len(b))
			}
			wr.f.data = append(append([]byte{}, wr.f.data...), b[:k]...)
			return k, errors.New("simulated disk full")
		}
	}
	wr.f.data = append(append(make([]byte, 0, len(wr.f.data)+len(b)), wr.f.data...), b...)
	return len(b), nil
}

func (wr *ldbWriter) Sync() error {
	if !wr.s.step() {
		return errStoreDead
	}
	n := wr.s.d.fs.n
	if n.w.cur != nil && n.w.cur.node == n && wr.s.d.fs.fault(n.Rates.SyncErr, "disk_sync_error") {
		return errors.New("simulated disk sync error")
	}
	wr.f.synced = len(wr.f.data)
	return nil
}
func (wr *ldbWriter) Close() error { return nil }

// LevelOpenFile is leveldb.OpenFile on the current node's simulated disk.
func LevelOpenFile(path string, o *opt.Options) (*leveldb.DB, error) {
	fs := fsOf()
	ioStep()
	if gone() {
		return nil, errDead
	}
	p := filepath.Clean(path)
	d := fs.ldbs[p]
	if d == nil {
		d = &ldbFiles{fs: fs, files: map[storage.FileDesc]*ldbFile{}}
		fs.ldbs[p] = d
	}
	oo := opt.Options{}
	if o != nil {
		oo = *o
	}
	oo.CompactionL0Trigger = 1 << 20
	oo.WriteL0SlowdownTrigger = 1 << 20
	oo.WriteL0PauseTrigger = 1 << 20
	oo.DisableSeeksCompaction = true
	if oo.WriteBuffer == 0 || oo.WriteBuffer > 1<<20 {
		oo.WriteBuffer = 1 << 20
	}
	oo.BlockCacheCapacity = 64 << 10
	oo.DisableBufferPool = true
	st := &ldbStore{d: d, inc: fs.n.Inc, path: p}
	db, err := leveldb.Open(st, &oo)
	if err != nil {
		if d.locked == st {
			d.locked = nil
		}
		if inSim() && !gone() {
			ioStep()
		}
		return nil, err
	}
	fs.n.OnCrash(func() { closeLater(db, st) })
	fs.n.w.dbs = append(fs.n.w.dbs, closer{db, st})
	return db, nil
}

type closer struct {
	db *leveldb.DB
	st *ldbStore
}

// closeLater ends the abandoned database's goroutines; its storage is dead,
// so nothing it does has an effect.
func closeLater(db *leveldb.DB, st *ldbStore) {
	st.shut = true
}

// Cleanup releases what the run left behind (after Run returned).
func (w *World) Cleanup() {
	for _, c := range w.dbs {
		c.st.shut = true
		c.db.Close()
	}
	w.dbs = nil
}
