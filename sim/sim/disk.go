//go:build go1.25

package sim

import (
	"errors"
	"io"
	"os"
	"reflect"
	"sort"
	"unsafe"

	"github.com/QuarkChain/goquarkchain/qkcdb"
	"github.com/ethereum/go-ethereum/ethdb"
	"github.com/ethereum/go-ethereum/log"
	"github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/filter"
	"github.com/syndtr/goleveldb/leveldb/opt"
	"github.com/syndtr/goleveldb/leveldb/storage"
)

// Disk is one database directory on simulated storage. It outlives the node
// incarnations that open it. The simulation runs one goroutine at a time and
// never switches inside these methods, so there is nothing to lock.
type Disk struct {
	Name   string
	files  map[storage.FileDesc]*dfile
	meta   storage.FileDesc
	hasMet bool
	locked bool

	Writes  int64 // journal writes so far
	CrashAt int64 // crash the owner at this journal write (0: off)
	Torn    bool  // the write that crashes is applied only in part
	TornR   uint64
	ErrAt   int64 // this journal write fails with an I/O error (0: off)
	onCrash func(d *Disk)
	onWrite func(d *Disk)
	onErr   func(d *Disk)
}

type dfile struct {
	data   []byte
	synced int
}

func NewDisk(name string) *Disk {
	return &Disk{Name: name, files: map[storage.FileDesc]*dfile{}}
}

// PowerLoss drops what was written but never synced, keeping a prefix of it.
func (d *Disk) PowerLoss(r *Rng) (lost int) {
	var fds []storage.FileDesc
	for fd := range d.files {
		fds = append(fds, fd)
	}
	sort.Slice(fds, func(i, j int) bool {
		return fds[i].Type < fds[j].Type || fds[i].Type == fds[j].Type && fds[i].Num < fds[j].Num
	})
	for _, fd := range fds {
		f := d.files[fd]
		if n := len(f.data) - f.synced; n > 0 {
			k := r.N(n + 1)
			lost += n - k
			f.data = f.data[:f.synced+k]
		}
	}
	return
}

type nolock struct{ d *Disk }

func (l nolock) Unlock() { l.d.locked = false }

func (d *Disk) Lock() (storage.Locker, error) { d.locked = true; return nolock{d}, nil }
func (d *Disk) Log(string)                    {}
func (d *Disk) SetMeta(fd storage.FileDesc) error {
	d.meta, d.hasMet = fd, true
	return nil
}
func (d *Disk) GetMeta() (storage.FileDesc, error) {
	if !d.hasMet {
		return storage.FileDesc{}, os.ErrNotExist
	}
	return d.meta, nil
}
func (d *Disk) List(ft storage.FileType) (r []storage.FileDesc, err error) {
	for fd := range d.files {
		if fd.Type&ft != 0 {
			r = append(r, fd)
		}
	}
	sort.Slice(r, func(i, j int) bool {
		return r[i].Type < r[j].Type || r[i].Type == r[j].Type && r[i].Num < r[j].Num
	})
	return
}
func (d *Disk) Open(fd storage.FileDesc) (storage.Reader, error) {
	f := d.files[fd]
	if f == nil {
		return nil, os.ErrNotExist
	}
	return &dreader{f: f}, nil
}
func (d *Disk) Create(fd storage.FileDesc) (storage.Writer, error) {
	f := &dfile{}
	d.files[fd] = f
	return &dwriter{d: d, f: f, journal: fd.Type == storage.TypeJournal}, nil
}
func (d *Disk) Remove(fd storage.FileDesc) error {
	if d.files[fd] == nil {
		return os.ErrNotExist
	}
	delete(d.files, fd)
	return nil
}
func (d *Disk) Rename(a, b storage.FileDesc) error {
	f := d.files[a]
	if f == nil {
		return os.ErrNotExist
	}
	delete(d.files, a)
	d.files[b] = f
	return nil
}
func (d *Disk) Close() error { return nil }

type dreader struct {
	f   *dfile
	off int64
}

func (r *dreader) Read(p []byte) (int, error) {
	if r.off >= int64(len(r.f.data)) {
		return 0, io.EOF
	}
	n := copy(p, r.f.data[r.off:])
	r.off += int64(n)
	return n, nil
}
func (r *dreader) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(r.f.data)) {
		return 0, io.EOF
	}
	n := copy(p, r.f.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}
func (r *dreader) Seek(o int64, wh int) (int64, error) {
	switch wh {
	case io.SeekStart:
		r.off = o
	case io.SeekCurrent:
		r.off += o
	case io.SeekEnd:
		r.off = int64(len(r.f.data)) + o
	}
	return r.off, nil
}
func (r *dreader) Close() error { return nil }

type dwriter struct {
	d       *Disk
	f       *dfile
	journal bool
}

var errDisk = errors.New("input/output error")

func (w *dwriter) Write(p []byte) (int, error) {
	d := w.d
	if w.journal {
		d.Writes++
		if d.ErrAt != 0 && d.Writes == d.ErrAt {
			d.ErrAt = 0
			if d.onErr != nil {
				d.onErr(d)
			}
			return 0, errDisk
		}
		if d.CrashAt != 0 && d.Writes >= d.CrashAt {
			d.CrashAt = 0
			if d.Torn {
				w.f.data = append(w.f.data, p[:int(d.TornR%uint64(len(p)+1))]...)
			}
			d.onCrash(d) // kills the owning node; does not return in its goroutines
		}
	}
	w.f.data = append(w.f.data, p...)
	if w.journal && d.onWrite != nil {
		d.onWrite(d)
	}
	return len(p), nil
}
func (w *dwriter) Close() error { return nil }
func (w *dwriter) Sync() error  { w.f.synced = len(w.f.data); return nil }

func setField(ptr interface{}, name string, val interface{}) {
	v := reflect.ValueOf(ptr).Elem().FieldByName(name)
	reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem().Set(reflect.ValueOf(val))
}

func setFieldIf(ptr interface{}, name string, val interface{}) {
	if v := reflect.ValueOf(ptr).Elem().FieldByName(name); v.IsValid() {
		reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem().Set(reflect.ValueOf(val))
	}
}

// OpenDB opens the node's real database type on a simulated disk.
func OpenDB(d *Disk, readOnly bool) (ethdb.Database, *leveldb.DB, error) {
	o := &opt.Options{
		OpenFilesCacheCapacity: 16,
		BlockCacheCapacity:     1 * opt.MiB,
		WriteBuffer:            1 * opt.MiB,
		Filter:                 filter.NewBloomFilter(10),
		DisableBufferPool:      true,
	}
	db, err := leveldb.Open(d, o)
	if err != nil {
		// what ethdb.NewLDBDatabase does on corruption
		if db, err = leveldb.Recover(d, o); err != nil {
			return nil, nil, err
		}
	}
	l := &ethdb.LDBDatabase{}
	setField(l, "fn", d.Name)
	setField(l, "db", db)
	setField(l, "log", log.New("database", d.Name))
	q := &qkcdb.QKCDataBase{LDBDatabase: l}
	if readOnly {
		setField(q, "isReadOnly", true)
	}
	return q, db, nil
}
