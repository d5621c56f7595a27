// Package simos is a simulated file system: one Disk per simulated machine. Writes land in a volatile image at once and
// become durable on Sync; a crash keeps an arbitrary subset of the unsynced writes, torn at sector granularity.
package simos

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"simrt"
)

const sector = 512

type pend struct {
	off   int64
	data  []byte
	trunc bool // truncate to off
}

type inode struct {
	name     string
	data     []byte // volatile image
	durable  []byte
	pending  []pend
	durName  bool // directory entry is durable
	lock     *simrt.Domain
	maps     []*mapping
	isDir    bool
	unlinked bool
	synced   bool // at least once
}

type mapping struct {
	buf []byte
	ino *inode
}

// Disk of one machine.
type Disk struct {
	Name  string
	files map[string]*inode
	// fault configuration
	ErrP     float64 // probability of an I/O error per write/sync/truncate
	ReadErrP float64
	// SafeHead > 0: no errors while writing or syncing only this much of the head of a file. bolt 1.3.1 corrupts its own
	// data when the write or sync of one of its meta pages fails after the bytes have landed, whoever uses it.
	SafeHead int64
	FullAt   int64 // >0: writes beyond this total size fail with ENOSPC
	LatP     float64
	// crash trigger: the CrashIn-th mutating operation from now kills the process (0 = off)
	CrashIn int
	Ops     int64 // mutating operations so far
	Syncs   int64 // completed syncs
	OnCrash func()
	Faults  int64 // injected errors
	gone    []*inode
}

// NewDisk makes an empty disk.
func NewDisk(name string) *Disk {
	return &Disk{Name: name, files: map[string]*inode{}}
}

var mounts map[*simrt.Domain]*Disk

// Mount attaches disk to the process.
func Mount(d *simrt.Domain, k *Disk) {
	if mounts == nil {
		mounts = map[*simrt.Domain]*Disk{}
		simrt.AtEnd(func() { mounts = nil })
	}
	mounts[d] = k
}

var scratch *Disk

func disk() *Disk {
	d := simrt.CurDomain()
	k := mounts[d]
	if k == nil {
		k = NewDisk("tmp-" + d.Name)
		Mount(d, k)
	}
	return k
}

func perr(op, name string, err error) error { return &fs.PathError{Op: op, Path: name, Err: err} }

func clean(n string) string { return filepath.Clean(n) }

// crashPoint is passed before every mutating operation; partial applies a prefix or subset of the operation.
func (k *Disk) crashPoint(partial func()) {
	if simrt.Killed() {
		return
	}
	k.Ops++
	if k.CrashIn > 0 {
		k.CrashIn--
		if k.CrashIn == 0 {
			simrt.Count("disk-crash")
			if partial != nil && simrt.Chance("dtear", 0.5) {
				simrt.Count("disk-crash-midop")
				partial()
			}
			if k.OnCrash != nil {
				k.OnCrash()
			} else {
				simrt.CurDomain().Crash()
			}
		}
	}
	if k.LatP > 0 && simrt.Chance("dlat", k.LatP) {
		simrt.Sleep(time.Duration(1+simrt.Choose("dlatn", 20)) * time.Millisecond)
	} else {
		simrt.Y(simrt.CurSite)
	}
}

func (k *Disk) fault(op, name string) error {
	if k.ErrP > 0 && simrt.Chance("derr", k.ErrP) {
		simrt.Count("disk-err-" + op)
		simrt.Logf("disk: injected EIO in %s %s", op, name)
		k.Faults++
		return perr(op, name, syscall.EIO)
	}
	return nil
}

// Crash applies the crash to the disk content: unsynced writes survive in an arbitrary subset.
func (k *Disk) Crash() {
	names := make([]string, 0, len(k.files))
	for n := range k.files {
		names = append(names, n)
	}
	sort.Strings(names)
	k.CrashIn = 0
	for _, n := range names {
		f := k.files[n]
		f.lock = nil
		f.maps = nil
		if f.isDir {
			continue
		}
		if !f.durName {
			// never synced: the directory entry may be lost
			if simrt.Chance("dent", 0.3) {
				simrt.Count("disk-lost-file")
				delete(k.files, n)
				continue
			}
		}
		img := append([]byte{}, f.durable...)
		mode := simrt.Choose("dmode", 4) // 0 all lost, 1 all kept, 2,3 subset
		for _, p := range f.pending {
			keep := mode == 1
			if mode >= 2 {
				keep = simrt.Chance("dkeep", 0.5)
			}
			if !keep {
				if len(f.pending) > 0 {
					simrt.Count("disk-lost-write")
				}
				if !p.trunc && mode == 3 && len(p.data) > sector && simrt.Chance("dtorn", 0.5) {
					simrt.Count("disk-torn-write")
					for o := 0; o < len(p.data); o += sector {
						if simrt.Chance("dsec", 0.5) {
							e := o + sector
							if e > len(p.data) {
								e = len(p.data)
							}
							img = put(img, p.off+int64(o), p.data[o:e])
						}
					}
				}
				continue
			}
			if p.trunc {
				img = resize(img, p.off)
			} else {
				img = put(img, p.off, p.data)
			}
		}
		f.durable = img
		f.data = append([]byte{}, img...)
		f.pending = nil
		f.durName = true
	}
}

// Release drops locks of a finished process without touching data (clean exit).
func (k *Disk) Release() {
	for _, f := range k.files {
		f.lock = nil
		f.maps = nil
	}
}

// Files on the disk.
func (k *Disk) Files() (l []string) {
	for n := range k.files {
		l = append(l, n)
	}
	sort.Strings(l)
	return
}

// Snapshot copies the volatile content of a file.
func (k *Disk) Snapshot(name string) []byte {
	if f := k.files[clean(name)]; f != nil {
		return append([]byte{}, f.data...)
	}
	return nil
}

func resize(b []byte, n int64) []byte {
	if int64(len(b)) >= n {
		return b[:n]
	}
	if int64(cap(b)) >= n {
		o := len(b)
		b = b[:n]
		clear(b[o:])
		return b
	}
	nb := make([]byte, n, n+n/4)
	copy(nb, b)
	return nb
}

func put(b []byte, off int64, d []byte) []byte {
	if end := off + int64(len(d)); end > int64(len(b)) {
		b = resize(b, end)
	}
	copy(b[off:], d)
	return b
}

// File replaces os.File.
type File struct {
	k      *Disk
	ino    *inode
	pos    int64
	closed bool
	app    bool
	std    io.Writer
	name   string
}

// standard streams
var (
	Stderr = &File{std: &logw{}, name: "/dev/stderr"}
	Stdout = &File{std: &logw{}, name: "/dev/stdout"}
	Stdin  = &File{std: &logw{}, name: "/dev/stdin"}
)

type logw struct{}

func (*logw) Write(p []byte) (int, error) {
	if simrt.Tracing() {
		simrt.Logf("out: %s", strings.TrimRight(string(p), "\n"))
	}
	return len(p), nil
}

const (
	oCREATE = syscall.O_CREAT
	oEXCL   = syscall.O_EXCL
	oTRUNC  = syscall.O_TRUNC
	oAPPEND = syscall.O_APPEND
)

// OpenFile replaces os.OpenFile.
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	k := disk()
	n := clean(name)
	simrt.Y(simrt.CurSite)
	ino := k.files[n]
	if ino == nil {
		if flag&oCREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		k.crashPoint(nil)
		if err := k.fault("open", name); err != nil {
			return nil, err
		}
		ino = &inode{name: n}
		k.files[n] = ino
	} else {
		if ino.isDir {
			if flag&(syscall.O_WRONLY|syscall.O_RDWR) != 0 {
				return nil, perr("open", name, syscall.EISDIR)
			}
		}
		if flag&oCREATE != 0 && flag&oEXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
	}
	f := &File{k: k, ino: ino, name: name, app: flag&oAPPEND != 0}
	if flag&oTRUNC != 0 {
		if err := f.Truncate(0); err != nil {
			return nil, err
		}
	}
	return f, nil
}

// Open replaces os.Open.
func Open(name string) (*File, error) { return OpenFile(name, 0, 0) }

// Create replaces os.Create.
func Create(name string) (*File, error) {
	return OpenFile(name, syscall.O_RDWR|oCREATE|oTRUNC, 0666)
}

type info struct {
	n string
	s int64
	d bool
}

func (i info) Name() string { return filepath.Base(i.n) }
func (i info) Size() int64  { return i.s }
func (i info) Mode() fs.FileMode {
	if i.d {
		return fs.ModeDir | 0700
	}
	return 0644
}
func (i info) ModTime() time.Time { return time.Unix(simrt.Epoch, 0) }
func (i info) IsDir() bool        { return i.d }
func (i info) Sys() any           { return nil }

// Stat replaces os.Stat.
func Stat(name string) (fs.FileInfo, error) {
	k := disk()
	simrt.Y(simrt.CurSite)
	n := clean(name)
	ino := k.files[n]
	if ino == nil {
		for f := range k.files {
			if strings.HasPrefix(f, n+"/") {
				return info{n, 0, true}, nil
			}
		}
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return info{n, int64(len(ino.data)), ino.isDir}, nil
}

// Lstat replaces os.Lstat.
func Lstat(name string) (fs.FileInfo, error) { return Stat(name) }

// Remove replaces os.Remove.
func Remove(name string) error {
	k := disk()
	n := clean(name)
	if k.files[n] == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	k.crashPoint(nil)
	if simrt.Killed() {
		return perr("remove", name, syscall.EIO)
	}
	delete(k.files, n)
	return nil
}

// RemoveAll replaces os.RemoveAll.
func RemoveAll(name string) error {
	k := disk()
	if simrt.Killed() {
		return nil
	}
	n := clean(name)
	for f := range k.files {
		if f == n || strings.HasPrefix(f, n+"/") {
			delete(k.files, f)
		}
	}
	return nil
}

// Rename replaces os.Rename.
func Rename(a, b string) error {
	k := disk()
	x := k.files[clean(a)]
	if x == nil {
		return perr("rename", a, syscall.ENOENT)
	}
	k.crashPoint(nil)
	if simrt.Killed() {
		return perr("rename", a, syscall.EIO)
	}
	delete(k.files, clean(a))
	x.name = clean(b)
	k.files[x.name] = x
	return nil
}

// MkdirAll replaces os.MkdirAll.
func MkdirAll(name string, _ fs.FileMode) error {
	k := disk()
	n := clean(name)
	if f := k.files[n]; f != nil && !f.isDir {
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	if n != "." && n != "/" {
		k.files[n] = &inode{name: n, isDir: true}
	}
	return nil
}

// Mkdir replaces os.Mkdir.
func Mkdir(name string, m fs.FileMode) error {
	if disk().files[clean(name)] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	return MkdirAll(name, m)
}

// ReadFile replaces os.ReadFile.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	return append([]byte{}, f.ino.data...), nil
}

// WriteFile replaces os.WriteFile.
func WriteFile(name string, p []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, syscall.O_WRONLY|oCREATE|oTRUNC, perm)
	if err != nil {
		return err
	}
	if _, err = f.Write(p); err != nil {
		return err
	}
	return f.Close()
}

// TempDir replaces os.TempDir.
func TempDir() string { return "/tmp" }

// CreateTemp replaces os.CreateTemp and ioutil.TempFile.
func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = TempDir()
	}
	pre, suf := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	return OpenFile(filepath.Join(dir, fmt.Sprintf("%s%d%s", pre, simrt.U64("tmp")%1e9, suf)), syscall.O_RDWR|oCREATE|oEXCL, 0600)
}

// MkdirTemp replaces os.MkdirTemp.
func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = TempDir()
	}
	n := filepath.Join(dir, fmt.Sprintf("%s%d", strings.ReplaceAll(pattern, "*", ""), simrt.U64("tmp")%1e9))
	return n, MkdirAll(n, 0700)
}

// Name of the file.
func (f *File) Name() string { return f.name }

// Fd is meaningless here.
func (f *File) Fd() uintptr { return 3 }

// Stat of the file.
func (f *File) Stat() (fs.FileInfo, error) {
	if f.closed {
		return nil, perr("stat", f.name, fs.ErrClosed)
	}
	return info{f.name, int64(len(f.ino.data)), f.ino.isDir}, nil
}

// Chmod does nothing.
func (f *File) Chmod(fs.FileMode) error { return nil }

// Close the file.
func (f *File) Close() error {
	if f.closed {
		return perr("close", f.name, fs.ErrClosed)
	}
	f.closed = true
	return nil
}

// ReadAt of the file.
func (f *File) ReadAt(p []byte, off int64) (int, error) {
	if f.closed {
		return 0, perr("read", f.name, fs.ErrClosed)
	}
	if simrt.Killed() {
		return 0, perr("read", f.name, syscall.EIO)
	}
	if f.k.ReadErrP > 0 && simrt.Chance("drerr", f.k.ReadErrP) {
		simrt.Count("disk-err-read")
		f.k.Faults++
		return 0, perr("read", f.name, syscall.EIO)
	}
	if off >= int64(len(f.ino.data)) {
		return 0, io.EOF
	}
	n := copy(p, f.ino.data[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

// Read of the file.
func (f *File) Read(p []byte) (int, error) {
	if f.std != nil {
		return 0, io.EOF
	}
	n, err := f.ReadAt(p, f.pos)
	f.pos += int64(n)
	if n > 0 && err == io.EOF {
		err = nil
	}
	return n, err
}

// WriteTo of the file.
func (f *File) WriteTo(w io.Writer) (int64, error) {
	n, err := io.Copy(w, bytes.NewReader(f.ino.data[f.pos:]))
	f.pos += n
	return n, err
}

func (f *File) apply(p []byte, off int64) {
	ino := f.ino
	ino.data = put(ino.data, off, p)
	ino.pending = append(ino.pending, pend{off: off, data: append([]byte{}, p...)})
	for _, m := range ino.maps {
		if off < int64(len(m.buf)) {
			copy(m.buf[off:], p)
		}
	}
}

// WriteAt of the file.
func (f *File) WriteAt(p []byte, off int64) (int, error) {
	if f.std != nil {
		return f.std.Write(p)
	}
	if f.closed {
		return 0, perr("write", f.name, fs.ErrClosed)
	}
	if simrt.Killed() {
		return 0, perr("write", f.name, syscall.EIO)
	}
	f.k.crashPoint(func() {
		n := len(p) / 2 / sector * sector
		if n == 0 {
			n = len(p)
		}
		f.apply(p[:n], off)
	})
	if f.k.FullAt > 0 && off+int64(len(p)) > f.k.FullAt {
		simrt.Count("disk-full")
		f.k.Faults++
		return 0, perr("write", f.name, syscall.ENOSPC)
	}
	if off+int64(len(p)) <= f.k.SafeHead {
		f.apply(p, off)
		return len(p), nil
	}
	if err := f.k.fault("write", f.name); err != nil {
		if simrt.Chance("dshort", 0.4) { // a short write
			simrt.Count("disk-short-write")
			n := simrt.Choose("dshortn", len(p)+1)
			f.apply(p[:n], off)
			return n, err
		}
		return 0, err
	}
	f.apply(p, off)
	return len(p), nil
}

// Write of the file.
func (f *File) Write(p []byte) (int, error) {
	if f.std != nil {
		return f.std.Write(p)
	}
	if f.app {
		f.pos = int64(len(f.ino.data))
	}
	n, err := f.WriteAt(p, f.pos)
	f.pos += int64(n)
	return n, err
}

// WriteString of the file.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// Seek of the file.
func (f *File) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case 0:
		f.pos = off
	case 1:
		f.pos += off
	case 2:
		f.pos = int64(len(f.ino.data)) + off
	default:
		return 0, errors.New("bad whence")
	}
	return f.pos, nil
}

// Truncate of the file.
func (f *File) Truncate(n int64) error {
	if f.closed {
		return perr("truncate", f.name, fs.ErrClosed)
	}
	if simrt.Killed() {
		return perr("truncate", f.name, syscall.EIO)
	}
	f.k.crashPoint(nil)
	if f.k.FullAt > 0 && n > f.k.FullAt {
		simrt.Count("disk-full")
		f.k.Faults++
		return perr("truncate", f.name, syscall.ENOSPC)
	}
	if err := f.k.fault("truncate", f.name); err != nil {
		return err
	}
	f.ino.data = resize(f.ino.data, n)
	f.ino.pending = append(f.ino.pending, pend{off: n, trunc: true})
	return nil
}

// Sync of the file.
func (f *File) Sync() error {
	if f.closed {
		return perr("sync", f.name, fs.ErrClosed)
	}
	if simrt.Killed() {
		return perr("sync", f.name, syscall.EIO)
	}
	f.k.crashPoint(nil)
	head := len(f.ino.pending) > 0
	for _, p := range f.ino.pending {
		if p.trunc || p.off+int64(len(p.data)) > f.k.SafeHead {
			head = false
		}
	}
	if !head {
		if err := f.k.fault("sync", f.name); err != nil {
			return err
		}
	}
	simrt.Count("disk-sync")
	f.k.Syncs++
	f.ino.synced = true
	ino := f.ino
	for _, p := range ino.pending {
		if p.trunc {
			ino.durable = resize(ino.durable, p.off)
		} else {
			ino.durable = put(ino.durable, p.off, p.data)
		}
	}
	ino.pending = nil
	ino.durName = true
	return nil
}

// Fdatasync for bolt.
func Fdatasync(f any) error { return f.(*File).Sync() }

// Flock for bolt: an exclusive lock per file and process.
func Flock(f any) bool {
	ino := f.(*File).ino
	d := simrt.CurDomain()
	if ino.lock != nil && !ino.lock.Dead {
		return false
	}
	ino.lock = d
	return true
}

// Funlock for bolt.
func Funlock(f any) { f.(*File).ino.lock = nil }

// Mmap for bolt: a read-only shared mapping.
func Mmap(f any, sz int) ([]byte, error) {
	ff := f.(*File)
	m := &mapping{buf: make([]byte, sz), ino: ff.ino}
	copy(m.buf, ff.ino.data)
	ff.ino.maps = append(ff.ino.maps, m)
	return m.buf, nil
}

// Munmap for bolt; the memory is poisoned so that anything still reading it reads garbage.
func Munmap(f any, b []byte) {
	ff := f.(*File)
	for i, m := range ff.ino.maps {
		if len(b) > 0 && len(m.buf) > 0 && &m.buf[0] == &b[0] {
			ff.ino.maps = append(ff.ino.maps[:i:i], ff.ino.maps[i+1:]...)
			break
		}
	}
	for i := range b {
		b[i] = 0xDB
	}
}

// ReadDir replaces os.ReadDir for names only.
func ReadDir(name string) (out []fs.DirEntry, err error) {
	k := disk()
	n := clean(name)
	for _, f := range k.Files() {
		if filepath.Dir(f) == n {
			out = append(out, fs.FileInfoToDirEntry(info{f, int64(len(k.files[f].data)), k.files[f].isDir}))
		}
	}
	return
}

// Fresh tells that there is a file that was never synced.
func (d *Disk) Fresh() bool {
	for _, i := range d.files {
		if !i.isDir && !i.synced {
			return true
		}
	}
	return false
}
