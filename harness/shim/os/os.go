// Package os re-exports os with every path-taking function replaced by one
// that only works inside the directories of the current case, counts
// operations, and can fail, cut short or "crash" at a chosen one. A crash
// freezes the directories: every later operation fails without any effect.
package os

import (
	"errors"
	"io"
	"io/fs"
	std "os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"dripverif/shim/sched"
)

var (
	ErrCrashed = errors.New("shim: the process has crashed")
	errNoFS    = errors.New("shim: no file system installed")
	errEscape  = errors.New("shim: path outside the directories of the case")
	errRefused = errors.New("shim: operation not available here")
)

// Op is one file-system operation.
type Op struct {
	Kind string
	Path string // absolute
	Len  int
}

// Fault makes an operation fail. Part of a write (out of 256) happens first.
type Fault struct {
	Err  error
	Part int
}

// FS is the file system a case runs on.
type FS struct {
	Roots     []string // absolute directories
	CrashAt   int      // crash at this operation (1 is the first), 0 never
	CrashPart int      // part of 256 of a write done before the crash
	Inject    func(n int, op Op) (Fault, bool)

	mu      sync.Mutex
	n       int
	log     []Op
	crashed bool
	escapes []Op
	faults  int
	handles map[*File]bool
}

var (
	curMu sync.Mutex
	cur   *FS
)

// Install makes f the file system; nil refuses everything.
func Install(f *FS) { curMu.Lock(); cur = f; curMu.Unlock() }
func current() *FS  { curMu.Lock(); defer curMu.Unlock(); return cur }

func (f *FS) Ops() int      { f.mu.Lock(); defer f.mu.Unlock(); return f.n }
func (f *FS) Crashed() bool { f.mu.Lock(); defer f.mu.Unlock(); return f.crashed }
func (f *FS) Faults() int   { f.mu.Lock(); defer f.mu.Unlock(); return f.faults }
func (f *FS) Escapes() []Op { f.mu.Lock(); defer f.mu.Unlock(); return append([]Op(nil), f.escapes...) }
func (f *FS) Log() []Op     { f.mu.Lock(); defer f.mu.Unlock(); return append([]Op(nil), f.log...) }
func (f *FS) ClearFaults()  { f.mu.Lock(); f.Inject = nil; f.mu.Unlock() }

// readOnly operations may name a root itself.
var readOnly = map[string]bool{"stat": true, "lstat": true, "readdir": true, "open": true, "mkdir": true}

func (f *FS) inside(kind, p string) bool {
	for _, r := range f.Roots {
		if strings.HasPrefix(p, r+string(filepath.Separator)) || p == r && readOnly[kind] {
			return true
		}
	}
	return false
}

// enter accounts for one operation. If it returns an error the operation must
// not happen, except for part/256 of it.
func enter(kind string, size int, paths ...string) (part int, err error) {
	sched.Point()
	f := current()
	if f == nil {
		return 0, errNoFS
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.crashed {
		return 0, ErrCrashed
	}
	op := Op{Kind: kind, Len: size}
	for i, p := range paths {
		a, err := filepath.Abs(p)
		if err != nil {
			return 0, err
		}
		if i == 0 || kind == "rename" {
			op.Path = strings.TrimPrefix(op.Path+" -> "+a, " -> ")
		}
		if !f.inside(kind, a) {
			f.escapes = append(f.escapes, Op{Kind: kind, Path: a})
			return 0, &fs.PathError{Op: kind, Path: p, Err: errEscape}
		}
	}
	f.n++
	if len(f.log) < 4000 {
		f.log = append(f.log, op)
	}
	if f.CrashAt == f.n {
		f.crashed = true
		return f.CrashPart, ErrCrashed
	}
	if f.Inject != nil {
		if ft, ok := f.Inject(f.n, op); ok {
			f.faults++
			p := ""
			if len(paths) > 0 {
				p = paths[0]
			}
			return ft.Part, &fs.PathError{Op: kind, Path: p, Err: ft.Err}
		}
	}
	return 0, nil
}

// File wraps os.File.
type File struct {
	f      *std.File
	fs     *FS
	wrote  bool
	closed bool
}

func wrap(f *std.File, err error) (*File, error) {
	if err != nil {
		return nil, err
	}
	w := &File{f: f, fs: current()}
	if w.fs != nil {
		w.fs.mu.Lock()
		defer w.fs.mu.Unlock()
		if w.fs.handles == nil {
			w.fs.handles = map[*File]bool{}
		}
		w.fs.handles[w] = true
	}
	return w, nil
}

// Open lists the files that have not been closed.
func (f *FS) Open() (names []string) {
	f.mu.Lock()
	defer f.mu.Unlock()
	for h := range f.handles {
		names = append(names, h.path())
	}
	return
}

func Create(name string) (*File, error) {
	if _, err := enter("create", 0, name); err != nil {
		return nil, err
	}
	return wrap(std.Create(name))
}

func Open(name string) (*File, error) {
	if _, err := enter("open", 0, name); err != nil {
		return nil, err
	}
	return wrap(std.Open(name))
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	k := "open"
	if flag&(std.O_CREATE|std.O_TRUNC|std.O_WRONLY|std.O_RDWR) != 0 {
		k = "create"
	}
	if _, err := enter(k, 0, name); err != nil {
		return nil, err
	}
	return wrap(std.OpenFile(name, flag, perm))
}

func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = std.TempDir()
	}
	if _, err := enter("create", 0, filepath.Join(dir, "tmp")); err != nil {
		return nil, err
	}
	return wrap(std.CreateTemp(dir, pattern))
}

func MkdirTemp(dir, pattern string) (string, error) {
	if dir == "" {
		dir = std.TempDir()
	}
	if _, err := enter("mkdir", 0, filepath.Join(dir, "tmp")); err != nil {
		return "", err
	}
	return std.MkdirTemp(dir, pattern)
}

func NewFile(fd uintptr, name string) *File { return nil }

func (f *File) Name() string {
	return f.f.Name()
}
func (f *File) Fd() uintptr { return f.f.Fd() }
func (f *File) path() string {
	return f.f.Name()
}

func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, fs.ErrInvalid
	}
	if _, err := enter("read", len(b), f.path()); err != nil {
		return 0, err
	}
	return f.f.Read(b)
}

func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f == nil {
		return 0, fs.ErrInvalid
	}
	if _, err := enter("read", len(b), f.path()); err != nil {
		return 0, err
	}
	return f.f.ReadAt(b, off)
}

func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, fs.ErrInvalid
	}
	f.wrote = true
	part, err := enter("write", len(b), f.path())
	if err != nil {
		n := len(b) * part / 256
		if n > 0 {
			n, _ = f.f.Write(b[:n])
		}
		return n, err
	}
	return f.f.Write(b)
}

func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f == nil {
		return 0, fs.ErrInvalid
	}
	f.wrote = true
	part, err := enter("write", len(b), f.path())
	if err != nil {
		n := len(b) * part / 256
		if n > 0 {
			n, _ = f.f.WriteAt(b[:n], off)
		}
		return n, err
	}
	return f.f.WriteAt(b, off)
}

func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

type onlyReader struct{ io.Reader }
type onlyWriter struct{ io.Writer }

func (f *File) ReadFrom(r io.Reader) (int64, error) {
	if f == nil {
		return 0, fs.ErrInvalid
	}
	return io.Copy(onlyWriter{f}, r)
}

func (f *File) WriteTo(w io.Writer) (int64, error) {
	if f == nil {
		return 0, fs.ErrInvalid
	}
	return io.Copy(w, onlyReader{f})
}

func (f *File) Seek(off int64, whence int) (int64, error) {
	if f == nil {
		return 0, fs.ErrInvalid
	}
	return f.f.Seek(off, whence)
}

func (f *File) Sync() error {
	if f == nil {
		return fs.ErrInvalid
	}
	if _, err := enter("sync", 0, f.path()); err != nil {
		return err
	}
	return nil
}

func (f *File) Truncate(n int64) error {
	if f == nil {
		return fs.ErrInvalid
	}
	if _, err := enter("truncate", 0, f.path()); err != nil {
		return err
	}
	return f.f.Truncate(n)
}

// Close always closes. If it fails, the last of what was written is lost, as
// with file systems that write late.
func (f *File) Close() error {
	if f == nil {
		return fs.ErrInvalid
	}
	part, err := enter("close", 0, f.path())
	if f.wrote && !f.closed && err != nil && !errors.Is(err, ErrCrashed) {
		if st, err := f.f.Stat(); err == nil {
			f.f.Truncate(st.Size() * int64(part) / 256)
		}
	}
	f.closed = true
	if f.fs != nil {
		f.fs.mu.Lock()
		delete(f.fs.handles, f)
		f.fs.mu.Unlock()
	}
	cerr := f.f.Close()
	if err != nil {
		return err
	}
	return cerr
}

func (f *File) Stat() (FileInfo, error) {
	if f == nil {
		return nil, fs.ErrInvalid
	}
	if _, err := enter("stat", 0, f.path()); err != nil {
		return nil, err
	}
	return f.f.Stat()
}

func (f *File) Chmod(mode FileMode) error {
	if f == nil {
		return fs.ErrInvalid
	}
	if _, err := enter("chmod", 0, f.path()); err != nil {
		return err
	}
	return f.f.Chmod(mode)
}

func (f *File) ReadDir(n int) ([]DirEntry, error) {
	if f == nil {
		return nil, fs.ErrInvalid
	}
	if _, err := enter("readdir", 0, f.path()); err != nil {
		return nil, err
	}
	return f.f.ReadDir(n)
}

func (f *File) Readdir(n int) ([]FileInfo, error) {
	if f == nil {
		return nil, fs.ErrInvalid
	}
	if _, err := enter("readdir", 0, f.path()); err != nil {
		return nil, err
	}
	return f.f.Readdir(n)
}

func (f *File) Readdirnames(n int) ([]string, error) {
	if f == nil {
		return nil, fs.ErrInvalid
	}
	if _, err := enter("readdir", 0, f.path()); err != nil {
		return nil, err
	}
	return f.f.Readdirnames(n)
}

func (f *File) SetDeadline(t time.Time) error { return f.f.SetDeadline(t) }

func Stat(name string) (FileInfo, error) {
	if _, err := enter("stat", 0, name); err != nil {
		return nil, err
	}
	return std.Stat(name)
}

func Lstat(name string) (FileInfo, error) {
	if _, err := enter("lstat", 0, name); err != nil {
		return nil, err
	}
	return std.Lstat(name)
}

func ReadDir(name string) ([]DirEntry, error) {
	if _, err := enter("readdir", 0, name); err != nil {
		return nil, err
	}
	return std.ReadDir(name)
}

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(onlyReader{f})
}

func WriteFile(name string, data []byte, perm FileMode) error {
	f, err := OpenFile(name, std.O_WRONLY|std.O_CREATE|std.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if cerr := f.Close(); cerr != nil && err == nil {
		err = cerr
	}
	return err
}

func Mkdir(name string, perm FileMode) error {
	if _, err := enter("mkdir", 0, name); err != nil {
		return err
	}
	return std.Mkdir(name, perm)
}

// MkdirAll creates one directory per operation.
func MkdirAll(path string, perm FileMode) error {
	if path == "" {
		return &fs.PathError{Op: "mkdir", Path: path, Err: fs.ErrNotExist}
	}
	a, err := filepath.Abs(path)
	if err != nil {
		return err
	}
	if _, err := enter("mkdir", 0, a); err != nil {
		return err
	}
	var missing []string
	for p := a; ; p = filepath.Dir(p) {
		st, err := std.Stat(p)
		if err == nil {
			if !st.IsDir() {
				return std.MkdirAll(path, perm) // for the right error
			}
			break
		}
		if p == filepath.Dir(p) {
			break
		}
		missing = append(missing, p)
	}
	for i := len(missing) - 1; i >= 0; i-- {
		if i != len(missing)-1 {
			if _, err := enter("mkdir", 0, missing[i]); err != nil {
				return err
			}
		} else if f := current(); f == nil || !f.inside("mkdir", missing[i]) {
			return &fs.PathError{Op: "mkdir", Path: path, Err: errEscape}
		}
		if err := std.Mkdir(missing[i], perm); err != nil && !errors.Is(err, fs.ErrExist) {
			return err
		}
	}
	return nil
}

func Remove(name string) error {
	if _, err := enter("remove", 0, name); err != nil {
		return err
	}
	return std.Remove(name)
}

// RemoveAll removes one entry per operation.
func RemoveAll(path string) error {
	if path == "" {
		return nil
	}
	st, err := std.Lstat(path)
	if err != nil {
		if _, err := enter("removeall", 0, path); err != nil {
			return err
		}
		if errors.Is(err, fs.ErrNotExist) {
			return nil
		}
		return err
	}
	if f := current(); f == nil || !st.IsDir() {
		return Remove(path)
	} else if a, err := filepath.Abs(path); err != nil || !f.inside("remove", a) {
		_, err := enter("remove", 0, path)
		return err
	}
	ents, err := std.ReadDir(path)
	if err != nil {
		return err
	}
	for _, e := range ents {
		if err := RemoveAll(filepath.Join(path, e.Name())); err != nil {
			return err
		}
	}
	return Remove(path)
}

func Rename(oldpath, newpath string) error {
	if _, err := enter("rename", 0, oldpath, newpath); err != nil {
		return err
	}
	return std.Rename(oldpath, newpath)
}

func Truncate(name string, size int64) error {
	if _, err := enter("truncate", 0, name); err != nil {
		return err
	}
	return std.Truncate(name, size)
}

func Chmod(name string, mode FileMode) error {
	if _, err := enter("chmod", 0, name); err != nil {
		return err
	}
	return std.Chmod(name, mode)
}

func Chtimes(name string, atime, mtime time.Time) error {
	if _, err := enter("chtimes", 0, name); err != nil {
		return err
	}
	return std.Chtimes(name, atime, mtime)
}

func Link(oldname, newname string) error {
	if _, err := enter("link", 0, oldname, newname); err != nil {
		return err
	}
	return std.Link(oldname, newname)
}

func Readlink(name string) (string, error) {
	if _, err := enter("readlink", 0, name); err != nil {
		return "", err
	}
	return std.Readlink(name)
}

// The rest could leave the directories of the case and is not available.
func Symlink(string, string) error                               { return errRefused }
func Chdir(string) error                                         { return errRefused }
func Chown(string, int, int) error                               { return errRefused }
func Lchown(string, int, int) error                              { return errRefused }
func CopyFS(string, fs.FS) error                                 { return errRefused }
func DirFS(dir string) fs.FS                                     { return roFS(dir) }
func StartProcess(string, []string, *ProcAttr) (*Process, error) { return nil, errRefused }
func FindProcess(int) (*Process, error)                          { return nil, errRefused }

type roFS string

func (d roFS) Open(name string) (fs.File, error) {
	if !fs.ValidPath(name) {
		return nil, &fs.PathError{Op: "open", Path: name, Err: fs.ErrInvalid}
	}
	return Open(filepath.Join(string(d), name))
}

// Root is os.Root on top of the functions above.
type Root struct{ dir string }

func OpenRoot(name string) (*Root, error) {
	st, err := Stat(name)
	if err != nil {
		return nil, err
	}
	if !st.IsDir() {
		return nil, errors.New("not a directory")
	}
	return &Root{name}, nil
}

func (r *Root) join(op, name string) (string, error) {
	if !filepath.IsLocal(name) {
		return "", &fs.PathError{Op: op, Path: name, Err: errors.New("path escapes from parent")}
	}
	return filepath.Join(r.dir, name), nil
}
func (r *Root) Name() string { return r.dir }
func (r *Root) Close() error { return nil }
func (r *Root) FS() fs.FS    { return roFS(r.dir) }
func (r *Root) Open(n string) (*File, error) {
	p, err := r.join("open", n)
	if err != nil {
		return nil, err
	}
	return Open(p)
}
func (r *Root) Create(n string) (*File, error) {
	p, err := r.join("create", n)
	if err != nil {
		return nil, err
	}
	return Create(p)
}
func (r *Root) OpenFile(n string, flag int, perm FileMode) (*File, error) {
	p, err := r.join("open", n)
	if err != nil {
		return nil, err
	}
	return OpenFile(p, flag, perm)
}
func (r *Root) Mkdir(n string, perm FileMode) error {
	p, err := r.join("mkdir", n)
	if err != nil {
		return err
	}
	return Mkdir(p, perm)
}
func (r *Root) MkdirAll(n string, perm FileMode) error {
	p, err := r.join("mkdir", n)
	if err != nil {
		return err
	}
	return MkdirAll(p, perm)
}
func (r *Root) Remove(n string) error {
	p, err := r.join("remove", n)
	if err != nil {
		return err
	}
	return Remove(p)
}
func (r *Root) RemoveAll(n string) error {
	p, err := r.join("remove", n)
	if err != nil {
		return err
	}
	return RemoveAll(p)
}
func (r *Root) Stat(n string) (FileInfo, error) {
	p, err := r.join("stat", n)
	if err != nil {
		return nil, err
	}
	return Stat(p)
}
func (r *Root) Lstat(n string) (FileInfo, error) {
	p, err := r.join("stat", n)
	if err != nil {
		return nil, err
	}
	return Lstat(p)
}
func (r *Root) Rename(o, n string) error {
	p, err := r.join("rename", o)
	if err != nil {
		return err
	}
	q, err := r.join("rename", n)
	if err != nil {
		return err
	}
	return Rename(p, q)
}
func OpenInRoot(dir, name string) (*File, error) {
	r, err := OpenRoot(dir)
	if err != nil {
		return nil, err
	}
	return r.Open(name)
}
