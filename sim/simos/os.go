package simos

import (
	"io"
	"io/fs"
	"os"
	"path"
	"runtime"
	"syscall"
	"time"

	"verif/sim"
)

func Getwd() (string, error) {
	f := Current()
	if err := f.op("getwd", ""); err != nil {
		return "", err
	}
	if f.NoGetwd || f.Cwd.Gone {
		return "", os.NewSyscallError("getwd", syscall.ENOENT)
	}
	return f.Cwd.Abs(), nil
}

func Chdir(dir string) error {
	f := Current()
	if err := f.op("chdir", dir); err != nil {
		return err
	}
	n, err := f.walk(dir, true, 0)
	if err == nil && !n.Dir {
		err = syscall.ENOTDIR
	}
	if err == nil && n.NoEnter {
		err = syscall.EACCES
	}
	if err != nil {
		return &fs.PathError{Op: "chdir", Path: dir, Err: err}
	}
	f.Cwd = n
	return nil
}

func Stat(name string) (fs.FileInfo, error)      { return Current().stat("stat", name, true) }
func Lstat(name string) (fs.FileInfo, error)     { return Current().stat("lstat", name, false) }
func ReadDir(name string) ([]fs.DirEntry, error) { return Current().readDir(name) }
func Getenv(k string) string                     { return Current().Env[k] }
func LookupEnv(k string) (string, bool)          { v, ok := Current().Env[k]; return v, ok }
func Environ() []string                          { return []string{"PATH=/bin"} }
func Getpid() int                                { return 42 }
func Executable() (string, error)                { return "/bin/self", nil }
func TempDir() string                            { return "/tmp" }
func UserHomeDir() (string, error)               { return "/", nil }

func ReadFile(name string) ([]byte, error) {
	f := Current()
	if err := f.op("open", name); err != nil {
		return nil, err
	}
	n, err := f.walk(name, true, 0)
	if err == nil && n.Dir {
		err = syscall.EISDIR
	}
	if err != nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: err}
	}
	return append([]byte(nil), n.Data...), nil
}

func Readlink(name string) (string, error) {
	f := Current()
	if err := f.op("readlink", name); err != nil {
		return "", err
	}
	n, err := f.walk(name, false, 0)
	if err == nil && n.Link == "" {
		err = syscall.EINVAL
	}
	if err != nil {
		return "", &fs.PathError{Op: "readlink", Path: name, Err: err}
	}
	return n.Link, nil
}

// Exit ends the simulated process: the calling task ends and the exit is noted.
func Exit(code int) {
	f := Current()
	f.Exited, f.Code = true, code
	sim.Log("exit %d", code)
	runtime.Goexit()
}

// File is an open directory or file.
type File struct {
	real *os.File // a standard stream
	name string
	n    *Node
	fs   *FS

	listed bool
	list   []fs.DirEntry
	lerr   error
	pos    int
	shut   bool
}

func Open(name string) (*File, error) {
	f := Current()
	if err := f.op("open", name); err != nil {
		return nil, err
	}
	n, err := f.walk(name, true, 0)
	if err == nil && n.NoList {
		err = syscall.EACCES
	}
	if err == nil && f.open >= maxOpen {
		err = syscall.EMFILE
	}
	if err != nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: err}
	}
	f.open++
	return &File{name: name, n: n, fs: f}, nil
}

func (f *File) Name() string { return f.name }
func (f *File) Close() error {
	if f == nil || f.shut {
		return os.ErrClosed
	}
	f.shut = f.real == nil
	if f.fs != nil {
		f.fs.open--
	}
	return nil
}

// The standard streams: input is at its end, output is dropped during a run.
var (
	Stdin  = &File{real: os.Stdin, name: "/dev/stdin"}
	Stdout = &File{real: os.Stdout, name: "/dev/stdout"}
	Stderr = &File{real: os.Stderr, name: "/dev/stderr"}
)

func NewFile(fd uintptr, name string) *File { return &File{real: os.NewFile(fd, name), name: name} }

func (f *File) Stat() (fs.FileInfo, error) {
	if f.real != nil {
		return f.real.Stat()
	}
	return info{f.n, base(f.name)}, nil
}
func (f *File) Fd() uintptr { return 3 }
func (f *File) Write(b []byte) (int, error) {
	if f.real != nil {
		if sim.Active() == nil {
			return f.real.Write(b)
		}
		return len(b), nil
	}
	return 0, &fs.PathError{Op: "write", Path: f.name, Err: syscall.EBADF}
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) WriteAt(b []byte, _ int64) (int, error) {
	return 0, &fs.PathError{Op: "write", Path: f.name, Err: syscall.EBADF}
}
func (f *File) Sync() error { return nil }
func (f *File) Truncate(int64) error {
	return &fs.PathError{Op: "truncate", Path: f.name, Err: syscall.EINVAL}
}
func (f *File) Chmod(fs.FileMode) error     { return refuse("chmod", f.name) }
func (f *File) Chown(int, int) error        { return refuse("chown", f.name) }
func (f *File) SetDeadline(time.Time) error { return os.ErrNoDeadline }
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f.n == nil || f.n.Dir {
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: syscall.EINVAL}
	}
	if off >= int64(len(f.n.Data)) {
		return 0, io.EOF
	}
	k := copy(b, f.n.Data[off:])
	if k < len(b) {
		return k, io.EOF
	}
	return k, nil
}
func (f *File) Seek(off int64, whence int) (int64, error) {
	if f.n == nil {
		return 0, &fs.PathError{Op: "seek", Path: f.name, Err: syscall.ESPIPE}
	}
	switch whence {
	case io.SeekCurrent:
		off += int64(f.pos)
	case io.SeekEnd:
		off += int64(len(f.n.Data))
	}
	if off < 0 {
		return 0, &fs.PathError{Op: "seek", Path: f.name, Err: syscall.EINVAL}
	}
	f.pos = int(off)
	return off, nil
}
func (f *File) Read(b []byte) (int, error) {
	if f.n == nil {
		return 0, io.EOF
	}
	if f.n.Dir {
		return 0, &fs.PathError{Op: "read", Path: f.name, Err: syscall.EISDIR}
	}
	if f.pos >= len(f.n.Data) {
		return 0, io.EOF
	}
	k := copy(b, f.n.Data[f.pos:])
	f.pos += k
	return k, nil
}
func (f *File) Chdir() error {
	fsys := Current()
	if err := fsys.op("chdir", f.name); err != nil {
		return err
	}
	if !f.n.Dir || f.n.NoEnter || f.n.Gone {
		return &fs.PathError{Op: "chdir", Path: f.name, Err: syscall.EACCES}
	}
	fsys.Cwd = f.n
	return nil
}
func (f *File) ReadDir(n int) ([]fs.DirEntry, error) {
	if err := Current().op("readdir", f.name); err != nil {
		return nil, err
	}
	if f.shut {
		return nil, &fs.PathError{Op: "readdir", Path: f.name, Err: os.ErrClosed}
	}
	if !f.listed {
		f.list, f.lerr = f.n.list(f.name)
		f.listed = true
	}
	// an entry is listed once, whatever is created or removed meanwhile
	var l []fs.DirEntry
	for f.pos < len(f.list) && (n <= 0 || len(l) < n) {
		e := f.list[f.pos]
		f.pos++
		if i, ok := e.(info); ok && i.n.Gone {
			continue
		}
		l = append(l, e)
	}
	if n > 0 {
		if len(l) > 0 {
			return l, nil
		}
		if f.lerr == nil {
			return nil, io.EOF
		}
	}
	return l, f.lerr
}
func (f *File) Readdir(n int) ([]fs.FileInfo, error) {
	l, err := f.ReadDir(n)
	var out []fs.FileInfo
	for _, e := range l {
		i, _ := e.Info()
		out = append(out, i)
	}
	return out, err
}
func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := f.ReadDir(n)
	var out []string
	for _, e := range l {
		out = append(out, e.Name())
	}
	return out, err
}

// DirFS is os.DirFS.
func DirFS(dir string) fs.FS { return dirFS(dir) }

type dirFS string

func (d dirFS) join(name string) string                    { return path.Join(string(d), name) }
func (d dirFS) Open(name string) (fs.File, error)          { return Open(d.join(name)) }
func (d dirFS) ReadDir(name string) ([]fs.DirEntry, error) { return ReadDir(d.join(name)) }
func (d dirFS) Stat(name string) (fs.FileInfo, error)      { return Stat(d.join(name)) }
func (d dirFS) ReadFile(name string) ([]byte, error)       { return ReadFile(d.join(name)) }
func (d dirFS) Lstat(name string) (fs.FileInfo, error)     { return Lstat(d.join(name)) }
func (d dirFS) ReadLink(name string) (string, error)       { return Readlink(d.join(name)) }

// Modifications are recorded and refused: nothing under test may modify files.
func refuse(op, name string) error {
	f := Current()
	if err := f.op(op, name); err != nil {
		return err
	}
	f.Writes = append(f.Writes, op+" "+name)
	return &fs.PathError{Op: op, Path: name, Err: syscall.EROFS}
}

func Remove(name string) error                             { return refuse("remove", name) }
func RemoveAll(name string) error                          { return refuse("removeall", name) }
func Rename(a, b string) error                             { return refuse("rename", a) }
func Mkdir(name string, _ fs.FileMode) error               { return refuse("mkdir", name) }
func MkdirAll(name string, _ fs.FileMode) error            { return refuse("mkdir", name) }
func MkdirTemp(dir, pattern string) (string, error)        { return "", refuse("mkdir", dir) }
func WriteFile(name string, _ []byte, _ fs.FileMode) error { return refuse("write", name) }
func Create(name string) (*File, error)                    { return nil, refuse("create", name) }
func CreateTemp(dir, pattern string) (*File, error)        { return nil, refuse("create", dir) }
func OpenFile(name string, flag int, _ fs.FileMode) (*File, error) {
	if flag&(os.O_WRONLY|os.O_RDWR|os.O_CREATE|os.O_TRUNC|os.O_APPEND) == 0 {
		return Open(name)
	}
	return nil, refuse("open", name)
}
func Chmod(name string, _ fs.FileMode) error    { return refuse("chmod", name) }
func Chown(name string, _, _ int) error         { return refuse("chown", name) }
func Chtimes(name string, _, _ time.Time) error { return refuse("chtimes", name) }
func Truncate(name string, _ int64) error       { return refuse("truncate", name) }
func Symlink(a, b string) error                 { return refuse("symlink", b) }
func Link(a, b string) error                    { return refuse("link", b) }
func Setenv(k, v string) error {
	f := Current()
	if f.Env == nil {
		f.Env = map[string]string{}
	}
	f.Env[k] = v
	return nil
}
