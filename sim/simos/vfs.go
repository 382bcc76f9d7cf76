// Package simos replaces the file system and process parts of package os by an
// in-memory tree with permissions, vanishing directories and injected errors.
package simos

import (
	"io/fs"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif/sim"
)

// Node is one file, directory or symbolic link.
type Node struct {
	Name    string
	Dir     bool
	Link    string // target, for symbolic links
	Data    []byte
	NoEnter bool // directory without search permission
	NoList  bool // directory without read permission
	BadList bool // listing yields part of the entries and an I/O error
	BadStat bool // lstat fails with an I/O error
	Gone    bool
	Parent  *Node
	Kids    []*Node
}

// FS is the simulated file system and process state.
type FS struct {
	Root    *Node
	Cwd     *Node
	NoGetwd bool
	Exited  bool
	Code    int
	Writes  []string // attempted modifications
	OnOp    func(op, name string) error
	Runs    []Run
	OnRun   func(r *Run) (code int, start error)
	Env     map[string]string
	Running int // commands started and not yet waited for
	open    int // files opened and not closed
}

// maxOpen is how many files a process may have open.
const maxOpen = 160

// Run is one command execution.
type Run struct {
	Dir  *Node
	Args []string
	Path string
}

func (n *Node) Add(k *Node) *Node {
	k.Parent = n
	n.Kids = append(n.Kids, k)
	sort.Slice(n.Kids, func(i, j int) bool { return n.Kids[i].Name < n.Kids[j].Name })
	return k
}

func (n *Node) kid(name string) *Node {
	for _, k := range n.Kids {
		if k.Name == name && !k.Gone {
			return k
		}
	}
	return nil
}

// Abs is the node's path from the root.
func (n *Node) Abs() string {
	if n.Parent == nil {
		return "/"
	}
	return path.Join(n.Parent.Abs(), n.Name)
}

// Remove makes the node and everything below it disappear.
func (n *Node) Remove() {
	n.Gone = true
	for _, k := range n.Kids {
		k.Remove()
	}
}

// Current returns the file system of the running world (an empty one by default).
func Current() *FS {
	w := sim.Active()
	if w == nil {
		return &FS{Root: &Node{Dir: true}}
	}
	f, _ := w.Local.Get("fs").(*FS)
	if f == nil {
		root := &Node{Dir: true}
		f = &FS{Root: root, Cwd: root}
		w.Local.Set("fs", f)
	}
	return f
}

// Install makes f the file system of the running world.
func Install(f *FS) { sim.Active().Local.Set("fs", f) }

// Op is the point at which a file-system operation can fail.
func (f *FS) Op(op, name string) error { return f.op(op, name) }

func (f *FS) op(op, name string) error {
	sim.Step(80)
	if f.OnOp != nil {
		if err := f.OnOp(op, name); err != nil {
			return &fs.PathError{Op: op, Path: name, Err: err}
		}
	}
	return nil
}

func (f *FS) walk(name string, follow bool, depth int) (*Node, error) {
	if name == "" {
		return nil, syscall.ENOENT
	}
	if depth > 20 {
		return nil, syscall.ELOOP
	}
	cur := f.Cwd
	if strings.HasPrefix(name, "/") {
		cur = f.Root
	}
	if cur.Gone {
		return nil, syscall.ENOENT
	}
	parts := strings.Split(strings.Trim(name, "/"), "/")
	for i, p := range parts {
		if p == "" || p == "." {
			if !cur.Dir {
				return nil, syscall.ENOTDIR
			}
			continue
		}
		if !cur.Dir {
			return nil, syscall.ENOTDIR
		}
		if cur.NoEnter {
			return nil, syscall.EACCES
		}
		if p == ".." {
			if cur.Parent != nil {
				cur = cur.Parent
			}
			continue
		}
		k := cur.kid(p)
		if k == nil {
			return nil, syscall.ENOENT
		}
		if k.Link != "" && (follow || i < len(parts)-1) {
			save := f.Cwd
			f.Cwd = cur
			t, err := f.walk(k.Link, true, depth+1)
			f.Cwd = save
			if err != nil {
				return nil, err
			}
			k = t
		}
		cur = k
	}
	return cur, nil
}

// Lookup resolves a path without faults or scheduling.
func (f *FS) Lookup(name string) (*Node, error) { return f.walk(name, true, 0) }

type info struct {
	n    *Node
	name string
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return int64(len(i.n.Data)) }
func (i info) Mode() fs.FileMode {
	switch {
	case i.n.Dir:
		return fs.ModeDir | 0o755
	case i.n.Link != "":
		return fs.ModeSymlink | 0o777
	}
	return 0o644
}
func (i info) ModTime() time.Time         { return time.Unix(1_600_000_000, 0) }
func (i info) IsDir() bool                { return i.n.Dir }
func (i info) Sys() any                   { return i.n }
func (i info) Type() fs.FileMode          { return i.Mode().Type() }
func (i info) Info() (fs.FileInfo, error) { return i, nil }
func (i info) String() string             { return fs.FormatFileInfo(i) }

func base(name string) string {
	if name == "" {
		return "."
	}
	return path.Base(name)
}

func (f *FS) stat(op, name string, follow bool) (fs.FileInfo, error) {
	if err := f.op(op, name); err != nil {
		return nil, err
	}
	n, err := f.walk(name, follow, 0)
	if err == nil && n.BadStat {
		err = syscall.EIO
	}
	if err != nil {
		return nil, &fs.PathError{Op: op, Path: name, Err: err}
	}
	return info{n, base(name)}, nil
}

func (f *FS) readDir(name string) ([]fs.DirEntry, error) {
	if err := f.op("open", name); err != nil {
		return nil, err
	}
	n, err := f.walk(name, true, 0)
	if err == nil && !n.Dir {
		err = syscall.ENOTDIR
	}
	if err == nil && n.NoList {
		err = syscall.EACCES
	}
	if err == nil && f.open >= maxOpen {
		err = syscall.EMFILE
	}
	if err != nil {
		return nil, &fs.PathError{Op: "open", Path: name, Err: err}
	}
	return n.list(name)
}

func (n *Node) list(name string) ([]fs.DirEntry, error) {
	var out []fs.DirEntry
	for _, k := range n.Kids {
		if !k.Gone {
			out = append(out, info{k, k.Name})
		}
	}
	if n.BadList {
		return out[:len(out)/2], &fs.PathError{Op: "readdirent", Path: name, Err: syscall.EIO}
	}
	return out, nil
}
