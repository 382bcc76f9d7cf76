// Package simexec replaces os/exec: commands are recorded, not run.
package simexec

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path"
	"strings"
	"syscall"
	"time"

	"verif/sim"
	"verif/sim/simos"
)

type Error = exec.Error

var (
	ErrNotFound = exec.ErrNotFound
	ErrDot      = exec.ErrDot
)

type ExitError struct {
	Code   int
	Stderr []byte
}

func (e *ExitError) Error() string { return fmt.Sprintf("exit status %d", e.Code) }
func (e *ExitError) ExitCode() int { return e.Code }

type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	ExtraFiles   []*os.File
	SysProcAttr  *syscall.SysProcAttr
	Process      *os.Process
	ProcessState *os.ProcessState
	Err          error
	Cancel       func() error
	WaitDelay    time.Duration
	ctx          context.Context
	started      bool
	waited       bool
	code         int
}

func LookPath(file string) (string, error) {
	if strings.Contains(file, "/") {
		return file, nil
	}
	return path.Join("/bin", file), nil
}

func Command(name string, arg ...string) *Cmd {
	p, _ := LookPath(name)
	return &Cmd{Path: p, Args: append([]string{name}, arg...)}
}

func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	c := Command(name, arg...)
	c.ctx = ctx
	return c
}

func (c *Cmd) String() string    { return strings.Join(append([]string{c.Path}, c.Args[1:]...), " ") }
func (c *Cmd) Environ() []string { return c.Env }

func (c *Cmd) Start() error {
	if c.started {
		return fmt.Errorf("exec: already started")
	}
	sim.Step(85)
	if c.ctx != nil && c.ctx.Err() != nil {
		return c.ctx.Err()
	}
	f := simos.Current()
	dir := f.Cwd
	if c.Dir != "" {
		var n *simos.Node
		err := f.Op("chdir", c.Dir) // the child's own change of directory
		if err == nil {
			n, err = f.Lookup(c.Dir)
		}
		if err == nil && !n.Dir {
			err = syscall.ENOTDIR
		}
		if err == nil && n.NoEnter {
			err = syscall.EACCES
		}
		if err != nil {
			return &fs.PathError{Op: "chdir", Path: c.Dir, Err: err}
		}
		dir = n
	}
	if dir.Gone {
		return &fs.PathError{Op: "fork/exec", Path: c.Path, Err: syscall.ENOENT}
	}
	r := simos.Run{Dir: dir, Args: append([]string(nil), c.Args...), Path: c.Path}
	f.Runs = append(f.Runs, r)
	sim.Log("exec %v in %s", c.Args, dir.Abs())
	c.code = 0
	if f.OnRun != nil {
		code, err := f.OnRun(&r)
		if err != nil {
			return &fs.PathError{Op: "fork/exec", Path: c.Path, Err: err}
		}
		c.code = code
	}
	c.started = true
	f.Running++
	return nil
}

func (c *Cmd) Wait() error {
	if !c.started {
		return fmt.Errorf("exec: not started")
	}
	if c.waited {
		return fmt.Errorf("exec: Wait was already called")
	}
	c.waited = true
	sim.Sleep(int64(1+sim.Active().F.Int(1000)) * 1_000_000)
	simos.Current().Running--
	if c.code != 0 {
		return &ExitError{Code: c.code}
	}
	return nil
}

func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

func (c *Cmd) Output() ([]byte, error) {
	var b bytes.Buffer
	c.Stdout = &b
	err := c.Run()
	return b.Bytes(), err
}

func (c *Cmd) CombinedOutput() ([]byte, error) { return c.Output() }

func (c *Cmd) StdoutPipe() (io.ReadCloser, error) { return io.NopCloser(strings.NewReader("")), nil }
func (c *Cmd) StderrPipe() (io.ReadCloser, error) { return io.NopCloser(strings.NewReader("")), nil }

type nopWriter struct{ io.Writer }

func (nopWriter) Close() error { return nil }

func (c *Cmd) StdinPipe() (io.WriteCloser, error) { return nopWriter{io.Discard}, nil }
