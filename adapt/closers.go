package adapt

import (
	"context"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"strings"
	"syscall"

	managerx "github.com/unsafe-risk/utilx/iox/managerx/closex"
	"github.com/unsafe-risk/utilx/iox/usingx"
	sigx "github.com/unsafe-risk/utilx/osx/closex"
)

// closer reports its own number, which it keeps in memory written before it was registered.
type closer struct {
	id, chk int
	f       func(id int) error
}

func (c *closer) Close() error {
	if c.chk != c.id*7+1 {
		return c.f(-1)
	}
	return c.f(c.id)
}

type funcCloser func() error

func (c funcCloser) Close() error { return c() }

type valueCloser struct {
	id int
	p  *closer
}

func (c valueCloser) Close() error { return c.p.Close() }

type listCloser []*closer

func (l listCloser) Close() error { return l[0].Close() }

type mapCloser map[int]*closer

func (m mapCloser) Close() error { return m[0].Close() }

// mkCloser makes a closer of one of several kinds of types.
func mkCloser(kind, id int, f func(id int) error) io.Closer {
	c := &closer{id, id*7 + 1, f}
	switch kind {
	case 1:
		return funcCloser(func() error { return c.Close() })
	case 2:
		return valueCloser{id, c}
	case 3:
		return listCloser{c}
	case 4:
		return mapCloser{0: c}
	}
	return c
}

type listErr []int // not comparable

func (l listErr) Error() string { return fmt.Sprint("list error ", []int(l)) }

type structErr struct{ N int }

func (s structErr) Error() string { return fmt.Sprintf("struct error %d", s.N) }

type nilErr struct{ n int }

func (e *nilErr) Error() string {
	if e == nil {
		return "nil error"
	}
	return fmt.Sprint("not nil ", e.n)
}

// joinErr holds several errors, as errors.Join makes them.
type joinErr [2]error

func (j joinErr) Error() string   { return j[0].Error() + "\n" + j[1].Error() }
func (j joinErr) Unwrap() []error { return j[:] }

type likeErr struct{ n int }

func (e *likeErr) Error() string   { return fmt.Sprint("like ", e.n) }
func (e *likeErr) Is(error) bool   { return true }
func (e *likeErr) Timeout() bool   { return true }
func (e *likeErr) Temporary() bool { return true }
func (e *likeErr) Unwrap() error   { return io.ErrClosedPipe }

// ErrKinds is the number of kinds of errors MkErr makes.
const ErrKinds = 17

// MkErr makes an error of one of several kinds.
func MkErr(kind, n int) error {
	switch kind {
	case 0:
		return errors.New(fmt.Sprintf("plain %d", n))
	case 1:
		return listErr{n, n + 1}
	case 2:
		return structErr{n}
	case 3:
		return &structErr{n}
	case 4: // an error list of its own, as a nested manager returns
		return managerx.ErrorList{structErr{n}, errors.New("inner")}
	case 5:
		return fmt.Errorf("wrapped %d: %w", n, io.ErrUnexpectedEOF)
	case 6:
		return errors.New("")
	case 7:
		return io.EOF
	case 8: // 100%d is no verb
		return errors.New("100%d\n%s")
	case 9: // a nil pointer in a non-nil error
		return (*nilErr)(nil)
	case 10:
		return joinErr{errors.New("first"), structErr{n}}
	case 11:
		return os.ErrClosed
	case 12:
		return &os.PathError{Op: "close", Path: "/x", Err: os.ErrClosed}
	case 13:
		return context.Canceled
	case 14:
		return syscall.EINTR
	case 15:
		return os.NewSyscallError("close", syscall.EBADF)
	case 16: // takes itself for any other
		return &likeErr{n}
	}
	return nil
}

// SameErr says whether two errors are the very same.
func SameErr(a, b error) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch x := a.(type) {
	case listErr:
		y, ok := b.(listErr)
		return ok && len(x) == len(y) && &x[0] == &y[0]
	case managerx.ErrorList:
		y, ok := b.(managerx.ErrorList)
		return ok && len(x) == len(y) && &x[0] == &y[0]
	}
	switch b.(type) {
	case listErr, managerx.ErrorList:
		return false
	}
	return a == b
}

func Contains(err, part error) bool { return strings.Contains(err.Error(), part.Error()) }

// Manager is a close manager.
type Manager struct {
	m   *managerx.CloseManager
	pkg bool
}

func NewManager() *Manager             { return &Manager{m: managerx.New()} }
func DefaultManager(pkg bool) *Manager { return &Manager{m: managerx.Default, pkg: pkg} }

func (m *Manager) Append(kind, id int, f func(id int) error) {
	c := mkCloser(kind, id, f)
	if m.pkg {
		managerx.Append(c)
		return
	}
	m.m.Append(c)
}

func (m *Manager) AppendManager(n *Manager) { m.m.Append(n.m) }

func (m *Manager) Close() error {
	if m.pkg {
		return managerx.Close()
	}
	return m.m.Close()
}

func AsErrs(err error) ([]error, bool) { return managerx.AsErrs(err) }

// Scope makes a usingx scope with closers numbered from 0.
func Scope(kinds []int, f func(id int) error) func(func()) []error {
	var cs []io.Closer
	for i, k := range kinds {
		cs = append(cs, mkCloser(k, i, f))
	}
	return usingx.Close(cs...)
}

type logw struct{ f func() }

func (w logw) Write(b []byte) (int, error) { w.f(); return len(b), nil }

// HandleKillSig returns the channel C; seen reports what the handler wrote.
func HandleKillSig(handler func(), logged func()) (c <-chan struct{}, seen func() int) {
	mem := &Item{}
	h := sigx.HandleKillSig(func() {
		handler()
		mem.Seen++
	}, log.New(logw{logged}, "", 0))
	return h.C, func() int { return mem.Seen }
}
