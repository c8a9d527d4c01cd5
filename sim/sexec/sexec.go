// Package sexec stands in for package os/exec: commands are recorded, never run.
package sexec

import (
	"errors"
	"io"
	realexec "os/exec"
	"syscall"
	"time"
	"verifsim/scontext"

	"verifsim/simrt"
	"verifsim/sos"
)

type (
	Error     = realexec.Error
	ExitError = realexec.ExitError
)

var (
	ErrNotFound  = realexec.ErrNotFound
	ErrDot       = realexec.ErrDot
	ErrWaitDelay = realexec.ErrWaitDelay
)

type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	Process      *sos.Process
	ProcessState *sos.ProcessState
	Err          error
	ExtraFiles   []*sos.File
	SysProcAttr  *syscall.SysProcAttr
	Cancel       func() error
	WaitDelay    time.Duration
	r            *simrt.ExecRec
}

func Command(name string, arg ...string) *Cmd {
	return &Cmd{Path: name, Args: append([]string{name}, arg...)}
}

// CommandContext is Command: the commands of the simulated machine end by
// themselves.
func CommandContext(ctx scontext.Context, name string, arg ...string) *Cmd {
	if ctx == nil {
		panic("nil Context")
	}
	return Command(name, arg...)
}

func (c *Cmd) StdinPipe() (io.WriteCloser, error) { return nopPipe{}, nil }
func (c *Cmd) StdoutPipe() (io.ReadCloser, error) { return nopPipe{}, nil }
func (c *Cmd) StderrPipe() (io.ReadCloser, error) { return nopPipe{}, nil }
func (c *Cmd) Environ() []string                  { return c.Env }

// nopPipe carries nothing: the simulated commands are silent.
type nopPipe struct{}

func (nopPipe) Read([]byte) (int, error)    { return 0, io.EOF }
func (nopPipe) Write(b []byte) (int, error) { return len(b), nil }
func (nopPipe) Close() error                { return nil }

func LookPath(f string) (string, error) { return f, nil }

func (c *Cmd) String() string {
	s := c.Path
	for _, a := range c.Args[1:] {
		s += " " + a
	}
	return s
}

func (c *Cmd) Start() error { return c.start("start") }

func (c *Cmd) start(kind string) error {
	if c.r != nil {
		return errors.New("exec: already started")
	}
	args := append([]string{c.Path}, c.Args[1:]...)
	r, err := simrt.StartExec(args, kind)
	if err != nil {
		return err
	}
	c.r = r
	c.Process = &sos.Process{Pid: 100, R: r}
	return nil
}

func (c *Cmd) Wait() error {
	if c.r == nil {
		return errors.New("exec: not started")
	}
	if c.ProcessState != nil {
		return errors.New("exec: Wait was already called")
	}
	simrt.WaitExec(c.r)
	c.ProcessState = &sos.ProcessState{}
	return nil
}

func (c *Cmd) Run() error {
	if err := c.start("run"); err != nil {
		return err
	}
	return c.Wait()
}
func (c *Cmd) Output() ([]byte, error)         { return nil, c.Run() }
func (c *Cmd) CombinedOutput() ([]byte, error) { return nil, c.Run() }
