// Package sos stands in for package os on the simulated machine.
package sos

import (
	"io"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifsim/simrt"
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC

	PathSeparator     = os.PathSeparator
	PathListSeparator = os.PathListSeparator
	DevNull           = os.DevNull
	ModePerm          = os.ModePerm
	ModeDir           = os.ModeDir
	ModeAppend        = os.ModeAppend
	SEEK_SET          = 0
	SEEK_CUR          = 1
	SEEK_END          = 2
)

var (
	ErrInvalid          = os.ErrInvalid
	ErrPermission       = os.ErrPermission
	ErrExist            = os.ErrExist
	ErrNotExist         = os.ErrNotExist
	ErrClosed           = os.ErrClosed
	ErrNoDeadline       = os.ErrNoDeadline
	ErrDeadlineExceeded = os.ErrDeadlineExceeded
	ErrProcessDone      = os.ErrProcessDone
	Args                = []string{"golisp"}
	Interrupt           = os.Interrupt
	Kill                = os.Kill
)

type (
	FileInfo     = os.FileInfo
	FileMode     = os.FileMode
	PathError    = os.PathError
	LinkError    = os.LinkError
	SyscallError = os.SyscallError
	Signal       = os.Signal
	DirEntry     = os.DirEntry
)

type File struct {
	h *simrt.Handle
}

var (
	Stdin  = &File{simrt.StdHandle(0)}
	Stdout = &File{simrt.StdHandle(1)}
	Stderr = &File{simrt.StdHandle(2)}
)

// Reset restores the package variables between runs.
func Reset() {
	Stdin = &File{simrt.StdHandle(0)}
	Stdout = &File{simrt.StdHandle(1)}
	Stderr = &File{simrt.StdHandle(2)}
}

func OpenFile(name string, flag int, perm FileMode) (*File, error) {
	h, err := simrt.S.FS.Open(name, flag, perm)
	if err != nil {
		return nil, err
	}
	return &File{h}, nil
}
func Open(name string) (*File, error)   { return OpenFile(name, O_RDONLY, 0) }
func Create(name string) (*File, error) { return OpenFile(name, O_RDWR|O_CREATE|O_TRUNC, 0666) }

func (f *File) Handle() *simrt.Handle { return f.h }

func (f *File) bad(op string) error {
	if f == nil {
		return ErrInvalid
	}
	return nil
}

func (f *File) Name() string {
	return f.h.Name()
}
func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	return f.h.Read(b)
}
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	return f.h.ReadAt(b, off)
}
func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	return f.h.Write(b)
}
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	return f.h.WriteAt(b, off)
}
func (f *File) ReadFrom(r io.Reader) (int64, error) { return io.Copy(onlyWriter{f}, r) }
func (f *File) WriteTo(w io.Writer) (int64, error)  { return io.Copy(w, onlyReader{f}) }

type onlyWriter struct{ io.Writer }
type onlyReader struct{ io.Reader }

func (f *File) ReadDir(n int) ([]DirEntry, error) {
	if f == nil {
		return nil, ErrInvalid
	}
	return ReadDir(f.h.Name())
}
func (f *File) Readdir(n int) ([]FileInfo, error) {
	es, err := f.ReadDir(n)
	var out []FileInfo
	for _, e := range es {
		out = append(out, e.(info))
	}
	return out, err
}
func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.ReadDir(n)
	var out []string
	for _, e := range es {
		out = append(out, e.Name())
	}
	return out, err
}
func (f *File) Chown(u, g int) error              { return nil }
func (f *File) Chdir() error                      { return Chdir(f.h.Name()) }
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) Close() error {
	if f == nil {
		return ErrInvalid
	}
	return f.h.Close()
}
func (f *File) Seek(off int64, whence int) (int64, error) {
	if f == nil {
		return 0, ErrInvalid
	}
	return f.h.Seek(off, whence)
}
func (f *File) Sync() error {
	if f == nil {
		return ErrInvalid
	}
	if f.h.Closed() {
		return &os.PathError{Op: "sync", Path: f.h.Name(), Err: os.ErrClosed}
	}
	simrt.SP(34)
	return nil
}
func (f *File) Truncate(n int64) error {
	if f == nil {
		return ErrInvalid
	}
	return f.h.Truncate(n)
}
func (f *File) Fd() uintptr                          { return uintptr(f.h.Std()) }
func (f *File) Chmod(m FileMode) error               { return nil }
func (f *File) SetDeadline(t interface{}) error      { return ErrNoDeadline }
func (f *File) SetReadDeadline(t interface{}) error  { return ErrNoDeadline }
func (f *File) SetWriteDeadline(t interface{}) error { return ErrNoDeadline }
func (f *File) Stat() (FileInfo, error) {
	if f == nil {
		return nil, ErrInvalid
	}
	if f.h.Closed() {
		return nil, &os.PathError{Op: "stat", Path: f.h.Name(), Err: os.ErrClosed}
	}
	simrt.SP(27)
	return info{filepath.Base(f.h.Name()), f.h.Size(), f.h.IsDir()}, nil
}

type info struct {
	name string
	size int64
	dir  bool
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return i.size }
func (i info) Mode() os.FileMode {
	if i.dir {
		return os.ModeDir | 0777
	}
	return 0666
}
func (i info) ModTime() time.Time { return time.Unix(0, simrt.WallNS()) }
func (i info) IsDir() bool        { return i.dir }
func (i info) Sys() interface{}   { return nil }

// A directory entry is its own file information.
func (i info) Type() os.FileMode          { return i.Mode().Type() }
func (i info) Info() (os.FileInfo, error) { return i, nil }

func Stat(name string) (FileInfo, error) {
	n, err := simrt.S.FS.Stat(name)
	if err != nil {
		return nil, err
	}
	return info{filepath.Base(name), int64(len(n.Data)), n.Dir}, nil
}
func Lstat(name string) (FileInfo, error)       { return Stat(name) }
func Remove(name string) error                  { return simrt.S.FS.Remove(name) }
func Rename(a, b string) error                  { return simrt.S.FS.Rename(a, b) }
func Mkdir(name string, perm FileMode) error    { simrt.S.FS.Mkdir(name); return nil }
func MkdirAll(name string, perm FileMode) error { simrt.S.FS.Mkdir(name); return nil }
func ReadFile(name string) ([]byte, error)      { return simrt.S.FS.ReadFile(name) }
func WriteFile(name string, b []byte, perm FileMode) error {
	f, err := OpenFile(name, O_WRONLY|O_CREATE|O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(b)
	if e := f.Close(); e != nil && err == nil {
		err = e
	}
	return err
}
func ReadDir(name string) ([]DirEntry, error) {
	n, err := simrt.S.FS.Stat(name)
	if err != nil {
		return nil, err
	}
	if !n.Dir {
		return nil, &os.PathError{Op: "readdirent", Path: name, Err: syscall.ENOTDIR}
	}
	dir := strings.TrimSuffix(simrt.S.FS.Abs(name), "/") + "/"
	seen := map[string]bool{}
	var out []DirEntry
	for _, f := range simrt.S.FS.Names() { // sorted
		if !strings.HasPrefix(f, dir) || f == dir {
			continue
		}
		c := f[len(dir):]
		d := false
		if i := strings.IndexByte(c, '/'); i >= 0 {
			c, d = c[:i], true
		}
		if !seen[c] {
			seen[c] = true
			if d {
				out = append(out, info{c, 0, true})
			} else {
				fi, err := Stat(f)
				if err != nil {
					return out, err
				}
				out = append(out, fi.(info))
			}
		}
	}
	return out, nil
}
func RemoveAll(name string) error {
	fs := simrt.S.FS
	p := fs.Abs(name)
	for _, f := range fs.Names() {
		if f == p || strings.HasPrefix(f, p+"/") {
			if err := fs.Remove(f); err != nil {
				return err
			}
		}
	}
	return nil
}
func Truncate(name string, n int64) error {
	f, err := OpenFile(name, O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(n)
}
func MkdirTemp(dir, pattern string) (string, error) {
	name := tempName(dir, pattern)
	return name, Mkdir(name, 0700)
}
func CreateTemp(dir, pattern string) (*File, error) {
	return OpenFile(tempName(dir, pattern), O_RDWR|O_CREATE|O_EXCL, 0600)
}

func tempName(dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	simrt.S.FS.Mkdir(dir)
	pre, post := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, post = pattern[:i], pattern[i+1:]
	}
	for n := 1; ; n++ {
		name := filepath.Join(dir, pre+strconv.Itoa(n)+post)
		if _, ok := simrt.S.FS.Get(name); !ok {
			return name
		}
	}
}
func Chdir(dir string) error {
	n, err := simrt.S.FS.Stat(dir)
	if err != nil {
		return err
	}
	if !n.Dir {
		return &os.PathError{Op: "chdir", Path: dir, Err: syscall.ENOTDIR}
	}
	simrt.S.FS.Cwd = simrt.S.FS.Abs(dir)
	return nil
}
func Chmod(name string, m FileMode) error         { _, err := Stat(name); return err }
func Chown(name string, u, g int) error           { _, err := Stat(name); return err }
func Chtimes(name string, a, b interface{}) error { _, err := Stat(name); return err }
func Link(a, b string) error                      { return &os.LinkError{Op: "link", Old: a, New: b, Err: syscall.EPERM} }
func Symlink(a, b string) error {
	return &os.LinkError{Op: "symlink", Old: a, New: b, Err: syscall.EPERM}
}
func Readlink(a string) (string, error) {
	return "", &os.PathError{Op: "readlink", Path: a, Err: syscall.EINVAL}
}
func Unsetenv(string) error                   { return nil }
func Clearenv()                               {}
func ExpandEnv(s string) string               { return os.Expand(s, Getenv) }
func UserHomeDir() (string, error)            { return "/home", nil }
func UserConfigDir() (string, error)          { return "/home/.config", nil }
func UserCacheDir() (string, error)           { return "/home/.cache", nil }
func Executable() (string, error)             { return "/golisp", nil }
func Getuid() int                             { return 1000 }
func Geteuid() int                            { return 1000 }
func Getgid() int                             { return 1000 }
func Getegid() int                            { return 1000 }
func Getppid() int                            { return 1 }
func Exit(code int)                           { simrt.Exit(code) }
func Getenv(string) string                    { return "" }
func LookupEnv(string) (string, bool)         { return "", false }
func Environ() []string                       { return nil }
func Setenv(k, v string) error                { return nil }
func Getwd() (string, error)                  { return simrt.S.FS.Cwd, nil }
func Getpid() int                             { return 4242 }
func Hostname() (string, error)               { return "sim", nil }
func TempDir() string                         { return "/tmp" }
func IsNotExist(err error) bool               { return os.IsNotExist(err) }
func IsExist(err error) bool                  { return os.IsExist(err) }
func IsPermission(err error) bool             { return os.IsPermission(err) }
func NewSyscallError(s string, e error) error { return os.NewSyscallError(s, e) }

// Process and ProcessState belong to exec.
type Process struct {
	Pid int
	R   *simrt.ExecRec
}

func (p *Process) Kill() error           { return nil }
func (p *Process) Release() error        { return nil } // which leaves a zombie
func (p *Process) Signal(s Signal) error { return nil }
func (p *Process) Wait() (*ProcessState, error) {
	simrt.WaitExec(p.R)
	return &ProcessState{}, nil
}

type ProcAttr struct {
	Dir   string
	Env   []string
	Files []*File
	Sys   *syscall.SysProcAttr
}

func StartProcess(name string, argv []string, attr *ProcAttr) (*Process, error) {
	r, err := simrt.StartExec(append([]string{name}, argv[1:]...), "start")
	if err != nil {
		return nil, err
	}
	return &Process{Pid: 100, R: r}, nil
}

type ProcessState struct{}

func (p *ProcessState) ExitCode() int  { return 0 }
func (p *ProcessState) Success() bool  { return true }
func (p *ProcessState) Exited() bool   { return true }
func (p *ProcessState) Pid() int       { return 100 }
func (p *ProcessState) String() string { return "exit status 0" }

// Glob is used by the filepath shim.
func Glob(pattern string) ([]string, error) {
	simrt.SP(35)
	if _, err := filepath.Match(pattern, ""); err != nil {
		return nil, err
	}
	fs := simrt.S.FS
	var out []string
	for _, n := range fs.Names() {
		c := n
		if !strings.HasPrefix(pattern, "/") {
			c = strings.TrimPrefix(n, fs.Cwd+"/")
		}
		if ok, _ := filepath.Match(pattern, c); ok {
			out = append(out, c)
		}
	}
	sort.Strings(out)
	return out, nil
}

func ReadLine(prompt *string) *string { return simrt.ReadLineSim(prompt) }
func AddHistory(line string) {
	if simrt.S != nil {
		simrt.S.FS.History = append(simrt.S.FS.History, line)
	}
}
func WriteHistory(file string) {
	if simrt.S != nil {
		simrt.S.Stats["history-write"]++
	}
}

var _ io.ReadWriteCloser = (*File)(nil)
