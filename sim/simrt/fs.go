package simrt

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
)

// IOFault is one planned fault of the simulated machine.  The Nth operation
// Op (on Path, if given) gets it.
type IOFault struct {
	Op   string `json:"op"`             // open create read write close stat readfile exec glob readline sink
	Path string `json:"path,omitempty"` // "" = any
	N    int    `json:"n"`              // 0-based
	Kind string `json:"kind"`           // err short delay full
	Arg  int64  `json:"arg,omitempty"`  // bytes for short/full, ns for delay
	Rest bool   `json:"rest,omitempty"` // and every later one

	seen  int
	Fired int `json:"-"`
}

type Inode struct {
	Path string
	Data []byte
	Dir  bool
	Std  int // 1 stdout 2 stderr, 3 stdin
}

// JEntry is one effect on a file, in execution order: the crash points.
type JEntry struct {
	Seq  int64
	Task int
	Path string
	Kind string // create trunc write remove close
	Off  int64
	Data []byte
	Op   int64 // id of the File operation it belongs to
}

type ConsoleEvent struct {
	Seq  int64
	Task int
	FD   int
	Text string
}

type ExecRec struct {
	Seq    int64
	Task   int
	Args   []string
	Err    string
	Waited bool
	Done   bool
	Kind   string
	done   []*Task
	Exit   int
}

type FS struct {
	files         map[string]*Inode
	Faults        []*IOFault
	Journal       []JEntry
	Console       []ConsoleEvent
	Execs         []*ExecRec
	Opened        []string // every open attempt (for the restricted-effects check)
	Cwd           string
	MaxRead       int // 0: as much as asked; n: reads are split at seeded points <= n
	MaxWrite      int
	OpCost        int64    // simulated ns per system call
	Lines         []string // interactive input
	LineDelay     []int64
	nextLine      int
	Prompts       []PromptRec
	History       []string
	OpenHandles   int
	MaxOpen       int // 0: no limit on open files
	opSeq         int64
	Reads, Writes int64
}

type PromptRec struct {
	Seq    int64
	Prompt string
	Line   string
	EOF    bool
}

// HostIO is reserved for the harness.
type HostIO struct{}

func NewFS() *FS {
	fs := &FS{files: map[string]*Inode{}, Cwd: "/work"}
	return fs
}

func (fs *FS) abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = fs.Cwd + "/" + p
	}
	parts := []string{}
	for _, x := range strings.Split(p, "/") {
		switch x {
		case "", ".":
		case "..":
			if len(parts) > 0 {
				parts = parts[:len(parts)-1]
			}
		default:
			parts = append(parts, x)
		}
	}
	return "/" + strings.Join(parts, "/")
}

// Abs is the absolute path a name stands for.
func (fs *FS) Abs(p string) string { return fs.abs(p) }

func (fs *FS) Put(path string, data []byte) {
	path = fs.abs(path)
	fs.files[path] = &Inode{Path: path, Data: append([]byte{}, data...)}
}

func (fs *FS) Get(path string) ([]byte, bool) {
	n := fs.files[fs.abs(path)]
	if n == nil {
		return nil, false
	}
	return n.Data, true
}

func (fs *FS) Names() []string {
	var l []string
	for k := range fs.files {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// fault returns the planned fault for this operation, if any.
func (fs *FS) fault(op, path string) *IOFault {
	var hit *IOFault
	for _, f := range fs.Faults {
		if f.Op != op || (f.Path != "" && fs.abs(f.Path) != path && f.Path != path) {
			continue
		}
		if f.seen == f.N || (f.Rest && f.seen > f.N) {
			if hit == nil {
				hit = f
			}
		}
		f.seen++
	}
	if hit != nil {
		hit.Fired++
		if S != nil {
			S.Stats["fault-"+op+"-"+hit.Kind]++
		}
	}
	return hit
}

func (fs *FS) syscall(op uint64) {
	SP(op)
	if fs.OpCost > 0 && S != nil {
		S.now += fs.OpCost
	}
}

// SinkFault lets harness-side sinks take part in the fault plan.
func (fs *FS) SinkFault(path string) *IOFault { return fs.fault("sink", path) }

type Handle struct {
	fs     *FS
	ino    *Inode
	name   string
	pos    int64
	flag   int
	closed bool
	busyW  bool
	busyR  bool
	wq     []*Task
}

func pathErr(op, path string, e error) error { return &os.PathError{Op: op, Path: path, Err: e} }

func (fs *FS) Open(name string, flag int, perm os.FileMode) (*Handle, error) {
	fs.syscall(20)
	p := fs.abs(name)
	fs.Opened = append(fs.Opened, p)
	op := "open"
	if flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		op = "create"
	}
	if f := fs.fault(op, p); f != nil {
		switch f.Kind {
		case "err":
			return nil, pathErr("open", name, syscall.EMFILE)
		case "delay":
			SleepNS(f.Arg)
		}
	}
	if fs.MaxOpen > 0 && fs.OpenHandles >= fs.MaxOpen {
		if S != nil {
			S.Stats["fault-open-limit"]++
		}
		return nil, pathErr("open", name, syscall.EMFILE)
	}
	n := fs.files[p]
	if n != nil && n.Dir && flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		return nil, pathErr("open", name, syscall.EISDIR)
	}
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, pathErr("open", name, syscall.ENOENT)
		}
		if d := filepath.Dir(p); d != fs.Cwd && d != "/tmp" && (fs.files[d] == nil || !fs.files[d].Dir) {
			return nil, pathErr("open", name, syscall.ENOENT)
		}
		n = &Inode{Path: p}
		fs.files[p] = n
		fs.journal("create", p, 0, nil, 0)
	} else if flag&os.O_EXCL != 0 && flag&os.O_CREATE != 0 {
		return nil, pathErr("open", name, syscall.EEXIST)
	}
	if flag&os.O_TRUNC != 0 && len(n.Data) > 0 {
		n.Data = nil
		fs.journal("trunc", p, 0, nil, 0)
	}
	fs.OpenHandles++
	return &Handle{fs: fs, ino: n, name: name, flag: flag}, nil
}

func (fs *FS) journal(kind, path string, off int64, data []byte, op int64) {
	t := 0
	var seq int64
	if S != nil {
		t = S.cur.ID
		seq = Seq()
	}
	fs.Journal = append(fs.Journal, JEntry{Seq: seq, Task: t, Path: path, Kind: kind, Off: off, Data: append([]byte{}, data...), Op: op})
}

// StdHandle opens one of the standard streams.
func StdHandle(fd int) *Handle {
	names := []string{"/dev/stdin", "/dev/stdout", "/dev/stderr"}
	return &Handle{name: names[fd], ino: &Inode{Path: names[fd], Std: fd + 1}, flag: os.O_RDWR | os.O_APPEND}
}

func (h *Handle) f() *FS {
	if h.fs != nil {
		return h.fs
	}
	if S != nil {
		return S.FS
	}
	return nil
}

func (h *Handle) Name() string { return h.name }

// lock serialises operations on one handle, as the poll package does.
func (h *Handle) lock(b *bool) {
	for *b {
		h.wq = append(h.wq, S.cur)
		S.block("file lock")
	}
	*b = true
}

func (h *Handle) unlock(b *bool) {
	*b = false
	if S != nil && !S.dead {
		for _, t := range h.wq {
			S.ready(t)
		}
	}
	h.wq = nil
}

func (h *Handle) Write(b []byte) (int, error) {
	fs := h.f()
	if fs == nil || S == nil {
		return len(b), nil
	}
	if S.dead {
		goexit()
	}
	if h.closed {
		return 0, pathErr("write", h.name, os.ErrClosed)
	}
	if h.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		SP(21)
		return 0, pathErr("write", h.name, syscall.EBADF)
	}
	h.lock(&h.busyW)
	defer h.unlock(&h.busyW)
	if h.closed {
		return 0, pathErr("write", h.name, os.ErrClosed)
	}
	// from here on it goes on even if the file is closed meanwhile
	fs.opSeq++
	op := fs.opSeq
	done := 0
	first := true
	for first || done < len(b) {
		first = false
		fs.syscall(21)
		fs.Writes++
		rest := b[done:]
		n := len(rest)
		var err error
		if f := fs.fault("write", h.ino.Path); f != nil {
			switch f.Kind {
			case "err":
				return done, pathErr("write", h.name, syscall.EIO)
			case "short":
				if int(f.Arg) < n {
					n = int(f.Arg)
				}
				if n == 0 && len(rest) > 0 {
					n = 1
				}
			case "full":
				if int(f.Arg) < n {
					n = int(f.Arg)
				}
				err = pathErr("write", h.name, syscall.ENOSPC)
			case "delay":
				SleepNS(f.Arg)
			}
		}
		if fs.MaxWrite > 0 && n > fs.MaxWrite {
			n = fs.MaxWrite
			S.Stats["fault-write-short"]++
		}
		h.put(rest[:n], op)
		done += n
		if err != nil {
			return done, err
		}
	}
	return done, nil
}

func (h *Handle) put(b []byte, op int64) {
	fs := h.f()
	if h.ino.Std != 0 {
		fs.Console = append(fs.Console, ConsoleEvent{Seq: Seq(), Task: S.cur.ID, FD: h.ino.Std - 1, Text: string(b)})
		fs.journal("write", h.ino.Path, 0, b, op)
		return
	}
	off := h.pos
	if h.flag&os.O_APPEND != 0 {
		off = int64(len(h.ino.Data))
	}
	for int64(len(h.ino.Data)) < off+int64(len(b)) {
		h.ino.Data = append(h.ino.Data, 0)
	}
	copy(h.ino.Data[off:], b)
	h.pos = off + int64(len(b))
	fs.journal("write", h.ino.Path, off, b, op)
}

func (h *Handle) Read(b []byte) (int, error) {
	fs := h.f()
	if fs == nil || S == nil {
		return 0, io.EOF
	}
	if S.dead {
		goexit()
	}
	if h.closed {
		return 0, pathErr("read", h.name, os.ErrClosed)
	}
	if h.flag&os.O_WRONLY != 0 && h.ino.Std == 0 {
		SP(22)
		return 0, pathErr("read", h.name, syscall.EBADF)
	}
	h.lock(&h.busyR)
	defer h.unlock(&h.busyR)
	fs.syscall(22)
	fs.Reads++
	if h.closed {
		return 0, pathErr("read", h.name, os.ErrClosed)
	}
	if h.ino.Dir {
		return 0, pathErr("read", h.name, syscall.EISDIR)
	}
	n := len(b)
	rem := len(h.ino.Data) - int(h.pos)
	if rem < n {
		n = rem
	}
	if f := fs.fault("read", h.ino.Path); f != nil {
		switch f.Kind {
		case "err":
			return 0, pathErr("read", h.name, syscall.EIO)
		case "short":
			if int(f.Arg) < n && f.Arg > 0 {
				n = int(f.Arg)
			}
		case "delay":
			SleepNS(f.Arg)
		}
	}
	if n <= 0 {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	if fs.MaxRead > 0 {
		k := 1 + int(S.derived(23)%uint64(fs.MaxRead))
		if k < n {
			n = k
			S.Stats["fault-read-short"]++
		}
	}
	copy(b, h.ino.Data[h.pos:int(h.pos)+n])
	h.pos += int64(n)
	return n, nil
}

func (h *Handle) ReadAt(b []byte, off int64) (int, error) {
	if h.closed {
		return 0, pathErr("read", h.name, os.ErrClosed)
	}
	h.f().syscall(22)
	if off >= int64(len(h.ino.Data)) {
		return 0, io.EOF
	}
	n := copy(b, h.ino.Data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

// WriteAt writes at an offset; it is the positioned form of Write.
func (h *Handle) WriteAt(b []byte, off int64) (int, error) {
	if h.flag&os.O_APPEND != 0 {
		return 0, errors.New("os: invalid use of WriteAt on file opened with O_APPEND")
	}
	pos := h.pos
	h.pos = off
	n, err := h.Write(b)
	h.pos = pos
	return n, err
}

func (h *Handle) Seek(off int64, whence int) (int64, error) {
	if h.closed {
		return 0, pathErr("seek", h.name, os.ErrClosed)
	}
	h.f().syscall(24)
	switch whence {
	case 0:
		h.pos = off
	case 1:
		h.pos += off
	case 2:
		h.pos = int64(len(h.ino.Data)) + off
	}
	return h.pos, nil
}

func (h *Handle) Truncate(n int64) error {
	h.f().syscall(25)
	for int64(len(h.ino.Data)) < n {
		h.ino.Data = append(h.ino.Data, 0)
	}
	h.ino.Data = h.ino.Data[:n]
	h.f().journal("trunc", h.ino.Path, n, nil, 0)
	return nil
}

func (h *Handle) Close() error {
	fs := h.f()
	if fs == nil || S == nil {
		return nil
	}
	if S.dead {
		return nil
	}
	fs.syscall(26)
	if h.closed {
		return pathErr("close", h.name, os.ErrClosed)
	}
	h.closed = true
	fs.OpenHandles--
	fs.journal("close", h.ino.Path, 0, nil, 0)
	if f := fs.fault("close", h.ino.Path); f != nil && f.Kind == "err" {
		return pathErr("close", h.name, syscall.EIO)
	}
	return nil
}

func (h *Handle) Size() int64  { return int64(len(h.ino.Data)) }
func (h *Handle) IsDir() bool  { return h.ino.Dir }
func (h *Handle) Closed() bool { return h.closed }
func (h *Handle) Std() int     { return h.ino.Std }

func (fs *FS) Stat(name string) (*Inode, error) {
	fs.syscall(27)
	p := fs.abs(name)
	if f := fs.fault("stat", p); f != nil && f.Kind == "err" {
		return nil, pathErr("stat", name, syscall.EIO)
	}
	n := fs.files[p]
	if n == nil {
		for k := range fs.files {
			if strings.HasPrefix(k, p+"/") {
				return &Inode{Path: p, Dir: true}, nil
			}
		}
		return nil, pathErr("stat", name, syscall.ENOENT)
	}
	return n, nil
}

func (fs *FS) Remove(name string) error {
	fs.syscall(28)
	p := fs.abs(name)
	if fs.files[p] == nil {
		return pathErr("remove", name, syscall.ENOENT)
	}
	delete(fs.files, p)
	fs.journal("remove", p, 0, nil, 0)
	return nil
}

func (fs *FS) Rename(a, b string) error {
	fs.syscall(29)
	pa, pb := fs.abs(a), fs.abs(b)
	n := fs.files[pa]
	if n == nil {
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOENT}
	}
	delete(fs.files, pa)
	n.Path = pb
	fs.files[pb] = n
	fs.journal("remove", pa, 0, nil, 0)
	fs.journal("trunc", pb, 0, nil, 0)
	fs.journal("write", pb, 0, n.Data, 0)
	return nil
}

func (fs *FS) Mkdir(name string) {
	p := fs.abs(name)
	if fs.files[p] == nil {
		fs.files[p] = &Inode{Path: p, Dir: true}
	}
}

// ReadFile is the whole-file read, subject to open and read faults.
func (fs *FS) ReadFile(name string) ([]byte, error) {
	h, err := fs.Open(name, os.O_RDONLY, 0)
	if err != nil {
		return nil, err
	}
	defer h.Close()
	return readAll(h)
}

func readAll(r io.Reader) ([]byte, error) {
	var out []byte
	buf := make([]byte, 512)
	for {
		n, err := r.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
}

// ConsoleWrite appends to stdout/stderr as one system call.
func ConsoleWrite(fd int, text string) (int, error) {
	s := S
	if s == nil {
		return len(text), nil
	}
	if s.dead {
		goexit()
	}
	s.FS.syscall(30)
	p := "/dev/stdout"
	if fd == 2 {
		p = "/dev/stderr"
	}
	if f := s.FS.fault("write", p); f != nil && f.Kind == "err" {
		return 0, pathErr("write", p, syscall.EIO)
	}
	s.FS.Console = append(s.FS.Console, ConsoleEvent{Seq: Seq(), Task: s.cur.ID, FD: fd, Text: text})
	return len(text), nil
}

// ReadLineSim is the simulated interactive line editor.
func ReadLineSim(prompt *string) *string {
	s := S
	if s == nil {
		return nil
	}
	if s.dead {
		goexit()
	}
	s.FS.syscall(31)
	pr := ""
	if prompt != nil {
		pr = *prompt
	}
	fs := s.FS
	if fs.nextLine >= len(fs.Lines) {
		fs.Prompts = append(fs.Prompts, PromptRec{Seq: Seq(), Prompt: pr, EOF: true})
		return nil
	}
	l := fs.Lines[fs.nextLine]
	i := fs.nextLine
	fs.nextLine++
	fs.Prompts = append(fs.Prompts, PromptRec{Seq: Seq(), Prompt: pr, Line: l})
	if i < len(fs.LineDelay) && fs.LineDelay[i] > 0 {
		SleepNS(fs.LineDelay[i])
	}
	return &l
}

// StartExec records a command start.
func StartExec(args []string, kind string) (*ExecRec, error) {
	s := S
	if s == nil {
		return nil, fmt.Errorf("exec outside simulation")
	}
	if s.dead {
		goexit()
	}
	s.FS.syscall(32)
	r := &ExecRec{Seq: Seq(), Task: s.cur.ID, Args: append([]string{}, args...), Kind: kind}
	s.FS.Execs = append(s.FS.Execs, r)
	name := ""
	if len(args) > 0 {
		name = args[0]
	}
	if f := s.FS.fault("exec", name); f != nil && f.Kind == "err" {
		r.Err = "exec: \"" + name + "\": executable file not found in $PATH"
		return r, &os.PathError{Op: "fork/exec", Path: name, Err: syscall.ENOENT}
	}
	dur := int64(s.derived(33)%50+1) * 1000000
	s.addTimer(s.now+dur, func() {
		r.Done = true
		for _, t := range r.done {
			s.ready(t)
		}
	})
	return r, nil
}

// WaitExec blocks until the simulated child has ended, and reaps it.
func WaitExec(r *ExecRec) {
	s := S
	if s == nil {
		return
	}
	if s.dead {
		goexit()
	}
	SP(33)
	for !r.Done {
		r.done = append(r.done, s.cur)
		s.block("waiting for child process")
	}
	r.Waited = true
}

// RandSource is the seam for math/rand.
func RandU64() uint64 {
	if S == nil {
		return 4
	}
	return S.randSrc.Uint64()
}

// SinkFault is the planned fault of the next write to a sink of the host.
func SinkFault(name string) *IOFault {
	if S == nil {
		return nil
	}
	return S.FS.fault("sink", name)
}
