// Package simos stands in for package os in simulated processes: a file system
// in memory, standard streams, arguments and exit status, with faults decided
// by the simulator at every operation.
package simos

import (
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif.local/simkit/simrt"
)

// ExitPanic ends a simulated process.
type ExitPanic struct{ Code int }

// FaultRec is a fault that was injected.
type FaultRec struct {
	Kind string
	Path string
	Step int
	Felt bool // the program saw the error
}

// Proc is a simulated process and its file system.
type Proc struct {
	Files    map[string]*Node
	Out, Err []byte
	Faults   []FaultRec
	Rate     int             // probability of a fault per operation, in 1/256
	Kinds    map[string]bool // kinds that may fire; nil for all
	MaxFault int
	Ops      int
	Log      []string // operations, for the trace
	Exited   bool
	full     bool
	outDead  bool
	tmp      int
}

// Node is a file or directory.
type Node struct {
	Data []byte
	Mode fs.FileMode
	Dir  bool
}

// P is the running simulated process.
var P *Proc

// Args is os.Args.
var Args []string

var (
	Stdin  = &File{name: "/dev/stdin", std: 1}
	Stdout = &File{name: "/dev/stdout", std: 2}
	Stderr = &File{name: "/dev/stderr", std: 3}
)

var errBytes uint64

//go:norace
func countErr(n int) { errBytes += uint64(n) }

// Boot starts a simulated process.
func Boot(p *Proc, args []string) {
	if p.Files == nil {
		p.Files = map[string]*Node{}
	}
	P = p
	Args = args
	os.Args = args
}

// Halt ends it.
func Halt() { P = nil }

func clean(name string) string { return filepath.Clean(name) }

func (p *Proc) log(format string, a ...interface{}) {
	if len(p.Log) < 400 {
		p.Log = append(p.Log, fmt.Sprintf(format, a...))
	}
}

// fault asks for a fault of this kind; n variants.
func (p *Proc) fault(kind, path string, n int) int {
	p.Ops++
	simrt.YS()
	simrt.NoteStr(kind + path)
	if p.Exited {
		return 0
	}
	if p.Kinds != nil && !p.Kinds[kind] {
		return 0
	}
	if p.MaxFault > 0 && len(p.Faults) >= p.MaxFault {
		return 0
	}
	v := simrt.Fault(n, p.Rate)
	if v != 0 {
		p.Faults = append(p.Faults, FaultRec{kind, path, p.Ops, true})
		p.log("FAULT %s %s", kind, path)
		CountFault(kind)
	}
	return v
}

// FaultCounts counts injected faults by kind since process start.
var FaultCounts = map[string]uint64{}

// CountFault counts an injected fault.
func CountFault(kind string) { FaultCounts[kind]++ }

func perr(op, path string, err error) error { return &os.PathError{Op: op, Path: path, Err: err} }

func dead() error { return perr("op", "", syscall.ESRCH) }

// File is a simulated os.File.
type File struct {
	name   string
	node   *Node
	off    int
	flag   int
	closed bool
	std    int
	broken bool
}

// Open opens for reading.
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

// Create creates or truncates.
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}

// OpenFile opens a file.
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	p := P
	if p == nil || p.Exited {
		return nil, perr("open", name, syscall.ENOENT)
	}
	if name == "" {
		return nil, perr("open", name, syscall.ENOENT)
	}
	path := clean(name)
	write := flag&(os.O_WRONLY|os.O_RDWR) != 0
	if write {
		if v := p.fault("open-write", path, 3); v != 0 {
			return nil, perr("open", name, []error{syscall.EACCES, syscall.EROFS, syscall.EMFILE}[v-1])
		}
	} else {
		if v := p.fault("open-read", path, 3); v != 0 {
			return nil, perr("open", name, []error{syscall.EACCES, syscall.EIO, syscall.EMFILE}[v-1])
		}
	}
	n := p.Files[path]
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if d := filepath.Dir(path); d != "." && d != "/" && (p.Files[d] == nil || !p.Files[d].Dir) {
			return nil, perr("open", name, syscall.ENOENT)
		}
		n = &Node{Mode: perm}
		p.Files[path] = n
	} else if flag&(os.O_CREATE|os.O_EXCL) == os.O_CREATE|os.O_EXCL {
		return nil, perr("open", name, syscall.EEXIST)
	}
	if n.Dir && write {
		return nil, perr("open", name, syscall.EISDIR)
	}
	if write && n.Mode&0200 == 0 && n.Mode != 0 {
		return nil, perr("open", name, syscall.EACCES)
	}
	if flag&os.O_TRUNC != 0 && write {
		n.Data = nil
		p.log("truncate %s", path)
	}
	p.log("open %s write=%t", path, write)
	return &File{name: name, node: n, flag: flag}, nil
}

// Name is the name given to Open.
func (f *File) Name() string { return f.name }

// Fd is a made-up descriptor.
func (f *File) Fd() uintptr { return uintptr(f.std + 100) }

func (f *File) writable() bool { return f.flag&(os.O_WRONLY|os.O_RDWR) != 0 }

// Read reads.
func (f *File) Read(b []byte) (int, error) {
	p := P
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.std == 1 || p == nil || p.Exited {
		return 0, io.EOF
	}
	if f.closed {
		return 0, perr("read", f.name, os.ErrClosed)
	}
	if f.flag&os.O_WRONLY != 0 {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if f.node.Dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if f.broken {
		for i := range p.Faults {
			if p.Faults[i].Kind == "read" && p.Faults[i].Path == f.name {
				p.Faults[i].Felt = true
			}
		}
		return 0, perr("read", f.name, syscall.EIO)
	}
	if len(b) == 0 {
		return 0, nil
	}
	rest := len(f.node.Data) - f.off
	if rest <= 0 {
		return 0, io.EOF
	}
	if v := p.fault("read", f.name, 2); v != 0 {
		f.broken = true
		n := 0
		if v == 2 && rest > 1 { // some bytes, then the error
			n = 1 + simrt.FaultIntn(rest-1)
			if n > len(b) {
				n = len(b)
			}
			copy(b, f.node.Data[f.off:f.off+n])
			f.off += n
			p.Faults[len(p.Faults)-1].Felt = false // not yet
			return n, nil
		}
		return 0, perr("read", f.name, syscall.EIO)
	}
	n := rest
	if n > len(b) {
		n = len(b)
	}
	if p.Rate > 0 && n > 1 && simrt.FaultIntn(4) == 1 { // legal short read
		n = 1 + simrt.FaultIntn(n)
		if n > rest {
			n = rest
		}
	}
	copy(b, f.node.Data[f.off:f.off+n])
	f.off += n
	return n, nil
}

// ReadAt reads at an offset.
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	save := f.off
	defer func() { f.off = save }()
	f.off = int(off)
	t := 0
	for t < len(b) {
		n, err := f.Read(b[t:])
		t += n
		if err != nil {
			return t, err
		}
	}
	return t, nil
}

// Write writes.
func (f *File) Write(b []byte) (int, error) {
	p := P
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.std == 3 {
		if p == nil {
			countErr(len(b))
			return len(b), nil
		}
		if len(p.Err) < 1<<20 {
			p.Err = append(p.Err, b...)
		}
		return len(b), nil
	}
	if p == nil {
		return len(b), nil
	}
	if p.Exited {
		return 0, dead()
	}
	if f.closed {
		return 0, perr("write", f.name, os.ErrClosed)
	}
	if f.std == 2 {
		if p.outDead {
			return 0, perr("write", f.name, syscall.EPIPE)
		}
		if v := p.fault("stdout", f.name, 2); v != 0 {
			p.outDead = true
			n := 0
			if v == 2 && len(b) > 0 {
				n = simrt.FaultIntn(len(b))
			}
			p.Out = append(p.Out, b[:n]...)
			return n, perr("write", f.name, syscall.EPIPE)
		}
		p.Out = append(p.Out, b...)
		return len(b), nil
	}
	if !f.writable() {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	if p.full {
		return 0, perr("write", f.name, syscall.ENOSPC)
	}
	if len(b) == 0 {
		return 0, nil
	}
	if v := p.fault("write", f.name, 3); v != 0 {
		n := 0
		err := error(syscall.EIO)
		if v >= 2 { // torn write
			n = simrt.FaultIntn(len(b))
		}
		if v == 3 { // the disk stays full
			p.full = true
			err = syscall.ENOSPC
		}
		f.put(b[:n])
		return n, perr("write", f.name, err)
	}
	f.put(b)
	p.log("write %s %d bytes", f.name, len(b))
	return len(b), nil
}

func (f *File) put(b []byte) {
	if f.flag&os.O_APPEND != 0 {
		f.off = len(f.node.Data)
	}
	for len(f.node.Data) < f.off {
		f.node.Data = append(f.node.Data, 0)
	}
	d := append([]byte(nil), f.node.Data[:f.off]...)
	d = append(d, b...)
	if f.off+len(b) < len(f.node.Data) {
		d = append(d, f.node.Data[f.off+len(b):]...)
	}
	f.node.Data = d
	f.off += len(b)
}

// WriteString writes a string.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// WriteAt writes at an offset.
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	save := f.off
	f.off = int(off)
	n, err := f.Write(b)
	f.off = save
	return n, err
}

// Seek seeks.
func (f *File) Seek(offset int64, whence int) (int64, error) {
	if f.node == nil {
		return 0, perr("seek", f.name, syscall.ESPIPE)
	}
	switch whence {
	case io.SeekStart:
		f.off = int(offset)
	case io.SeekCurrent:
		f.off += int(offset)
	case io.SeekEnd:
		f.off = len(f.node.Data) + int(offset)
	}
	return int64(f.off), nil
}

// Sync flushes.
func (f *File) Sync() error {
	p := P
	if p == nil || p.Exited || f.node == nil {
		return nil
	}
	if f.closed {
		return perr("sync", f.name, os.ErrClosed)
	}
	if p.fault("sync", f.name, 1) != 0 {
		return perr("sync", f.name, syscall.EIO)
	}
	return nil
}

// Close closes. A failing close of a written file loses the tail of the data,
// as delayed writes over a quota or on a network file system do.
func (f *File) Close() error {
	p := P
	if f == nil {
		return os.ErrInvalid
	}
	if f.std != 0 || p == nil || p.Exited {
		return nil
	}
	if f.closed {
		return perr("close", f.name, os.ErrClosed)
	}
	f.closed = true
	if f.writable() {
		if p.fault("close", f.name, 1) != 0 {
			if n := len(f.node.Data); n > 0 {
				f.node.Data = f.node.Data[:simrt.FaultIntn(n)]
			}
			return perr("close", f.name, syscall.EIO)
		}
		p.log("close %s", f.name)
	}
	return nil
}

// Chmod changes the mode.
func (f *File) Chmod(m fs.FileMode) error {
	if f.node != nil {
		f.node.Mode = m
	}
	return nil
}

// Truncate truncates.
func (f *File) Truncate(n int64) error {
	if f.node == nil || !f.writable() {
		return perr("truncate", f.name, syscall.EINVAL)
	}
	trunc(f.node, int(n))
	return nil
}

func trunc(n *Node, l int) {
	for len(n.Data) < l {
		n.Data = append(n.Data, 0)
	}
	n.Data = append([]byte(nil), n.Data[:l]...)
}

type info struct {
	name string
	n    *Node
}

func (i info) Name() string       { return filepath.Base(i.name) }
func (i info) Size() int64        { return int64(len(i.n.Data)) }
func (i info) ModTime() time.Time { return time.Unix(1500000000, 0) }
func (i info) IsDir() bool        { return i.n.Dir }
func (i info) Sys() interface{}   { return nil }
func (i info) Mode() fs.FileMode {
	m := i.n.Mode
	if m == 0 {
		m = 0644
	}
	if i.n.Dir {
		m |= fs.ModeDir
	}
	return m
}
func (i info) Type() fs.FileMode          { return i.Mode().Type() }
func (i info) Info() (fs.FileInfo, error) { return i, nil }

// Stat describes the file.
func (f *File) Stat() (os.FileInfo, error) {
	if f.node == nil {
		return info{f.name, &Node{Mode: 0600 | fs.ModeCharDevice}}, nil
	}
	return info{f.name, f.node}, nil
}

// Readdirnames lists a directory.
func (f *File) Readdirnames(n int) ([]string, error) {
	l, err := ReadDir(f.name)
	var out []string
	for _, e := range l {
		out = append(out, e.Name())
	}
	return out, err
}

// ReadDir lists a directory.
func (f *File) ReadDir(n int) ([]os.DirEntry, error) { return ReadDir(f.name) }

// Stat describes a file.
func Stat(name string) (os.FileInfo, error) {
	p := P
	if p == nil || p.Exited {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	if p.fault("stat", name, 1) != 0 {
		return nil, perr("stat", name, syscall.EACCES)
	}
	n := p.Files[clean(name)]
	if n == nil {
		if clean(name) == "." || clean(name) == "/" {
			return info{name, &Node{Dir: true, Mode: 0755}}, nil
		}
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return info{name, n}, nil
}

// Lstat is Stat.
func Lstat(name string) (os.FileInfo, error) { return Stat(name) }

// SameFile compares.
func SameFile(a, b os.FileInfo) bool {
	x, ok1 := a.(info)
	y, ok2 := b.(info)
	return ok1 && ok2 && x.n == y.n
}

// ReadFile reads a whole file.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	return io.ReadAll(f)
}

// WriteFile writes a whole file.
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if err1 := f.Close(); err1 != nil && err == nil {
		err = err1
	}
	return err
}

// Remove removes.
func Remove(name string) error {
	p := P
	if p == nil || p.Exited {
		return perr("remove", name, syscall.ENOENT)
	}
	if p.fault("remove", name, 1) != 0 {
		return perr("remove", name, syscall.EACCES)
	}
	if p.Files[clean(name)] == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	delete(p.Files, clean(name))
	p.log("remove %s", name)
	return nil
}

// RemoveAll removes a tree.
func RemoveAll(name string) error {
	p := P
	if p == nil || p.Exited {
		return nil
	}
	c := clean(name)
	for k := range p.Files {
		if k == c || strings.HasPrefix(k, c+"/") {
			delete(p.Files, k)
		}
	}
	return nil
}

// Rename renames.
func Rename(a, b string) error {
	p := P
	lerr := func(err error) error { return &os.LinkError{Op: "rename", Old: a, New: b, Err: err} }
	if p == nil || p.Exited {
		return lerr(syscall.ENOENT)
	}
	if v := p.fault("rename", b, 2); v != 0 {
		return lerr([]error{syscall.EXDEV, syscall.EIO}[v-1])
	}
	n := p.Files[clean(a)]
	if n == nil {
		return lerr(syscall.ENOENT)
	}
	if t := p.Files[clean(b)]; t != nil && t.Dir && !n.Dir {
		return lerr(syscall.EEXIST)
	}
	if d := filepath.Dir(clean(b)); d != "." && d != "/" && (p.Files[d] == nil || !p.Files[d].Dir) && d != TempDir() {
		return lerr(syscall.ENOENT)
	}
	delete(p.Files, clean(a))
	p.Files[clean(b)] = n
	p.log("rename %s %s", a, b)
	return nil
}

// Mkdir makes a directory.
func Mkdir(name string, perm fs.FileMode) error {
	if P == nil || P.Exited {
		return perr("mkdir", name, syscall.EACCES)
	}
	if P.Files[clean(name)] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	P.Files[clean(name)] = &Node{Dir: true, Mode: perm}
	return nil
}

// MkdirAll makes directories.
func MkdirAll(name string, perm fs.FileMode) error {
	if P == nil || P.Exited {
		return perr("mkdir", name, syscall.EACCES)
	}
	c := clean(name)
	for c != "." && c != "/" {
		if n := P.Files[c]; n != nil && !n.Dir {
			return perr("mkdir", name, syscall.ENOTDIR)
		}
		P.Files[c] = &Node{Dir: true, Mode: perm}
		c = filepath.Dir(c)
	}
	return nil
}

// TempDir is the directory for temporary files.
func TempDir() string { return "/tmp" }

func tmpName(dir, pattern string) string {
	if dir == "" {
		dir = TempDir()
	}
	pre, post := pattern, ""
	if i := strings.LastIndex(pattern, "*"); i >= 0 {
		pre, post = pattern[:i], pattern[i+1:]
	}
	for {
		P.tmp++
		n := filepath.Join(dir, fmt.Sprintf("%s%d%s", pre, P.tmp, post))
		if P.Files[clean(n)] == nil { // as the real one, which tries again
			return n
		}
	}
}

// CreateTemp creates a temporary file.
func CreateTemp(dir, pattern string) (*File, error) {
	if P == nil || P.Exited {
		return nil, perr("open", pattern, syscall.EACCES)
	}
	n := tmpName(dir, pattern)
	if d := filepath.Dir(n); d == TempDir() && P.Files[d] == nil {
		P.Files[d] = &Node{Dir: true, Mode: 0755}
	}
	return OpenFile(n, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
}

// MkdirTemp creates a temporary directory.
func MkdirTemp(dir, pattern string) (string, error) {
	if P == nil || P.Exited {
		return "", perr("mkdir", pattern, syscall.EACCES)
	}
	n := tmpName(dir, pattern)
	return n, MkdirAll(n, 0700)
}

// Chmod changes a mode.
func Chmod(name string, m fs.FileMode) error {
	if P == nil || P.Exited || P.Files[clean(name)] == nil {
		return perr("chmod", name, syscall.ENOENT)
	}
	P.Files[clean(name)].Mode = m
	return nil
}

// Truncate truncates a file.
func Truncate(name string, n int64) error {
	if P == nil || P.Exited || P.Files[clean(name)] == nil {
		return perr("truncate", name, syscall.ENOENT)
	}
	if P.fault("write", name, 1) != 0 {
		return perr("truncate", name, syscall.EIO)
	}
	trunc(P.Files[clean(name)], int(n))
	return nil
}

// ReadDir lists a directory.
func ReadDir(name string) ([]os.DirEntry, error) {
	if P == nil {
		return nil, perr("open", name, syscall.ENOENT)
	}
	c := clean(name)
	var l []string
	for k := range P.Files {
		if filepath.Dir(k) == c {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	var out []os.DirEntry
	for _, k := range l {
		out = append(out, info{k, P.Files[k]})
	}
	return out, nil
}

// Getwd is the working directory.
func Getwd() (string, error) { return "/work", nil }

// Symlink, Link and Readlink are not supported by the simulated file system.
func Symlink(a, b string) error {
	return &os.LinkError{Op: "symlink", Old: a, New: b, Err: syscall.EPERM}
}

// Link is not supported.
func Link(a, b string) error { return &os.LinkError{Op: "link", Old: a, New: b, Err: syscall.EPERM} }

// Readlink is not supported.
func Readlink(name string) (string, error) { return "", perr("readlink", name, syscall.EINVAL) }

// Exit ends the simulated process.
func Exit(code int) {
	if P != nil {
		P.Exited = true
		P.log("exit %d", code)
	}
	panic(ExitPanic{code})
}

// Print replaces fmt.Print.
func Print(a ...interface{}) (int, error) { return fmt.Fprint(Stdout, a...) }

// Printf replaces fmt.Printf.
func Printf(format string, a ...interface{}) (int, error) { return fmt.Fprintf(Stdout, format, a...) }

// Println replaces fmt.Println.
func Println(a ...interface{}) (int, error) { return fmt.Fprintln(Stdout, a...) }
