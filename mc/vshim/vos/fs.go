// Package vos replaces package os with an in-memory file system that records
// every operation, checks nothing itself, and can make operations fail.
package vos

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vtime"
)

// Op is one recorded mutating operation.
type Op struct {
	Kind string // create, open, trunc, write, close, mkdir, remove, rename, chmod
	Path string
	Off  int64
	Data []byte
	Mode fs.FileMode
	Flag int
	Ino  *Inode
	Evt  int // position in the observable event order
	At   time.Duration
}

type Inode struct {
	Name  string
	Dir   bool
	Mode  fs.FileMode
	Data  []byte
	Opens int // open handles
	Dev   bool
}

type FS struct {
	Nodes  map[string]*Inode
	Ops    []Op
	Fail   func(kind, path string) error // fault injection
	OpenCt int
	Seq    *int
}

type key struct{}

// Disk is the file system of the running execution.
func Disk() *FS {
	return vsched.Obj(key{}, func() any {
		f := &FS{Nodes: map[string]*Inode{}}
		f.Nodes["/"] = &Inode{Name: "/", Dir: true, Mode: 0755}
		f.Nodes["/dev"] = &Inode{Name: "/dev", Dir: true, Mode: 0755}
		f.Nodes["/dev/null"] = &Inode{Name: "/dev/null", Dev: true, Mode: 0666}
		return f
	}).(*FS)
}

// AddDir and AddFile set up the initial contents.
func (d *FS) AddDir(p string) {
	p = path.Clean(p)
	if p != "/" {
		d.AddDir(path.Dir(p))
	}
	if d.Nodes[p] == nil {
		d.Nodes[p] = &Inode{Name: p, Dir: true, Mode: 0755}
	}
}
func (d *FS) AddFile(p string, data []byte) {
	d.AddDir(path.Dir(p))
	d.Nodes[path.Clean(p)] = &Inode{Name: path.Clean(p), Data: data, Mode: 0644}
}

// Paths lists everything below root.
func (d *FS) Paths() []string {
	var s []string
	for p := range d.Nodes {
		s = append(s, p)
	}
	sort.Strings(s)
	return s
}

func (d *FS) rec(o Op) {
	o.Evt = vsched.NextSeq()
	o.At = vsched.Now()
	d.Ops = append(d.Ops, o)
}

func perr(op, p string, e error) error { return &fs.PathError{Op: op, Path: p, Err: e} }

func abs(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = "/cwd/" + p
	}
	return path.Clean(p)
}

// walk checks that every parent is a directory.
func (d *FS) walk(op, name string) (string, error) {
	if strings.IndexByte(name, 0) >= 0 {
		return "", perr(op, name, syscall.EINVAL)
	}
	if name == "" {
		return "", perr(op, name, syscall.ENOENT)
	}
	full := name
	if !strings.HasPrefix(full, "/") {
		full = "/cwd/" + full
	}
	trail := strings.HasSuffix(full, "/")
	cur := "/"
	segs := strings.Split(full, "/")
	last := len(segs) - 1
	for last > 0 && segs[last] == "" {
		last--
	}
	for i, s := range segs {
		if i > last {
			break
		}
		if len(s) > 255 {
			return "", perr(op, name, syscall.ENAMETOOLONG)
		}
		if s == "" || s == "." {
			continue
		}
		n := d.Nodes[cur]
		if n == nil {
			return "", perr(op, name, syscall.ENOENT)
		}
		if !n.Dir {
			return "", perr(op, name, syscall.ENOTDIR)
		}
		cur = path.Join(cur, s)
	}
	if len(full) > 4095 {
		return "", perr(op, name, syscall.ENAMETOOLONG)
	}
	if trail && op != "mkdir" && op != "unlinkat" {
		if n := d.Nodes[cur]; n != nil && !n.Dir {
			return "", perr(op, name, syscall.ENOTDIR)
		}
	}
	return cur, nil
}

func (d *FS) inject(kind, p string) error {
	if d.Fail != nil {
		return d.Fail(kind, p)
	}
	return nil
}

type info struct {
	n    *Inode
	name string
	size int64
}

func (i info) Name() string { return i.name }
func (i info) Size() int64  { return i.size }
func (i info) Mode() fs.FileMode {
	if i.n.Dir {
		return i.n.Mode | fs.ModeDir
	}
	if i.n.Dev {
		return i.n.Mode | fs.ModeDevice | fs.ModeCharDevice
	}
	return i.n.Mode
}
func (i info) ModTime() time.Time { return vtime.Base() }
func (i info) IsDir() bool        { return i.n.Dir }
func (i info) Sys() any           { return nil }

func Stat(name string) (os.FileInfo, error) {
	vsched.Point("stat")
	d := Disk()
	if e := d.inject("stat", name); e != nil {
		return nil, perr("stat", name, e)
	}
	p, err := d.walk("stat", name)
	if err != nil {
		return nil, err
	}
	n := d.Nodes[p]
	if n == nil {
		return nil, perr("stat", name, syscall.ENOENT)
	}
	return info{n, path.Base(p), int64(len(n.Data))}, nil
}

func Lstat(name string) (os.FileInfo, error) { return Stat(name) }

func Mkdir(name string, perm os.FileMode) error {
	vsched.Point("mkdir")
	d := Disk()
	if e := d.inject("mkdir", name); e != nil {
		return perr("mkdir", name, e)
	}
	p, err := d.walk("mkdir", name)
	if err != nil {
		return err
	}
	if d.Nodes[p] != nil {
		return perr("mkdir", name, syscall.EEXIST)
	}
	d.Nodes[p] = &Inode{Name: p, Dir: true, Mode: perm}
	d.rec(Op{Kind: "mkdir", Path: p, Mode: perm})
	return nil
}

func MkdirAll(name string, perm os.FileMode) error {
	vsched.Point("mkdirall")
	d := Disk()
	if e := d.inject("mkdir", name); e != nil {
		return perr("mkdir", name, e)
	}
	return d.mkdirAll(name, perm)
}

// mkdirAll goes through a path as os.MkdirAll does.
func (d *FS) mkdirAll(name string, perm os.FileMode) error {
	if p, err := d.walk("stat", name); err == nil && d.Nodes[p] != nil {
		if d.Nodes[p].Dir {
			return nil
		}
		return perr("mkdir", name, syscall.ENOTDIR)
	}
	i := len(name)
	for i > 0 && name[i-1] == '/' {
		i--
	}
	for i > 0 && name[i-1] != '/' {
		i--
	}
	for i > 0 && name[i-1] == '/' {
		i--
	}
	if parent := name[:i]; parent != "" {
		if err := d.mkdirAll(parent, perm); err != nil {
			return err
		}
	}
	p, err := d.walk("mkdir", name)
	if err != nil {
		return err
	}
	if n := d.Nodes[p]; n != nil {
		if n.Dir {
			return nil
		}
		return perr("mkdir", name, syscall.EEXIST)
	}
	d.Nodes[p] = &Inode{Name: p, Dir: true, Mode: perm}
	d.rec(Op{Kind: "mkdir", Path: p, Mode: perm})
	return nil
}

// Short makes a write stop after that many bytes for want of space.
type Short int

func (Short) Error() string { return "short write" }

// File replaces os.File.
type File struct {
	name   string
	n      *Inode
	pos    int64
	flag   int
	closed bool
	d      *FS
	std    bool
}

// The standard streams: what is written to them is kept by the execution.
var (
	Stdin  = &File{name: "/dev/stdin", n: &Inode{Name: "/dev/stdin", Dev: true}}
	Stdout = &File{name: "/dev/stdout", n: &Inode{Name: "/dev/stdout", Dev: true}, std: true}
	Stderr = &File{name: "/dev/stderr", n: &Inode{Name: "/dev/stderr", Dev: true}, std: true}
)

type outKey struct{ f *File }

// Output is what has been written to a standard stream.
func Output(f *File) *bytes.Buffer {
	return vsched.Obj(outKey{f}, func() any { return &bytes.Buffer{} }).(*bytes.Buffer)
}

func OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	vsched.Point("open")
	d := Disk()
	kind := "open"
	if e := d.inject(kind, name); e != nil {
		return nil, perr("open", name, e)
	}
	if flag&os.O_CREATE != 0 && strings.HasSuffix(name, "/") {
		if _, err := d.walk("mkdir", name); err != nil {
			return nil, perr("open", name, errors.Unwrap(err))
		}
		return nil, perr("open", name, syscall.EISDIR)
	}
	p, err := d.walk("open", name)
	if err != nil {
		return nil, err
	}
	n := d.Nodes[p]
	wr := flag&(os.O_WRONLY|os.O_RDWR) != 0
	if n == nil {
		if flag&os.O_CREATE == 0 {
			return nil, perr("open", name, syscall.ENOENT)
		}
		par := d.Nodes[path.Dir(p)]
		if par == nil {
			return nil, perr("open", name, syscall.ENOENT)
		}
		if !par.Dir {
			return nil, perr("open", name, syscall.ENOTDIR)
		}
		n = &Inode{Name: p, Mode: perm}
		d.Nodes[p] = n
		d.rec(Op{Kind: "create", Path: p, Mode: perm, Flag: flag, Ino: n})
	} else {
		if flag&os.O_CREATE != 0 && flag&os.O_EXCL != 0 {
			return nil, perr("open", name, syscall.EEXIST)
		}
		if n.Dir && wr {
			return nil, perr("open", name, syscall.EISDIR)
		}
		if wr {
			d.rec(Op{Kind: "open", Path: p, Mode: n.Mode, Flag: flag, Ino: n})
		}
		if flag&os.O_TRUNC != 0 && wr && !n.Dev {
			d.rec(Op{Kind: "trunc", Path: p, Off: int64(len(n.Data)), Ino: n})
			n.Data = nil
		}
	}
	n.Opens++
	d.OpenCt++
	return &File{name: name, n: n, flag: flag, d: d}, nil
}

func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0666)
}
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if f.n.Dir {
		return nil, perr("read", name, syscall.EISDIR)
	}
	return append([]byte(nil), f.n.Data...), nil
}
func WriteFile(name string, data []byte, perm os.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if e := f.Close(); err == nil {
		err = e
	}
	return err
}

func Remove(name string) error {
	vsched.Point("remove")
	d := Disk()
	if e := d.inject("remove", name); e != nil {
		return perr("remove", name, e)
	}
	p, err := d.walk("remove", name)
	if err != nil {
		return err
	}
	n := d.Nodes[p]
	if n == nil {
		return perr("remove", name, syscall.ENOENT)
	}
	if n.Dir {
		for q := range d.Nodes {
			if q != p && strings.HasPrefix(q, p+"/") {
				return perr("remove", name, syscall.ENOTEMPTY)
			}
		}
	}
	delete(d.Nodes, p)
	d.rec(Op{Kind: "remove", Path: p, Ino: n})
	return nil
}

func RemoveAll(name string) error {
	d := Disk()
	if name == "" {
		return nil
	}
	p, err := d.walk("unlinkat", name)
	if errors.Is(err, syscall.ENOENT) {
		return nil
	}
	if err != nil {
		return err
	}
	for _, q := range d.Paths() {
		if q == p || strings.HasPrefix(q, p+"/") {
			d.rec(Op{Kind: "remove", Path: q, Ino: d.Nodes[q]})
			delete(d.Nodes, q)
		}
	}
	return nil
}

func Rename(a, b string) error {
	vsched.Point("rename")
	d := Disk()
	if e := d.inject("rename", a); e != nil {
		return perr("rename", a, e)
	}
	pa, err := d.walk("rename", a)
	if err != nil {
		return err
	}
	pb, err := d.walk("rename", b)
	if err != nil {
		return err
	}
	n := d.Nodes[pa]
	if n == nil {
		return perr("rename", a, syscall.ENOENT)
	}
	if d.Nodes[path.Dir(pb)] == nil {
		return perr("rename", b, syscall.ENOENT)
	}
	o := d.Nodes[pb]
	if o != nil && o.Dir {
		// os.Rename refuses it first
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.EEXIST}
	}
	switch {
	case n.Dir && o != nil:
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.ENOTDIR}
	case n.Dir && strings.HasPrefix(pb+"/", pa+"/"):
		return &os.LinkError{Op: "rename", Old: a, New: b, Err: syscall.EINVAL}
	case o == n:
		return nil // names of one file
	}
	if n.Dir {
		for _, q := range d.Paths() {
			if strings.HasPrefix(q, pa+"/") {
				m := d.Nodes[q]
				delete(d.Nodes, q)
				m.Name = pb + q[len(pa):]
				d.Nodes[m.Name] = m
			}
		}
	}
	d.rec(Op{Kind: "rename", Path: pa, Data: []byte(pb), Ino: n})
	delete(d.Nodes, pa)
	if o != nil {
		d.rec(Op{Kind: "trunc", Path: pb, Off: int64(len(o.Data)), Ino: o})
	}
	d.Nodes[pb] = n
	n.Name = pb
	return nil
}

// Link makes b another name of the file a.
func Link(a, b string) error {
	vsched.Point("link")
	d := Disk()
	if e := d.inject("link", b); e != nil {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: e}
	}
	pa, err := d.walk("link", a)
	if err != nil {
		return err
	}
	if d.Nodes[pa] == nil {
		return &os.LinkError{Op: "link", Old: a, New: b, Err: syscall.ENOENT}
	}
	pb, err := d.walk("link", b)
	if err != nil {
		return err
	}
	n := d.Nodes[pa]
	switch {
	case n == nil || d.Nodes[path.Dir(pb)] == nil:
		return &os.LinkError{Op: "link", Old: a, New: b, Err: syscall.ENOENT}
	case d.Nodes[pb] != nil:
		return &os.LinkError{Op: "link", Old: a, New: b, Err: syscall.EEXIST}
	case n.Dir:
		return &os.LinkError{Op: "link", Old: a, New: b, Err: syscall.EPERM}
	}
	d.rec(Op{Kind: "link", Path: pa, Data: []byte(pb), Ino: n})
	d.Nodes[pb] = n
	return nil
}

func temp(dir, pattern string, mk func(p string) error) error {
	if dir == "" {
		dir = "/tmp"
	}
	pre, suf := pattern, ""
	if i := strings.LastIndexByte(pattern, '*'); i >= 0 {
		pre, suf = pattern[:i], pattern[i+1:]
	}
	for i := 1; ; i++ {
		err := mk(path.Join(dir, fmt.Sprintf("%s%09d%s", pre, i, suf)))
		if !os.IsExist(err) {
			return err
		}
	}
}

func CreateTemp(dir, pattern string) (f *File, err error) {
	err = temp(dir, pattern, func(p string) (e error) {
		f, e = OpenFile(p, os.O_RDWR|os.O_CREATE|os.O_EXCL, 0600)
		return e
	})
	return
}

func MkdirTemp(dir, pattern string) (name string, err error) {
	err = temp(dir, pattern, func(p string) error { name = p; return Mkdir(p, 0700) })
	return
}

func Chmod(name string, mode os.FileMode) error {
	d := Disk()
	p, err := d.walk("chmod", name)
	if err != nil {
		return err
	}
	n := d.Nodes[p]
	if n == nil {
		return perr("chmod", name, syscall.ENOENT)
	}
	n.Mode = mode
	d.rec(Op{Kind: "chmod", Path: p, Mode: mode, Ino: n})
	return nil
}

func Truncate(name string, size int64) error {
	f, err := OpenFile(name, os.O_WRONLY, 0)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(size)
}

func ReadDir(name string) ([]os.DirEntry, error) {
	d := Disk()
	p, err := d.walk("open", name)
	if err != nil {
		return nil, err
	}
	switch n := d.Nodes[p]; {
	case n == nil:
		return nil, perr("open", name, syscall.ENOENT)
	case !n.Dir:
		return nil, perr("readdirent", name, syscall.ENOTDIR)
	}
	var out []os.DirEntry
	for _, q := range d.Paths() {
		if q != p && path.Dir(q) == p {
			out = append(out, fs.FileInfoToDirEntry(info{d.Nodes[q], path.Base(q), int64(len(d.Nodes[q].Data))}))
		}
	}
	return out, nil
}

func (f *File) Name() string { return f.name }
func (f *File) Stat() (os.FileInfo, error) {
	if err := f.chk("stat"); err != nil {
		return nil, err
	}
	return info{f.n, path.Base(f.n.Name), int64(len(f.n.Data))}, nil
}
func (f *File) Fd() uintptr { return 3 }
func (f *File) Sync() error { return f.chk("sync") }
func (f *File) Chmod(m os.FileMode) error {
	if err := f.chk("chmod"); err != nil {
		return err
	}
	f.n.Mode = m
	f.d.rec(Op{Kind: "chmod", Path: f.n.Name, Mode: m, Ino: f.n})
	return nil
}
func (f *File) chk(op string) error {
	if f.closed {
		return perr(op, f.name, os.ErrClosed)
	}
	return nil
}
func (f *File) Write(b []byte) (int, error) {
	if f.std {
		if vsched.Dead() {
			return len(b), nil
		}
		return Output(f).Write(b)
	}
	if e := f.chk("write"); e != nil {
		return 0, e
	}
	if e := f.d.inject("write", f.n.Name); e != nil {
		n := 0
		if sh, ok := e.(Short); ok && int(sh) < len(b) {
			n = int(sh)
			f.writeAt(b[:n], f.pos)
			f.pos += int64(n)
			e = syscall.ENOSPC
		}
		return n, perr("write", f.name, e)
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	if f.flag&os.O_APPEND != 0 {
		f.pos = int64(len(f.n.Data))
	}
	f.writeAt(b, f.pos)
	f.pos += int64(len(b))
	return len(b), nil
}
func (f *File) writeAt(b []byte, off int64) {
	f.d.rec(Op{Kind: "write", Path: f.n.Name, Off: off, Data: append([]byte(nil), b...), Ino: f.n})
	if f.n.Dev {
		return
	}
	if need := off + int64(len(b)); need > int64(len(f.n.Data)) {
		f.n.Data = append(f.n.Data, make([]byte, need-int64(len(f.n.Data)))...)
	}
	copy(f.n.Data[off:], b)
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) WriteAt(b []byte, off int64) (int, error) {
	if f.flag&os.O_APPEND != 0 {
		return 0, errors.New("os: invalid use of WriteAt on file opened with O_APPEND")
	}
	if e := f.chk("write"); e != nil {
		return 0, e
	}
	if e := f.d.inject("write", f.n.Name); e != nil {
		return 0, perr("write", f.name, e)
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return 0, perr("write", f.name, syscall.EBADF)
	}
	f.writeAt(b, off)
	return len(b), nil
}
func (f *File) Read(b []byte) (int, error) {
	if e := f.chk("read"); e != nil {
		return 0, e
	}
	if f.n.Dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if f.flag&os.O_WRONLY != 0 {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if f.pos >= int64(len(f.n.Data)) {
		if len(b) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(b, f.n.Data[f.pos:])
	f.pos += int64(n)
	return n, nil
}
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if e := f.chk("read"); e != nil {
		return 0, e
	}
	if f.n.Dir {
		return 0, perr("read", f.name, syscall.EISDIR)
	}
	if f.flag&os.O_WRONLY != 0 {
		return 0, perr("read", f.name, syscall.EBADF)
	}
	if off >= int64(len(f.n.Data)) {
		return 0, io.EOF
	}
	n := copy(b, f.n.Data[off:])
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}
func (f *File) Seek(off int64, whence int) (int64, error) {
	if e := f.chk("seek"); e != nil {
		return 0, e
	}
	switch whence {
	case io.SeekStart:
		f.pos = off
	case io.SeekCurrent:
		f.pos += off
	case io.SeekEnd:
		f.pos = int64(len(f.n.Data)) + off
	default:
		return 0, errors.New("bad whence")
	}
	return f.pos, nil
}
func (f *File) Truncate(size int64) error {
	if e := f.chk("truncate"); e != nil {
		return e
	}
	if f.flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		return perr("truncate", f.name, syscall.EINVAL)
	}
	f.d.rec(Op{Kind: "trunc", Path: f.n.Name, Off: int64(len(f.n.Data)), Ino: f.n})
	for int64(len(f.n.Data)) < size {
		f.n.Data = append(f.n.Data, 0)
	}
	f.n.Data = f.n.Data[:size]
	return nil
}
func (f *File) Close() error {
	if e := f.chk("close"); e != nil {
		return e
	}
	f.closed = true
	f.n.Opens--
	f.d.OpenCt--
	if f.flag&(os.O_WRONLY|os.O_RDWR) != 0 {
		f.d.rec(Op{Kind: "close", Path: f.n.Name, Ino: f.n})
		if e := f.d.inject("close", f.n.Name); e != nil {
			return perr("close", f.name, e)
		}
	}
	return nil
}

func Exit(code int) { vsched.Exit(code) }
