package vos

import (
	"io"
	"io/fs"
	"os"
	"path"
	"syscall"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
)

// Reading directories and files through io/fs and net/http.

func (f *File) ReadDir(n int) ([]os.DirEntry, error) {
	if e := f.chk("readdir"); e != nil {
		return nil, e
	}
	if !f.n.Dir {
		return nil, perr("readdir", f.name, syscall.ENOTDIR)
	}
	if n <= 0 {
		f.pos = 0
	}
	all, err := ReadDir(f.n.Name)
	if err != nil {
		return nil, err
	}
	if f.pos >= int64(len(all)) {
		if n > 0 {
			return nil, io.EOF
		}
		return nil, nil
	}
	all = all[f.pos:]
	if n > 0 && n < len(all) {
		all = all[:n]
	}
	f.pos += int64(len(all))
	return all, nil
}

func (f *File) Readdir(n int) ([]os.FileInfo, error) {
	es, err := f.ReadDir(n)
	var r []os.FileInfo
	for _, e := range es {
		i, _ := e.Info()
		r = append(r, i)
	}
	return r, err
}

func (f *File) Readdirnames(n int) ([]string, error) {
	es, err := f.ReadDir(n)
	var r []string
	for _, e := range es {
		r = append(r, e.Name())
	}
	return r, err
}

type dirFS string

// DirFS replaces os.DirFS.
func DirFS(dir string) fs.FS { return dirFS(dir) }

func (d dirFS) full(op, name string) (string, error) {
	if string(d) == "" || !fs.ValidPath(name) {
		return "", perr(op, name, os.ErrInvalid)
	}
	return string(d) + "/" + name, nil
}
func (d dirFS) Open(name string) (fs.File, error) {
	p, err := d.full("open", name)
	if err != nil {
		return nil, err
	}
	f, err := Open(p)
	if err != nil {
		return nil, err
	}
	return f, nil
}
func (d dirFS) Stat(name string) (fs.FileInfo, error) {
	p, err := d.full("stat", name)
	if err != nil {
		return nil, err
	}
	return Stat(p)
}
func (d dirFS) ReadFile(name string) ([]byte, error) {
	p, err := d.full("readfile", name)
	if err != nil {
		return nil, err
	}
	return ReadFile(p)
}
func (d dirFS) ReadDir(name string) ([]fs.DirEntry, error) {
	p, err := d.full("readdir", name)
	if err != nil {
		return nil, err
	}
	return ReadDir(p)
}

// Root replaces os.Root: names never lead outside of it.
type Root struct{ dir string }

func OpenRoot(dir string) (*Root, error) {
	i, err := Stat(dir)
	if err == nil && !i.IsDir() {
		err = perr("open", dir, syscall.ENOTDIR)
	}
	if err != nil {
		return nil, err
	}
	return &Root{dir}, nil
}
func (r *Root) Name() string { return r.dir }
func (r *Root) Close() error { return nil }
func (r *Root) FS() fs.FS    { return dirFS(r.dir) }
func (r *Root) full(op, name string) (string, error) {
	vsched.Point(op)
	if name == "" || name[0] == '/' || !fs.ValidPath(path.Clean(name)) {
		return "", perr(op, name, os.ErrInvalid)
	}
	return r.dir + "/" + path.Clean(name), nil
}
func (r *Root) Open(name string) (*File, error) {
	p, err := r.full("openat", name)
	if err != nil {
		return nil, err
	}
	return Open(p)
}
func (r *Root) OpenFile(name string, flag int, perm os.FileMode) (*File, error) {
	p, err := r.full("openat", name)
	if err != nil {
		return nil, err
	}
	return OpenFile(p, flag, perm)
}
func (r *Root) Stat(name string) (os.FileInfo, error) {
	p, err := r.full("statat", name)
	if err != nil {
		return nil, err
	}
	return Stat(p)
}
