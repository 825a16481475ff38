package props

import (
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"syscall"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/mc"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vos"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
)

// "conform" is no property of the service: it decides whether the stand-in for
// the disk does what the system's does, for all sequences of operations.

// handle is an open file of either.
type handle interface {
	io.ReadWriteSeeker
	io.WriterAt
	io.ReaderAt
	io.Closer
	Truncate(int64) error
	Stat() (os.FileInfo, error)
}

type disk struct {
	base string
	open func(string, int, fs.FileMode) (handle, error)
	stat func(string) (os.FileInfo, error)
	mk   func(string, fs.FileMode) error
	mka  func(string, fs.FileMode) error
	rm   func(string) error
	rma  func(string) error
	mv   func(string, string) error
	ln   func(string, string) error
	ls   func(string) ([]os.DirEntry, error)
	ch   func(string, fs.FileMode) error
	tr   func(string, int64) error
	rd   func(string) ([]byte, error)
	wr   func(string, []byte, fs.FileMode) error
	h    handle
}

func errClass(err error) string {
	if err == nil {
		return "ok"
	}
	var l []string
	for _, c := range []struct {
		n string
		e error
	}{{"exist", fs.ErrExist}, {"notexist", fs.ErrNotExist}, {"closed", fs.ErrClosed}, {"invalid", syscall.EINVAL}, {"isdir", syscall.EISDIR}, {"notdir", syscall.ENOTDIR}, {"notempty", syscall.ENOTEMPTY}, {"toolong", syscall.ENAMETOOLONG}, {"badf", syscall.EBADF}, {"eof", io.EOF}} {
		if errors.Is(err, c.e) {
			l = append(l, c.n)
		}
	}
	// a double match (ENOTEMPTY is also ErrExist) is a class of its own
	return "error " + strings.Join(l, ",")
}

func realDisk(base string) *disk {
	return &disk{base: base, open: func(p string, f int, m fs.FileMode) (handle, error) {
		h, err := os.OpenFile(p, f, m)
		if err != nil {
			return nil, err
		}
		return h, nil
	}, stat: os.Stat, mk: os.Mkdir, mka: os.MkdirAll, rm: os.Remove, rma: os.RemoveAll, mv: os.Rename, ln: os.Link, ls: os.ReadDir, ch: os.Chmod, tr: os.Truncate, rd: os.ReadFile, wr: os.WriteFile}
}

func standIn(base string) *disk {
	return &disk{base: base, open: func(p string, f int, m fs.FileMode) (handle, error) {
		h, err := vos.OpenFile(p, f, m)
		if err != nil {
			return nil, err
		}
		return h, nil
	}, stat: vos.Stat, mk: vos.Mkdir, mka: vos.MkdirAll, rm: vos.Remove, rma: vos.RemoveAll, mv: vos.Rename, ln: vos.Link, ls: vos.ReadDir, ch: vos.Chmod, tr: vos.Truncate, rd: vos.ReadFile, wr: vos.WriteFile}
}

type diskOp struct {
	name string
	f    func(d *disk) string
}

func diskOps(small bool) []diskOp {
	var r []diskOp
	add := func(name string, f func(d *disk) string) { r = append(r, diskOp{name, f}) }
	names := []string{"a", "d", "d/a", "d/../b", "a/x", "d/", "e/f/g", "n\x00l", strings.Repeat("x", 256), "", "./a", "b/", "."}
	if small {
		names = []string{"a", "d", "d/a", "a/x", "e/f"}
	}
	at := func(d *disk, n string) string {
		if n == "" {
			return ""
		}
		return d.base + "/" + n
	}
	show := func(i os.FileInfo, err error) string {
		if err != nil {
			return errClass(err)
		}
		sz := i.Size()
		if i.IsDir() {
			sz = 0
		}
		return fmt.Sprint(i.IsDir(), i.Mode(), sz)
	}
	for _, n := range names {
		n := n
		add("stat "+n, func(d *disk) string { return show(d.stat(at(d, n))) })
		add("write "+n, func(d *disk) string { return errClass(d.wr(at(d, n), []byte("xyz"), 0640)) })
		add("read "+n, func(d *disk) string { b, err := d.rd(at(d, n)); return string(b) + errClass(err) })
		for _, fl := range []int{os.O_WRONLY | os.O_CREATE | os.O_TRUNC, os.O_RDWR | os.O_CREATE | os.O_EXCL, os.O_RDWR, os.O_WRONLY | os.O_APPEND | os.O_CREATE, os.O_RDONLY} {
			fl := fl
			if small && fl == os.O_RDWR {
				continue
			}
			add(fmt.Sprintf("open %s %x", n, fl), func(d *disk) string {
				h, err := d.open(at(d, n), fl, 0600)
				if err == nil {
					if d.h != nil {
						d.h.Close()
					}
					d.h = h
				}
				return errClass(err)
			})
		}
		add("mkdir "+n, func(d *disk) string { return errClass(d.mk(at(d, n), 0711)) })
		add("mkdirall "+n, func(d *disk) string { return errClass(d.mka(at(d, n), 0750)) })
		add("remove "+n, func(d *disk) string {
			if n == "." {
				return "" // would remove the base
			}
			return errClass(d.rm(at(d, n)))
		})
		add("list "+n, func(d *disk) string {
			l, err := d.ls(at(d, n))
			var s []string
			for _, e := range l {
				s = append(s, e.Name())
			}
			return fmt.Sprint(s, errClass(err))
		})
		if !small {
			add("removeall "+n, func(d *disk) string {
				if n == "." || n == "" {
					return ""
				}
				return errClass(d.rma(at(d, n)))
			})
			add("chmod "+n, func(d *disk) string {
				if n == "." {
					return ""
				}
				return errClass(d.ch(at(d, n), 0755))
			})
			add("truncate "+n, func(d *disk) string { return errClass(d.tr(at(d, n), 2)) })
		}
	}
	for _, p := range [][2]string{{"a", "d/a"}, {"a", "b"}, {"d/a", "a"}, {"d", "e"}, {"a", "d"}, {"d", "a"}, {"a", "q/r"}, {"d", "d/s"}, {"a", "a"}} {
		p := p
		add("rename "+p[0]+" to "+p[1], func(d *disk) string { return errClass(d.mv(at(d, p[0]), at(d, p[1]))) })
		if !small {
			add("link "+p[0]+" to "+p[1], func(d *disk) string { return errClass(d.ln(at(d, p[0]), at(d, p[1]))) })
		}
	}
	on := func(name string, f func(d *disk) string) {
		add(name, func(d *disk) string {
			if d.h == nil {
				return ""
			}
			return f(d)
		})
	}
	on("handle write", func(d *disk) string { n, err := d.h.Write([]byte("pq")); return fmt.Sprint(n, errClass(err)) })
	on("handle writeat", func(d *disk) string {
		n, err := d.h.WriteAt([]byte("W"), 4)
		if err != nil && errClass(err) == "error " {
			return "refused"
		}
		return fmt.Sprint(n, errClass(err))
	})
	on("handle seek", func(d *disk) string { n, err := d.h.Seek(1, io.SeekStart); return fmt.Sprint(n, errClass(err)) })
	on("handle seek end", func(d *disk) string {
		if i, err := d.h.Stat(); err == nil && i.IsDir() {
			return "" // of no meaning
		}
		n, err := d.h.Seek(1, io.SeekEnd)
		return fmt.Sprint(n, errClass(err))
	})
	on("handle read", func(d *disk) string {
		b := make([]byte, 3)
		n, err := d.h.Read(b)
		return fmt.Sprint(n, string(b[:n]), errClass(err))
	})
	on("handle readat", func(d *disk) string {
		b := make([]byte, 3)
		n, err := d.h.ReadAt(b, 1)
		return fmt.Sprint(n, string(b[:n]), errClass(err))
	})
	on("handle truncate", func(d *disk) string { return errClass(d.h.Truncate(1)) })
	on("handle stat", func(d *disk) string { return show(d.h.Stat()) })
	on("handle close", func(d *disk) string { return errClass(d.h.Close()) })
	return r
}

// tree is what a disk holds, with contents and modes.
func (d *disk) tree(p string) string {
	l, err := d.ls(p)
	if err != nil {
		return errClass(err)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Name() < l[j].Name() })
	s := ""
	for _, e := range l {
		q := p + "/" + e.Name()
		i, err := d.stat(q)
		if err != nil {
			s += q[len(d.base):] + " " + errClass(err)
			continue
		}
		s += fmt.Sprintf("%s %s", q[len(d.base):], i.Mode())
		if i.IsDir() {
			s += " {" + d.tree(q) + "} "
		} else {
			b, _ := d.rd(q)
			s += fmt.Sprintf(" %q ", b)
		}
	}
	return s
}

func conformTask(name string, small bool, depth int) mc.Task {
	return mc.Task{Name: name, Run: func(t *mc.T) {
		syscall.Umask(0)
		tmp, err := os.MkdirTemp("", "conform")
		if err != nil {
			t.Fail("no scratch directory: %v", err)
			return
		}
		defer os.RemoveAll(tmp)
		ops := diskOps(small)
		seqs := make([]int, depth)
		var diff []string
		seen := map[string]bool{}
		note := func(k, s string) {
			if !seen[k] {
				seen[k] = true
				diff = append(diff, s)
			}
		}
		defer func() {
			if len(diff) > 0 {
				t.Fail("%s", strings.Join(diff, "\n"))
			}
		}()
		for n := 0; ; n++ {
			if t.Expired() {
				return
			}
			root := filepath.Join(tmp, fmt.Sprint(n))
			os.MkdirAll(root, 0755)
			real := realDisk(root)
			e := vsched.Run(vsched.Options{Horizon: 1 << 60, MaxSteps: 20000000, NoSyncPts: true}, nil, func() {
				vos.Disk().AddDir("/conform")
				fake := standIn("/conform")
				did := ""
				for _, o := range seqs {
					did += ops[o].name + "; "
					a, b := ops[o].f(real), ops[o].f(fake)
					t.Transitions++
					if a != b {
						note(ops[o].name+a+b, fmt.Sprintf("%.300q: system %s, stand-in %s", did, a, b))
						return
					}
				}
				t.States++
				if a, b := real.tree(real.base), fake.tree(fake.base); a != b {
					note(ops[seqs[0]].name+ops[seqs[depth-1]].name, fmt.Sprintf("%.300q: system %s, stand-in %s", did, a, b))
				}
			})
			if p := e.Problem(); p != "" {
				t.Fail("%s", p)
				return
			}
			if real.h != nil {
				real.h.Close()
			}
			os.RemoveAll(root)
			if len(diff) > 30 {
				return
			}
			i := 0
			for i < depth {
				if seqs[i]++; seqs[i] < len(ops) {
					break
				}
				seqs[i] = 0
				i++
			}
			if i == depth {
				return
			}
		}
	}}
}

func init() {
	mc.Register(&mc.Property{ID: "conform",
		Bounds: func(th bool) string { return "" },
		Tasks: func(th bool) []mc.Task {
			r := []mc.Task{conformTask("conform/every operation, pairs", false, 2), conformTask("conform/some operations, triples", true, 3)}
			if th {
				r = append(r, conformTask("conform/every operation, triples", false, 3))
			}
			return r
		}})
}
