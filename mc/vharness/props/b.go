package props

import (
	"bytes"
	"fmt"
	"path"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/lib"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/mc"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vos"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
)

// within tells whether p is dir or below it; both absolute.
func within(dir, p string) bool {
	d := segments(dir)
	q := segments(p)
	if len(q) < len(d) {
		return false
	}
	for i := range d {
		if d[i] != q[i] {
			return false
		}
	}
	return true
}

// segments resolves a path lexically; relative ones start at /cwd.
func segments(p string) []string {
	if !strings.HasPrefix(p, "/") {
		p = "/cwd/" + p
	}
	var r []string
	for _, s := range strings.Split(p, "/") {
		switch s {
		case "", ".":
		case "..":
			if len(r) > 0 {
				r = r[:len(r)-1]
			}
		default:
			r = append(r, s)
		}
	}
	return r
}

func norm(p string) string { return "/" + strings.Join(segments(p), "/") }

// escapes tells whether a name leaves its directory at the end.
func escapes(dir, name string) bool { return !within(dir, norm(dir)+"/"+name) }

// recordable sends a keyframe and a frame to the newest session.
func recordable(lk bool, sid string) *src {
	var s *src
	if lk {
		s = lkTrack(lastRoom(), sid, 21)
	} else {
		s = video(lib.LastPC(), 21)
	}
	settle()
	s.frame(true)
	s.frame(false)
	settle()
	return s
}

func b01() *mc.Property {
	tokens := []string{"/", "..", ".", "a", "d", "x.webm", "f", "rec", "\x00", "../", "webm", " "}
	dirs := []string{"/rec", "/rec/", "rec", "/rec/./d/..", "/", "./rec/d", "/rec2/../rec", ".."}
	setup := func(dir string) *lib.World {
		vos.Disk().AddDir("/cwd/rec/d")
		vos.Disk().AddDir("/rec/d")
		vos.Disk().AddDir("/rec2")
		vos.Disk().AddDir("/d")
		vos.Disk().AddDir("/a")
		vos.Disk().AddFile("/rec/f", []byte("keep"))
		vos.Disk().AddFile("/f", []byte("keep"))
		return nil
	}
	judge := func(w *lib.World, dir, name string, devnull bool, wantOK int) {
		if n := len(w.Bus.By("startRecordingResponse", "s")); n != 1 {
			fail("%d responses to a start with name %q", n, name)
			return
		}
		ok, p := w.OK("s")
		d := vos.Disk()
		if !ok {
			if len(d.Ops) > 0 {
				fail("refused name %q in %q: %s of %s", name, dir, d.Ops[0].Kind, d.Ops[0].Path)
			}
			if wantOK == 1 {
				fail("name %q in %q is refused: %s", name, dir, w.Bus.By("startRecordingResponse", "s")[0].Str("error"))
			}
			return
		}
		if wantOK == -1 {
			fail("name %q in %q, outside of it, is accepted", name, dir)
		}
		recordable(false, "")
		w.Do(lib.Stop("s"))
		settle()
		for _, o := range d.Ops {
			if o.Path == "/dev/null" && devnull {
				continue
			}
			if devnull {
				fail("%s of %s although only the null device may be written", o.Kind, o.Path)
			} else if !within(dir, o.Path) {
				fail("name %q in %q: %s of %s", name, dir, o.Kind, o.Path)
			}
		}
		if !devnull {
			n := d.Nodes[norm(p)]
			if n == nil || n.Dir || len(n.Data) == 0 || !within(dir, p) {
				fail("name %q in %q: nothing recorded in %q", name, dir, p)
			}
		}
		for _, k := range []string{"/rec/f", "/f"} {
			if string(d.Nodes[k].Data) != "keep" {
				fail("name %q: %s damaged", name, k)
			}
		}
	}
	// want: 1 must be accepted, -1 must be refused, 0 either.
	want := func(dir, name string, devnull bool) int {
		if !strings.HasSuffix(name, ".webm") {
			return -1
		}
		if devnull || strings.ContainsRune(name, 0) {
			return 0
		}
		if escapes(dir, name) {
			return -1
		}
		full := norm(dir) + "/" + name
		q := segments(full)
		if vos.Disk().Nodes[norm(full)] != nil {
			return -1
		}
		for i := 1; i < len(q); i++ {
			if n := vos.Disk().Nodes["/"+strings.Join(q[:i], "/")]; n != nil && !n.Dir {
				return -1
			}
		}
		// Plain names must work.
		for _, s := range strings.Split(name, "/") {
			if s == "" || s == "." || s == ".." || s == ".webm" || strings.Contains(s, " ") {
				return 0
			}
		}
		return 1
	}
	return &mc.Property{ID: "B01", Assumptions: append([]string{"no symbolic links below the recording directory"}, assume...),
		Bounds: func(th bool) string {
			return fmt.Sprintf("all names of up to %d tokens out of %d (separators, dot segments, existing and missing directories, files, NUL, spaces), with and without the .webm suffix, in 8 spellings of the recording directory (absolute, relative, root, unclean), plain, with IVF copy, and with the null device; long names and segments", bnd(th, 4, 5), len(tokens))
		},
		Scenarios: func(th bool) []mc.Scenario {
			body := func(depth int, ivf, devnull bool, dirs []string) func() {
				return func() {
					dir := dirs[vsched.Choose(len(dirs), "directory")]
					var b strings.Builder
					for i := 0; i < depth; i++ {
						k := vsched.Choose(len(tokens)+1, "token")
						if k == 0 {
							break
						}
						b.WriteString(tokens[k-1])
					}
					if flip("suffix") {
						b.WriteString(".webm")
					}
					setup(dir)
					w := lib.Start(func(c *configT) {
						c.Recorder.Directory = dir
						c.Recorder.WriteIVFCopy = ivf
						c.Recorder.WriteToDevNull = devnull
					})
					name := b.String()
					wk := want(dir, name, devnull)
					w.Do(lib.StartMS("s", name, "video"))
					judge(w, dir, name, devnull, wk)
					outcome(w)
				}
			}
			return []mc.Scenario{
				seq("B01/directories", body(bnd(th, 3, 4), false, false, dirs)),
				seq("B01/names", body(bnd(th, 4, 5), false, false, dirs[:1])),
				seq("B01/ivf", body(bnd(th, 3, 4), true, false, dirs[:3])),
				seq("B01/null device", body(bnd(th, 3, 4), flip2(), true, dirs[:2])),
				seq("B01/long", func() {
					setup("")
					w := lib.Start(nil)
					n := []int{200, 245, 250, 251, 255, 256, 1000, 4000, 4085, 4096, 5000}[vsched.Choose(11, "length")]
					var name string
					switch vsched.Choose(3, "shape") {
					case 0:
						name = strings.Repeat("x", n) + ".webm"
					case 1:
						name = strings.Repeat("d/", n/2) + "x.webm"
					case 2:
						name = strings.Repeat("y", n) + "/x.webm"
					}
					w.Do(lib.StartMS("s", name, "video"))
					if ok, _ := w.OK("s"); ok {
						recordable(false, "")
					}
					w.Do(lib.Stop("s"))
					settle()
					for _, o := range vos.Disk().Ops {
						if !within("/rec", o.Path) {
							fail("%s of %s", o.Kind, o.Path)
						}
					}
					w.Alive()
				}),
				seq("B01/livekit", func() {
					setup("")
					w := lib.Start(nil)
					lkRoom("V1")
					name := pick("name", "x.webm", "../x.webm", "d/x.webm", "../../x.webm", "d/../../x.webm", "/x.webm", "..", "../rec/x.webm", "d/../x.webm")
					w.Do(lib.StartLK("s", name, "r", "V1"))
					ok, _ := w.OK("s")
					if ok == escapes("/rec", name) {
						fail("name %q: accepted %v", name, ok)
					}
					if ok {
						recordable(true, "V1")
					} else if len(vos.Disk().Ops) > 0 {
						fail("refused name %q: %s", name, vos.Disk().Ops[0].Path)
					}
					w.Do(lib.Stop("s"))
					for _, o := range vos.Disk().Ops {
						if !within("/rec", o.Path) {
							fail("%s of %s", o.Kind, o.Path)
						}
					}
				}),
			}
		}}
}

func flip2() bool { return true }

// ---------------------------------------------------------------------

// b02removed: files are processed and removed by others, and looking for them
// may fail.
func b02removed(depth int) func() {
	return func() {
		d := vos.Disk()
		d.AddFile("/rec/c.webm", []byte("earlier recording"))
		ivf := flip("copy")
		builtin := ivf && flip("builtin assembly")
		if ivf {
			d.AddFile("/rec/a.ivf", []byte("earlier copy"))
		}
		w := lib.Start(func(c *configT) { c.Recorder.WriteIVFCopy, c.Recorder.UseCustomSampler = ivf, !builtin })
		type ses struct {
			path string
			s    *src
		}
		live := map[string]*ses{}
		for i := 0; i < depth; i++ {
			k := pick("operation", "start s a", "start s c", "start t a", "start t c", "failing start s a", "failing start s c", "media", "stop s", "stop t", "remove a", "remove c", "remove copies")
			switch k {
			case "media":
				for _, id := range []string{"s", "t"} {
					if s := live[id]; s != nil {
						s.s.frame(true)
					}
				}
				settle()
			case "stop s", "stop t":
				w.Do(lib.Stop(k[5:]))
				settle()
				delete(live, k[5:])
			case "remove a", "remove c":
				vos.Remove("/rec/" + k[7:] + ".webm")
			case "remove copies":
				vos.Remove("/rec/a.ivf")
				vos.Remove("/rec/c.ivf")
			default:
				failing := k[0] == 'f'
				id, name := k[len(k)-3:len(k)-2], k[len(k)-1:]
				p := "/rec/" + name + ".webm"
				want := live[id] == nil && d.Nodes[p] == nil && !(ivf && d.Nodes["/rec/"+name+".ivf"] != nil)
				for _, o := range live {
					want = want && o.path != p
				}
				if failing {
					d.Fail = func(kind, at string) error {
						if kind == "stat" && at == p {
							return syscall.EIO
						}
						return nil
					}
				}
				n := len(w.Bus.By("startRecordingResponse", id))
				w.Do(lib.StartMS(id, name+".webm", "video"))
				d.Fail = nil
				rs := w.Bus.By("startRecordingResponse", id)[n:]
				if len(rs) != 1 {
					fail("%d responses", len(rs))
					return
				}
				ok := rs[0].Str("status") == "ok"
				if ok != want && !failing {
					fail("start of %s: accepted %v, expected %v (%s)", p, ok, want, rs[0].Str("error"))
					return
				}
				if ok {
					live[id] = &ses{p, video(lib.LastPC(), 31)}
				}
			}
		}
		for _, id := range []string{"s", "t"} {
			w.Do(lib.Stop(id))
		}
		sleep(50 * ms)
		for _, o := range d.Ops {
			if o.Kind == "trunc" && o.Off > 0 {
				fail("%s with %d bytes is truncated", o.Path, o.Off)
			}
		}
		outcome(w)
	}
}

func b02() *mc.Property {
	spell := []string{"a.webm", "./a.webm", "d/../a.webm", "/a.webm", "d/b.webm", "d//b.webm", "e/../d/./b.webm", "c.webm", "a.webm.webm"}
	type ses struct {
		live, lk bool
		path     string // normalised
		s        *src
		no       int
		frames   int
	}
	body := func(depth int, ids []string, names []string, ivf bool) func() {
		return func() {
			d := vos.Disk()
			d.AddFile("/rec/c.webm", []byte("earlier recording"))
			d.AddDir("/rec/d")
			if ivf && flip("earlier copy") {
				d.AddFile("/rec/a.ivf", []byte("earlier copy"))
			}
			earlier := map[string][]byte{}
			for p, n := range d.Nodes {
				if !n.Dir && !n.Dev {
					earlier[p] = append([]byte{}, n.Data...)
				}
			}
			w := lib.Start(func(c *configT) { c.Recorder.WriteIVFCopy = ivf })
			lkRoom("V1")
			st := map[string]*ses{}
			for _, i := range ids {
				st[i] = &ses{}
			}
			done := map[string][]*ses{} // finished sessions by path
			ctr := 0
			var all []*ses
			for i := 0; i < depth; i++ {
				id := ids[vsched.Choose(len(ids), "session")]
				s := st[id]
				k := vsched.Choose(len(names)+2, "operation")
				switch {
				case k == len(names): // media
					if !s.live {
						continue
					}
					if s.s == nil {
						if s.lk {
							continue
						}
					}
					s.s.frame(true)
					settle()
					s.frames++
				case k == len(names)+1: // stop
					w.Do(lib.Stop(id))
					settle()
					if s.live {
						s.live = false
					}
				default:
					name := names[k]
					p := norm(lib.Dir + "/" + name)
					wantOK := !s.live && d.Nodes[p] == nil
					if ivf && d.Nodes[strings.TrimSuffix(p, ".webm")+".ivf"] != nil {
						wantOK = false
					}
					for _, o := range st {
						if o.live && o.path == p {
							wantOK = false
						}
					}
					ops := len(d.Ops)
					n := len(w.Bus.By("startRecordingResponse", id))
					w.Do(lib.StartMS(id, name, "video"))
					rs := w.Bus.By("startRecordingResponse", id)[n:]
					if len(rs) != 1 {
						fail("%d responses", len(rs))
						return
					}
					ok := rs[0].Str("status") == "ok"
					if ok != wantOK {
						fail("start of %s: accepted %v, expected %v (%s)", name, ok, wantOK, rs[0].Str("error"))
					}
					if !ok {
						for _, o := range d.Ops[ops:] {
							if o.Kind != "mkdir" {
								fail("refused start of %s: %s of %s", name, o.Kind, o.Path)
							}
						}
						continue
					}
					n2 := &ses{live: true, path: p, no: ctr, s: video(lib.LastPC(), 31)}
					ctr += 20
					n2.s.no = n2.no
					st[id] = n2
					all = append(all, n2)
					if norm(rs[0].Str("fileName")) != p {
						fail("start of %s reports %s", name, rs[0].Str("fileName"))
					}
				}
			}
			for _, id := range ids {
				w.Do(lib.Stop(id))
			}
			sleep(50 * ms)
			_ = done
			for p, b := range earlier {
				if n := d.Nodes[p]; n == nil || !bytes.Equal(n.Data, b) {
					fail("earlier content of %s is gone", p)
				}
			}
			for _, o := range d.Ops {
				if o.Kind == "trunc" && o.Off > 0 || o.Kind == "remove" || o.Kind == "rename" {
					fail("%s of %s with %d bytes", o.Kind, o.Path, o.Off)
				}
			}
			for _, s := range all {
				if s.frames == 0 {
					continue
				}
				f := complete(s.path)
				if f == nil {
					return
				}
				b := f.Of(1)
				if len(b) != s.frames {
					fail("%s holds %d frames of %d", s.path, len(b), s.frames)
				}
				for i := range b {
					if want := (lib.Frame{No: s.no + i, Key: true, Parts: 1}).Data(); !bytes.Equal(b[i].Data, want) {
						fail("%s: frame %d is not the session's own", s.path, i)
					}
				}
				if ivf {
					n := d.Nodes[strings.TrimSuffix(s.path, ".webm")+".ivf"]
					if n == nil {
						fail("no IVF copy of %s", s.path)
						continue
					}
					v, err := lib.ParseIVF(n.Data)
					if err != nil || len(v.Frames) != s.frames {
						fail("IVF copy of %s: %v, %d frames of %d", s.path, err, len(v.Frames), s.frames)
					}
				}
			}
			outcome(w)
		}
	}
	return &mc.Property{ID: "B02", Assumptions: assume,
		Bounds: func(th bool) string {
			return fmt.Sprintf("all sequences of %d operations (start with any of 9 spellings of 4 files, media, stop) over two ids and %d over three ids with 3 spellings; all sequences of %d operations with files and copies removed by others and failing look-ups, both assemblies; %d pairs of files that look alike; with and without IVF copies, with files present beforehand; starts, media and ends of two sessions on one file racing (deviation bound %d)", bnd(th, 4, 5), bnd(th, 4, 6), bnd(th, 4, 5), len(alikeFiles), bnd(th, 2, 3))
		},
		Scenarios: func(th bool) []mc.Scenario {
			return []mc.Scenario{
				seq("B02/spellings", body(bnd(th, 4, 5), []string{"s", "t"}, spell, false)),
				b02alike(),
				seq("B02/removed by others", b02removed(bnd(th, 4, 5))),
				seq("B02/ivf", body(bnd(th, 4, 5), []string{"s", "t"}, spell[:6], true)),
				seq("B02/three", body(bnd(th, 4, 6), []string{"s", "t", "u"}, []string{"a.webm", "d/../a.webm", "d/b.webm"}, false)),
				conc("B02/race", bnd(th, 2, 3), vsched.PkgServer*b2i(th), func() {
					// The file is asked for again while its session ends.
					w := lib.Start(nil)
					w.Do(lib.StartMS("s", "a.webm", "video"))
					s := video(lib.LastPC(), 1)
					media := flip("recorded")
					if media {
						s.frame(true)
						s.frame(false)
						sleep(20 * ms)
					}
					vsched.GoEnv("again", func() { w.Send(lib.StartMS("t", "d/../a.webm", "video")) })
					if flip("late packet") {
						vsched.GoEnv("late", func() { s.frame(true) })
					}
					if flip("stop") {
						w.Send(lib.Stop("s"))
					} else {
						lib.LastPC().FireICE(5)
					}
					vsched.Sleep(time.Second)
					ok, _ := w.OK("t")
					if media && ok {
						fail("a start naming an existing recording is accepted")
					}
					if ok {
						p := lib.LastPC()
						if f := vos.Disk().Nodes["/rec/a.webm"]; f != nil {
							fail("accepted although the file was written")
						}
						x := video(p, 2)
						x.no = 50
						x.frame(true)
						vsched.Sleep(200 * ms)
					}
					for _, id := range []string{"s", "t"} {
						w.Do(lib.Stop(id))
					}
					sleep(time.Second)
					for _, o := range vos.Disk().Ops {
						if o.Kind == "trunc" && o.Off > 0 {
							fail("trunc of %s with %d bytes", o.Path, o.Off)
						}
					}
					if f := vos.Disk().Nodes["/rec/a.webm"]; f != nil {
						v := complete("/rec/a.webm")
						if v != nil {
							for _, b := range v.Of(1) {
								if own := binNo(b.Data) >= 50; own != ok {
									fail("frames of two sessions in one file")
								}
							}
						}
					}
					outcome(w)
				}),
			}
		}}
}

// binNo is the content number of a recorded single-packet frame.
func binNo(b []byte) int {
	if len(b) < 2 {
		return -1
	}
	return (int(b[len(b)-2])<<8 | int(b[len(b)-1])) / 8
}

// ---------------------------------------------------------------------

func b03() *mc.Property {
	type mode struct {
		s  string
		m  uint32
		ok bool
	}
	modes := []mode{{"0600", 0600, true}, {"0640", 0640, true}, {"0777", 0777, true}, {"0o644", 0644, true}, {"0400", 0400, true}, {"0", 0, true},
		{"", 0, false}, {"abc", 0, false}, {"-1", 0, false}, {"0800", 0, false}, {"rw-r--r--", 0, false}, {" 0600", 0, false}, {"0600 ", 0, false}, {"99999999999999999999", 0, false}}
	names := []string{"a.webm", "x/a.webm", "x/y/z/a.webm", "d/a.webm", "d/x/a.webm", "x/../a.webm"}
	return &mc.Property{ID: "B03", Assumptions: append([]string{"the process' umask removes nothing from the configured modes"}, assume...),
		Bounds: func(bool) string {
			return fmt.Sprintf("%d file modes x %d directory modes x %d names (0 to 3 missing directories) x 4 directories (one missing, one a file) x 2 adapters x IVF copy; 17 file extensions", len(modes), len(modes), len(names))
		},
		Scenarios: func(th bool) []mc.Scenario {
			return []mc.Scenario{
				seq("B03/modes", func() {
					fm := modes[vsched.Choose(len(modes), "file mode")]
					dm := modes[vsched.Choose(len(modes), "directory mode")]
					name := names[vsched.Choose(len(names), "name")]
					dir := pick("directory", "/rec", "/rec/", "rel/rec", "/none")
					lk := flip("livekit")
					d := vos.Disk()
					d.AddDir("/rec/d")
					d.AddDir("/cwd/rel/rec/d")
					w := lib.Start(func(c *configT) {
						c.Recorder.Directory = dir
						c.Recorder.FileMode = fm.s
						c.Recorder.DirFileMode = dm.s
						c.Recorder.WriteIVFCopy = len(name)%2 == 0
					})
					lkRoom("V1")
					before := map[string]bool{}
					for _, p := range d.Paths() {
						before[p] = true
					}
					if lk {
						w.Do(lib.StartLK("s", name, "r", "V1"))
					} else {
						w.Do(lib.StartMS("s", name, "video"))
					}
					full := norm(dir) + "/" + name
					needDir := d.Nodes[path.Dir(norm(full))] == nil
					for _, o := range d.Ops {
						if o.Kind == "mkdir" {
							needDir = true
						}
					}
					rs := w.Bus.By("startRecordingResponse", "s")
					if len(rs) != 1 {
						fail("%d responses", len(rs))
						return
					}
					ok := rs[0].Str("status") == "ok"
					e := rs[0].Str("error")
					want := dir != "/none" && fm.ok && (dm.ok || !needDir)
					if ok != want {
						fail("file mode %q, directory mode %q, %s in %s: accepted %v (%s)", fm.s, dm.s, name, dir, ok, e)
					}
					if !ok {
						if len(d.Ops) > 0 {
							fail("failed start left %s of %s", d.Ops[0].Kind, d.Ops[0].Path)
						}
						bad := "/none"
						if dir != "/none" {
							bad = fm.s
							if fm.ok {
								bad = dm.s
							}
						}
						if !strings.Contains(e, bad) || e == "" {
							fail("the error %q does not name %q", e, bad)
						}
						return
					}
					recordable(lk, "V1")
					w.Do(lib.Stop("s"))
					settle()
					rep := norm(rs[0].Str("fileName"))
					if rep != norm(full) {
						fail("reported path %s for %s in %s", rep, name, dir)
					}
					n := d.Nodes[rep]
					if n == nil || len(n.Data) == 0 {
						fail("nothing recorded in %s", rep)
						return
					}
					for _, o := range d.Ops {
						switch o.Kind {
						case "create":
							if o.Path == rep && uint32(o.Mode) != fm.m {
								fail("%s created with mode %o, configured %s", o.Path, o.Mode, fm.s)
							}
							if o.Path != rep && o.Path != strings.TrimSuffix(rep, ".webm")+".ivf" {
								fail("also created %s", o.Path)
							}
						case "mkdir":
							if uint32(o.Mode) != dm.m {
								fail("%s created with mode %o, configured %s", o.Path, o.Mode, dm.s)
							}
						case "chmod":
							if o.Path == rep && uint32(o.Mode) != fm.m {
								fail("%s changed to mode %o, configured %s", o.Path, o.Mode, fm.s)
							}
						}
					}
					if uint32(n.Mode) != fm.m {
						fail("mode of the recording is %o", n.Mode)
					}
					outcome(w)
				}),
				seq("B03/extensions", func() {
					exts := []string{".webm", "", ".mkv", ".WEBM", ".webm ", ".webm.", "webm", ".web", ".webmm", ".webm.ivf", ".ivf", ".mp4", ".webm/", ".webm\n", ". webm", ".", ".webm.webm"}
					x := exts[vsched.Choose(len(exts), "extension")]
					base := pick("base", "a", "x/a", "d/a", "x/y/a", "a.b")
					d := vos.Disk()
					d.AddDir("/rec/d")
					w := lib.Start(nil)
					lkRoom("V1")
					lk := flip("livekit")
					if lk {
						w.Do(lib.StartLK("s", base+x, "r", "V1"))
					} else {
						w.Do(lib.StartMS("s", base+x, "video"))
					}
					ok, p := w.OK("s")
					want := x == ".webm" || x == ".webm.webm"
					if ok != want {
						fail("extension %q: accepted %v", x, ok)
					}
					if !ok {
						if len(d.Ops) > 0 {
							fail("refused extension %q left %s of %s", x, d.Ops[0].Kind, d.Ops[0].Path)
						}
						e := w.Bus.By("startRecordingResponse", "s")[0].Str("error")
						// The problem is named: the extension as such.
						if ex := path.Ext(base + x); e == "" || !strings.Contains(e, strings.TrimSpace(ex)) {
							fail("error %q for extension %q", e, x)
						}
					} else if norm(p) != "/rec/"+base+x {
						fail("reported path %q", p)
					}
				}),
				seq("B03/directory", func() {
					// A recording directory that is missing, of every depth.
					dir := pick("directory", "/none", "/rec/none", "none", "/none/x", "./none/../none2")
					w := lib.Start(func(c *configT) { c.Recorder.Directory = dir; c.Recorder.WriteToDevNull = flip("null device") })
					name := pick("name", "a.webm", "x/a.webm", "x/y/a.webm")
					w.Do(lib.StartMS("s", name, "video"))
					if ok, _ := w.OK("s"); ok {
						fail("recording directory %s does not exist", dir)
						return
					}
					if len(vos.Disk().Ops) > 0 {
						fail("%s of %s", vos.Disk().Ops[0].Kind, vos.Disk().Ops[0].Path)
					}
					e := w.Bus.By("startRecordingResponse", "s")[0].Str("error")
					if !strings.Contains(e, "none") {
						fail("error %q does not name %s", e, dir)
					}
				}),
			}
		}}
}

var _ = strconv.Itoa

func init() {
	mc.Register(b01())
	mc.Register(b02())
	mc.Register(b03())
}
