package props

import (
	"bufio"
	"fmt"
	"io/fs"
	"net/http"
	"net/http/httptest"
	"net/url"
	"path"
	"strings"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/server"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/lib"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/mc"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vhttp"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vos"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
	"github.com/bigbluebutton/bbb-webrtc-recorder/web"
)

// ---------------------------------------------------------------------
// H02: what the HTTP page serves

// fetch sends a request as it appears on the wire and follows redirects like a
// browser; nil if the request is not a valid one.
func fetch(method, target string, header ...string) *httptest.ResponseRecorder {
	for hop := 0; hop < 5; hop++ {
		raw := method + " " + target + " HTTP/1.1\r\nHost: recorder\r\n"
		for _, h := range header {
			raw += h + "\r\n"
		}
		r, err := http.ReadRequest(bufio.NewReader(strings.NewReader(raw + "\r\n")))
		if err != nil {
			return nil
		}
		w := httptest.NewRecorder()
		vhttp.Web().Handler.ServeHTTP(w, r)
		if w.Code/100 != 3 || w.Header().Get("Location") == "" {
			return w
		}
		u, err := r.URL.Parse(w.Header().Get("Location"))
		if err != nil {
			fail("%s %s redirects to %q", method, target, w.Header().Get("Location"))
			return nil
		}
		target = u.RequestURI()
	}
	fail("%s %s is redirected endlessly", method, target)
	return nil
}

// dirs are spellings of the recording directory and what they mean.
var mediaDirs = [][2]string{
	{"/rec/x", "/rec/x"}, {"/rec/x/", "/rec/x"}, {"/rec/./x", "/rec/x"}, {"/rec/y/../x", "/rec/x"},
	{"//rec//x", "/rec/x"}, {"rel/x", "/cwd/rel/x"}, {"./rel/x", "/cwd/rel/x"}, {"", "/cwd"},
}

// servePage starts the HTTP helper on a disk with files inside and outside of
// the recording directory; every file holds its own path.
func servePage() (dir string, inside, outside []string) {
	d := mediaDirs[vsched.Choose(len(mediaDirs), "directory")]
	dir = d[1]
	disk := vos.Disk()
	for _, n := range []string{"a.webm", "b c.webm", "s/a.webm", "..s/a.webm", "s/..a", "%41.webm", "media/a.webm", "index.html"} {
		inside = append(inside, n)
		disk.AddFile(dir+"/"+n, []byte("<"+dir+"/"+n+">"))
	}
	for _, n := range []string{path.Dir(dir) + "/a.webm", path.Dir(dir) + "/secret", dir + "y/a.webm", "/secret", "/a.webm", "/etc/passwd"} {
		n = path.Clean(n)
		outside = append(outside, n)
		disk.AddFile(n, []byte("<"+n+">"))
	}
	c := lib.Config()
	c.Recorder.Directory = d[0]
	server.NewHTTPServer(c, &lib.Bus{}).Serve()
	det(vsched.Settle)
	return
}

// served checks what came back for a target.
func served(w *httptest.ResponseRecorder, method, target, dir string, inside, outside []string) {
	if w == nil {
		return
	}
	body := w.Body.String()
	for _, n := range outside {
		if strings.Contains(body, "<"+n+">") {
			fail("%s %s serves %s, which is outside of the recording directory %s", method, target, n, dir)
		}
	}
	if w.Code >= 500 {
		fail("%s %s is answered with %d", method, target, w.Code)
	}
}

func h02() *mc.Property {
	tokens := []string{"a.webm", "s", "..", ".", "", "%2e%2e", "..%2f", "%5c..", "secret", "..s", "..a", "media", "index.html"}
	return &mc.Property{ID: "H02", Assumptions: append([]string{"the file server of net/http reads the file system of the execution; requests are parsed by net/http from the bytes of a request line"}, assume...),
		Bounds: func(th bool) string {
			return fmt.Sprintf("every target of /media/ or / followed by up to %d of %d path tokens (dots, encoded dots and slashes, backslashes, empty ones), with GET and HEAD, for %d spellings of the recording directory; every file by its exact path, whole and in ranges; recordings of the service while and after they are made, fetched in every schedule with %d deviations", bnd(th, 3, 4), len(tokens), len(mediaDirs), bnd(th, 2, 3))
		},
		Scenarios: func(th bool) []mc.Scenario {
			return []mc.Scenario{
				seq("H02/paths", func() {
					dir, inside, outside := servePage()
					target := pick("start", "/media/", "/", "/media", "//media/", "/media/../media/", "/Media/")
					for i := 0; i < bnd(th, 3, 4); i++ {
						k := vsched.Choose(len(tokens)+1, "token")
						if k == 0 {
							break
						}
						if i > 0 {
							target += "/"
						}
						target += tokens[k-1]
					}
					m := pick("method", "GET", "HEAD")
					before := len(vos.Disk().Ops)
					served(fetch(m, target), m, target, dir, inside, outside)
					if n := len(vos.Disk().Ops); n != before {
						fail("%s %s changes the disk: %v", m, target, vos.Disk().Ops[before:])
					}
					if n := vos.Disk().OpenCt; n != 0 {
						fail("%d files are open after %s %s", n, m, target)
					}
				}),
				seq("H02/files", func() {
					dir, inside, _ := servePage()
					n := inside[vsched.Choose(len(inside), "file")]
					want := "<" + dir + "/" + n + ">"
					target := "/media/" + (&url.URL{Path: n}).EscapedPath()
					if n == "index.html" {
						target = "/media/"
					}
					switch pick("request", "whole", "head", "range", "tail", "query", "missing", "post") {
					case "whole":
						if w := fetch("GET", target); w == nil || w.Code != 200 || w.Body.String() != want {
							fail("GET %s is answered with %v, not with the file %s", target, answerOf(w), dir+"/"+n)
						}
					case "head":
						if w := fetch("HEAD", target); w == nil || w.Code != 200 || w.Header().Get("Content-Length") != fmt.Sprint(len(want)) {
							fail("HEAD %s is answered with %v", target, answerOf(w))
						}
					case "range":
						if w := fetch("GET", target, "Range: bytes=1-4"); w == nil || w.Code != 206 || w.Body.String() != want[1:5] {
							fail("GET %s of a range is answered with %v", target, answerOf(w))
						}
					case "tail":
						if w := fetch("GET", target, "Range: bytes=-3"); w == nil || w.Code != 206 || w.Body.String() != want[len(want)-3:] {
							fail("GET %s of a range is answered with %v", target, answerOf(w))
						}
					case "query":
						if w := fetch("GET", target+"?t=1"); w == nil || w.Code != 200 || w.Body.String() != want {
							fail("GET %s?t=1 is answered with %v", target, answerOf(w))
						}
					case "missing":
						if w := fetch("GET", target+"x"); w == nil || w.Code != 404 {
							fail("GET %sx is answered with %v", target, answerOf(w))
						}
					}
				}),
				seq("H02/page", func() {
					servePage()
					fs.WalkDir(web.PublicEmbedFS, "public", func(p string, d fs.DirEntry, err error) error {
						if err != nil || d.IsDir() {
							return err
						}
						want, _ := web.PublicEmbedFS.ReadFile(p)
						target := strings.TrimPrefix(p, "public")
						for _, s := range []string{target, strings.TrimSuffix(target, "index.html")} {
							if w := fetch("GET", s); w == nil || w.Code != 200 || w.Body.String() != string(want) {
								fail("GET %s is answered with %v, not with the page", s, answerOf(w))
							}
						}
						return nil
					})
					if w := fetch("GET", "/nothing"); w == nil || w.Code != 404 {
						fail("GET /nothing is answered with %v", answerOf(w))
					}
				}),
				conc("H02/recordings", bnd(th, 2, 3), vsched.PkgServer, func() {
					var w *lib.World
					var s *src
					det(func() {
						w = startHTTP()
						w.Do(lib.StartMS("s", "sub/a.webm", "video"))
						s = video(lib.LastPC(), 1)
						s.frame(true)
						s.frame(false)
						vsched.Sleep(50 * time.Millisecond)
					})
					var got []string
					vsched.GoEnv("browser", func() {
						for i := 0; i < 2; i++ {
							if r := fetch("GET", "/media/sub/a.webm"); r != nil && r.Code == 200 {
								got = append(got, r.Body.String())
							} else {
								fail("a recording in progress is answered with %v", answerOf(r))
							}
						}
					})
					s.frame(false)
					w.Send(lib.Stop("s"))
					vsched.Sleep(2 * time.Second)
					final := string(vos.Disk().Nodes[lib.Dir+"/sub/a.webm"].Data)
					for _, g := range got {
						if !strings.HasPrefix(final, g) {
							fail("%d bytes served of a recording in progress are not what it holds", len(g))
						}
					}
					if len(got) != 2 {
						fail("%d of 2 requests are answered", len(got))
					}
					if r := fetch("GET", "/media/sub/a.webm"); r == nil || r.Code != 200 || r.Body.String() != final {
						fail("a finished recording is answered with %v", answerOf(r))
					}
					if len(w.Bus.By("recordingStopped", "s")) != 1 {
						fail("fetching a recording disturbed its session")
					}
				}),
			}
		}}
}

func answerOf(w *httptest.ResponseRecorder) string {
	if w == nil {
		return "nothing"
	}
	return fmt.Sprintf("%d %.80q", w.Code, w.Body.String())
}

func init() { mc.Register(h02()) }
