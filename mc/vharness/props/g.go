package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/lib"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/mc"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vmain"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vhttp"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vos"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vredigo"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
	log "github.com/sirupsen/logrus"
	flag "github.com/spf13/pflag"
	"gopkg.in/yaml.v3"
)

// ---------------------------------------------------------------------
// The whole program: arguments, environment, configuration file.

var scratch string

// home is a scratch directory of this process, its working directory and
// home.
func home() string {
	if scratch == "" {
		d, err := os.MkdirTemp("", "home")
		if err != nil {
			panic(err)
		}
		os.Chdir(d)
		os.Setenv("HOME", d)
		scratch = d
	}
	return scratch
}

const appName = "bbb-webrtc-recorder"

// invocation is how the program is started.
type invocation struct {
	args []string
	file string // content of the configuration file
	name string // where it is below home; "" for none
	env  map[string]string

	usage *bytes.Buffer // takes the explanation of the arguments
}

func put(name, content string) {
	p := filepath.Join(home(), name)
	os.MkdirAll(filepath.Dir(p), 0700)
	if err := os.WriteFile(p, []byte(content), 0600); err != nil {
		panic(err)
	}
}

// prepare sets up the process for a run of the program.
func (v invocation) prepare() {
	h := home()
	for _, n := range []string{appName + ".yml", appName + ".yaml", "c.yml", ".config"} {
		os.RemoveAll(filepath.Join(h, n))
	}
	if v.name != "" {
		put(v.name, v.file)
	}
	for _, e := range os.Environ() {
		if k, _, _ := strings.Cut(e, "="); strings.HasPrefix(strings.ToUpper(k), "BBBRECORDER") {
			os.Unsetenv(k)
		}
	}
	for k, s := range v.env {
		os.Setenv(k, s)
	}
	os.Args = append([]string{appName}, v.args...)
	flag.CommandLine = flag.NewFlagSet(appName, flag.ContinueOnError)
	flag.CommandLine.SetOutput(io.Discard)
	if v.usage != nil {
		flag.CommandLine.SetOutput(v.usage)
	}
	log.SetOutput(io.Discard)
	log.SetLevel(log.PanicLevel)
	log.SetReportCaller(false)
}

// once runs the program to its exit.
func (v invocation) once() (code int, out string) {
	code = -1
	e := vsched.Run(vsched.Options{}, nil, func() {
		v.prepare()
		vsched.OnExit(func(c int) {
			code = c
			out = vos.Output(vos.Stdout).String()
			if n := len(vredigo.Redis().Conns); n > 0 || vhttp.Web().Serving {
				code, out = -2, "it started the service"
			}
		})
		vsched.GoEnv("main", vmain.VMain)
		vsched.Deterministic(vsched.Settle)
	})
	if p := e.Problem(); p != "" {
		return -3, p
	}
	if code == -1 {
		out = "it does not exit"
	}
	return
}

// setting is one documented option.
type setting struct {
	path string
	def  any
	vals []any // values to give it: in the file, in the environment
}

func (s setting) env() string {
	return "BBBRECORDER_" + strings.ToUpper(strings.ReplaceAll(s.path, ".", "_"))
}

var settings = []setting{
	{"log.level", "", []any{"PANIC", "ERROR"}},
	{"recorder.directory", "", []any{"/var/a b", "/srv/x=y#z"}},
	{"recorder.dirFileMode", "0700", []any{"0750", "0711"}},
	{"recorder.fileMode", "0600", []any{"0640", "0604"}},
	{"recorder.writeToDevNull", false, []any{true, false}},
	{"recorder.writeIVFCopy", false, []any{true, false}},
	{"recorder.videoPacketQueueSize", 256, []any{64, 65535}},
	{"recorder.audioPacketQueueSize", 32, []any{1, 512}},
	{"recorder.useCustomSampler", true, []any{false, true}},
	{"pubsub.channels.subscribe", "to-" + appName, []any{"in-1", "in:2"}},
	{"pubsub.channels.publish", "from-" + appName, []any{"out-1", "out 2"}},
	{"pubsub.adapter", "redis", []any{"other", "redis"}},
	{"pubsub.adapters.redis.address", ":6379", []any{"redis.example:1", "10.0.0.1:2"}},
	{"pubsub.adapters.redis.network", "tcp", []any{"tcp4", "unix"}},
	{"pubsub.adapters.redis.password", "", []any{"p'w\"1", "0123"}},
	{"webrtc.rtcMinPort", 24577, []any{1024, 2000}},
	{"webrtc.rtcMaxPort", 32768, []any{65535, 40000}},
	{"webrtc.jitterBuffer", 512, []any{256, 1}},
	{"webrtc.jitterBufferPktTimeout", 200, []any{1000, 0}},
	{"http.enable", false, []any{true, false}},
	{"http.port", 8080, []any{80, 65535}},
	{"prometheus.enable", false, []any{true, false}},
	{"prometheus.listenAddress", "127.0.0.1:3200", []any{":9", "[::1]:10"}},
	{"livekit.host", "ws://localhost:7880", []any{"wss://lk.example/a?b=c", "ws://h:1"}},
	{"livekit.apiKey", "", []any{"key1", "KEY=2"}},
	{"livekit.apiSecret", "", []any{"s:3", "#4"}},
}

// tree is a configuration by its paths.
type tree map[string]any

// set puts a value at a path.
func (t tree) set(path string, v any) {
	f := strings.Split(path, ".")
	m := map[string]any(t)
	for _, k := range f[:len(f)-1] {
		n, ok := m[k].(map[string]any)
		if !ok {
			n = map[string]any{}
			m[k] = n
		}
		m = n
	}
	m[f[len(f)-1]] = v
}

// clean drops what is empty: the dump leaves out false, zero and empty values.
func clean(v any) any {
	switch v := v.(type) {
	case map[string]any:
		r := map[string]any{}
		for k, e := range v {
			if c := clean(e); c != nil {
				r[k] = c
			}
		}
		if len(r) == 0 {
			return nil
		}
		return r
	case tree:
		return clean(map[string]any(v))
	case []any:
		r := []any{}
		for _, e := range v {
			r = append(r, clean(e))
		}
		if len(r) == 0 {
			return nil
		}
		return r
	case string:
		if v == "" {
			return nil
		}
	case bool:
		if !v {
			return nil
		}
	case int:
		if v == 0 {
			return nil
		}
	}
	return v
}

func (t tree) yaml() string {
	b, err := yaml.Marshal(map[string]any(t))
	if err != nil {
		panic(err)
	}
	return string(b)
}

// defaults is the configuration nobody changed.
func defaults() tree {
	t := tree{}
	for _, s := range settings {
		t.set(s.path, s.def)
	}
	return t
}

// differ compares a dump with the expected tree.
func differ(out string, want any) string {
	var got any
	if err := yaml.Unmarshal([]byte(out), &got); err != nil {
		return fmt.Sprintf("the dump %.100q is not YAML: %v", out, err)
	}
	// the mode of a file may be printed in any base
	norm := func(v any) any {
		v = clean(v)
		if m, ok := v.(map[string]any); ok {
			if r, ok := m["recorder"].(map[string]any); ok {
				for _, k := range []string{"dirFileMode", "fileMode"} {
					if n, err := strconv.ParseUint(fmt.Sprint(r[k]), 0, 32); err == nil {
						r[k] = fmt.Sprintf("0%o", n)
					}
				}
			}
		}
		return v
	}
	g, w := norm(got), norm(want)
	if reflect.DeepEqual(g, w) {
		return ""
	}
	return "effective is " + diff("", g, w)
}

func diff(at string, g, w any) string {
	gm, ok1 := g.(map[string]any)
	wm, ok2 := w.(map[string]any)
	if !ok1 || !ok2 {
		return fmt.Sprintf("%s: %#v instead of %#v", strings.TrimPrefix(at, "."), g, w)
	}
	keys := map[string]bool{}
	for k := range gm {
		keys[k] = true
	}
	for k := range wm {
		keys[k] = true
	}
	var l []string
	for k := range keys {
		l = append(l, k)
	}
	sort.Strings(l)
	for _, k := range l {
		if !reflect.DeepEqual(gm[k], wm[k]) {
			return diff(at+"."+k, gm[k], wm[k])
		}
	}
	return "the same"
}

// placed builds the invocation that gives the settings from the sources
// (bit 0: file, bit 1: environment) and the expected configuration.
func placed(l []setting, where []int) (invocation, tree) {
	v := invocation{args: []string{"--dump", "all", "-c", filepath.Join(home(), "c.yml")}, env: map[string]string{}}
	want := defaults()
	f := tree{}
	for i, s := range l {
		if where[i]&1 != 0 {
			f.set(s.path, s.vals[0])
			want.set(s.path, s.vals[0])
		}
		if where[i]&2 != 0 {
			v.env[s.env()] = fmt.Sprint(s.vals[1])
			want.set(s.path, s.vals[1])
		}
	}
	if len(f) > 0 {
		v.name, v.file = "c.yml", f.yaml()
	}
	return v, want
}

func (v invocation) String() string {
	return fmt.Sprintf("file %q, environment %v, arguments %v", v.file, v.env, v.args)
}

func (v invocation) expect(t *mc.T, want any) bool {
	code, out := v.once()
	t.States++
	t.Transitions++
	t.Traces++
	if code != 0 {
		t.Fail("G01: exit %d, %.200s; %v", code, out, v)
		return false
	}
	if d := differ(out, want); d != "" {
		t.Fail("G01: %s; %v", d, v)
		return false
	}
	return true
}

// chunk splits work among tasks.
func chunks(n int, name string, run func(t *mc.T, k int)) []mc.Task {
	var r []mc.Task
	for k := 0; k < n; k++ {
		k := k
		r = append(r, mc.Task{Name: fmt.Sprintf("%s %d/%d", name, k+1, n), Run: func(t *mc.T) {
			run(t, k)
			if t.Outcomes == nil {
				t.Outcomes = map[uint64]bool{}
			}
			t.Outcomes[uint64(t.States)] = true
		}})
	}
	return r
}

func g01() *mc.Property {
	return &mc.Property{ID: "G01",
		Assumptions: []string{"the effective configuration is what --dump all prints, in which empty values are left out; G03 and G04 tie it to what the service does", "environment values are given in the documented upper case"},
		Bounds: func(th bool) string {
			return fmt.Sprintf("%d settings; every placement (absent, file, environment, both) of every single one and every pair%s; all of them at once from each source; scalars in every YAML notation; lists of up to 3 ICE servers with every subset of fields from file and environment; %d difficult strings for every text setting in file and environment; every default location of the file", len(settings), map[bool]string{true: " and every triple", false: ""}[th], len(nasty))
		},
		Tasks: func(th bool) []mc.Task {
			var r []mc.Task
			r = append(r, chunks(8, "G01/pairs", func(t *mc.T, k int) {
				n := 0
				for i := range settings {
					for j := i; j < len(settings); j++ {
						if n++; n%8 != k {
							continue
						}
						for w := 0; w < 16; w++ {
							if i == j && w > 3 {
								break
							}
							l, where := []setting{settings[i], settings[j]}, []int{w & 3, w >> 2}
							if i == j {
								l, where = l[:1], where[:1]
							}
							v, want := placed(l, where)
							if !v.expect(t, want) || t.Expired() {
								return
							}
						}
					}
				}
			})...)
			if th {
				r = append(r, chunks(32, "G01/triples", func(t *mc.T, k int) {
					n := 0
					for i := range settings {
						for j := i + 1; j < len(settings); j++ {
							for h := j + 1; h < len(settings); h++ {
								if n++; n%32 != k {
									continue
								}
								for w := 0; w < 27; w++ {
									v, want := placed([]setting{settings[i], settings[j], settings[h]}, []int{1 + w%3, 1 + w/3%3, 1 + w/9})
									if !v.expect(t, want) || t.Expired() {
										return
									}
								}
							}
						}
					}
				})...)
			}
			r = append(r, chunks(4, "G01/all", func(t *mc.T, k int) {
				// all settings from one source, and all but one
				for skip := -1; skip < len(settings); skip++ {
					var l []setting
					var where []int
					for i, s := range settings {
						if i != skip {
							l = append(l, s)
							where = append(where, k)
						}
					}
					v, want := placed(l, where)
					if !v.expect(t, want) {
						return
					}
				}
			})...)
			r = append(r, chunks(4, "G01/notation", notation)...)
			r = append(r, chunks(2, "G01/strings", difficult)...)
			r = append(r, chunks(4, "G01/ice servers", iceServers)...)
			r = append(r, chunks(1, "G01/locations", func(t *mc.T, k int) { locations(t) })...)
			return r
		}}
}

var nasty = []string{"a", " a", "a b", "a=b", "a:b", "a: b", "#a", "a #b", "'", "\"", "\\", "\\n", "ä\u00e9", "世", "\U0001f600", "yes", "no", "null", "~", "true", "1e3", "0x10", "010", "1_0", "2024-01-02", "-", "- a", "[a]", "{a}", "&a", "*a", "!a", "%a", "@a", "`a", "|", ">", ",", "a,b", "$HOME", "${HOME}", "%s", "..", ".", "/", "//", "a.b", "a_b", strings.Repeat("x", 300)}

// difficult strings arrive as they are.
func difficult(t *mc.T, k int) {
	for _, s := range settings {
		if _, ok := s.def.(string); !ok || strings.HasSuffix(s.path, "Mode") {
			continue
		}
		for _, str := range nasty {
			s := s
			s.vals = []any{str, str}
			v, want := placed([]setting{s}, []int{1 + k})
			if !v.expect(t, want) {
				return
			}
		}
	}
}

// notation: the ways to write a scalar in YAML.
func notation(t *mc.T, k int) {
	for i, s := range settings {
		if i%4 != k {
			continue
		}
		for _, val := range append(append([]any{}, s.vals...), s.def) {
			var forms []string
			switch v := val.(type) {
			case bool:
				forms = []string{fmt.Sprint(v), strings.ToUpper(fmt.Sprint(v)), fmt.Sprintf("%q", fmt.Sprint(v)), fmt.Sprintf("'%v'", v)}
			case int:
				forms = []string{fmt.Sprint(v), fmt.Sprintf("%q", fmt.Sprint(v)), fmt.Sprintf("'%v'", v), fmt.Sprintf("0x%x", v), fmt.Sprintf("!!int %d", v), fmt.Sprintf("%d # comment", v)}
			case string:
				q, _ := json.Marshal(v)
				forms = []string{string(q), "'" + strings.ReplaceAll(v, "'", "''") + "'", "!!str " + string(q)}
				if strings.HasSuffix(s.path, "Mode") {
					n, _ := strconv.ParseUint(v, 8, 32)
					forms = append(forms, v, "0o"+strings.TrimLeft(v, "0"), fmt.Sprint(n))
				}
			}
			f := strings.Split(s.path, ".")
			for _, form := range forms {
				var b strings.Builder
				for d, key := range f {
					fmt.Fprintf(&b, "%s%s:", strings.Repeat("  ", d), key)
					if d < len(f)-1 {
						b.WriteString("\n")
					} else {
						b.WriteString(" " + form + "\n")
					}
				}
				flow := strings.Join(f, ": {") + ": " + strings.TrimSuffix(form, " # comment") + strings.Repeat("}", len(f)-1) + "\n"
				for _, text := range []string{b.String(), "---\n# x\n" + b.String() + "...\n", flow, strings.ReplaceAll(b.String(), "\n", "\r\n")} {
					want := defaults()
					want.set(s.path, val)
					v := invocation{args: []string{"--dump=all", "--config", filepath.Join(home(), "c.yml")}, name: "c.yml", file: text}
					if !v.expect(t, want) {
						return
					}
				}
			}
		}
	}
}

// iceServers: lists of servers.
func iceServers(t *mc.T, k int) {
	type srv map[string]any
	var alts []srv
	for m := 0; m < 4; m++ {
		for _, urls := range [][]any{{}, {"stun:a:1"}, {"turn:b:2", "turns:c:3?transport=tcp"}} {
			s := srv{"urls": urls}
			if m&1 != 0 {
				s["username"] = "u:1"
			}
			if m&2 != 0 {
				s["credential"] = "c#2"
			}
			alts = append(alts, s)
		}
	}
	var lists [][]srv
	lists = append(lists, nil)
	for _, a := range alts {
		lists = append(lists, []srv{a})
		for _, b := range alts {
			lists = append(lists, []srv{a, b})
		}
	}
	lists = append(lists, []srv{alts[1], alts[11], alts[5]})
	for i, l := range lists {
		if i%4 != k {
			continue
		}
		var list []any
		env := map[string]string{}
		ok := len(l) > 0
		for n, s := range l {
			list = append(list, map[string]any(s))
			for key, v := range s {
				name := fmt.Sprintf("BBBRECORDER_WEBRTC_ICESERVERS_%d_%s", n, strings.ToUpper(key))
				if u, is := v.([]any); is {
					var w []string
					for _, e := range u {
						w = append(w, e.(string))
					}
					env[name] = strings.Join(w, ",")
					ok = ok && len(w) > 0
				} else {
					env[name] = v.(string)
				}
			}
		}
		want := defaults()
		f := tree{}
		if list != nil {
			want.set("webrtc.iceServers", list)
			f.set("webrtc.iceServers", list)
		}
		f.set("webrtc.rtcMinPort", 24577)
		v := invocation{args: []string{"--dump=all", "-c", filepath.Join(home(), "c.yml")}, name: "c.yml", file: f.yaml()}
		if !v.expect(t, want) {
			return
		}
		if ok {
			// from the environment alone, and over a list in the file
			v.file = "webrtc:\n  iceServers:\n    - urls: [\"stun:old\"]\n      credential: old\n"
			v.env = env
			if !v.expect(t, want) {
				return
			}
			v.name = ""
			if !v.expect(t, want) {
				return
			}
		}
	}
}

// locations: where the file is looked for.
func locations(t *mc.T) {
	for _, name := range []string{"", appName + ".yml", appName + ".yaml", ".config/" + appName + ".yml", ".config/" + appName + ".yaml", "c.yml", "sub/dir/x.conf.yml"} {
		for _, args := range [][]string{nil, {"-c", "./c.yml"}, {"-c", "sub/../c.yml"}, {"--config=sub/dir/x.conf.yml"}} {
			for _, over := range []bool{false, true} {
				v := invocation{args: append([]string{"--dump", "all"}, args...), name: name, file: "http: {port: 1}\nlivekit: {host: ws://file}\n", env: map[string]string{}}
				want := defaults()
				found := name != ""
				if len(args) > 0 {
					p := filepath.Clean(strings.TrimPrefix(args[len(args)-1], "--config="))
					found = p == name
					if name != "c.yml" && name != "sub/dir/x.conf.yml" && name != "" {
						continue // whether a missing file falls back is not decided here
					}
				} else if name == "c.yml" || name == "sub/dir/x.conf.yml" {
					found = false
				}
				if found {
					want.set("http.port", 1)
					want.set("livekit.host", "ws://file")
				}
				if over {
					v.env["BBBRECORDER_HTTP_PORT"] = "2"
					want.set("http.port", 2)
				}
				v.env["OTHER_HTTP_PORT"] = "3"
				v.env["BBBRECORDERHTTP_PORT"] = "4"
				if !v.expect(t, want) {
					return
				}
				os.Unsetenv("OTHER_HTTP_PORT")
				os.RemoveAll(filepath.Join(home(), "sub"))
			}
		}
	}
}

var _ = lib.Dir
