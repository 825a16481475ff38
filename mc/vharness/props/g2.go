package props

import (
	"fmt"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/mc"
	"gopkg.in/yaml.v3"
)

// ---------------------------------------------------------------------
// G02

// paths lists every path of a tree with the value there.
func paths(v any, at string, f func(path string, v any)) {
	switch v := v.(type) {
	case map[string]any:
		var l []string
		for k := range v {
			l = append(l, k)
		}
		sort.Strings(l)
		for _, k := range l {
			f(at+k, v[k])
			paths(v[k], at+k+".", f)
		}
	case []any:
		for i, e := range v {
			f(at+strconv.Itoa(i), e)
			paths(e, at+strconv.Itoa(i)+".", f)
		}
	}
}

// find is the value at a path.
func find(v any, path string) (any, bool) {
	for _, k := range strings.Split(path, ".") {
		switch t := v.(type) {
		case map[string]any:
			e, ok := t[k]
			if !ok {
				return nil, false
			}
			v = e
		case []any:
			i, err := strconv.Atoi(k)
			if err != nil || i < 0 || i >= len(t) || strconv.Itoa(i) != k {
				return nil, false
			}
			v = t[i]
		default:
			return nil, false
		}
	}
	return v, true
}

// mutants are the one-step changes of a path.
func mutants(p string) []string {
	f := strings.Split(p, ".")
	last := f[len(f)-1]
	head := strings.TrimSuffix(p, last)
	r := []string{p + ".", "." + p, p + ".0", p + ".1", p + ".-1", p + ".x", p + ".." + last, p + "x", p + " ", " " + p, head + "x" + last, head + "-1", head + "99", head + "9223372036854775808", head + "-9223372036854775808",
		strings.ReplaceAll(p, ".", "/"), strings.ToUpper(p), p + "." + last, head + "*", head + "1e0", head + "0x0", head + "[0]", head + "null"}
	if len(last) > 1 {
		r = append(r, head+last[1:], head+last[:len(last)-1], head+strings.ToUpper(last[:1])+last[1:])
	}
	if head != "" {
		r = append(r, last, strings.TrimSuffix(head, "."))
	}
	if n, err := strconv.Atoi(last); err == nil {
		r = append(r, head+strconv.Itoa(n+1), head+strconv.Itoa(n+2), head+"-"+strconv.Itoa(n+1))
	}
	return r
}

func g02() *mc.Property {
	full := func() (invocation, tree) {
		var where []int
		for i := range settings {
			where = append(where, 1+i%2)
		}
		v, want := placed(settings, where)
		want.set("webrtc.iceServers", []any{
			map[string]any{"urls": []any{"stun:a:1", "stun:b:2"}},
			map[string]any{"urls": []any{"turn:c:3"}, "username": "u", "credential": "1"},
			map[string]any{"username": "0x1f"},
		})
		f := tree{}
		var m map[string]any
		yaml.Unmarshal([]byte(v.file), &m)
		for k, e := range m {
			f[k] = e
		}
		ice, _ := find(map[string]any(want), "webrtc.iceServers")
		f.set("webrtc.iceServers", ice)
		v.file = f.yaml()
		return v, want
	}
	configs := func(th bool) []func() (invocation, tree) {
		r := []func() (invocation, tree){
			full,
			func() (invocation, tree) { return placed(nil, nil) },
			func() (invocation, tree) { return placed(settings, make([]int, len(settings))) },
		}
		for _, w := range []int{1, 2, 3} {
			w := w
			r = append(r, func() (invocation, tree) {
				var where []int
				for range settings {
					where = append(where, w)
				}
				return placed(settings, where)
			})
		}
		if th {
			for i := range settings {
				i := i
				r = append(r, func() (invocation, tree) { return placed(settings[i:i+1], []int{1 + i%3}) })
			}
		}
		return r
	}
	one := func(t *mc.T, v invocation, want tree, p string) bool {
		exp, ok := find(map[string]any(want), p)
		exp = clean(exp)
		v.args = []string{"--dump", p}
		if strings.HasPrefix(p, "-") {
			v.args = []string{"--dump=" + p}
		}
		if v.name != "" {
			v.args = append(v.args, "-c", filepath.Join(home(), v.name))
		}
		code, out := v.once()
		t.States++
		t.Transitions++
		t.Traces++
		var got any
		switch {
		case code != 0 && code != 1:
			t.Fail("G02: --dump %q: exit %d: %.300s; %v", p, code, out, v)
		case !ok && (code == 0 || out != ""):
			t.Fail("G02: --dump %q, which does not exist, exits with %d and prints %.100q; %v", p, code, out, v)
		case ok && exp != nil && code != 0:
			t.Fail("G02: --dump %q exits with %d instead of printing %v; %v", p, code, exp, v)
		case ok:
			if err := yaml.Unmarshal([]byte(out), &got); err != nil {
				t.Fail("G02: --dump %q prints %.100q: %v; %v", p, out, err, v)
			} else if c := clean(got); !reflect.DeepEqual(c, exp) && !sameMode(p, c, exp) {
				t.Fail("G02: --dump %q prints %.200q instead of %v; %v", p, out, exp, v)
			}
		}
		return !t.Failed()
	}
	return &mc.Property{ID: "G02",
		Assumptions: []string{"empty values (false, 0, empty text or list) may be printed or reported as absent"},
		Bounds: func(th bool) string {
			return fmt.Sprintf("%d configurations from file and environment (defaults, everything set, lists of servers); every path into each and about 25 changes of one step of every path; the help and version arguments", len(configs(th)))
		},
		Tasks: func(th bool) []mc.Task {
			var r []mc.Task
			for ci, c := range configs(th) {
				ci, c := ci, c
				n := 1
				if ci == 0 {
					n = 4
				}
				r = append(r, chunks(n, fmt.Sprintf("G02/configuration %d", ci), func(t *mc.T, k int) {
					v, want := c()
					seen := map[string]bool{}
					i := 0
					paths(map[string]any(want), "", func(p string, e any) {
						for _, q := range append([]string{p}, mutants(p)...) {
							if q == "" || q == "all" || seen[q] {
								continue
							}
							seen[q] = true
							if i++; i%n == k && !t.Failed() && !t.Expired() {
								one(t, v, want, q)
							}
						}
					})
				})...)
			}
			r = append(r, mc.Task{Name: "G02/other arguments", Run: func(t *mc.T) {
				for _, args := range [][]string{{"-h"}, {"--help"}, {"-v"}, {"--version"}, {"--help", "-c", "nowhere"}, {"-v", "-c", "nowhere"}} {
					v := invocation{args: args, env: map[string]string{"BBBRECORDER_HTTP_ENABLE": "true"}}
					code, out := v.once()
					t.States++
					t.Traces++
					if code != 0 || !strings.Contains(out, appName) {
						t.Fail("G02: %v exits with %d and prints %.100q", args, code, out)
					}
				}
				for _, bad := range []string{"a: [", "nonsense: 1\nhttp: {nonsense: 1}", "http: {port: x}", "webrtc: {rtcMinPort: 65536}", "\t", "http: {enable: perhaps}"} {
					v := invocation{args: []string{"--dump", "all", "-c", filepath.Join(home(), "c.yml")}, name: "c.yml", file: bad}
					code, out := v.once()
					t.States++
					t.Traces++
					if code <= 0 || out != "" {
						t.Fail("G02: the dump of the malformed configuration %q exits with %d and prints %.100q", bad, code, out)
					}
				}
				t.Outcomes = map[uint64]bool{uint64(t.States): true}
			}})
			return r
		}}
}

// sameMode: modes may be printed in any base.
func sameMode(p string, a, b any) bool {
	m := func(s any) (string, bool) {
		n, err := strconv.ParseUint(fmt.Sprint(s), 0, 32)
		return fmt.Sprint(n), err == nil
	}
	if strings.HasSuffix(p, "Mode") {
		x, ok1 := m(a)
		y, ok2 := m(b)
		return ok1 && ok2 && x == y
	}
	if p == "recorder" {
		x, ok1 := a.(map[string]any)
		y, ok2 := b.(map[string]any)
		if !ok1 || !ok2 {
			return false
		}
		return differ(mustYAML(map[string]any{"recorder": x}), map[string]any{"recorder": y}) == ""
	}
	return false
}

func mustYAML(v any) string {
	b, err := yaml.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func init() {
	mc.Register(g01())
	mc.Register(g02())
}
