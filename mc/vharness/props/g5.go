package props

import (
	"bytes"
	"fmt"
	"path/filepath"
	"strings"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/mc"
)

// ---------------------------------------------------------------------
// G05: asking the program what it is

// argument is an argument and what it switches on (or, after a minus, off):
// h for help, v for the version.
type argument struct {
	args []string
	asks string
}

var arguments = []argument{
	{[]string{"--help"}, "h"}, {[]string{"-h"}, "h"}, {[]string{"--help=true"}, "h"},
	{[]string{"--version"}, "v"}, {[]string{"-v"}, "v"}, {[]string{"--version=1"}, "v"},
	{[]string{"-vh"}, "vh"}, {[]string{"-hv"}, "vh"}, {[]string{"--help=false"}, "-h"}, {[]string{"--version=false"}, "-v"},
	{[]string{"--config", "c.yml"}, ""}, {[]string{"-c", "c.yml"}, ""}, {[]string{"--config=c.yml"}, ""}, {[]string{"-vc", "c.yml"}, "v"},
	{[]string{"--dump", "recorder.directory"}, ""}, {[]string{"--dump=all"}, ""}, {[]string{"operand"}, ""},
}

func g05() *mc.Property {
	n := func(th bool) int { return bnd(th, 3, 4) }
	files := []string{"", "recorder:\n  directory: /x\n", "recorder: [\n", "http:\n  enable: true\nprometheus:\n  enable: true\n"}
	return &mc.Property{ID: "G05",
		Assumptions: []string{"arguments are parsed by the real pflag library; unknown ones, on which it exits, are not tried"},
		Bounds: func(th bool) string {
			return fmt.Sprintf("every sequence of up to %d of %d arguments that ends up asking for help or the version, times %d configuration files (absent, good, broken, with everything enabled) and 2 environments", n(th), len(arguments), len(files))
		},
		Tasks: func(th bool) []mc.Task {
			return chunks(32, "G05/arguments", func(t *mc.T, k int) {
				i := 0
				for f, file := range files {
					for _, env := range []map[string]string{nil, {"BBBRECORDER_HTTP_ENABLE": "true", "BBBRECORDER_WEBRTC_RTCMINPORT": "x"}} {
						var seq []argument
						var walk func() bool
						walk = func() bool {
							if i++; i%32 == k && !ask(t, seq, file, f > 0, env) || t.Expired() {
								return false
							}
							if len(seq) == n(th) {
								return true
							}
							for _, a := range arguments {
								seq = append(seq, a)
								ok := walk()
								seq = seq[:len(seq)-1]
								if !ok {
									return false
								}
							}
							return true
						}
						if !walk() {
							return
						}
					}
				}
			})
		}}
}

// ask runs the program with arguments and checks its answer.
func ask(t *mc.T, seq []argument, file string, has bool, env map[string]string) bool {
	v := invocation{env: env, file: file, usage: &bytes.Buffer{}}
	if has {
		v.name = "c.yml"
	}
	var help, version bool
	for _, a := range seq {
		for _, s := range a.args {
			v.args = append(v.args, strings.Replace(s, "c.yml", filepath.Join(home(), "c.yml"), 1))
		}
		on := !strings.HasPrefix(a.asks, "-")
		if strings.Contains(a.asks, "h") {
			help = on
		}
		if strings.Contains(a.asks, "v") {
			version = on
		}
	}
	if !help && !version {
		return true
	}
	code, out := v.once()
	t.States++
	t.Transitions += int64(len(v.args))
	t.Traces++
	name := internal.AppName + " " + internal.AppVersion
	isVersion := strings.TrimSpace(out) == name
	isHelp := strings.Contains(out, name)
	missing := ""
	for _, o := range []string{"-c, --config", "--dump", "-h, --help", "-v, --version"} {
		if !strings.Contains(v.usage.String()+out, o) {
			isHelp, missing = false, o
		}
	}
	switch {
	case code != 0:
		t.Fail("G05: asked for help or the version: exit %d, %.200s; %v", code, out, v)
	case !help && !isVersion:
		t.Fail("G05: asked for the version, it prints %q instead of %q; %v", out, name, v)
	case !version && !isHelp:
		t.Fail("G05: asked for help, it prints %q without %q or %q; %v", out, name, missing, v)
	case !isVersion && !isHelp:
		t.Fail("G05: asked for help and the version, it prints neither but %q; %v", out, v)
	default:
		return true
	}
	return false
}

func init() { mc.Register(g05()) }
