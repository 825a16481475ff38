package props

import (
	"fmt"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/lib"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/mc"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
)

// machine is a real object next to a reference model, driven by numbered
// operations. A fresh one is built and the operations of a path applied to
// reach a state; states with equal keys are expanded once.
type machine struct {
	fresh func()
	ops   int
	apply func(op int) string // returns what went wrong
	key   func() string
	label func(op int) string
	depth int
}

func (m machine) path(p []byte) string {
	s := ""
	for i, o := range p {
		if i > 0 {
			s += " "
		}
		s += m.label(int(o))
	}
	return s
}

// search explores all reachable states breadth-first to the depth.
func (m machine) search(t *mc.T, name string) {
	var path []byte
	was := t.Transitions
	e := vsched.Run(vsched.Options{Horizon: 1 << 60, MaxSteps: 20000000, NoSyncPts: true}, nil, func() {
		seen := map[[2]uint64]bool{}
		m.fresh()
		seen[lib.Hash(m.key())] = true
		t.States++
		level := [][]byte{{}}
		for d := 0; d < m.depth && len(level) > 0; d++ {
			var next [][]byte
			for i, p := range level {
				if i%256 == 0 && t.Expired() {
					t.Incomplete = fmt.Sprintf("%s: time limit at depth %d of %d", name, d, m.depth)
					return
				}
				for op := 0; op < m.ops; op++ {
					vsched.SetNow(0)
					m.fresh()
					path = append(append(path[:0], p...), byte(op))
					bad := ""
					for k, o := range path {
						if bad = m.apply(int(o)); bad != "" {
							path = path[:k+1]
							break
						}
					}
					t.Transitions++
					if bad != "" {
						t.Fail("%s: %s; operations: %s", name, bad, m.path(path))
						return
					}
					h := lib.Hash(m.key())
					if !seen[h] {
						seen[h] = true
						t.States++
						next = append(next, append([]byte(nil), path...))
					}
				}
			}
			level = next
		}
		if len(level) > 0 {
			t.Sample(fmt.Sprintf("%s: depth %d, frontier %d, e.g. %s", name, m.depth, len(level), m.path(level[len(level)/2])))
		} else {
			t.Sample(fmt.Sprintf("%s: all reachable states", name))
		}
	})
	t.Traces += t.Transitions - was
	if p := e.Problem(); p != "" && !t.Failed() {
		t.Fail("%s: %s; operations: %s", name, p, m.path(path))
	}
	if t.Outcomes == nil {
		t.Outcomes = map[uint64]bool{}
	}
	t.Outcomes[uint64(t.States)] = true
}

// enumerate runs a complete loop inside an execution.
func enumerate(t *mc.T, name string, f func() string) {
	e := vsched.Run(vsched.Options{Horizon: 1 << 60, MaxSteps: 20000000, NoSyncPts: true}, nil, func() {
		if bad := f(); bad != "" {
			t.Fail("%s: %s", name, bad)
		}
	})
	if p := e.Problem(); p != "" && !t.Failed() {
		t.Fail("%s: %s", name, p)
	}
	if t.Outcomes == nil {
		t.Outcomes = map[uint64]bool{}
	}
	t.Outcomes[uint64(t.States)] = true
}

var _ = time.Second
