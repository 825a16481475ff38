package props

import (
	"context"
	"fmt"
	"sort"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/lib"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/mc"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vtime"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/utils"
	"github.com/pion/rtcp"
	"github.com/pion/rtp"
)

var assumeSeq = []string{"objects are driven through their methods one call at a time, as their users' locking makes sure"}

// ---------------------------------------------------------------------

func c01() *mc.Property {
	type st struct {
		u       *utils.SequenceUnwrapper
		first   int64
		high    int64 // true highest
		off     int64
		shifted bool
		results map[int64]int64
	}
	mk := func(base int, start int64, deltas []int64, depth int, top int64) machine {
		var s *st
		size := int64(1) << base
		feed := func(truth int64) string {
			n := ((truth % size) + size) % size
			r := s.u.Unwrap(uint64(n))
			if r < 0 {
				return fmt.Sprintf("number %d unwrapped to %d", n, r)
			}
			if truth < s.first && truth+s.off <= 0 && !s.shifted && r == truth+s.off+size {
				s.off += size
				s.shifted = true
			}
			if r != truth+s.off {
				return fmt.Sprintf("number %d (truly %d) unwrapped to %d, expected %d", n, truth, r, truth+s.off)
			}
			if truth > s.high {
				s.high = truth
			}
			return ""
		}
		return machine{
			depth: depth, ops: len(deltas),
			fresh: func() {
				s = &st{u: utils.NewSequenceUnwrapper(base), first: start, high: start}
				if bad := feed(start); bad != "" {
					fail("%s", bad)
				}
			},
			apply: func(op int) string {
				t := s.high + deltas[op]
				if t > top {
					return ""
				}
				return feed(t)
			},
			key:   func() string { return lib.Key(s, time.Time{}, 0) },
			label: func(op int) string { return fmt.Sprintf("%+d", deltas[op]) },
		}
	}
	return &mc.Property{ID: "C01", Assumptions: assumeSeq,
		Bounds: func(th bool) string {
			return fmt.Sprintf("base 3 to %d: every state reachable by any sequence of distances below half the range, from every first number, up to %d wrap-arounds; base 16: all sequences of %d distances out of 23 from 12 first numbers", bnd(th, 5, 7), bnd(th, 4, 6), bnd(th, 4, 5))
		},
		Tasks: func(th bool) []mc.Task {
			var r []mc.Task
			for b := 3; b <= bnd(th, 5, 7); b++ {
				b := b
				r = append(r, mc.Task{Name: fmt.Sprintf("C01/base %d", b), Run: func(t *mc.T) {
					var d []int64
					for k := int64(1); k < 1<<(b-1); k++ {
						d = append(d, k, -k)
					}
					d = append(d, 0)
					for start := int64(0); start < 1<<b && !t.Failed(); start++ {
						mk(b, start, d, 1<<20, int64(bnd(th, 4, 6))<<b).search(t, fmt.Sprintf("base %d from %d", b, start))
					}
				}})
			}
			d16 := []int64{1, 2, 3, 100, 1000, 16383, 16384, 16385, 32000, 32766, 32767, 0, -1, -2, -3, -100, -1000, -16384, -16385, -32000, -32765, -32766, -32767}
			for _, start := range []int64{0, 1, 2, 99, 32766, 32767, 32768, 32769, 40000, 65534, 65535, 16384} {
				start := start
				r = append(r, mc.Task{Name: fmt.Sprintf("C01/base 16 from %d", start), Run: func(t *mc.T) {
					mk(16, start, d16, bnd(th, 4, 5), 1<<40).search(t, fmt.Sprintf("base 16 from %d", start))
				}})
			}
			// Long runs: many wrap-arounds at every stride.
			r = append(r, mc.Task{Name: "C01/long", Run: func(t *mc.T) {
				enumerate(t, "long", func() string {
					for _, stride := range []int64{1, 7, 255, 256, 16384, 20000, 32767} {
						for _, back := range []int64{0, 1, 5, 1000, 32767} {
							vsched.SetNow(0)
							u := utils.NewSequenceUnwrapper(16)
							truth, off := int64(50000), int64(0)
							u.Unwrap(uint64(truth))
							for truth < 20*65536 {
								truth += stride
								if r := u.Unwrap(uint64(truth & 0xffff)); r != truth+off {
									return fmt.Sprintf("stride %d: %d unwrapped to %d, truly %d", stride, truth&0xffff, r, truth)
								}
								late := truth - back
								if late > 0 {
									if r := u.Unwrap(uint64(late & 0xffff)); r != late+off {
										return fmt.Sprintf("stride %d: late %d unwrapped to %d, truly %d", stride, late&0xffff, r, late)
									}
								}
								t.States++
								if t.States%10000 == 0 {
									vsched.SetNow(0)
								}
							}
						}
					}
					return ""
				})
			}})
			return r
		}}
}

// ---------------------------------------------------------------------

// jbWorld drives a jitter buffer next to a model of it.
type jbWorld struct {
	jb      *utils.JitterBuffer
	size    int64
	timeout time.Duration
	// model
	started bool
	newest  int64
	next    int64 // first number not delivered, given up on or passed by the window
	have    map[int64]uint32
	waitAt  time.Duration // since when next has been waited for; -1: not yet
	last    int64         // newest delivered
	ids     uint32
	now     time.Duration
	lost    []int64 // given up on, not yet reported
}

func (w *jbWorld) slide() {
	if lo := w.newest - w.size + 1; w.next < lo {
		w.next = lo
		w.waitAt = -1
	}
	for s := range w.have {
		if s < w.next {
			delete(w.have, s)
		}
	}
}

func (w *jbWorld) add(seq int64) string {
	if seq < 0 {
		return ""
	}
	w.ids++
	p := &rtp.Packet{Header: rtp.Header{SequenceNumber: uint16(seq), SSRC: w.ids}}
	got := w.jb.Add(seq, p)
	if !w.started {
		if !got {
			return "the first packet is rejected"
		}
		w.started, w.newest, w.next, w.last, w.waitAt = true, seq, seq, seq-1, -1
		w.have[seq] = w.ids
		return ""
	}
	_, dup := w.have[seq]
	switch {
	case seq > w.newest:
		if !got {
			return fmt.Sprintf("new packet %d is rejected", seq)
		}
		w.newest = seq
		if seq >= w.next {
			w.have[seq] = w.ids
		}
		w.slide()
	case dup || seq < w.next:
		// nothing changes, whatever the buffer says
	default:
		if !got {
			return fmt.Sprintf("missing packet %d within the window is rejected", seq)
		}
		w.have[seq] = w.ids
	}
	return ""
}

// take compares a delivery with what the model demands.
func (w *jbWorld) take() string {
	pkts, skipped := w.jb.NextPackets()
	gave := false
	for w.started && w.next <= w.newest {
		if _, ok := w.have[w.next]; ok {
			break
		}
		if w.waitAt < 0 {
			w.waitAt = w.now // waited for from now on
			break
		}
		if w.now-w.waitAt < w.timeout {
			break
		}
		w.lost = append(w.lost, w.next)
		gave = true
		w.next++
		w.waitAt = -1
	}
	var want []int64
	for w.started && w.next <= w.newest {
		if _, ok := w.have[w.next]; !ok {
			break
		}
		want = append(want, w.next)
		w.next++
		w.waitAt = -1
	}
	if len(pkts) != len(want) {
		return fmt.Sprintf("%d packets delivered, expected %v", len(pkts), want)
	}
	for i, p := range pkts {
		if p == nil {
			return fmt.Sprintf("a hole is delivered for %d", want[i])
		}
		if uint16(want[i]) != p.SequenceNumber || p.SSRC != w.have[want[i]] {
			return fmt.Sprintf("packet %d (number %d of those added) delivered where %d (number %d) is due", p.SequenceNumber, p.SSRC, want[i], w.have[want[i]])
		}
		if want[i] <= w.last {
			return fmt.Sprintf("%d delivered after %d", want[i], w.last)
		}
		w.last = want[i]
		delete(w.have, want[i])
	}
	if skipped != gave {
		return fmt.Sprintf("delivery says skipped=%v, expected %v", skipped, gave)
	}
	return ""
}

// report compares the give-ups reported with the model's.
func (w *jbWorld) report() string {
	n, ok := w.jb.GetAndClearLastSkipped()
	if !ok && len(w.lost) == 0 {
		return ""
	}
	if ok && len(w.lost) == 0 {
		return fmt.Sprintf("giving up on %d is reported, but nothing was given up on", n)
	}
	l := w.lost[len(w.lost)-1]
	w.lost = nil
	if !ok {
		return fmt.Sprintf("giving up on %d is not reported", l)
	}
	if n != l {
		return fmt.Sprintf("giving up on %d is reported instead of %d", n, l)
	}
	return ""
}

func (w *jbWorld) skip(seq int64) {
	front := seq == w.next
	w.jb.SkipPacket(seq)
	if w.started && front {
		delete(w.have, seq)
		w.lost = append(w.lost, seq)
		w.next++
		w.waitAt = -1
	}
}

func (w *jbWorld) jump(n int64) {
	w.jb.SetNextPacketsStart(n)
	if w.next < n {
		for s := range w.have {
			if s < n {
				delete(w.have, s)
			}
		}
		w.next = n
		w.waitAt = -1
	}
}

func (w *jbWorld) key() string {
	m := *w
	age := m.now - m.waitAt
	if m.waitAt < 0 {
		age = -1
	} else if age > m.timeout {
		age = m.timeout
	}
	// packet identities matter only by being equal or not
	var ks []int64
	for s := range m.have {
		ks = append(ks, s)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return fmt.Sprint(lib.Key(w.jb, vtime.Base().Add(w.now), w.timeout), m.started, m.newest, m.next, ks, age, m.last, m.lost)
}

func jbMachine(size int64, first int64, timeout time.Duration, depth int, timed bool) machine {
	var w *jbWorld
	type op struct {
		name string
		f    func() string
	}
	var ops []op
	rel := []int64{1, 2, 3, size - 1, size, size + 1, 2 * size, 0, -1, -2, -3, 1 - size, -size, -size - 1}
	if timed {
		rel = []int64{1, 2, 3, size, -1, -2, -3}
	}
	seen := map[int64]bool{}
	for _, d := range rel {
		d := d
		if seen[d] {
			continue
		}
		seen[d] = true
		ops = append(ops, op{fmt.Sprintf("add(newest%+d)", d), func() string {
			if !w.started {
				return w.add(first + d + 3)
			}
			return w.add(w.newest + d)
		}})
	}
	ops = append(ops, op{"next", func() string {
		if bad := w.take(); bad != "" {
			return bad
		}
		return w.report()
	}})
	ops = append(ops, op{"skip", func() string {
		if !w.started || w.next != w.jb.GetNextStart() {
			if w.started {
				return fmt.Sprintf("the buffer waits for %d, expected %d", w.jb.GetNextStart(), w.next)
			}
			return ""
		}
		if _, ok := w.have[w.next]; ok {
			return "" // only missing packets are given up on
		}
		w.skip(w.next)
		return w.report()
	}})
	if !timed {
		ops = append(ops, op{"skip another", func() string { w.skip(w.next + 1); return w.report() }})
		ops = append(ops, op{"start at +2", func() string {
			if w.started {
				w.jump(w.next + 2)
			}
			return ""
		}})
	} else {
		for _, d := range []time.Duration{timeout / 2, timeout - time.Nanosecond, timeout, b2d(timeout == 0)} {
			d := d
			if d <= 0 {
				continue
			}
			ops = append(ops, op{fmt.Sprintf("wait %s", d), func() string {
				w.now += d
				vsched.SetNow(w.now)
				return ""
			}})
		}
	}
	return machine{
		depth: depth, ops: len(ops),
		fresh: func() {
			w = &jbWorld{jb: utils.NewJitterBuffer(uint16(size), uint16(timeout/time.Millisecond), context.Background()), size: size, timeout: timeout, have: map[int64]uint32{}, waitAt: -1}
			w.add(first)
		},
		apply: func(o int) string { return ops[o].f() },
		key:   func() string { return w.key() },
		label: func(o int) string { return ops[o].name },
	}
}

func c02() *mc.Property {
	return &mc.Property{ID: "C02", Assumptions: assumeSeq,
		Bounds: func(th bool) string {
			return fmt.Sprintf("buffers of 1 to 6 packets (and 512): every state reachable in %d operations (add at up to 14 distances from the newest, deliver, skip, move the start) from first numbers 0, 1, 7, 65534", bnd(th, 6, 8))
		},
		Tasks: func(th bool) []mc.Task {
			var r []mc.Task
			for _, size := range []int64{4, 5, 3, 2, 1, 6} {
				for _, first := range []int64{7, 0, 1, 65534} {
					size, first := size, first
					d := bnd(th, 6, 8)
					if first != 7 && first != 0 {
						d--
					}
					r = append(r, mc.Task{Name: fmt.Sprintf("C02/size %d from %d", size, first), Run: func(t *mc.T) {
						jbMachine(size, first, time.Minute, d, false).search(t, fmt.Sprintf("size %d from %d", size, first))
					}})
				}
			}
			r = append(r, mc.Task{Name: "C02/size 512", Run: func(t *mc.T) {
				jbMachine(512, 65530, time.Minute, bnd(th, 4, 5), false).search(t, "size 512 from 65530")
			}})
			return r
		}}
}

func c03() *mc.Property {
	return &mc.Property{ID: "C03", Assumptions: append([]string{"give-ups are collected after every delivery, as the adapters do"}, assumeSeq...),
		Bounds: func(th bool) string {
			return fmt.Sprintf("buffers of 3 to 5 packets, timeouts 1 ms, 200 ms, 500 ms and 0: every state reachable in %d operations (add at 7 distances, deliver, skip, wait half the timeout, just less than it, all of it)", bnd(th, 8, 10))
		},
		Tasks: func(th bool) []mc.Task {
			var r []mc.Task
			for _, size := range []int64{4, 5, 3} {
				for _, to := range []time.Duration{200 * ms, 1 * ms, 500 * ms, 0} {
					for _, first := range []int64{7, 65534} {
						size, to, first := size, to, first
						r = append(r, mc.Task{Name: fmt.Sprintf("C03/size %d timeout %s from %d", size, to, first), Run: func(t *mc.T) {
							jbMachine(size, first, to, bnd(th, 8, 10)-b2i(first != 7 || to != 200*ms), true).search(t, fmt.Sprintf("size %d timeout %s from %d", size, to, first))
						}})
					}
				}
			}
			return r
		}}
}

// ---------------------------------------------------------------------

func c04() *mc.Property {
	mk := func(size int64, first int64, rel []int64, depth int) machine {
		var l *utils.ReceiveLog
		var newest, lc int64
		set := map[int64]bool{}
		fix := func() {
			if lc < newest-size {
				lc = newest - size
			}
			for lc < newest && set[lc+1] {
				lc++
			}
		}
		add := func(s int64) {
			l.Add(uint16(s))
			if s > newest {
				newest = s
			}
			if s > newest-size {
				set[s] = true
			}
			for k := range set {
				if k <= newest-size {
					delete(set, k)
				}
			}
			fix()
		}
		missing := func(margin int64) []uint16 {
			var r []uint16
			for s := lc + 1; s <= newest-margin; s++ {
				if !set[s] {
					r = append(r, uint16(s))
				}
			}
			return r
		}
		check := func() string {
			for _, margin := range []int64{0, 1, 2, 10, size - 1, size} {
				want := missing(margin)
				got := l.MissingSeqNumbers(uint16(margin))
				same := len(got) == len(want)
				for i := 0; same && i < len(got); i++ {
					same = got[i] == want[i]
				}
				if !same {
					return fmt.Sprintf("missing numbers with margin %d: %v, expected %v (newest %d)", margin, brief(got), brief(want), uint16(newest))
				}
			}
			return ""
		}
		ignore := func(s int64) {
			l.IgnoreSeqNum(uint16(s))
			if s <= newest && s > newest-size {
				set[s] = true
				fix()
			}
		}
		type op struct {
			name string
			f    func()
		}
		var ops []op
		for _, d := range rel {
			d := d
			ops = append(ops, op{fmt.Sprintf("add(newest%+d)", d), func() { add(newest + d) }})
		}
		ops = append(ops, op{"give up on the first missing", func() {
			if m := missing(0); len(m) > 0 {
				s := newest - int64(uint16(newest)-m[0])
				ignore(s)
			}
		}}, op{"give up on the last missing", func() {
			if m := missing(0); len(m) > 0 {
				ignore(newest - int64(uint16(newest)-m[len(m)-1]))
			}
		}}, op{"receive the first missing", func() {
			if m := missing(0); len(m) > 0 {
				add(newest - int64(uint16(newest)-m[0]))
			}
		}}, op{"give up on all missing", func() {
			for _, m := range missing(2) {
				ignore(newest - int64(uint16(newest)-m))
			}
		}}, op{"give up on numbers outside the window", func() {
			for _, d := range []int64{size, size + 1, size + 2, size + 62, size + 65, 2*size + 1, 32767, -1, -2, -64} {
				ignore(newest - d)
			}
		}})
		return machine{
			depth: depth, ops: len(ops),
			fresh: func() {
				l, _ = utils.NewReceiveLog(uint16(size))
				set = map[int64]bool{}
				newest, lc = first, first
				l.Add(uint16(first))
				set[first] = true
			},
			apply: func(o int) string { ops[o].f(); return check() },
			key: func() string {
				var ks []int64
				for k := range set {
					ks = append(ks, k)
				}
				sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
				return fmt.Sprint(lib.Key(l, time.Time{}, 0), newest, lc, ks)
			},
			label: func(o int) string { return ops[o].name },
		}
	}
	return &mc.Property{ID: "C04", Assumptions: assumeSeq,
		Bounds: func(th bool) string {
			return fmt.Sprintf("window 64: every state reachable in %d operations (arrivals at 18 distances from the newest, giving up on first/last/all missing numbers and on numbers outside the window, receiving the first missing), windows 128, 1024, 16384 in %d; first numbers 10, 0, 65530, 65535, 32760; margins 0, 1, 2, 10, window-1, window", bnd(th, 4, 6), bnd(th, 3, 4))
		},
		Tasks: func(th bool) []mc.Task {
			var r []mc.Task
			for _, first := range []int64{65530, 10, 0, 65535, 32760} {
				first := first + 65536*2
				r = append(r, mc.Task{Name: fmt.Sprintf("C04/64 from %d", uint16(first)), Run: func(t *mc.T) {
					rel := []int64{1, 2, 3, 5, 62, 63, 64, 65, 66, 130, 32767, -1, -2, -3, -62, -63, -64, -65}
					mk(64, first, rel, bnd(th, 4, 5)+b2i(th && first == 65530+2*65536)).search(t, fmt.Sprintf("64 from %d", uint16(first)))
				}})
				r = append(r, mc.Task{Name: fmt.Sprintf("C04/64 near from %d", uint16(first)), Run: func(t *mc.T) {
					rel := []int64{1, 2, 3, 64, -1, -2, -3}
					mk(64, first, rel, bnd(th, 6, 7)).search(t, fmt.Sprintf("64 near from %d", uint16(first)))
				}})
				for _, size := range []int64{128, 1024, 16384} {
					size := size
					r = append(r, mc.Task{Name: fmt.Sprintf("C04/%d from %d", size, uint16(first)), Run: func(t *mc.T) {
						rel := []int64{1, 2, 11, 64, 65, size - 1, size, size + 1, 32767, -1, -2, -10, -64, 1 - size, -size}
						mk(size, first, rel, bnd(th, 3, 4)-b2i(size == 16384)).search(t, fmt.Sprintf("%d from %d", size, uint16(first)))
					}})
				}
			}
			return r
		}}
}

func brief(a []uint16) string {
	if len(a) > 20 {
		return fmt.Sprintf("%v... (%d)", a[:20], len(a))
	}
	return fmt.Sprint(a)
}

// ---------------------------------------------------------------------

func unpack(ps []rtcp.NackPair) []uint16 {
	var r []uint16
	for _, p := range ps {
		r = append(r, p.PacketID)
		for i := 0; i < 16; i++ {
			if p.LostPackets>>i&1 == 1 {
				r = append(r, p.PacketID+uint16(i)+1)
			}
		}
	}
	return r
}

func c05() *mc.Property {
	check := func(l []uint16) string {
		in := append([]uint16(nil), l...)
		ps := utils.NackPairs(l)
		for i := range in {
			if l[i] != in[i] {
				return fmt.Sprintf("the list %v was changed", in)
			}
		}
		got := unpack(ps)
		if len(l) == 0 && len(ps) != 0 {
			return "the empty list packs to something"
		}
		same := len(got) == len(l)
		for i := 0; same && i < len(l); i++ {
			same = got[i] == l[i]
		}
		if !same {
			return fmt.Sprintf("%v packs to %v, which is %v", in, ps, got)
		}
		// the repository's own unpacking agrees
		own := utils.NackPairsToSequenceNumbers(ps)
		same = len(own) == len(l)
		for i := 0; same && i < len(l); i++ {
			same = own[i] == l[i]
		}
		if !same {
			return fmt.Sprintf("%v unpacks to %v", ps, own)
		}
		return ""
	}
	return &mc.Property{ID: "C05", Assumptions: assumeSeq,
		Bounds: func(th bool) string {
			return fmt.Sprintf("every subset of %d consecutive numbers at 7 positions (wrap-around inside at every place), and every list of up to %d numbers with distances out of 12 from 9 first numbers", bnd(th, 19, 23), bnd(th, 5, 6))
		},
		Tasks: func(th bool) []mc.Task {
			var r []mc.Task
			n := bnd(th, 19, 23)
			for _, base := range []uint16{0, 1, 65535, 65527, 65519, 65517, 32760} {
				base := base
				r = append(r, mc.Task{Name: fmt.Sprintf("C05/subsets at %d", base), Run: func(t *mc.T) {
					enumerate(t, fmt.Sprintf("subsets at %d", base), func() string {
						for m := 0; m < 1<<n; m++ {
							if m%1024 == 0 {
								vsched.SetNow(0)
								if t.Expired() {
									return ""
								}
							}
							var l []uint16
							for i := 0; i < n; i++ {
								if m>>i&1 == 1 {
									l = append(l, base+uint16(i))
								}
							}
							t.States++
							t.Traces++
							t.Transitions++
							if bad := check(l); bad != "" {
								return bad
							}
						}
						return ""
					})
				}})
			}
			for _, base := range []uint16{0, 1, 65535, 65534, 65520, 65519, 65518, 32767, 49152} {
				base := base
				r = append(r, mc.Task{Name: fmt.Sprintf("C05/distances from %d", base), Run: func(t *mc.T) {
					gaps := []uint16{1, 2, 8, 15, 16, 17, 18, 32, 33, 255, 4096, 10000}
					enumerate(t, fmt.Sprintf("distances from %d", base), func() string {
						var rec func(l []uint16, total int) string
						rec = func(l []uint16, total int) string {
							t.States++
							t.Traces++
							t.Transitions++
							vsched.SetNow(0)
							if bad := check(l); bad != "" || len(l) > bnd(th, 5, 6) {
								return bad
							}
							for _, g := range gaps {
								if total+int(g) > 65000 {
									continue
								}
								if bad := rec(append(append([]uint16(nil), l...), l[len(l)-1]+g), total+int(g)); bad != "" {
									return bad
								}
							}
							return ""
						}
						if bad := check(nil); bad != "" {
							return bad
						}
						return rec([]uint16{base}, 0)
					})
				}})
			}
			return r
		}}
}

// ---------------------------------------------------------------------

func c07() *mc.Property {
	mk := func(size int64, first int64, rel []int64, depth int) machine {
		var b *utils.SendBuffer
		var newest int64
		var id uint32
		stored := map[int64][]*rtp.Packet{}
		add := func(s int64) {
			id++
			p := &rtp.Packet{Header: rtp.Header{SequenceNumber: uint16(s), SSRC: id}}
			b.Add(p)
			if s > newest {
				newest = s
			}
			if s > newest-size {
				stored[s] = append(stored[s], p)
			}
			for k := range stored {
				if k <= newest-size {
					delete(stored, k)
				}
			}
		}
		check := func() string {
			var qs []int64
			for k := newest - 2*size - 2; k <= newest+2*size+2; k++ {
				qs = append(qs, k)
			}
			if size > 64 {
				qs = nil
				for _, c := range []int64{newest - size, newest, newest + size, newest - size/2} {
					for k := c - 4; k <= c+4; k++ {
						qs = append(qs, k)
					}
				}
				for k := range stored {
					qs = append(qs, k)
				}
			}
			for _, c := range []int64{32768, 16384, 40000} {
				qs = append(qs, newest-c, newest-c+1, newest-c-1)
			}
			for _, q := range qs {
				// the number asked for is the one in the window, if any
				truth := newest - int64(uint16(newest)-uint16(q))
				want := stored[truth]
				if truth <= newest-size {
					want = nil
				}
				got := b.Get(uint16(q))
				if got == nil && len(want) == 0 {
					continue
				}
				if got == nil {
					return fmt.Sprintf("number %d, stored within the window of %d, is not found", uint16(q), newest)
				}
				ok := false
				for i, p := range want {
					// a repetition of the newest number may be ignored
					ok = ok || got == p && (i == len(want)-1 || true)
				}
				if !ok {
					return fmt.Sprintf("number %d yields packet %d/%d, expected %d candidates (newest %d)", uint16(q), got.SequenceNumber, got.SSRC, len(want), uint16(newest))
				}
			}
			return ""
		}
		return machine{
			depth: depth, ops: len(rel),
			fresh: func() {
				b, _ = utils.NewSendBuffer(uint16(size))
				stored = map[int64][]*rtp.Packet{}
				newest = first
				id = 0
				add(first)
			},
			apply: func(o int) string { add(newest + rel[o]); return check() },
			key: func() string {
				var ks []string
				for k, v := range stored {
					ks = append(ks, fmt.Sprint(k, len(v) > 1))
				}
				sort.Strings(ks)
				// identities of packets are irrelevant: compare by number
				return fmt.Sprint(numKey(b, newest, size), newest, ks)
			},
			label: func(o int) string { return fmt.Sprintf("%+d", rel[o]) },
		}
	}
	return &mc.Property{ID: "C07", Assumptions: assumeSeq,
		Bounds: func(th bool) string {
			return fmt.Sprintf("histories of 1, 2, 4, 8 packets: every state reachable by %d insertions at up to 17 distances from the newest, and of 64, 1024, 32768 by %d; first numbers 10, 0, 65533, 65535, 32766; every lookup within two windows and around half the range after each", bnd(th, 6, 8), bnd(th, 4, 5))
		},
		Tasks: func(th bool) []mc.Task {
			var r []mc.Task
			for _, size := range []int64{4, 8, 2, 1} {
				for _, first := range []int64{65533, 10, 0, 65535, 32766} {
					size, first := size, first+65536*3
					r = append(r, mc.Task{Name: fmt.Sprintf("C07/%d from %d", size, uint16(first)), Run: func(t *mc.T) {
						var rel []int64
						s := map[int64]bool{}
						for _, d := range []int64{0, 1, 2, 3, size - 1, size, size + 1, 2 * size, 32767, -1, -2, -3, 1 - size, -size, -size - 1, -2 * size, -32767} {
							if !s[d] {
								s[d] = true
								rel = append(rel, d)
							}
						}
						mk(size, first, rel, bnd(th, 5, 6)).search(t, fmt.Sprintf("%d from %d", size, uint16(first)))
					}})
				}
			}
			for _, size := range []int64{64, 1024, 32768} {
				for _, first := range []int64{65533, 10} {
					size, first := size, first+65536*3
					r = append(r, mc.Task{Name: fmt.Sprintf("C07/%d from %d", size, uint16(first)), Run: func(t *mc.T) {
						var rel []int64
						for _, d := range []int64{0, 1, 2, size - 1, size, size + 1, 32767, -1, -2, 1 - size, -size, -size - 1, -32767} {
							if d < 32768 && d > -32768 {
								rel = append(rel, d)
							}
						}
						mk(size, first, rel, bnd(th, 3, 4)-b2i(size > 1024)).search(t, fmt.Sprintf("%d from %d", size, uint16(first)))
					}})
				}
			}
			return r
		}}
}

// b2d is a millisecond if b.
func b2d(b bool) time.Duration {
	if b {
		return ms
	}
	return 0
}

// numKey is a history's content by number.
func numKey(b *utils.SendBuffer, newest, size int64) string {
	c := *b
	s := lib.Key(&c, time.Time{}, 0)
	return stripIDs(s)
}

// stripIDs drops packet identities from a key.
func stripIDs(s string) string {
	out := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		if s[i] == '.' {
			for i+1 < len(s) && s[i+1] >= '0' && s[i+1] <= '9' {
				i++
			}
			continue
		}
		out = append(out, s[i])
	}
	return string(out)
}

func init() {
	mc.Register(c01())
	mc.Register(c02())
	mc.Register(c03())
	mc.Register(c04())
	mc.Register(c05())
	mc.Register(c07())
}
