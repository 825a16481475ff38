package props

import (
	"fmt"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/lib"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/mc"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vos"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
	"github.com/pion/rtp"
)

// manyFrames are recordings in which every 16 bit number wraps and more.
func manyFrames(name string, n int) mc.Scenario {
	s := seq(name, func() {
		v := variants0(vary("copy", func(v *variant) { v.ivf, v.pic = true, 1 }),
			vary("audio", func(v *variant) { v.audio, v.step = true, 1800 }),
			vary("builtin, copy", func(v *variant) { v.builtin, v.ivf = true, true }),
			vary("builtin, audio", func(v *variant) { v.builtin, v.audio, v.step = true, true, 1800 }),
			vary("rare frames", func(v *variant) { v.step, v.pic, v.pic7 = 90000, 120, true }))
		rec := newRec(v, true, v.audio, nil)
		path := rec.GetFilePath()
		seq, aseq := uint16(65000), uint16(60000)
		ts, ats := uint32(1<<32-50000), uint32(1<<31)
		frames := make([]lib.Frame, 0, n)
		audio := 0
		for i := 0; i < n; i++ {
			f := lib.Frame{No: i, Key: i%2500 == 0, TS: ts, Seq: seq, PicID: -1, Parts: 1 + b2i(i%1000 == 999), Pic7: v.pic7}
			if v.pic >= 0 {
				f.PicID = (v.pic + i) & 0x7fff
				if v.pic7 {
					f.PicID &= 0x7f
				}
			}
			for _, p := range f.Packets() {
				rec.PushVideo(p)
				seq++
			}
			frames = append(frames, f)
			ts += v.step
			if v.audio {
				p := lib.Opus(aseq, ats, audio)
				rec.PushAudio(p)
				aseq++
				ats += 960
				audio++
			}
			if i%256 == 0 {
				vsched.Sleep(8 * ms)
			}
		}
		rec.Close()
		settle()
		nd := vos.Disk().Nodes[path]
		if nd == nil {
			fail("%s: no recording of %d frames", v.name, n)
			return
		}
		w, err := lib.ParseWebM(nd.Data, false)
		if err != nil {
			fail("%s: the recording of %d frames is not well-formed: %v", v.name, n, err)
			return
		}
		vb, ab := w.Of(1), w.Of(2)
		if len(vb) != n {
			fail("%s: %d frames are recorded of %d", v.name, len(vb), n)
			return
		}
		t := uint64(0)
		for i, b := range vb {
			if string(b.Data) != string(frames[i].Data()) || b.Key != frames[i].Key {
				fail("%s: recorded frame %d is not frame %d, or its flag is wrong", v.name, i, i)
				return
			}
			want := float64(t) / 90
			if d := float64(b.Time) - want; d > 1 || d < -1 {
				fail("%s: frame %d is recorded at %d ms, by its RTP timestamp it should be %.1f", v.name, i, b.Time, want)
				return
			}
			t += uint64(v.step)
		}
		if v.audio {
			// all but what the reordering queue holds
			if len(ab) < audio-int(v.aq) {
				fail("%s: %d audio packets are recorded of %d", v.name, len(ab), audio)
				return
			}
			opus := func(i int) string { return string(lib.Opus(uint16(60000+i), 0, i).Payload) }
			first := 0
			for first < 3 && string(ab[0].Data) != opus(first) {
				first++
			}
			for i, b := range ab {
				if string(b.Data) != opus(first+i) {
					fail("%s: recorded audio packet %d is not packet %d", v.name, i, first+i)
					return
				}
				if d := b.Time - ab[0].Time - int64(i)*20; d > 1 || d < -1 {
					fail("%s: audio packet %d is recorded %d ms after the first", v.name, i, b.Time-ab[0].Time)
					return
				}
			}
		}
		if v.ivf {
			x, err := lib.ParseIVF(vos.Disk().Nodes[ivfOf(path)].Data)
			if err != nil || len(x.Frames) != n || int(x.Count) != n {
				fail("%s: the copy has %d frames, its header says %d, the recording has %d (%v)", v.name, len(x.Frames), x.Count, n, err)
				return
			}
			for i := range x.Frames {
				if x.Frames[i].TS != uint64(frames[i].TS) || string(x.Frames[i].Data) != string(vb[i].Data) {
					fail("%s: frame %d of the copy has timestamp %d, its packets had %d, or it differs", v.name, i, x.Frames[i].TS, frames[i].TS)
					return
				}
			}
		}
		vsched.SetOutcome(fmt.Sprint(len(vb), len(ab)))
	})
	s.Opt.Horizon = 20 * time.Minute
	s.Opt.MaxSteps = 100000000
	return s
}

// manyPackets: both adapters for more packets than 16 bits number, with losses
// (none, some that are made up for, some that are not) at regular intervals.
// Every frame is a keyframe, so that each that arrived is recorded.
func manyPackets(name string, n int, lk bool) mc.Scenario {
	s := seq(name, func() {
		isAudio := flip("audio")
		every := []int{0, 97, 1009}[vsched.Choose(3, "disturbed")]
		late := 0
		if every > 0 {
			late = []int{0, 1, 5}[vsched.Choose(3, "late")] // 0: lost
		}
		w := lib.Start(nil)
		var s *src
		kind := []string{"video", "audio"}[b2i(isAudio)]
		if lk {
			lkRoom([]string{"V1", "A1"}[b2i(isAudio)])
			w.Do(lib.StartLK("s", "a.webm", "r", []string{"V1", "A1"}[b2i(isAudio)]))
			s = lkTrack(lastRoom(), []string{"V1", "A1"}[b2i(isAudio)], 31)
		} else {
			w.Do(lib.StartMS("s", "a.webm", kind))
			if isAudio {
				s = audio(lib.LastPC(), 31)
			} else {
				s = video(lib.LastPC(), 31)
			}
		}
		start := 64000
		seq, ts := uint16(start), uint32(1<<32-500000)
		var want []string
		var wait *rtp.Packet
		var step uint32 = 3000
		if isAudio {
			step = 960
		}
		for i := 0; i < n; i++ {
			var p *rtp.Packet
			if isAudio {
				p = lib.Opus(seq, ts, i)
				want = append(want, string(p.Payload))
			} else {
				f := lib.Frame{No: i, Key: true, TS: ts, Seq: seq, PicID: -1, Parts: 1}
				p = f.Packets()[0]
				want = append(want, string(f.Data()))
			}
			seq++
			ts += step
			switch {
			case every > 0 && i%every == every-1 && i < n-50:
				if late > 0 {
					wait = p
				} else {
					want[len(want)-1] = ""
				}
			default:
				s.push(p)
			}
			if wait != nil && i%every == (every-1+late)%every {
				s.push(wait)
				wait = nil
			}
			s.log = nil
			if i%4 == 0 {
				sleep(20 * ms)
			}
		}
		sleep(time.Second)
		w.Do(lib.Stop("s"))
		sleep(100 * ms)
		what := fmt.Sprintf("%d packets of %s, one of %d late by %d", n, kind, every, late)
		v := complete("/rec/a.webm")
		if v == nil {
			return
		}
		bl := v.Blocks
		k := 0
		for i, p := range want {
			if k < len(bl) && p == string(bl[k].Data) {
				k++
				continue
			}
			// the library may drop what is next to a lost packet, and the end is not flushed
			next := lk && (i > 0 && want[i-1] == "" || i > 1 && want[i-2] == "" || i+1 < n && want[i+1] == "" || i+2 < n && want[i+2] == "")
			if p != "" && !next && i < n-40 {
				fail("packet %d has arrived and is not recorded in its place [%s]", i, what)
				return
			}
		}
		if k < len(bl) {
			fail("recorded block %d is not among those expected [%s]", k, what)
		}
		vsched.SetOutcome(fmt.Sprint(len(bl), every, late))
	})
	s.Opt.Horizon = 30 * time.Minute
	s.Opt.MaxSteps = 200000000
	return s
}
