package props

import (
	"fmt"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/lib"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/mc"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
)

// audioLoss explores video that loses nothing next to audio that does: audio
// packets are given up on at any point of the video, with whatever sequence
// numbers.
func audioLoss(livekit bool) func() {
	return func() {
		w := lib.Start(nil)
		var v, a *src
		if livekit {
			lkRoom("V1", "A1")
			w.Do(lib.StartLK("s", "a.webm", "r", "V1", "A1"))
			v, a = lkTrack(lastRoom(), "V1", 1), lkTrack(lastRoom(), "A1", 2)
		} else {
			w.Do(lib.StartMS("s", "a.webm", "audio", "video"))
			v, a = video(lib.LastPC(), 1), audio(lib.LastPC(), 2)
		}
		ok, path := w.OK("s")
		if !ok {
			fail("the start failed")
			return
		}
		settle()
		v.seq = []uint16{100, 65533}[vsched.Choose(2, "video numbers")]
		// The video has 9 packets: the lost audio packet, the third, may have
		// the number of any of them, or another one.
		a.seq = v.seq + uint16(vsched.Choose(13, "audio numbers")) - 4
		at := vsched.Choose(9, "given up before video packet")
		held := 1 + vsched.Choose(2, "audio waiting")
		resent := vsched.Choose(2, "arrives after all") == 1
		var late = a.seq + 2
		a.frame(false)
		a.frame(false)
		lts, lno := a.ts, a.no
		a.seq++
		a.ts += 960
		a.no++
		for ; held > 0; held-- {
			a.frame(false)
		}
		n := 0
		for i, parts := range []int{1, 3, 1, 2, 2} {
			f := lib.Frame{No: i + 1, Key: i == 0 || i == 3, TS: v.ts, Parts: parts, Seq: v.seq, PicID: -1}
			for _, p := range f.Packets() {
				if n == at {
					sleep(250 * ms)
					if resent {
						a.push(lib.Opus(late, lts, lno))
					}
					for i := 0; i < 12; i++ { // also for LiveKit, which waits for 200 ms of media
						a.frame(false)
						settle()
					}
				}
				v.push(p)
				settle()
				n++
			}
			v.seq += uint16(parts)
			v.ts += 3000
		}
		sleep(50 * ms)
		w.Do(lib.Stop("s"))
		sleep(time.Second)
		m, err := file(path)
		if err != nil {
			fail("no recording: %v", err)
			return
		}
		got := len(m.Of(1))
		vsched.SetOutcome(fmt.Sprint(got, len(m.Of(2))))
		if got != 5 {
			fail("%d of 5 frames are recorded, although no video packet was lost (an audio packet was, number %d, given up before video packet %d of 9; the video's first number is %d)", got, late, at, v.seq-9)
		}
	}
}

func audioLossScenarios(id string) []mc.Scenario {
	return []mc.Scenario{seq(id+"/audio lost next to video", audioLoss(false)), seq(id+"/audio lost next to LiveKit video", audioLoss(true))}
}
