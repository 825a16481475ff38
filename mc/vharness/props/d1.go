package props

import (
	"bytes"
	"context"
	"fmt"
	"sort"
	"strconv"
	"time"

	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/lib"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vharness/mc"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vos"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/vshim/vsched"
	"github.com/bigbluebutton/bbb-webrtc-recorder/internal/webrtc/recorder"
	"github.com/pion/rtp"
)

// A media history: a stream of frames as sent, what happens to its packets on
// the way, and what a reference assembly makes of what arrives.

// variant is one set of circumstances of a stream.
type variant struct {
	name    string
	builtin bool
	seq     uint16
	ts      uint32
	step    uint32
	pic     int // -1: none
	pic7    bool
	size    int // bytes per packet of frames of several packets
	vq, aq  uint16
	ivf     bool
	audio   bool          // announced and sent after every frame
	silent  bool          // announced, never sent
	dims    bool          // every keyframe has its own
	layers  bool          // descriptors have every extension
	tick    time.Duration // between frames
}

var plain = variant{name: "plain", seq: 100, ts: 90000, step: 3000, pic: -1, vq: 256, aq: 32}

func vary(name string, f func(v *variant)) variant {
	v := plain
	v.name = name
	f(&v)
	return v
}

var variantsAll = []variant{
	plain,
	vary("wrap", func(v *variant) {
		v.seq, v.ts, v.pic, v.dims = 65533, 1<<32-4000, 1, true
	}),
	vary("split header", func(v *variant) {
		v.pic, v.size, v.dims, v.step = 0x7ffd, 5, true, 45
	}),
	vary("small queue", func(v *variant) { v.vq, v.seq, v.pic, v.pic7, v.ts = 4, 65534, 126, true, 0 }),
	vary("copy", func(v *variant) { v.ivf, v.dims, v.ts = true, true, 1<<32-3000 }),
	vary("slow", func(v *variant) { v.step = 40 * 90000 }),
	vary("slow audio", func(v *variant) { v.audio, v.step = true, 17*90000 }),
	vary("audio", func(v *variant) { v.audio, v.dims = true, true }),
	vary("silent audio and copy", func(v *variant) { v.silent, v.ivf, v.step = true, true, 1 }),
}

var oddKinds = []string{"K1", "d1", "d2", "P2", "q2", "s1", "X1", "u1", "g1", "b", "c1", "J3"}

var variantsOdd = []variant{
	vary("plain", func(v *variant) {}),
	vary("pictures", func(v *variant) { v.pic, v.seq = 5, 65534 }),
	vary("layers", func(v *variant) { v.pic, v.layers, v.dims = 100, true, true }),
}

var variantsAgain = []variant{
	vary("audio", func(v *variant) { v.audio = true }),
	vary("pictures, copy", func(v *variant) { v.pic, v.seq, v.ivf = 5, 65534, true }),
}

var variantsLarge = []variant{
	vary("large", func(v *variant) { v.size, v.pic = 1200, 0x7ffe }),
	vary("large copy", func(v *variant) { v.size, v.ivf, v.dims, v.seq, v.layers = 1188, true, true, 65500, true }),
}

// variantsTick have pictures as rare as those of a static screen.
var variantsTick = []variant{
	vary("a second", func(v *variant) { v.tick, v.pic = 1100*ms, 77 }),
	vary("three seconds, audio", func(v *variant) { v.tick, v.audio = 3*time.Second, true }),
	vary("half a minute", func(v *variant) { v.tick = 22 * time.Second }),
}

var variantsBuiltinLarge = []variant{
	vary("builtin", func(v *variant) { v.builtin, v.size = true, 1200 }),
	vary("builtin copy", func(v *variant) { v.builtin, v.size, v.ivf, v.pic = true, 1000, true, 5 }),
}

var variantsBuiltin = []variant{
	vary("builtin", func(v *variant) { v.builtin, v.ts = true, 0 }),
	vary("builtin wrap", func(v *variant) { v.builtin, v.seq, v.ts, v.pic, v.dims = true, 65533, 1<<32-4000, 1, true }),
	vary("builtin audio and copy", func(v *variant) { v.builtin, v.audio, v.ivf, v.dims = true, true, true, true }),
	vary("builtin split header", func(v *variant) { v.builtin, v.size, v.dims, v.ts = true, 5, true, 1<<32-6000 }),
}

var variantsBuiltinSmall = []variant{
	vary("builtin wrap", func(v *variant) {
		v.builtin, v.seq, v.ts, v.pic, v.dims, v.vq = true, 65533, 1<<32-4000, 1, true, 8
	}),
	vary("builtin audio and copy", func(v *variant) { v.builtin, v.audio, v.ivf, v.dims, v.vq = true, true, true, true, 4 }),
}

// pkt is one packet of the stream.
type pkt struct {
	pos  int
	f    int  // frame, -1: padding
	junk bool // unusable
	part int
	p    *rtp.Packet
}

// hist is one history with everything observed.
type hist struct {
	v      variant
	rec    recorder.Recorder
	path   string
	sent   []lib.Frame
	kind   []byte
	pkts   []pkt
	fates  []string
	aud    []*rtp.Packet // audio delivered
	audOn  []bool        // the recording had started by then
	audAll []*rtp.Packet
	reqs   []time.Duration
	needs  []time.Duration // a request must have gone out within the last second
	why    []string
	got    []int // frames the reference assembly records, in order
	n      int   // packets delivered
	disk   []int // frames expected when a packet had been handled
	each   func(h *hist)

	// reference assembly
	started bool
	exp     int
	synced  bool
	cur     int // frame being assembled, -1: none
	seenKey bool
	lastPic bool // a picture has been complete

	w   *lib.WebM
	ivf *lib.IVF
}

func (h *hist) RequestKeyframe()                   { h.reqs = append(h.reqs, vsched.Now()) }
func (h *hist) RequestKeyframeForSSRC(ssrc uint32) {}

func (h *hist) String() string {
	s := h.v.name + ":"
	for i, f := range h.sent {
		if i > 12 {
			s += " ..."
			break
		}
		s += fmt.Sprintf(" %c%d", h.kind[i], f.Parts)
	}
	return s + fmt.Sprintf("; packets %q", h.fates[:min(len(h.fates), 24)])
}

func (h *hist) bad(format string, a ...any) {
	fail("%s [%s]", fmt.Sprintf(format, a...), h.String())
}

func (h *hist) need(why string) {
	h.needs = append(h.needs, vsched.Now())
	h.why = append(h.why, why)
}

// model is the reference assembly.
func (h *hist) model(k pkt) {
	if h.started && k.pos < h.exp {
		return
	}
	if h.started && k.pos > h.exp {
		h.need("packets are missing")
		h.synced = false
		h.cur = -1
	}
	h.started = true
	h.exp = k.pos + 1
	if k.junk {
		if h.synced || !h.seenKey || len(k.p.Payload) == 1 {
			h.need("a packet is unusable")
		}
		h.synced = false
		h.cur = -1
		return
	}
	if k.f < 0 {
		return
	}
	f := h.sent[k.f]
	kind := h.kind[k.f]
	if k.part == 0 {
		if h.cur >= 0 {
			h.need("a frame had no end")
			h.synced = false
			h.cur = -1
		}
		if kind == 'g' && f.PicID >= 0 && h.lastPic && h.synced {
			h.need("a picture is missing")
			h.synced = false
		}
		if f.Key && !h.seenKey {
			h.seenKey = true
		}
		if f.Key || h.synced {
			h.cur = k.f
			h.synced = true
		} else if !h.seenKey {
			h.need("there has been no keyframe yet")
		}
	} else if h.cur < 0 && !h.seenKey {
		h.need("there has been no keyframe yet")
	}
	if k.part == max(f.Parts, 1)-1 {
		if kind == 'u' {
			return
		}
		if h.cur == k.f {
			h.lastPic = true
			if kind == 's' || kind == 'X' {
				h.need("a frame is invalid")
				h.synced = false
			} else {
				h.got = append(h.got, k.f)
			}
		}
		h.cur = -1
	}
}

// stream makes the packets of frames of the given kinds, followed by the number
// of packets: K and d are keyframes and others, P and q the same with a partition
// per packet, s is too short to be a frame, X has impossible dimensions, u lacks
// the marker, J is a keyframe with an unusable packet inside, g follows a
// picture that was never sent; p is a padding packet,
// b one without a descriptor, c the middle of an unknown frame.
func (h *hist) stream(kinds []string) {
	pos, pic := 0, h.v.pic
	for i, k := range kinds {
		f := lib.Frame{No: i + 1, TS: h.v.ts + uint32(i)*h.v.step, Seq: h.v.seq + uint16(pos), PicID: pic, Pic7: h.v.pic7}
		h.kind = append(h.kind, k[0])
		if k[0] == 'c' && i > 0 && h.kind[i-1] == 'u' {
			k = "b"
		}
		if k == "b" || k[0] == 'c' {
			h.sent = append(h.sent, f)
			pl := []byte{0x80}
			if k[0] == 'c' {
				pl = append([]byte{0x00}, "middle of a frame"...)
			}
			h.pkts = append(h.pkts, pkt{pos, -1, true, 0, &rtp.Packet{Header: rtp.Header{Version: 2, PayloadType: 96, SSRC: 1, SequenceNumber: f.Seq, Timestamp: f.TS, Marker: k[0] == 'c'}, Payload: pl}})
			pos++
			continue
		}
		if k == "p" {
			h.sent = append(h.sent, f)
			f.TS -= h.v.step
			h.pkts = append(h.pkts, pkt{pos, -1, false, 0, &rtp.Packet{Header: rtp.Header{Version: 2, PayloadType: 96, SSRC: 1, SequenceNumber: f.Seq, Timestamp: f.TS}}})
			pos++
			continue
		}
		f.Key = k[0] == 'K' || k[0] == 'P' || k[0] == 'X' || k[0] == 'J'
		f.Parts, _ = strconv.Atoi(k[1:])
		if f.Parts > 1 {
			f.Size = h.v.size
		}
		switch k[0] {
		case 's':
			f.Size = 6
		case 'X':
			f.W, f.H = 8, 8
		case 'P', 'q':
			f.Partitions = true
		case 'g':
			if pic >= 0 {
				pic = (pic + 1) & 0x7fff
				f.PicID = pic
			}
		}
		f.Layers = h.v.layers
		if h.v.dims && f.Key && k[0] != 'X' {
			f.W, f.H = 64+16*(i%25), 480-16*(i%25)
			switch i % 8 { // the largest and smallest ones in use
			case 2:
				f.W, f.H = 7680, 4320
			case 3:
				f.W, f.H = 16, 16
			case 5:
				f.W, f.H = 4320, 7680
			}
		}
		h.sent = append(h.sent, f)
		for j, p := range f.Packets() {
			if k[0] == 'u' {
				p.Marker = false
			}
			if k[0] == 'J' && j == 1 {
				p.Payload = []byte{0x80}
				h.pkts = append(h.pkts, pkt{pos, -1, true, 0, p})
			} else {
				h.pkts = append(h.pkts, pkt{pos, i, false, j, p})
			}
			pos++
		}
		if pic >= 0 {
			if pic++; h.v.pic7 {
				pic &= 0x7f
			} else {
				pic &= 0x7fff
			}
		}
	}
}

// item is something that happens on the way.
type item struct {
	at   int
	what string // packet, notify, audio, pause
	k    pkt
	d    time.Duration
	a    *rtp.Packet
}

// dopt says which histories are explored.
type dopt struct {
	shape   func() []string
	vars    []variant
	fates   []string
	budget  int
	fill    int   // small frames that follow, undisturbed
	period  []int // of the keyframes among them, 0: none
	regular bool  // one fate at regular intervals
	each    func(h *hist)
	check   func(h *hist)
}

// shapes are all sequences of n frames of the kinds.
func shapes(n int, kinds ...string) func() []string {
	return func() []string {
		var r []string
		for i := 0; i < n; i++ {
			r = append(r, kinds[vsched.Choose(len(kinds), "frame")])
		}
		return r
	}
}

// repeated are streams in which the same happens over and over.
func repeated(kinds ...string) func() []string {
	return func() []string {
		r := []string{"K1", "d1", "d1"}
		a, b := kinds[vsched.Choose(len(kinds), "frame")], kinds[vsched.Choose(len(kinds), "frame")]
		n := []int{2, 5, 18}[vsched.Choose(3, "times")]
		for i := 0; i < n; i++ {
			r = append(r, a, b)
		}
		return append(r, "K1", "d2", "d1", "K2", "d1", "d1", "d1")
	}
}

// fixed are some longer sequences.
func fixed(list ...string) func() []string {
	return func() []string {
		return splitWords(list[vsched.Choose(len(list), "stream")])
	}
}

func splitWords(s string) (r []string) {
	for _, w := range bytes.Fields([]byte(s)) {
		r = append(r, string(w))
	}
	return
}

var fatesLoss = []string{"", "lost", "lost+told", "twice", "late1", "late3", "again2"}
var fatesFrames = []string{"", "lost", "lost+told", "twice", "late1", "late3", "pause 2.1s"}
var fatesInOrder = []string{"", "lost", "lost+told", "twice"}
var fatesAll = append(append([]string{}, fatesLoss...), "pause 0.4s", "pause 1.1s", "pause 2.1s")

// fateTimes are pauses and losses for the request times.
var fatesTimes = []string{"", "lost", "lost+told", "pause 0.4s", "pause 1.1s"}

func newRec(v variant, hasVideo, hasAudio bool, kr recorder.KeyframeRequester) recorder.Recorder {
	c := lib.Config().Recorder
	c.VideoPacketQueueSize = v.vq
	c.AudioPacketQueueSize = v.aq
	c.UseCustomSampler = !v.builtin
	c.WriteIVFCopy = v.ivf
	if vos.Disk().Nodes[lib.Dir] == nil {
		vos.Disk().AddDir(lib.Dir)
	}
	rec, err := recorder.NewRecorder(context.Background(), c, "a.webm")
	if err != nil {
		vsched.Fatal(fmt.Sprintf("no recorder: %v", err))
	}
	rec.SetHasVideo(hasVideo)
	rec.SetHasAudio(hasAudio)
	if s, ok := rec.(interface {
		SetKeyframeRequester(recorder.KeyframeRequester)
	}); ok && kr != nil {
		s.SetKeyframeRequester(kr)
	}
	return rec
}

// run explores one history.
func (o dopt) run() {
	h := &hist{cur: -1, each: o.each}
	h.v = o.vars[vsched.Choose(len(o.vars), "variant")]
	kinds := o.shape()
	period := 0
	if o.period != nil {
		period = o.period[vsched.Choose(len(o.period), "keyframe period")]
	}
	for i := 0; i < o.fill; i++ {
		if period > 0 && i%period == 0 {
			kinds = append(kinds, "K1")
		} else {
			kinds = append(kinds, "d1")
		}
	}
	h.stream(kinds)
	h.rec = newRec(h.v, true, h.v.audio || h.v.silent, h)
	h.path = h.rec.GetFilePath()
	var items []item
	left := o.budget
	every, phase, regular := 0, 0, ""
	if o.regular {
		regular = o.fates[vsched.Choose(len(o.fates), "fate")]
		if regular != "" {
			every = []int{1, 2, 3, 5, 8}[vsched.Choose(5, "every")]
			phase = vsched.Choose(min(every, 2), "phase")
		}
	}
	for i, k := range h.pkts {
		f := ""
		if every > 0 && i >= 4 && i < len(h.pkts)-8 && i%every == phase {
			f = regular
		}
		if left > 0 && (k.f < 0 || k.f < len(kinds)-o.fill) {
			f = o.fates[vsched.Choose(len(o.fates), "fate")]
		}
		h.fates = append(h.fates, f)
		if f != "" {
			left--
		}
		at := i * 100
		if h.v.tick > 0 && k.part == 0 {
			items = append(items, item{at: at - 2, what: "pause", d: h.v.tick})
		}
		switch f {
		case "":
			items = append(items, item{at: at, k: k})
		case "lost":
		case "lost+told":
			items = append(items, item{at: at, what: "notify", k: k})
		case "twice":
			items = append(items, item{at: at, k: k}, item{at: at + 1, k: k})
		case "late1":
			items = append(items, item{at: at + 110, k: k})
		case "late3":
			items = append(items, item{at: at + 310, k: k})
		case "again2":
			items = append(items, item{at: at, k: k}, item{at: at + 210, k: k})
		default:
			var d time.Duration
			switch f {
			case "pause 0.4s":
				d = 400 * ms
			case "pause 1.1s":
				d = 1100 * ms
			case "pause 2.1s":
				d = 2100 * ms
			}
			items = append(items, item{at: at - 1, what: "pause", d: d}, item{at: at, k: k})
		}
		if h.v.audio && k.f >= 0 && k.part == h.sent[k.f].Parts-1 {
			n := len(h.audAll)
			a := lib.Opus(uint16(65534+n), uint32(1<<32-1500)+uint32(n)*960, n)
			h.audAll = append(h.audAll, a)
			items = append(items, item{at: at + 50, what: "audio", a: a})
		}
	}
	sort.SliceStable(items, func(i, j int) bool { return items[i].at < items[j].at })
	for _, it := range items {
		switch it.what {
		case "pause":
			sleep(it.d)
		case "notify":
			h.rec.NotifySkippedPacket(it.k.p.SequenceNumber)
		case "audio":
			h.aud = append(h.aud, it.a)
			h.audOn = append(h.audOn, len(h.got) > 0)
			h.rec.PushAudio(it.a.Clone())
		default:
			h.n++
			h.model(it.k)
			h.rec.PushVideo(it.k.p.Clone())
		}
		if h.each != nil {
			h.each(h)
		}
	}
	h.rec.Close()
	settle()
	h.open()
	vsched.SetOutcome(fmt.Sprint(h.v.name, h.video()))
	o.check(h)
}

// open parses what was recorded.
func (h *hist) open() {
	d := vos.Disk()
	n := d.Nodes[h.path]
	if n == nil {
		return
	}
	if n.Opens != 0 {
		h.bad("the recording is still open after closing")
	}
	w, err := lib.ParseWebM(n.Data, false)
	if err != nil {
		h.bad("the recording is not well-formed: %v", err)
		return
	}
	h.w = w
	if h.v.ivf {
		n := d.Nodes[ivfOf(h.path)]
		if n == nil {
			h.bad("there is a recording and no copy")
			return
		}
		if n.Opens != 0 {
			h.bad("the copy is still open after closing")
		}
		v, err := lib.ParseIVF(n.Data)
		if err != nil {
			h.bad("the copy is not well-formed: %v", err)
			return
		}
		h.ivf = v
	}
}

func ivfOf(p string) string { return p[:len(p)-5] + ".ivf" }

func (h *hist) blocks(typ uint64) []lib.Block {
	if h.w == nil {
		return nil
	}
	return h.w.Of(typ)
}

// which frame a block is; -1 if none.
func (h *hist) which(b []byte) int {
	for i, f := range h.sent {
		if f.Parts > 0 && bytes.Equal(f.Data(), b) {
			return i
		}
	}
	return -1
}

func (h *hist) video() []int {
	var r []int
	for _, b := range h.blocks(1) {
		r = append(r, h.which(b.Data))
	}
	return r
}

// ---------------------------------------------------------------------

func checkD01(h *hist) {
	if h.w == nil {
		if !h.v.builtin && len(h.got) > 0 {
			h.bad("frames %v were complete but there is no file", h.got)
		}
		return
	}
	w := h.w
	want := 1
	if h.v.audio || h.v.silent {
		want = 2
	}
	if len(w.Tracks) != want {
		h.bad("%d tracks are declared, %d were announced", len(w.Tracks), want)
		return
	}
	seen := map[uint64]bool{}
	for _, t := range w.Tracks {
		if t.Number == 0 || seen[t.Number] {
			h.bad("track number %d declared twice or zero", t.Number)
		}
		seen[t.Number] = true
		switch {
		case t.Type == 1 && t.Codec == "V_VP8" && t.W > 0 && t.H > 0:
		case t.Type == 2 && t.Codec == "A_OPUS" && t.Rate == 48000:
		default:
			h.bad("track entry %+v", t)
		}
	}
	if w.TrackOf(1) == 0 || want == 2 && w.TrackOf(2) == 0 {
		h.bad("announced tracks and declared tracks differ: %+v", w.Tracks)
	}
	for _, b := range w.Blocks {
		if !seen[b.Track] {
			h.bad("a block belongs to undeclared track %d", b.Track)
		}
		if b.Time < 0 {
			h.bad("a block is at %d ms", b.Time)
		}
	}
	for i := 1; i < len(w.Clusters); i++ {
		if w.Clusters[i] < w.Clusters[i-1] {
			h.bad("cluster times %v decrease", w.Clusters)
		}
	}
	for _, t := range w.Tracks {
		if t.Type != 1 {
			continue
		}
		vb := h.blocks(1)
		if len(vb) == 0 {
			h.bad("there is a file without video frames")
			return
		}
		if i := h.which(vb[0].Data); i >= 0 {
			W, H := dims(h.sent[i])
			if int(t.W) != W || int(t.H) != H {
				h.bad("the track is declared %dx%d, its first keyframe is %dx%d", t.W, t.H, W, H)
			}
		}
	}
}

func dims(f lib.Frame) (int, int) {
	if f.W == 0 {
		return 64, 48
	}
	return f.W, f.H
}

func checkD02(h *hist) {
	last := -1
	for k, i := range h.video() {
		switch {
		case i < 0:
			h.bad("recorded frame %d, % x, is none of the frames sent", k, h.blocks(1)[k].Data)
			return
		case i == last:
			h.bad("frame %d is recorded twice", i)
			return
		case i < last:
			h.bad("frame %d is recorded after frame %d", i, last)
			return
		}
		last = i
	}
	// Incomplete frames cannot appear: their bytes would differ.
	lost := map[int]bool{}
	for i, k := range h.pkts {
		if k.f >= 0 && (h.fates[i] == "lost" || h.fates[i] == "lost+told") {
			lost[k.f] = true
		}
	}
	for _, i := range h.video() {
		if lost[i] {
			h.bad("frame %d is recorded though one of its packets never arrived", i)
		}
	}
}

func checkD03(h *hist) {
	bl := h.blocks(1)
	if len(bl) > 0 {
		if bl[0].Data[0]&1 != 0 {
			h.bad("the first recorded frame is no keyframe")
			return
		}
	}
	for k, b := range bl {
		if b.Key != (b.Data[0]&1 == 0) {
			h.bad("recorded frame %d: keyframe flag %v", k, b.Key)
			return
		}
	}
	for _, b := range h.blocks(2) {
		if !b.Key {
			h.bad("an audio block is not flagged as keyframe")
			return
		}
	}
	if h.v.builtin {
		for _, f := range h.fates {
			if f != "" {
				return
			}
		}
	}
	if got := h.video(); fmt.Sprint(got) != fmt.Sprint(h.got) {
		h.bad("recorded frames %v, expected %v", got, h.got)
	}
}

func (h *hist) sentTS(i int) uint32 { return h.sent[i].TS }

func checkD04(h *hist) {
	bl := h.blocks(1)
	if len(bl) > 0 && bl[0].Time != 0 {
		h.bad("the first frame is recorded at %d ms", bl[0].Time)
		return
	}
	for k, b := range bl {
		i, first := h.which(b.Data), h.which(bl[0].Data)
		if i < 0 || first < 0 {
			return
		}
		want := float64(h.sentTS(i)-h.sentTS(first)) / 90
		if d := float64(b.Time-bl[0].Time) - want; d > 1 || d < -1 {
			h.bad("frame %d is recorded %d ms after the first, by its RTP timestamp it should be %.1f", i, b.Time-bl[0].Time, want)
			return
		}
		if k > 0 && b.Time < bl[k-1].Time {
			h.bad("video times decrease: %d after %d", b.Time, bl[k-1].Time)
			return
		}
	}
	checkAudioTimes(h)
}

func audioTS(all []*rtp.Packet, b []byte) (uint32, int) {
	for i, a := range all {
		if bytes.Equal(a.Payload, b) {
			return a.Timestamp, i
		}
	}
	return 0, -1
}

func checkAudioTimes(h *hist) {
	bl := h.blocks(2)
	for k, b := range bl {
		t, i := audioTS(h.audAll, b.Data)
		t0, j := audioTS(h.audAll, bl[0].Data)
		if i < 0 || j < 0 {
			return
		}
		want := float64(t-t0) / 48
		if d := float64(b.Time-bl[0].Time) - want; d > 1 || d < -1 {
			h.bad("audio packet %d is recorded %d ms after the first recorded one, by the duration of the audio it should be %.1f", i, b.Time-bl[0].Time, want)
			return
		}
		if k > 0 && b.Time < bl[k-1].Time {
			h.bad("audio times decrease")
			return
		}
	}
}

func checkD07(h *hist) {
	bl := h.blocks(1)
	if h.ivf == nil {
		if h.v.ivf && len(bl) > 0 {
			h.bad("there is no copy")
		}
		if !h.v.ivf && vos.Disk().Nodes[ivfOf(h.path)] != nil {
			h.bad("there is a copy that was not asked for")
		}
		if h.w == nil && vos.Disk().Nodes[ivfOf(h.path)] != nil {
			h.bad("there is a copy of nothing")
		}
		return
	}
	v := h.ivf
	if v.FourCC != "VP80" || v.Num != 1 || v.Den != 90000 {
		h.bad("the copy's header says %s %d/%d", v.FourCC, v.Num, v.Den)
	}
	if len(v.Frames) != len(bl) {
		h.bad("the copy has %d frames, the recording %d", len(v.Frames), len(bl))
		return
	}
	if int(v.Count) != len(v.Frames) {
		h.bad("the copy's header counts %d frames, there are %d", v.Count, len(v.Frames))
	}
	lk := -1
	for k := range bl {
		if !bytes.Equal(bl[k].Data, v.Frames[k].Data) {
			h.bad("frame %d of the copy differs from the recording", k)
			return
		}
		i := h.which(bl[k].Data)
		if i < 0 {
			return
		}
		if v.Frames[k].TS != uint64(h.sentTS(i)) {
			h.bad("frame %d of the copy has timestamp %d, its packets had %d", k, v.Frames[k].TS, h.sentTS(i))
			return
		}
		if bl[k].Data[0]&1 == 0 {
			lk = i
		}
	}
	if lk >= 0 {
		if W, H := dims(h.sent[lk]); v.W != W || v.H != H {
			h.bad("the copy's header says %dx%d, its last keyframe %dx%d", v.W, v.H, W, H)
		}
	}
}

// ---------------------------------------------------------------------

var longShapes = []string{
	"K1 d1 K2 d1 d2 K1 d1 d1 K1 d2",
	"d1 d2 K2 d1 d1 p d1 K2 d2 d1",
	"K3 d1 d2 d1 K1 K1 d3 K2 d1",
}

// lasting are scenarios of minutes.
func lasting(name string, f func()) mc.Scenario {
	s := seq(name, f)
	s.Opt.Horizon = 15 * time.Minute
	return s
}

// dscen are the scenarios shared by the assembly properties.
func dscen(name string, th bool, custom, builtin bool, fates []string, check func(h *hist)) []mc.Scenario {
	var r []mc.Scenario
	add := func(n string, o dopt) {
		o.check = check
		r = append(r, lasting(name+"/"+n, o.run))
	}
	n := bnd(th, 4, 5)
	if custom {
		add("every odd stream", dopt{shape: shapes(n, oddKinds...), vars: variantsOdd, fates: []string{""}})
		add("short odd streams, one disturbance", dopt{shape: shapes(n-1, oddKinds...), vars: variantsOdd, fates: fates, budget: 1})
		add("large frames", dopt{shape: fixed("K90 d60 d1 K1 d1", "d60 K60 q9 P9 d1", "K1200 d1", "K4000 d1 d600 K1 d1"), vars: variantsLarge, fates: []string{"", "lost", "twice"}, budget: bnd(th, 0, 1)})
		add("every stream, one disturbance", dopt{shape: shapes(n, "K1", "K2", "d1", "d2"), vars: variantsAll, fates: fates, budget: 1})
		add("every short stream with padding, two disturbances", dopt{shape: shapes(n-1, "K1", "K2", "d1", "d2", "p"), vars: variantsAll, fates: fates, budget: 2})
		add("the same over and over", dopt{shape: repeated("K1", "d1", "d2", "P2", "s1", "X1", "u1", "c1"), vars: variantsAgain, fates: fates, regular: true})
		add("long streams, two disturbances", dopt{shape: fixed(longShapes...), vars: variantsAll, fates: fates, budget: bnd(th, 2, 3)})
	}
	if builtin {
		// Frames of several packets are kept away from the end of the ring of
		// the sample builder, where it truncates them (a known finding).
		add("builtin: every stream, losses", dopt{shape: shapes(n, "K1", "K2", "d1", "d2"), vars: variantsBuiltin, fates: fatesInOrder, budget: 2})
		add("builtin: small frames, reordered", dopt{shape: shapes(n+1, "K1", "d1"), vars: variantsBuiltinSmall, fates: fates, budget: 2})
		add("builtin: long streams, losses", dopt{shape: fixed(longShapes...), vars: variantsBuiltin, fates: fatesInOrder, budget: 2, fill: 270})
	}
	return r
}

var assumeD = append([]string{
	"senders packetize VP8 as RFC 7741 says: one picture per timestamp, marker on its last packet, consecutive sequence numbers; packets are delayed by at most three positions, within the packet queue",
}, assume[:1]...)

var moreBounds = map[string]string{
	"D01": "; one of two tracks up to seconds behind the other",
	"D02": "; one or two outages of 15 (thorough: 37) lengths up to 30000 packets within and between frames, with packet queues of 4 and 32 (and 256)",
	"D03": "; one or two outages of 15 (thorough: 37) lengths up to 30000 packets within and between frames, with packet queues of 4 and 32 (and 256); packets of a frame 20 ms to 250 ms apart; odd streams (empty frames, partitions, invalid headers); large frames",
}

func dprop(id string, custom, builtin bool, fates []string, check func(h *hist), more func(th bool) []mc.Scenario) *mc.Property {
	return &mc.Property{
		ID: id,
		Scenarios: func(th bool) []mc.Scenario {
			var r []mc.Scenario
			if more != nil {
				r = more(th) // the smaller ones first
			}
			if id != "D02" {
				r = append(r, manyFrames(id+"/many frames", bnd(th, 66000, 140000)))
			}
			return append(r, dscen(id, th, custom, builtin, fates, check)...)
		},
		Assumptions: assumeD,
		Bounds: func(th bool) string {
			return fmt.Sprintf("all streams of %d frames of 1 or 2 packets with one disturbance, all of %d frames and padding with two, %d streams of 9 or 10 frames with %d; pairs of frames repeated 2, 5 and 18 times, each with one disturbance at 9 intervals; %d sets of circumstances",
				bnd(th, 4, 5), bnd(th, 3, 4), len(longShapes), bnd(th, 2, 3), len(variantsAll)+len(variantsBuiltin)) + moreBounds[id]
		},
	}
}

// trackBehind: one track arrives later than the other by up to the packet
// queue; the blocks of the file are nevertheless in order of time.
func trackBehind() {
	h := &hist{v: variants0(vary("audio", func(v *variant) { v.audio = true }), vary("audio and copy, short queue", func(v *variant) { v.audio, v.ivf, v.vq, v.aq = true, true, 32, 8 }), vary("audio, builtin", func(v *variant) { v.audio, v.builtin = true, true }))}
	h.rec = newRec(h.v, true, true, nil)
	h.path = h.rec.GetFilePath()
	behind := pick("behind", "video", "audio")
	var lags []int
	for _, k := range []int{0, 1, 2, 3, 5, 8, 9, 10, 12, 14, 15, 16, 17, 18, 20, 24, 31, 32, 33, 40, 47, 48, 60, 100, 200, 255, 256, 257, 270} {
		if k < int(h.v.vq)+15 {
			lags = append(lags, k)
		}
	}
	lag := lags[vsched.Choose(len(lags), "lag")]
	split := vsched.Choose(3, "catching up")
	gap := vsched.Choose(2, "later lag") * lag
	na, nv := 0, 0
	frame := func() {
		f := lib.Frame{No: nv + 1, Key: nv%7 == 0, TS: uint32(nv) * 1800, Seq: uint16(65530 + nv), PicID: nv + 1, Parts: 1}
		for _, p := range f.Packets() {
			h.rec.PushVideo(p)
		}
		nv++
	}
	opus := func() {
		h.rec.PushAudio(lib.Opus(uint16(65530+na), uint32(1<<32-5000)+uint32(na)*960, na))
		na++
	}
	a, b := &na, &nv
	first, second := opus, frame
	if behind == "audio" {
		a, b, first, second = b, a, frame, opus
	}
	total := 0
	round := func(lag int) {
		// one runs ahead, then the other catches up, all at once or with
		// the first one going on meanwhile
		for i := 0; i < lag; i++ {
			first()
		}
		for *b < *a {
			second()
			if split > 0 && *b%(2*split) == 0 && *a-*b < lag {
				first()
			}
		}
		for i := 0; i < 5; i++ {
			first()
			second()
		}
		total = na + nv
	}
	frame() // starts the recording
	opus()
	opus()
	frame()
	round(lag)
	round(gap)
	h.rec.Close()
	settle()
	n := vos.Disk().Nodes[h.path]
	what := fmt.Sprintf("%s %d behind, then %d, catching up in way %d, queue %d, builtin %v", behind, lag, gap, split, h.v.vq, h.v.builtin)
	if n == nil {
		fail("there is no recording of %d frames and packets [%s]", total, what)
		return
	}
	w, err := lib.ParseWebM(n.Data, false)
	if err != nil {
		fail("the recording is not well-formed: %v [%s]", err, what)
		return
	}
	for i := 1; i < len(w.Blocks); i++ {
		if w.Blocks[i].Time < w.Blocks[i-1].Time {
			fail("block %d of track %d is at %d ms after one of track %d at %d ms [%s]", i, w.Blocks[i].Track, w.Blocks[i].Time, w.Blocks[i-1].Track, w.Blocks[i-1].Time, what)
			return
		}
	}
	vsched.SetOutcome(fmt.Sprint(len(w.Blocks)))
}

// gaps: up to two outages of every length that matters, within frames and
// between them. Frames complete after an outage are recorded: with the default
// assembly from the next keyframe on, with the other one once the outage has
// left its queue.
func gaps(th bool) {
	vs := []variant{vary("queue 32", func(v *variant) { v.vq = 32 }), vary("queue 4", func(v *variant) { v.vq, v.ivf = 4, true })}
	lens := []int{0, 1, 2, 7, 8, 9, 31, 32, 33, 63, 64, 65, 66, 130, 600, 30000}
	if th {
		vs = append(vs, plain)
		lens = []int{0, 1, 2, 3, 5, 6, 7, 8, 9, 10, 15, 16, 17, 30, 31, 32, 33, 34, 62, 63, 64, 65, 66, 130, 200, 254, 255, 256, 257, 258, 300, 510, 511, 512, 513, 600, 1000, 30000}
	}
	h := &hist{v: variants0(vs...)}
	h.v.builtin = vsched.Choose(2, "builtin") == 1
	h.rec = newRec(h.v, true, false, nil)
	h.path = h.rec.GetFilePath()
	gap := []int{lens[1+vsched.Choose(len(lens)-1, "gap")], lens[vsched.Choose(len(lens), "second gap")]}
	// kinds of the frame an outage begins in, and of the one it ends in
	begins := vsched.Choose(2, "begins within a frame")
	ends := vsched.Choose(2, "ends within a frame")
	behind := vsched.Choose(2, "keyframe next")
	seq, ts, no := uint16(65000), uint32(1<<32-50000), 0
	var must, may []lib.Frame
	have := false // default assembly: a keyframe has come since the last outage
	fresh := 0    // frames since the last outage
	push := func(key bool, parts, first, last int, told bool) {
		f := lib.Frame{No: no, Key: key, TS: ts, Seq: seq, PicID: -1, Parts: parts}
		no++
		ts += 3000
		ps := f.Packets()
		for _, p := range ps[first:last] {
			h.rec.PushVideo(p)
		}
		seq += uint16(len(ps))
		if first > 0 || last < parts {
			have = false
			return
		}
		fresh++
		have = have || key
		switch {
		case h.v.builtin && fresh > 2*int(h.v.vq), !h.v.builtin && have:
			must = append(must, f)
			may = append(may, f)
		default:
			may = append(may, f)
		}
	}
	push(true, 1, 0, 1, false)
	push(false, 2, 0, 2, false)
	for _, g := range gap {
		if g == 0 {
			continue
		}
		if begins == 1 {
			push(false, 2, 0, 1, false)
		}
		seq += uint16(g)
		have, fresh = false, 0
		if ends == 1 {
			push(behind == 1, 2, 1, 2, false)
		}
		if behind == 0 {
			push(false, 1, 0, 1, false)
			push(false, 2, 0, 2, false)
		}
		push(true, 2, 0, 2, false)
		push(false, 1, 0, 1, false)
		push(false, 2, 0, 2, false)
	}
	for i := 0; i < 2*int(h.v.vq)+20; i++ {
		push(false, 1, 0, 1, false)
	}
	h.rec.Close()
	settle()
	what := fmt.Sprintf("gaps of %v packets, begins in a frame %d, ends in one %d, keyframe next %d, queue %d, builtin %v", gap, begins, ends, behind, h.v.vq, h.v.builtin)
	n := vos.Disk().Nodes[h.path]
	if n == nil {
		fail("there is no recording [%s]", what)
		return
	}
	w, err := lib.ParseWebM(n.Data, false)
	if err != nil {
		fail("the recording is not well-formed: %v [%s]", err, what)
		return
	}
	k := 0
	for i, b := range w.Blocks {
		for k < len(may) && !bytes.Equal(may[k].Data(), b.Data) {
			k++
		}
		if k == len(may) {
			fail("recorded frame %d is none of the complete frames sent, or out of order [%s]", i, what)
			return
		}
		k++
	}
	k = 0
	for _, b := range w.Blocks {
		if k < len(must) && bytes.Equal(must[k].Data(), b.Data) {
			k++
		}
	}
	if k < len(must) {
		fail("frame %d (keyframe %v) was complete and is not recorded [%s]", must[k].No, must[k].Key, what)
		return
	}
	vsched.SetOutcome(fmt.Sprint(len(w.Blocks), len(must)))
}

func variants0(v ...variant) variant { return v[vsched.Choose(len(v), "circumstances")] }

func init() {
	mc.Register(dprop("D01", true, true, fatesLoss, checkD01, func(th bool) []mc.Scenario {
		return []mc.Scenario{seq("D01/one track behind", trackBehind)}
	}))
	mc.Register(dprop("D02", true, true, fatesFrames, checkD02, func(th bool) []mc.Scenario {
		ring := vary("builtin", func(v *variant) { v.builtin, v.vq = true, 4 })
		return []mc.Scenario{
			// A known finding: the ring of github.com/jech/samplebuilder.
			lasting("D02/outages", func() { gaps(th) }),
			seq("D02/builtin: large frames, reordered", dopt{shape: shapes(3, "K2", "d2"), vars: []variant{ring}, fates: []string{"", "late1", "late3"}, budget: 1, fill: 12, check: checkD02}.run),
		}
	}))
	mc.Register(dprop("D03", true, true, fatesLoss, checkD03, func(th bool) []mc.Scenario {
		// Packets of a frame may take a while, e.g. to be sent again.
		slow := func(f string, n int) func() {
			return dopt{shape: shapes(bnd(th, 3, 4), "K2", "K3", "d1", "d3", "p"), vars: variantsAll, fates: []string{"", f}, budget: n, check: checkD03}.run
		}
		return append(audioLossScenarios("D03"), lasting("D03/outages", func() { gaps(th) }), seq("D03/slow packets", slow("pause 0.4s", 3)), seq("D03/slower packets", slow("pause 1.1s", 1)),
			seq("D03/slow frames", dopt{shape: shapes(bnd(th, 4, 5), "K1", "K2", "d1", "d2"), vars: variantsTick, fates: fatesInOrder, budget: bnd(th, 1, 2), check: checkD03}.run),
			seq("D03/builtin: large frames", dopt{shape: fixed("K60 d20 d1 K1 d1", "K1 d100 d1 d40 d1"), vars: variantsBuiltinLarge, check: checkD03}.run))
	}))
	mc.Register(dprop("D04", true, true, fatesLoss, checkD04, nil))
	mc.Register(dprop("D07", true, true, fatesLoss, checkD07, func(th bool) []mc.Scenario {
		var vs []variant
		for _, v := range append(append([]variant{}, variantsAll...), variantsBuiltin...) {
			if v.ivf {
				vs = append(vs, v)
			}
		}
		// The header is refreshed every hundred frames.
		return []mc.Scenario{seq("D07/more than a hundred frames", dopt{shape: fixed(longShapes...), vars: vs, fates: []string{"", "lost"}, budget: 1, fill: bnd(th, 110, 310), period: []int{0, 1, 3, 10}, check: checkD07}.run)}
	}))
}
