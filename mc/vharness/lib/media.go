package lib

import (
	"encoding/binary"
	"fmt"
	"math"

	"github.com/pion/rtp"
)

// Frame is one encoded VP8 frame as a sender would packetize it.
type Frame struct {
	No    int // content number
	Key   bool
	TS    uint32
	Parts int // packets
	W, H  int
	Seq   uint16 // of the first packet
	PicID int    // <0: no picture id; else 15 bit
	Pic7  bool   // 7 bit
	Size  int    // bytes per part (default 12)

	Partitions bool // every packet starts a partition
	Layers     bool // the descriptor has every extension
}

// Data is the frame's payload, distinct for every No.
func (f Frame) Data() []byte {
	n := f.Size
	if n == 0 {
		n = 12
	}
	b := make([]byte, n*f.parts())
	for i := 0; i < f.parts(); i++ {
		for k := 0; k < n; k++ {
			b[i*n+k] = byte(16*f.No + i + k*7)
		}
		if n >= 4 {
			binary.BigEndian.PutUint16(b[(i+1)*n-2:], uint16(f.No*8+i))
		}
	}
	b[0] = 0x11
	if f.Key {
		b[0] = 0x10
		if len(b) >= 10 {
			w, h := f.W, f.H
			if w == 0 {
				w, h = 64, 48
			}
			// the two bits above a dimension ask the player to scale it up
			scale := f.No & 3
			copy(b[3:], []byte{0x9d, 0x01, 0x2a, byte(w), byte(w>>8 | scale<<6), byte(h), byte(h>>8 | (scale^1)<<6)})
		}
	}
	return b
}

func (f Frame) parts() int {
	if f.Parts < 1 {
		return 1
	}
	return f.Parts
}

// Packets packetizes the frame.
func (f Frame) Packets() []*rtp.Packet {
	var r []*rtp.Packet
	data := f.Data()
	n := len(data) / f.parts()
	for i := 0; i < f.parts(); i++ {
		d := byte(0)
		if i == 0 {
			d = 0x10
		}
		var pl []byte
		if f.Partitions && i > 0 {
			d = 0x10 | byte(min(i, 7))
		}
		if f.Layers {
			if f.PicID >= 0 {
				pl = []byte{0x80 | d, 0xf0, 0x80 | byte(f.PicID>>8&0x7f), byte(f.PicID), byte(f.No), 0x40 | byte(f.No&0x1f)}
			} else {
				pl = []byte{0x80 | d, 0x70, byte(f.No), 0x20 | byte(f.No&0x1f)}
			}
		} else if f.PicID >= 0 && f.Pic7 {
			pl = []byte{0x80 | d, 0x80, byte(f.PicID & 0x7f)}
		} else if f.PicID >= 0 {
			pl = []byte{0x80 | d, 0x80, 0x80 | byte(f.PicID>>8&0x7f), byte(f.PicID)}
		} else {
			pl = []byte{d}
		}
		pl = append(pl, data[i*n:(i+1)*n]...)
		r = append(r, &rtp.Packet{
			Header: rtp.Header{Version: 2, PayloadType: 96, SSRC: 1, SequenceNumber: f.Seq + uint16(i),
				Timestamp: f.TS, Marker: i == f.parts()-1},
			Payload: pl,
		})
	}
	return r
}

// Stream packetizes frames consecutively from a sequence number.
func Stream(seq uint16, frames []Frame) []*rtp.Packet {
	var r []*rtp.Packet
	for i := range frames {
		frames[i].Seq = seq
		p := frames[i].Packets()
		seq += uint16(len(p))
		r = append(r, p...)
	}
	return r
}

// Opus is one audio packet with distinct content.
func Opus(seq uint16, ts uint32, no int) *rtp.Packet {
	pl := []byte{0x78, byte(no), byte(no >> 8), 0xA5, byte(seq), 1, 2, 3}
	return &rtp.Packet{Header: rtp.Header{Version: 2, PayloadType: 111, SSRC: 2, SequenceNumber: seq, Timestamp: ts, Marker: no == 0}, Payload: pl}
}

// ---------------------------------------------------------------------

// Block is one recorded block.
type Block struct {
	Track uint64
	Time  int64 // ms, cluster time + block time
	Key   bool
	Data  []byte
	End   int // offset just after it
}

type Track struct {
	Number uint64
	UID    uint64
	Type   uint64
	Codec  string
	W, H   uint64
	Rate   float64
	Chans  uint64
}

// WebM is a parsed recording.
type WebM struct {
	DocType  string
	Scale    uint64
	Tracks   []Track
	Blocks   []Block
	Clusters []int64
	Rest     int // bytes of an incomplete element at the end
	HeaderOK int // offset at which the track list was complete
}

type elem struct {
	id      uint32
	size    uint64
	unknown bool
	hdr     int
}

func vint(b []byte, keep bool) (v uint64, n int, unknown bool, ok bool) {
	if len(b) == 0 || b[0] == 0 {
		return 0, 0, false, false
	}
	n = 1
	for m := byte(0x80); b[0]&m == 0; m >>= 1 {
		n++
	}
	if len(b) < n {
		return 0, 0, false, false
	}
	v = uint64(b[0])
	if !keep {
		v &= 1<<(8-n) - 1
	}
	for _, x := range b[1:n] {
		v = v<<8 | uint64(x)
	}
	unknown = !keep && v == 1<<(7*n)-1
	return v, n, unknown, true
}

func readElem(b []byte) (e elem, ok bool) {
	id, n, _, ok := vint(b, true)
	if !ok || n > 4 {
		return e, false
	}
	sz, m, unk, ok := vint(b[n:], false)
	if !ok {
		return e, false
	}
	return elem{uint32(id), sz, unk, n + m}, true
}

func beUint(b []byte) (v uint64) {
	for _, x := range b {
		v = v<<8 | uint64(x)
	}
	return
}

const (
	idEBML, idSegment, idCluster, idTracks, idInfo = 0x1A45DFA3, 0x18538067, 0x1F43B675, 0x1654AE6B, 0x1549A966
)

// ParseWebM parses a recording strictly. With partial set it accepts a file
// cut anywhere and reports what can be read.
func ParseWebM(b []byte, partial bool) (*WebM, error) {
	w := &WebM{Scale: 1000000}
	pos := 0
	end := func(err string) (*WebM, error) {
		if partial {
			w.Rest = len(b) - pos
			return w, nil
		}
		return w, fmt.Errorf("%s at offset %d of %d", err, pos, len(b))
	}
	e, ok := readElem(b)
	if !ok || e.id != idEBML && !partial {
		return end("no EBML header")
	}
	if e.id != idEBML {
		return w, fmt.Errorf("no EBML header")
	}
	if len(b) < e.hdr+int(e.size) {
		return end("EBML header cut")
	}
	if err := children(b[e.hdr:e.hdr+int(e.size)], func(id uint32, d []byte) error {
		if id == 0x4282 {
			w.DocType = string(d)
		}
		return nil
	}); err != nil {
		return w, err
	}
	if w.DocType != "webm" {
		return w, fmt.Errorf("document type %q", w.DocType)
	}
	pos = e.hdr + int(e.size)
	if e, ok = readElem(b[pos:]); !ok {
		return end("no segment")
	}
	if e.id != idSegment {
		return w, fmt.Errorf("element %x where the segment should be", e.id)
	}
	segEnd := len(b)
	if !e.unknown {
		segEnd = pos + e.hdr + int(e.size)
		if segEnd != len(b) {
			return w, fmt.Errorf("segment ends at %d, file at %d", segEnd, len(b))
		}
	}
	pos += e.hdr
	inCluster := false
	haveTime := false
	var ct int64
	for pos < segEnd {
		e, ok := readElem(b[pos:])
		if !ok {
			return end("incomplete element")
		}
		if e.id == idCluster {
			inCluster, haveTime = true, false
			if e.unknown {
				pos += e.hdr
				continue
			}
			// Sized clusters: parse the children in place.
			if pos+e.hdr+int(e.size) > segEnd && !partial {
				return end("cluster cut")
			}
			pos += e.hdr
			continue
		}
		if e.unknown {
			return w, fmt.Errorf("element %x of unknown size at %d", e.id, pos)
		}
		if e.size > uint64(len(b)-pos-e.hdr) {
			return end(fmt.Sprintf("element %x cut", e.id))
		}
		d := b[pos+e.hdr : pos+e.hdr+int(e.size)]
		next := pos + e.hdr + int(e.size)
		switch e.id {
		case idInfo:
			if err := children(d, func(id uint32, d []byte) error {
				if id == 0x2AD7B1 {
					w.Scale = beUint(d)
				}
				return nil
			}); err != nil {
				return w, err
			}
		case idTracks:
			if len(w.Blocks) > 0 || w.HeaderOK > 0 {
				return w, fmt.Errorf("second track list at %d", pos)
			}
			if err := children(d, func(id uint32, d []byte) error {
				if id != 0xAE {
					return nil
				}
				var t Track
				err := children(d, func(id uint32, d []byte) error {
					switch id {
					case 0xD7:
						t.Number = beUint(d)
					case 0x73C5:
						t.UID = beUint(d)
					case 0x83:
						t.Type = beUint(d)
					case 0x86:
						t.Codec = string(d)
					case 0xE0:
						return children(d, func(id uint32, d []byte) error {
							switch id {
							case 0xB0:
								t.W = beUint(d)
							case 0xBA:
								t.H = beUint(d)
							}
							return nil
						})
					case 0xE1:
						return children(d, func(id uint32, d []byte) error {
							switch id {
							case 0xB5:
								t.Rate = beFloat(d)
							case 0x9F:
								t.Chans = beUint(d)
							}
							return nil
						})
					}
					return nil
				})
				w.Tracks = append(w.Tracks, t)
				return err
			}); err != nil {
				return w, err
			}
			w.HeaderOK = next
		case 0xE7: // cluster time
			if !inCluster || haveTime {
				return w, fmt.Errorf("stray cluster time at %d", pos)
			}
			ct = int64(beUint(d))
			haveTime = true
			w.Clusters = append(w.Clusters, ct)
		case 0xAB: // previous size
			if !inCluster {
				return w, fmt.Errorf("stray previous size at %d", pos)
			}
		case 0xA3:
			if !haveTime {
				return w, fmt.Errorf("block outside a cluster at %d", pos)
			}
			tn, n, _, ok := vint(d, false)
			if !ok || len(d) < n+3 {
				return w, fmt.Errorf("bad block at %d", pos)
			}
			fl := d[n+2]
			if fl&0x06 != 0 {
				return w, fmt.Errorf("laced block at %d", pos)
			}
			w.Blocks = append(w.Blocks, Block{Track: tn, Time: ct + int64(int16(beUint(d[n:n+2]))), Key: fl&0x80 != 0, Data: d[n+3:], End: next})
		case 0x114D9B74, 0xEC, 0xBF: // seek head, void, crc
		default:
			return w, fmt.Errorf("unexpected element %x at %d", e.id, pos)
		}
		pos = next
	}
	if !partial {
		if len(w.Tracks) == 0 {
			return w, fmt.Errorf("no tracks")
		}
		if w.Scale != 1000000 {
			return w, fmt.Errorf("time scale %d", w.Scale)
		}
	}
	return w, nil
}

func children(b []byte, f func(id uint32, d []byte) error) error {
	for len(b) > 0 {
		e, ok := readElem(b)
		if !ok || e.unknown || e.size > uint64(len(b)-e.hdr) {
			return fmt.Errorf("bad child element")
		}
		if err := f(e.id, b[e.hdr:e.hdr+int(e.size)]); err != nil {
			return err
		}
		b = b[e.hdr+int(e.size):]
	}
	return nil
}

// TrackOf is the number of the track of a type (1 video, 2 audio); 0 if none.
func (w *WebM) TrackOf(typ uint64) uint64 {
	for _, t := range w.Tracks {
		if t.Type == typ {
			return t.Number
		}
	}
	return 0
}

// Of are the blocks of the track of a type.
func (w *WebM) Of(typ uint64) []Block {
	n := w.TrackOf(typ)
	var r []Block
	for _, b := range w.Blocks {
		if n != 0 && b.Track == n {
			r = append(r, b)
		}
	}
	return r
}

// ---------------------------------------------------------------------

type IVFFrame struct {
	TS   uint64
	Data []byte
}
type IVF struct {
	FourCC   string
	W, H     int
	Num, Den uint32
	Count    uint32
	Frames   []IVFFrame
}

func ParseIVF(b []byte) (*IVF, error) {
	if len(b) < 32 || string(b[:4]) != "DKIF" {
		return nil, fmt.Errorf("no IVF header")
	}
	le := binary.LittleEndian
	if le.Uint16(b[4:]) != 0 || le.Uint16(b[6:]) != 32 {
		return nil, fmt.Errorf("bad IVF version or header size")
	}
	v := &IVF{FourCC: string(b[8:12]), W: int(le.Uint16(b[12:])), H: int(le.Uint16(b[14:])), Den: le.Uint32(b[16:]), Num: le.Uint32(b[20:]), Count: le.Uint32(b[24:])}
	b = b[32:]
	for len(b) > 0 {
		if len(b) < 12 {
			return v, fmt.Errorf("IVF frame header cut")
		}
		n := int(le.Uint32(b))
		if len(b) < 12+n {
			return v, fmt.Errorf("IVF frame cut")
		}
		v.Frames = append(v.Frames, IVFFrame{le.Uint64(b[4:]), b[12 : 12+n]})
		b = b[12+n:]
	}
	return v, nil
}

func beFloat(b []byte) float64 {
	switch len(b) {
	case 4:
		return float64(math.Float32frombits(uint32(beUint(b))))
	case 8:
		return math.Float64frombits(beUint(b))
	}
	return 0
}
