package engine

// An independent codec for the part of the Kafka protocol the server supports.

import (
	"errors"
	"fmt"
	"hash/crc32"
)

const (
	kFetch        = 1
	kListOffsets  = 2
	kMetadata     = 3
	kOffsetCommit = 8
	kOffsetFetch  = 9
	kFindCoord    = 10
	kJoinGroup    = 11
	kHeartbeat    = 12
	kLeaveGroup   = 13
	kSyncGroup    = 14
	kApiVersions  = 18
)

// the API versions that exist, by name used in scenarios
var apis = []struct {
	name     string
	key, ver int16
}{
	{"fetch", kFetch, 2}, {"list", kListOffsets, 1}, {"meta", kMetadata, 1},
	{"commit", kOffsetCommit, 2}, {"ofetch", kOffsetFetch, 1}, {"coord", kFindCoord, 0},
	{"join", kJoinGroup, 1}, {"beat", kHeartbeat, 0}, {"leave", kLeaveGroup, 0},
	{"sync", kSyncGroup, 0}, {"vers", kApiVersions, 0},
}

func apiOf(name string) (key, ver int16) {
	for i := range apis {
		if apis[i].name == name {
			return apis[i].key, apis[i].ver
		}
	}
	panic("unknown api " + name)
}

type enc struct{ b []byte }

func (e *enc) i8(v int8)   { e.b = append(e.b, byte(v)) }
func (e *enc) i16(v int16) { e.b = append(e.b, byte(v>>8), byte(v)) }
func (e *enc) i32(v int32) { e.b = append(e.b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v)) }
func (e *enc) i64(v int64) {
	e.i32(int32(v >> 32))
	e.i32(int32(v))
}
func (e *enc) str(s string) {
	e.i16(int16(len(s)))
	e.b = append(e.b, s...)
}
func (e *enc) null() { e.i16(-1) }
func (e *enc) bytes(p []byte) {
	e.i32(int32(len(p)))
	e.b = append(e.b, p...)
}
func (e *enc) arr(n int, null bool) {
	if null {
		e.i32(-1)
	} else {
		e.i32(int32(n))
	}
}

func pad(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte(i%26)
	}
	return string(b)
}

// groups consecutive entries of one topic
func (op *Op) groups(f func(topic string, ents []Ent)) int {
	n := 0
	for i := 0; i < len(op.Ent); {
		j := i + 1
		for j < len(op.Ent) && op.Ent[j].T == op.Ent[i].T && !op.Ent[j].Split {
			j++
		}
		if f != nil {
			f(op.Ent[i].T, op.Ent[i:j])
		}
		n++
		i = j
	}
	return n
}

// vary draws protocol fields that have no bearing on the reply.
type vary struct{ s uint64 }

func (v *vary) i32(usual int32) int32 {
	if v.s == 0 {
		return usual
	}
	v.s = mix64(v.s) | 1
	x := int32(v.s >> 32)
	switch v.s >> 8 & 7 {
	case 0:
		return usual
	case 1:
		return 0
	case 2:
		return -1
	case 3:
		return 1
	case 4:
		return x & 0xffff
	case 5:
		return 1<<31 - 1
	}
	return x
}

func (v *vary) i64(usual int64) int64 {
	if v.s == 0 {
		return usual
	}
	return int64(v.i32(int32(usual)))<<(v.s>>40&31) | int64(v.s>>50&1)
}

func (v *vary) str(usual string) string {
	if v.s == 0 || len(usual) > 1000 {
		return usual
	}
	v.s = mix64(v.s) | 1
	return pick4(v.s>>8, usual, "", usual+"\x00\xff", "grüße")
}

func pick4(x uint64, a ...string) string { return a[x%uint64(len(a))] }

// encode builds the frame of a request.
func encode(op *Op, corr int32) []byte {
	b := encode1(op, corr, op.Cid)
	if op.Fill > 0 {
		if n := op.Fill - len(b) + max(op.Cid, 0); n >= 0 && n <= 32767 {
			b = encode1(op, corr, n)
		}
	}
	return b
}

func encode1(op *Op, corr int32, cid int) []byte {
	v := &vary{op.Var}
	e := &enc{b: make([]byte, 4, 256)}
	key, ver := apiOf(op.Api)
	e.i16(key)
	e.i16(ver)
	e.i32(corr)
	switch {
	case cid < 0:
		e.null()
	default:
		e.str(pad(cid))
	}
	switch key {
	case kFetch:
		e.i32(v.i32(-1))
		e.i32(int32(op.Wait))
		e.i32(int32(op.Min))
		e.arr(op.groups(nil), op.Null)
		op.groups(func(t string, ents []Ent) {
			e.str(t)
			e.i32(int32(len(ents)))
			for _, x := range ents {
				e.i32(x.P)
				e.i64(x.Off)
				e.i32(x.Lim)
			}
		})
	case kListOffsets:
		e.i32(v.i32(-1))
		e.arr(op.groups(nil), op.Null)
		op.groups(func(t string, ents []Ent) {
			e.str(t)
			e.i32(int32(len(ents)))
			for _, x := range ents {
				e.i32(x.P)
				e.i64(x.Off)
			}
		})
	case kMetadata:
		e.arr(len(op.Ent), op.Null)
		for _, x := range op.Ent {
			e.str(x.T)
		}
	case kOffsetCommit:
		e.str(op.G)
		e.i32(v.i32(int32(op.Min)))
		e.str(v.str(pad(op.Pad)))
		e.i64(v.i64(-1))
		e.arr(op.groups(nil), op.Null)
		op.groups(func(t string, ents []Ent) {
			e.str(t)
			e.i32(int32(len(ents)))
			for _, x := range ents {
				e.i32(x.P)
				e.i64(x.Off)
				if x.Lim < 0 {
					e.null()
				} else {
					e.str(pad(int(x.Lim)))
				}
			}
		})
	case kOffsetFetch:
		e.str(op.G)
		e.arr(op.groups(nil), op.Null)
		op.groups(func(t string, ents []Ent) {
			e.str(t)
			e.i32(int32(len(ents)))
			for _, x := range ents {
				e.i32(x.P)
			}
		})
	case kFindCoord:
		e.str(op.G)
	case kJoinGroup:
		e.str(op.G)
		e.i32(v.i32(30000))
		e.i32(v.i32(30000))
		e.str(v.str(pad(op.Pad)))
		e.str(v.str("consumer"))
		if op.Null {
			e.i32(-1)
		} else if n := v.i32(2) & 15; n != 2 {
			e.i32(n)
			for ; n > 0; n-- {
				e.str(v.str("range"))
				e.bytes([]byte(v.str("xyz")))
			}
		} else {
			e.i32(2)
			e.str("range")
			e.bytes([]byte{0, 1, 0, 0, 0, 0, 0, 0, 0, 0})
			e.str("roundrobin")
			e.bytes([]byte(pad(op.Pad)))
		}
	case kHeartbeat:
		e.str(op.G)
		e.i32(v.i32(1))
		e.str(v.str(pad(op.Pad)))
	case kLeaveGroup:
		e.str(op.G)
		e.str(v.str(pad(op.Pad)))
	case kSyncGroup:
		e.str(op.G)
		e.i32(v.i32(1))
		e.str(v.str(pad(op.Pad)))
		e.arr(0, op.Null) // members' assignments are unsupported: the server leads
	case kApiVersions:
	}
	n := len(e.b) - 4
	e.b[0], e.b[1], e.b[2], e.b[3] = byte(n>>24), byte(n>>16), byte(n>>8), byte(n)
	return e.b
}

// --- replies ---------------------------------------------------------------

var errShort = errors.New("truncated")

type dec struct {
	b   []byte
	off int
	err error
}

func (d *dec) take(n int) []byte {
	if d.err != nil {
		return nil
	}
	if n < 0 || d.off+n > len(d.b) {
		d.err = errShort
		return nil
	}
	p := d.b[d.off : d.off+n]
	d.off += n
	return p
}

func (d *dec) i8() int8 {
	if p := d.take(1); p != nil {
		return int8(p[0])
	}
	return 0
}
func (d *dec) i16() int16 {
	if p := d.take(2); p != nil {
		return int16(uint16(p[0])<<8 | uint16(p[1]))
	}
	return 0
}
func (d *dec) i32() int32 {
	if p := d.take(4); p != nil {
		return int32(uint32(p[0])<<24 | uint32(p[1])<<16 | uint32(p[2])<<8 | uint32(p[3]))
	}
	return 0
}
func (d *dec) i64() int64 {
	h := d.i32()
	l := d.i32()
	return int64(h)<<32 | int64(uint32(l))
}
func (d *dec) str() string {
	n := d.i16()
	if n < 0 {
		return ""
	}
	return string(d.take(int(n)))
}
func (d *dec) bytes() []byte {
	n := d.i32()
	if n < 0 {
		return nil
	}
	p := d.take(int(n))
	if d.err != nil {
		return nil
	}
	return append([]byte{}, p...)
}
func (d *dec) arr(min int) int {
	n := int(d.i32())
	if n < 0 {
		return 0
	}
	if d.err == nil && n*min > len(d.b)-d.off {
		d.err = errShort
		return 0
	}
	return n
}

type RecV struct {
	Off      int64
	TS       int64
	Key, Val []byte // nil or not matters
	Size     int    // bytes in the set
}

type PartR struct {
	T    string
	P    int32
	Err  int16
	Off  int64 // offset, committed offset, or high watermark
	TS   int64
	Size int // message set bytes
	Recs []RecV
	Bad  string // what is wrong with the message set
}

type Reply struct {
	Parts   []PartR
	Topics  []string // topics in reply order (with repeats)
	TErr    []int16
	Brokers []Broker
	Vers    [][3]int16
	Err     int16
	Port    int32
	Host    string
	Bad     string
}

type Broker struct {
	ID   int32
	Host string
	Port int32
}

// parse decodes the body of a reply (after the correlation id).
func parse(api string, body []byte) *Reply {
	key, _ := apiOf(api)
	d := &dec{b: body}
	r := &Reply{}
	switch key {
	case kFetch:
		d.i32()
		for n := d.arr(6); n > 0 && d.err == nil; n-- {
			t := d.str()
			r.Topics = append(r.Topics, t)
			for m := d.arr(18); m > 0 && d.err == nil; m-- {
				p := PartR{T: t}
				p.P = d.i32()
				p.Err = d.i16()
				p.Off = d.i64()
				n := d.i32()
				if n < 0 {
					n = 0
				}
				set := d.take(int(n))
				p.Size = len(set)
				if d.err == nil {
					p.Recs, p.Bad = messages(set)
				}
				r.Parts = append(r.Parts, p)
			}
		}
	case kListOffsets:
		for n := d.arr(6); n > 0 && d.err == nil; n-- {
			t := d.str()
			r.Topics = append(r.Topics, t)
			for m := d.arr(22); m > 0 && d.err == nil; m-- {
				p := PartR{T: t}
				p.P = d.i32()
				p.Err = d.i16()
				p.TS = d.i64()
				p.Off = d.i64()
				r.Parts = append(r.Parts, p)
			}
		}
	case kMetadata:
		for n := d.arr(12); n > 0 && d.err == nil; n-- {
			b := Broker{ID: d.i32(), Host: d.str(), Port: d.i32()}
			d.str()
			r.Brokers = append(r.Brokers, b)
		}
		d.i32()
		for n := d.arr(9); n > 0 && d.err == nil; n-- {
			e := d.i16()
			t := d.str()
			d.i8()
			r.Topics = append(r.Topics, t)
			r.TErr = append(r.TErr, e)
			for m := d.arr(18); m > 0 && d.err == nil; m-- {
				p := PartR{T: t}
				p.Err = d.i16()
				p.P = d.i32()
				p.Off = int64(d.i32()) // leader
				for k := d.arr(4); k > 0; k-- {
					d.i32()
				}
				for k := d.arr(4); k > 0; k-- {
					d.i32()
				}
				r.Parts = append(r.Parts, p)
			}
		}
	case kOffsetCommit:
		for n := d.arr(6); n > 0 && d.err == nil; n-- {
			t := d.str()
			r.Topics = append(r.Topics, t)
			for m := d.arr(6); m > 0 && d.err == nil; m-- {
				p := PartR{T: t}
				p.P = d.i32()
				p.Err = d.i16()
				r.Parts = append(r.Parts, p)
			}
		}
	case kOffsetFetch:
		for n := d.arr(6); n > 0 && d.err == nil; n-- {
			t := d.str()
			r.Topics = append(r.Topics, t)
			for m := d.arr(14); m > 0 && d.err == nil; m-- {
				p := PartR{T: t}
				p.P = d.i32()
				p.Off = d.i64()
				d.str()
				p.Err = d.i16()
				r.Parts = append(r.Parts, p)
			}
		}
	case kFindCoord:
		r.Err = d.i16()
		d.i32()
		r.Host = d.str()
		r.Port = d.i32()
	case kJoinGroup:
		r.Err = d.i16()
		d.i32()
		d.str()
		d.str()
		d.str()
		for n := d.arr(6); n > 0 && d.err == nil; n-- {
			d.str()
			d.bytes()
		}
	case kHeartbeat, kLeaveGroup:
		r.Err = d.i16()
	case kSyncGroup:
		r.Err = d.i16()
		a := d.bytes()
		if d.err == nil {
			x := &dec{b: a}
			x.i16()
			for n := x.arr(6); n > 0 && x.err == nil; n-- {
				t := x.str()
				r.Topics = append(r.Topics, t)
				for m := x.arr(4); m > 0 && x.err == nil; m-- {
					r.Parts = append(r.Parts, PartR{T: t, P: x.i32()})
				}
			}
			x.bytes()
			if x.err != nil || x.off != len(a) {
				r.Bad = fmt.Sprintf("assignment malformed (%d of %d bytes used)", x.off, len(a))
			}
		}
	case kApiVersions:
		r.Err = d.i16()
		for n := d.arr(6); n > 0 && d.err == nil; n-- {
			r.Vers = append(r.Vers, [3]int16{d.i16(), d.i16(), d.i16()})
		}
	}
	if d.err != nil {
		r.Bad = fmt.Sprintf("reply truncated at %d of %d bytes", d.off, len(body))
	} else if d.off != len(body) {
		r.Bad = fmt.Sprintf("%d bytes after the reply's end", len(body)-d.off)
	}
	return r
}

// messages decodes a version-1 message set.
func messages(set []byte) (recs []RecV, bad string) {
	d := &dec{b: set}
	for d.off < len(set) {
		start := d.off
		off := d.i64()
		size := d.i32()
		body := d.take(int(size))
		if d.err != nil || size < 22 {
			return recs, fmt.Sprintf("message at byte %d: size %d does not fit the set of %d bytes", start, size, len(set))
		}
		m := &dec{b: body}
		crc := uint32(m.i32())
		if want := crc32.ChecksumIEEE(body[4:]); crc != want {
			return recs, fmt.Sprintf("message at offset %d: crc %08x, content has %08x", off, crc, want)
		}
		if v := m.i8(); v != 1 {
			return recs, fmt.Sprintf("message at offset %d: magic %d", off, v)
		}
		if a := m.i8(); a != 0 {
			return recs, fmt.Sprintf("message at offset %d: attributes %d", off, a)
		}
		r := RecV{Off: off, Size: d.off - start}
		r.TS = m.i64()
		r.Key = m.bytes()
		r.Val = m.bytes()
		if m.err != nil || m.off != len(body) {
			return recs, fmt.Sprintf("message at offset %d: size field does not match its content", off)
		}
		recs = append(recs, r)
	}
	return recs, ""
}
