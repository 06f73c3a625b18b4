package kafkamock_test

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"testing"
	"time"

	kafkamock "github.com/jimsnab/kafka-mock-go"
	"github.com/jimsnab/go-lane"
)

// A small raw client, so that the demonstrations see exactly what is on the wire.

const (
	apiFetch        = 1
	apiListOffsets  = 2
	apiMetadata     = 3
	apiOffsetCommit = 8
	apiOffsetFetch  = 9
	apiCoordinator  = 10
	apiJoinGroup    = 11
	apiHeartbeat    = 12
	apiLeaveGroup   = 13
	apiSyncGroup    = 14
	apiVersions     = 18
)

var versions = map[int16]int16{apiFetch: 2, apiListOffsets: 1, apiMetadata: 1, apiOffsetCommit: 2, apiOffsetFetch: 1, apiJoinGroup: 1}

func newMock(port uint) *kafkamock.KafkaMock {
	return kafkamock.NewKafkaMock(lane.NewNullLane(context.Background()), port)
}

type enc struct{ bytes.Buffer }

func (e *enc) i16(v int16) *enc { binary.Write(e, binary.BigEndian, v); return e }
func (e *enc) i32(v int32) *enc { binary.Write(e, binary.BigEndian, v); return e }
func (e *enc) i64(v int64) *enc { binary.Write(e, binary.BigEndian, v); return e }
func (e *enc) str(s string) *enc {
	e.i16(int16(len(s)))
	e.WriteString(s)
	return e
}

type dec struct {
	b []byte
	n int
}

func (d *dec) take(n int) []byte {
	b := d.b[d.n : d.n+n]
	d.n += n
	return b
}
func (d *dec) i16() int16 { return int16(binary.BigEndian.Uint16(d.take(2))) }
func (d *dec) i32() int32 { return int32(binary.BigEndian.Uint32(d.take(4))) }
func (d *dec) i64() int64 { return int64(binary.BigEndian.Uint64(d.take(8))) }
func (d *dec) str() string {
	n := d.i16()
	if n < 0 {
		return ""
	}
	return string(d.take(int(n)))
}
func (d *dec) bytes() []byte {
	n := d.i32()
	if n < 0 {
		return nil
	}
	return d.take(int(n))
}

func frame(api int16, corr int32, body []byte) []byte {
	e := &enc{}
	e.i32(int32(8 + 2 + 4 + len(body)))
	e.i16(api).i16(versions[api]).i32(corr).str("demo")
	e.Write(body)
	return e.Bytes()
}

type client struct {
	net.Conn
	corr int32
}

func dial(port uint) (*client, error) {
	var err error
	for i := 0; i < 200; i++ {
		var c net.Conn
		if c, err = net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", port), 5*time.Second); err == nil {
			return &client{Conn: c}, nil
		}
		time.Sleep(10 * time.Millisecond)
	}
	return nil, err
}

func mustDial(t *testing.T, port uint) *client {
	t.Helper()
	c, err := dial(port)
	if err != nil {
		t.Fatalf("dial: %v", err)
	}
	return c
}

func (c *client) sendReq(api int16, body []byte) (int32, error) {
	c.corr++
	_, err := c.Write(frame(api, c.corr, body))
	return c.corr, err
}

func (c *client) recv() (int32, *dec, error) {
	h := make([]byte, 8)
	if _, err := io.ReadFull(c, h); err != nil {
		return 0, nil, err
	}
	n := int(binary.BigEndian.Uint32(h)) - 4
	b := make([]byte, n)
	if _, err := io.ReadFull(c, b); err != nil {
		return 0, nil, err
	}
	return int32(binary.BigEndian.Uint32(h[4:])), &dec{b: b}, nil
}

func (c *client) call(api int16, body []byte) (*dec, error) {
	c.SetReadDeadline(time.Now().Add(15 * time.Second))
	corr, err := c.sendReq(api, body)
	if err != nil {
		return nil, err
	}
	got, d, err := c.recv()
	if err == nil && got != corr {
		err = fmt.Errorf("reply with correlation id %d, want %d", got, corr)
	}
	return d, err
}

type part struct {
	t   string
	p   int32
	off int64 // fetch offset, timestamp, offset to commit
	max int32
}

func fetchBody(waitMs, minBytes int32, ps ...part) []byte {
	e := &enc{}
	e.i32(-1).i32(waitMs).i32(minBytes).i32(int32(len(ps)))
	for _, p := range ps {
		e.str(p.t).i32(1).i32(p.p).i64(p.off).i32(p.max)
	}
	return e.Bytes()
}

type rec struct {
	off, ts    int64
	key, value []byte
}

type fetched struct {
	t    string
	p    int32
	err  int16
	hw   int64
	recs []rec
	size int
}

func decodeFetch(d *dec) (out []fetched) {
	d.i32()
	for n := d.i32(); n > 0; n-- {
		t := d.str()
		for m := d.i32(); m > 0; m-- {
			f := fetched{t: t, p: d.i32(), err: d.i16(), hw: d.i64()}
			size := int(d.i32())
			f.size = size
			s := &dec{b: d.take(size)}
			for s.n < size {
				r := rec{off: s.i64()}
				s.i32()
				s.take(4 + 2) // crc, magic, attributes
				r.ts = s.i64()
				r.key, r.value = s.bytes(), s.bytes()
				f.recs = append(f.recs, r)
			}
			out = append(out, f)
		}
	}
	return
}

func (c *client) fetch(t *testing.T, waitMs int32, ps ...part) []fetched {
	t.Helper()
	d, err := c.call(apiFetch, fetchBody(waitMs, 1, ps...))
	if err != nil {
		t.Fatalf("fetch: %v", err)
	}
	return decodeFetch(d)
}

type listed struct {
	err     int16
	ts, off int64
}

// list offsets; off is the timestamp to ask for
func (c *client) list(t *testing.T, ps ...part) (out []listed) {
	t.Helper()
	e := &enc{}
	e.i32(-1).i32(int32(len(ps)))
	for _, p := range ps {
		e.str(p.t).i32(1).i32(p.p).i64(p.off)
	}
	d, err := c.call(apiListOffsets, e.Bytes())
	if err != nil {
		t.Fatalf("list offsets: %v", err)
	}
	for n := d.i32(); n > 0; n-- {
		d.str()
		for m := d.i32(); m > 0; m-- {
			d.i32()
			out = append(out, listed{err: d.i16(), ts: d.i64(), off: d.i64()})
		}
	}
	return
}

func commitBody(group string, ps ...part) []byte {
	e := &enc{}
	e.str(group).i32(1).str("1").i64(-1).i32(int32(len(ps)))
	for _, p := range ps {
		e.str(p.t).i32(1).i32(p.p).i64(p.off).str("")
	}
	return e.Bytes()
}

func (c *client) commit(t *testing.T, group string, ps ...part) (errs []int16) {
	t.Helper()
	d, err := c.call(apiOffsetCommit, commitBody(group, ps...))
	if err != nil {
		t.Fatalf("commit: %v", err)
	}
	for n := d.i32(); n > 0; n-- {
		d.str()
		for m := d.i32(); m > 0; m-- {
			d.i32()
			errs = append(errs, d.i16())
		}
	}
	return
}

// committed offset, or -1 when the reply leaves the partition out
func (c *client) committed(t *testing.T, group, topic string, p int32) int64 {
	t.Helper()
	d, err := c.call(apiOffsetFetch, (&enc{}).offsetFetch(group, topic, p))
	if err != nil {
		t.Fatalf("offset fetch: %v", err)
	}
	for n := d.i32(); n > 0; n-- {
		d.str()
		for m := d.i32(); m > 0; m-- {
			d.i32()
			return d.i64()
		}
	}
	return -1
}

func (e *enc) offsetFetch(group, topic string, p int32) []byte {
	e.str(group).i32(1).str(topic).i32(1).i32(p)
	return e.Bytes()
}

type metaTopic struct {
	err   int16
	parts []int32
}

func (c *client) meta(t *testing.T, topics ...string) (port int32, out map[string]metaTopic) {
	t.Helper()
	e := &enc{}
	if topics == nil {
		e.i32(-1)
	} else {
		e.i32(int32(len(topics)))
		for _, s := range topics {
			e.str(s)
		}
	}
	d, err := c.call(apiMetadata, e.Bytes())
	if err != nil {
		t.Fatalf("metadata: %v", err)
	}
	for n := d.i32(); n > 0; n-- {
		d.i32()
		d.str()
		port = d.i32()
		d.str()
	}
	d.i32()
	out = map[string]metaTopic{}
	for n := d.i32(); n > 0; n-- {
		mt := metaTopic{err: d.i16()}
		name := d.str()
		d.take(1)
		for m := d.i32(); m > 0; m-- {
			d.i16()
			mt.parts = append(mt.parts, d.i32())
			d.i32()
			d.take(int(d.i32()) * 4)
			d.take(int(d.i32()) * 4)
		}
		out[name] = mt
	}
	return
}

// the error code of a heartbeat
func (c *client) heartbeat() error {
	_, err := c.call(apiHeartbeat, (&enc{}).str("g").i32(1).str("1").Bytes())
	return err
}

func returns(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}
