// Package simnet is the simulated TCP. It takes the place of package net in the
// system under test. It is built without race instrumentation and synchronises
// only through runtime.SimW, so it adds no happens-before edge between client
// and server goroutines. The single P without preemption makes every stretch
// of code between two waits atomic.
//
// It deliberately uses no map, append or channel: their runtime implementations
// report to the race detector.
package simnet

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"runtime"
	"syscall"
	"time"
	"weak"
)

// Params are the network conditions of one connection.
type Params struct {
	Seed      uint64
	LatMin    int64 // one-way latency bounds per segment, ns
	LatMax    int64
	SegMax    int // largest segment (0: no segmentation)
	WinC2S    int // bytes in flight or unread before the writer blocks
	WinS2C    int
	ShortRead int // out of 256: reads that return less than available
}

// Fault kinds.
const (
	FReset   = iota // client resets: server reads ECONNRESET
	FClose          // client closes both directions
	FHalf           // client closes its sending direction
	FTimeout        // connection dies with ETIMEDOUT
	FUnreach        // connection dies with EHOSTUNREACH
	FNetUnr         // connection dies with ENETUNREACH
	FPipe           // server's writes fail with EPIPE, reads end
	FAbort          // connection dies with ECONNABORTED
	FStall          // both directions make no progress for D
	FOdd            // connection dies with another error number, drawn by D
	NFaults
)

var FaultNames = [...]string{"reset", "close", "halfclose", "timeout", "hostunreach", "netunreach", "epipe", "aborted", "stall", "odd errno"}

// what a connection may report besides the usual, for example once an ICMP
// message has arrived for it
var oddErrnos = [...]syscall.Errno{syscall.ECONNREFUSED, syscall.EHOSTDOWN, syscall.ENONET, syscall.EACCES, syscall.EPROTO, syscall.ENOPROTOOPT, syscall.ENETDOWN, syscall.EIO}

// Trigger injects a fault when a byte position is reached.
type Trigger struct {
	Dir   int   // 0: bytes consumed by the server, 1: bytes written by the server
	At    int64 // position in the stream
	Kind  int
	D     int64
	fired bool
}

type Stats struct {
	Faults     [NFaults]int64
	Trig       [NFaults]int64
	Conns      int64
	Refused    int64
	BytesC2S   int64
	BytesS2C   int64
	Segments   int64
	BlockedWr  int64
	ShortReads int64
	RstUnread  int64
	Nears      int64
	WriteErrs  int64
	ReadErrs   int64
	Deadlines  int64
	Shortages  int64
	AcceptErrs int64
	DupErrs    int64
	FileDups   int64
	PartialWr  int64
}

var St Stats

const (
	kData = iota
	kFin
	kRst
)

type seg struct {
	next *seg
	buf  []byte
	off  int
	at   int64
	kind int
	err  syscall.Errno
}

type half struct {
	head, tail *seg
	inflight   int
	window     int
	lastAt     int64
	wshut      bool // writer shut down
	discard    bool // reader gone: data is dropped and answered by a reset
	eof        bool
	written    int64
	consumed   int64
	reader     waitq
	writer     waitq
	rng        uint64
	wlog, clog posLog // when each position was written, and consumed
}

// posLog records when a stream reached its positions.
type posLog struct{ first, last *posChunk }

type posChunk struct {
	next *posChunk
	n    int
	e    [24]Pos
}

// Pos says that the stream had reached position P at time T (sequence number
// Seq); At is when bytes written up to there arrive.
type Pos struct{ P, T, Seq, At int64 }

func (l *posLog) add(p, at int64) {
	if l.last == nil || l.last.n == len(l.last.e) {
		c := &posChunk{}
		if l.last == nil {
			l.first = c
		} else {
			l.last.next = c
		}
		l.last = c
	}
	l.last.e[l.last.n] = Pos{p, now(), NextSeq(), at}
	l.last.n++
}

// find returns the entry at which the stream first had at least p bytes.
func (l *posLog) find(p int64) (Pos, bool) {
	for c := l.first; c != nil; c = c.next {
		if c.e[c.n-1].P < p {
			continue
		}
		for i := 0; i < c.n; i++ {
			if c.e[i].P >= p {
				return c.e[i], true
			}
		}
	}
	return Pos{}, false
}

var seq int64

// NextSeq numbers the events of a run.
func NextSeq() int64 {
	seq++
	return seq
}

// SentAt, ConsumedAt: when the stream written by this end reached position p at
// this end, and when the peer had read that far.
func (c *tcpEnd) SentAt(p int64) (Pos, bool)     { return c.out.wlog.find(p) }
func (c *tcpEnd) ConsumedAt(p int64) (Pos, bool) { return c.out.clog.find(p) }

// PeerSentAt is SentAt for the other direction.
func (c *tcpEnd) PeerSentAt(p int64) (Pos, bool) { return c.in.wlog.find(p) }

// ArmTrigger adds a fault that fires when the server has consumed (dir 0) or
// written (dir 1) at bytes of the stream. c is the client end.
func (c *tcpEnd) ArmTrigger(dir int, at int64, kind int, d int64) {
	s := c.peer
	t := make([]Trigger, len(s.trig)+1)
	copy(t, s.trig)
	t[len(s.trig)] = Trigger{Dir: dir, At: at, Kind: kind, D: d}
	s.trig = t
}

// FaultAt is when (sequence number, time) the connection was first hit by a
// fault or closed, half-closed or reset by the client; 0 if never.
func (c *tcpEnd) FaultAt() (seq, t int64) { return c.hurtSeq, c.hurtT }

// PeerBlocked is how long the server's writes on this connection waited for the
// client to make room between two times.
func (c *tcpEnd) PeerBlocked(from, to int64) int64 {
	var d int64
	for _, b := range c.peer.blocks {
		if lo, hi := max(b[0], from), min(b[1], to); lo < hi {
			d += hi - lo
		}
	}
	return d
}

// GoneAt is FaultAt without half-closes: a client that has half-closed still
// receives.
func (c *tcpEnd) GoneAt() (seq, t int64) { return c.goneSeq, c.goneT }

func (c *tcpEnd) gone() {
	c.hurt()
	if c.goneSeq == 0 {
		c.goneSeq, c.goneT = NextSeq(), now()
	}
}

func (c *tcpEnd) hurt() {
	if c.hurtSeq == 0 {
		c.hurtSeq, c.hurtT = NextSeq(), now()
	}
}

// PeerClosedSeq is the sequence number at which the other end closed its socket.
func (c *tcpEnd) PeerClosedSeq() int64 { return c.peer.closedSeq }

// waitq: the few goroutines waiting for one condition.
type waiter struct {
	w    runtime.SimW
	next *waiter
	in   int64 // steps
}
type waitq struct{ head *waiter }

func (q *waitq) wait(until int64) { q.waitIn(until, 0) }

func (q *waitq) waitIn(until, in int64) {
	n := &waiter{next: q.head, in: in}
	q.head = n
	n.w.Wait(until)
	for p := &q.head; *p != nil; p = &(*p).next {
		if *p == n {
			*p = n.next
			break
		}
	}
}

func (q *waitq) wakeAll() {
	for n := q.head; n != nil; n = n.next {
		if n.in > 0 {
			n.w.WakeIn(n.in)
			n.in = -1 // once
		} else if n.in == 0 {
			n.w.Wake()
		}
	}
}

// TCPConn is a handle to one end of a connection; it has the method set of
// net.TCPConn. The world keeps no strong reference to the handle the server got,
// so whether the server still holds on to it can be found out.
type TCPConn struct{ *tcpEnd }

type tcpEnd struct {
	handle    weak.Pointer[TCPConn] // what the server got when it accepted
	peer      *tcpEnd
	server    bool
	in, out   *half
	closed    bool
	dead      bool          // reset or timed out; err has been or will be reported once
	err       syscall.Errno // pending socket error
	rdl, wdl  int64
	local     *net.TCPAddr
	remote    *net.TCPAddr
	p         *Params
	trig      []Trigger
	next      *tcpEnd // world's list of server ends
	linger0   bool
	accepted  bool
	queuedAt  int64
	readyAt   int64 // accepted late for want of descriptors: when it was, at most
	closedAt  int64
	closedSeq int64
	blocks    [][2]int64 // server: when writes waited for the client's window
	hurtSeq   int64
	goneSeq   int64
	goneT     int64
	hurtT     int64
	stalled   int64 // end of the last stall
}

// World is all network state of one run.
type World struct {
	listeners  *TCPListener
	conns      *tcpEnd // server ends, newest first
	nextPort   int
	dialing    []*tcpEnd // server ends of attempts on their way
	reuse      bool      // client ports are reused as soon as a real system may
	BindFail   map[int]int
	scarceAt   int64 // the latest period without free descriptors
	scarceEnd  int64
	scarceKind int // index into shortages
	events     [4]waitq
}

// Things a server does that Near can wait for.
const (
	EvRead = iota
	EvWrote
	EvAccepted
	EvClosed
	NEvents
)

// Near waits for the next time that any server does something, for at most d, and
// then for that many steps of the execution.
func Near(kind int, d int64, steps int64) {
	St.Nears++
	W.events[kind].waitIn(now()+d, steps)
}

// ScarceSlack is how long after a shortage a server may take to accept again.
const ScarceSlack = 2e9

var shortages = [...]syscall.Errno{syscall.EMFILE, syscall.ENFILE, syscall.ENOBUFS, syscall.ENOMEM}

// Scarce makes the process (or, for other kinds than 0, the system) run out of
// descriptors for a while.
func Scarce(d int64, kind int) {
	W.scarceKind = kind & 3
	St.Shortages++
	if now() >= W.scarceEnd {
		W.scarceAt = now()
	}
	W.scarceEnd = max(W.scarceEnd, now()+d)
}

// Plenty ends a shortage.
func Plenty() { W.scarceEnd = min(W.scarceEnd, now()) }

// ScarceUntil is the end of the latest shortage.
func ScarceUntil() int64 { return W.scarceEnd }

// ReadyAt is when the connection was accepted, or should have been at the latest,
// if a shortage of descriptors delayed that; otherwise 0.
func (c *tcpEnd) ReadyAt() int64 {
	if p := c.peer; p.accepted {
		return p.readyAt
	} else if now() >= W.scarceAt && p.queuedAt < W.scarceEnd+ScarceSlack {
		return W.scarceEnd + ScarceSlack
	}
	return 0
}

var W World

func Reset(reuse bool) {
	W = World{nextPort: 40000, reuse: reuse}
	St = Stats{}
	files = nil
	seq = 0
}

//go:noinline
func now() int64 { return runtime.SimNow() }

func mix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// clientPort chooses the port of a connection's client end: a fresh one, or the
// lowest that no other connection to the same destination has or had recently.
func clientPort(sport int) int {
	if !W.reuse {
		W.nextPort++
		return W.nextPort
	}
	var used []bool
	mark := func(s *tcpEnd) {
		if s.local.Port != sport || s.dead || s.closed && s.peer.closed && now() >= max(s.closedAt, s.peer.closedAt)+1e9 {
			return
		}
		for len(used) <= s.remote.Port-40001 {
			used = append(used, false)
		}
		used[s.remote.Port-40001] = true
	}
	for s := W.conns; s != nil; s = s.next {
		mark(s)
	}
	for _, s := range W.dialing {
		mark(s)
	}
	for i, u := range used {
		if !u {
			return 40001 + i
		}
	}
	return 40001 + len(used)
}

func newPair(p *Params, cport, sport int) (c, s *tcpEnd) {
	if p == nil {
		p = &Params{}
	}
	w1, w2 := p.WinC2S, p.WinS2C
	if w1 <= 0 {
		w1 = 1 << 20
	}
	if w2 <= 0 {
		w2 = 1 << 20
	}
	c2s := &half{window: w1, rng: p.Seed*2 + 1}
	s2c := &half{window: w2, rng: p.Seed*2 + 2}
	ca := &net.TCPAddr{IP: net.IP{15: 1, 14: 0, 13: 0, 12: 127, 11: 255, 10: 255}, Port: cport}
	sa := &net.TCPAddr{IP: net.IP{15: 1, 14: 0, 13: 0, 12: 127, 11: 255, 10: 255}, Port: sport}
	c = &tcpEnd{in: s2c, out: c2s, local: ca, remote: sa, p: p}
	s = &tcpEnd{in: c2s, out: s2c, local: sa, remote: ca, p: p, server: true}
	c.peer, s.peer = s, c
	return
}

func (c *tcpEnd) latency(h *half) int64 {
	p := c.p
	if p.LatMax <= p.LatMin {
		return p.LatMin
	}
	return p.LatMin + int64(mix(&h.rng)%uint64(p.LatMax-p.LatMin))
}

func (h *half) push(s *seg) {
	if s.at < h.lastAt {
		s.at = h.lastAt
	}
	h.lastAt = s.at
	if h.tail == nil {
		h.head = s
	} else {
		h.tail.next = s
	}
	h.tail = s
	h.reader.wakeAll()
}

// dropUndelivered discards what has not arrived yet.
func (h *half) dropUndelivered() {
	t := now()
	var last *seg
	for s := h.head; s != nil && s.at <= t; s = s.next {
		last = s
	}
	if last == nil {
		h.head = nil
	} else {
		last.next = nil
	}
	h.tail = last
	h.inflight = 0
	for s := h.head; s != nil; s = s.next {
		h.inflight += len(s.buf) - s.off
	}
	h.lastAt = t
}

func (c *tcpEnd) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Source: c.local, Addr: c.remote, Err: err}
}

func (c *tcpEnd) sysErr(op string, e syscall.Errno) error {
	return c.opErr(op, os.NewSyscallError(op, e))
}

func expired(dl int64) bool { return dl != 0 && dl <= now() }

func minT(a, b int64) int64 {
	if a == 0 || (b != 0 && b < a) {
		return b
	}
	return a
}

func (c *tcpEnd) takeErr() syscall.Errno {
	e := c.err
	c.err = 0
	return e
}

func (c *tcpEnd) Read(p []byte) (int, error) {
	h := c.in
	for {
		if c.closed {
			return 0, c.opErr("read", net.ErrClosed)
		}
		if expired(c.rdl) {
			St.Deadlines++
			return 0, c.opErr("read", os.ErrDeadlineExceeded)
		}
		if len(p) == 0 {
			return 0, nil
		}
		t := now()
		s := h.head
		if s != nil && s.at <= t {
			switch s.kind {
			case kData:
				return c.consume(p), nil
			case kFin:
				h.eof = true
			case kRst:
				h.eof = true
				if !c.dead {
					c.kill(s.err)
				}
			}
			h.head = s.next
			if h.head == nil {
				h.tail = nil
			}
			continue
		}
		if c.err != 0 {
			if c.server {
				St.ReadErrs++
			}
			return 0, c.sysErr("read", c.takeErr())
		}
		if h.eof || c.dead {
			return 0, io.EOF
		}
		until := c.rdl
		if s != nil {
			until = minT(until, s.at)
		}
		h.reader.wait(until)
	}
}

// consume copies arrived bytes to p; there is at least one.
func (c *tcpEnd) consume(p []byte) int {
	h := c.in
	t := now()
	limit := len(p)
	var tr *Trigger
	if c.server {
		for i := range c.trig {
			x := &c.trig[i]
			if x.Dir == 0 && !x.fired && x.At > h.consumed && x.At-h.consumed <= int64(limit) {
				limit = int(x.At - h.consumed)
				tr = x
			}
		}
	}
	if c.p.ShortRead > 0 && int(mix(&h.rng)&255) < c.p.ShortRead && limit > 1 {
		limit = 1 + int(mix(&h.rng)%uint64(limit))
		St.ShortReads++
	}
	n := 0
	for n < limit {
		s := h.head
		if s == nil || s.at > t || s.kind != kData {
			break
		}
		k := copy(p[n:limit], s.buf[s.off:])
		n += k
		s.off += k
		if s.off == len(s.buf) {
			h.head = s.next
			if h.head == nil {
				h.tail = nil
			}
		}
	}
	runtime.SimMoved()
	h.inflight -= n
	h.consumed += int64(n)
	h.clog.add(h.consumed, 0)
	if c.server {
		St.BytesC2S += int64(n)
		W.events[EvRead].wakeAll()
	}
	h.writer.wakeAll()
	if tr != nil && h.consumed == tr.At {
		tr.fired = true
		St.Trig[tr.Kind]++
		c.peer.Fault(tr.Kind, tr.D)
	}
	return n
}

// kill marks the end dead with a pending error and wakes everybody on it.
func (c *tcpEnd) kill(e syscall.Errno) {
	if c.dead {
		return
	}
	c.dead = true
	c.err = e
	c.in.reader.wakeAll()
	c.out.writer.wakeAll()
}

func (c *tcpEnd) Write(p []byte) (int, error) {
	h := c.out
	n := 0
	for {
		if c.closed {
			return n, c.opErr("write", net.ErrClosed)
		}
		if expired(c.wdl) {
			St.Deadlines++
			if n > 0 {
				St.PartialWr++
			}
			return n, c.opErr("write", os.ErrDeadlineExceeded)
		}
		if !c.dead {
			c.arriveRst()
		}
		if c.dead {
			e := c.takeErr()
			if e == 0 {
				e = syscall.EPIPE
			}
			if c.server {
				St.WriteErrs++
				if n > 0 {
					St.PartialWr++
				}
			}
			return n, c.sysErr("write", e)
		}
		if h.wshut {
			return n, c.sysErr("write", syscall.EPIPE)
		}
		if n == len(p) {
			return n, nil
		}
		room := h.window - h.inflight
		if h.discard {
			room = len(p)
		}
		if room <= 0 {
			if c.server {
				St.BlockedWr++
			}
			t0 := now()
			h.writer.wait(minT(c.wdl, c.rstAt()))
			if c.server {
				c.blocks = append(c.blocks, [2]int64{t0, now()})
			}
			continue
		}
		k := len(p) - n
		if k > room {
			k = room
		}
		var tr *Trigger
		if c.server {
			for i := range c.trig {
				x := &c.trig[i]
				if x.Dir == 1 && !x.fired && x.At >= h.written && x.At-h.written < int64(k) {
					k = int(x.At - h.written)
					tr = x
				}
			}
		}
		c.transmit(p[n : n+k])
		n += k
		if tr != nil {
			tr.fired = true
			St.Trig[tr.Kind]++
			c.peer.Fault(tr.Kind, tr.D)
		}
	}
}

// transmit queues bytes, cut into segments.
func (c *tcpEnd) transmit(p []byte) {
	h := c.out
	h.written += int64(len(p))
	if c.server {
		St.BytesS2C += int64(len(p))
		W.events[EvWrote].wakeAll()
	}
	if h.discard {
		// the peer is gone: its kernel answers with a reset
		h.wlog.add(h.written, now())
		if c.in.tail == nil || c.in.tail.kind != kRst {
			c.in.eof = false
			c.in.push(&seg{kind: kRst, err: syscall.ECONNRESET, at: now() + 2*c.latency(h)})
			h.writer.wakeAll()
		}
		return
	}
	defer func() { h.wlog.add(h.written, h.lastAt) }()
	for len(p) > 0 {
		k := len(p)
		if m := c.p.SegMax; m > 0 && k > 1 {
			if x := 1 + int(mix(&h.rng)%uint64(m)); x < k {
				k = x
			}
		}
		b := make([]byte, k)
		copy(b, p[:k])
		p = p[k:]
		h.inflight += k
		St.Segments++
		h.push(&seg{buf: b, at: now() + c.latency(h)})
	}
}

// rstAt is the arrival time of a queued reset that follows no unread data.
func (c *tcpEnd) rstAt() int64 {
	for s := c.in.head; s != nil; s = s.next {
		if s.kind == kRst {
			return s.at
		}
	}
	return 0
}

// arriveRst lets an arrived reset take effect although earlier data is unread.
func (c *tcpEnd) arriveRst() {
	for s := c.in.head; s != nil; s = s.next {
		if s.kind == kRst && s.at <= now() {
			c.kill(s.err)
			return
		}
	}
}

func (c *tcpEnd) Close() error {
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	c.closed = true
	c.closedAt = now()
	c.closedSeq = NextSeq()
	if !c.server {
		c.gone()
	} else {
		W.events[EvClosed].wakeAll()
	}
	unread := c.in.head != nil && c.in.head.kind == kData && c.in.head.at <= now()
	if !c.dead {
		if c.linger0 || unread {
			if unread && c.server {
				St.RstUnread++
			}
			if c.linger0 && c.server { // abortive: what has not arrived may never do so
				c.out.dropUndelivered()
			}
			c.out.wshut = true
			c.out.push(&seg{kind: kRst, err: syscall.ECONNRESET, at: now() + c.latency(c.out)})
		} else if !c.out.wshut {
			c.out.wshut = true
			c.out.push(&seg{kind: kFin, at: now() + c.latency(c.out)})
		}
	}
	c.shutIn()
	c.in.reader.wakeAll()
	c.out.writer.wakeAll()
	c.peer.in.reader.wakeAll()
	c.peer.out.writer.wakeAll()
	return nil
}

// shutIn: nothing will be read any more; data still on its way, or sent later,
// is answered by a reset.
func (c *tcpEnd) shutIn() {
	h := c.in
	pending := false
	for s := h.head; s != nil; s = s.next {
		if s.kind == kData {
			pending = true
		}
	}
	h.discard = true
	h.head, h.tail, h.inflight = nil, nil, 0
	if pending && !c.linger0 && !c.peer.dead && (c.out.tail == nil || c.out.tail.kind != kRst) {
		c.out.push(&seg{kind: kRst, err: syscall.ECONNRESET, at: now() + 2*c.latency(c.out)})
	}
}

// Stalled is the total length of the stalls injected.
func (c *tcpEnd) Stalled() int64 { return c.stalled }

func (c *tcpEnd) CloseWrite() error {
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	if !c.server {
		c.hurt()
	}
	if !c.out.wshut && !c.dead {
		c.out.wshut = true
		c.out.push(&seg{kind: kFin, at: now() + c.latency(c.out)})
	}
	return nil
}

func (c *tcpEnd) CloseRead() error {
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	c.in.eof = true
	c.in.head, c.in.tail = nil, nil
	c.in.reader.wakeAll()
	return nil
}

// Fault injects a network fault; c is the client end.
func (c *tcpEnd) Fault(kind int, d int64) {
	s := c.peer
	St.Faults[kind]++
	if kind == FHalf {
		c.hurt()
	} else if kind != FStall {
		c.gone()
	}
	switch kind {
	case FReset:
		c.out.dropUndelivered()
		c.out.wshut = true
		s.kill(syscall.ECONNRESET)
		c.kill(syscall.ECONNRESET)
		c.in.dropUndelivered()
	case FClose:
		if !c.closed {
			c.Close()
		}
	case FHalf:
		c.CloseWrite()
	case FTimeout, FUnreach, FNetUnr, FAbort, FPipe, FOdd:
		e := [...]syscall.Errno{FTimeout: syscall.ETIMEDOUT, FUnreach: syscall.EHOSTUNREACH, FNetUnr: syscall.ENETUNREACH, FAbort: syscall.ECONNABORTED, FPipe: syscall.EPIPE, FOdd: oddErrnos[uint64(d)%uint64(len(oddErrnos))]}[kind]
		c.out.dropUndelivered()
		c.out.wshut = true
		s.kill(e)
		c.kill(syscall.ETIMEDOUT)
		c.in.dropUndelivered()
	case FStall:
		c.out.stall(d)
		c.in.stall(d)
		c.stalled += d
	}
}

func (h *half) stall(d int64) {
	t := now() + d
	for s := h.head; s != nil; s = s.next {
		if s.at > now() && s.at < t {
			s.at = t
		}
	}
	if h.lastAt < t {
		h.lastAt = t
	}
}

// Dead reports that the end got an error (reset, timeout) from the network.
func (c *tcpEnd) Dead() bool { return c.dead }

// Consumed is how many bytes of the stream written by this end the peer has read.
func (c *tcpEnd) Consumed() int64 { return c.out.consumed }

// Written is how many bytes this end has written.
func (c *tcpEnd) Written() int64 { return c.out.written }

// PeerWritten is how many bytes the other end has written.
func (c *tcpEnd) PeerWritten() int64 { return c.in.written }

// PeerClosed reports whether the other end has closed its socket.
func (c *tcpEnd) PeerClosed() bool { return c.peer.closed }

// PeerClosedAt is when it did.
func (c *tcpEnd) PeerClosedAt() int64 { return c.peer.closedAt }

// Accepted reports whether the server accepted this connection.
func (c *tcpEnd) Accepted() bool { return c.peer.accepted }

// Params of the connection, adjustable while it lives.
func (c *tcpEnd) Conditions() *Params { return c.p }

func (c *tcpEnd) LocalAddr() net.Addr  { return c.local }
func (c *tcpEnd) RemoteAddr() net.Addr { return c.remote }

func absTime(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := int64(time.Until(t))
	if d <= 0 {
		return 1
	}
	if x := now() + d; x > 0 {
		return x
	}
	return 1<<63 - 1
}

func (c *tcpEnd) SetDeadline(t time.Time) error {
	if c.closed {
		return c.opErr("set", net.ErrClosed)
	}
	c.rdl = absTime(t)
	c.wdl = c.rdl
	c.in.reader.wakeAll()
	c.out.writer.wakeAll()
	return nil
}

func (c *tcpEnd) SetReadDeadline(t time.Time) error {
	if c.closed {
		return c.opErr("set", net.ErrClosed)
	}
	c.rdl = absTime(t)
	c.in.reader.wakeAll()
	return nil
}

func (c *tcpEnd) SetWriteDeadline(t time.Time) error {
	if c.closed {
		return c.opErr("set", net.ErrClosed)
	}
	c.wdl = absTime(t)
	c.out.writer.wakeAll()
	return nil
}

func (c *tcpEnd) SetKeepAlive(bool) error                      { return nil }
func (c *tcpEnd) SetKeepAlivePeriod(time.Duration) error       { return nil }
func (c *tcpEnd) SetKeepAliveConfig(net.KeepAliveConfig) error { return nil }
func (c *tcpEnd) SetNoDelay(bool) error                        { return nil }
func (c *tcpEnd) SetReadBuffer(int) error                      { return nil }
func (c *tcpEnd) SetWriteBuffer(int) error                     { return nil }
func (c *tcpEnd) MultipathTCP() (bool, error)                  { return false, nil }
func (c *tcpEnd) SetLinger(sec int) error {
	c.linger0 = sec == 0
	return nil
}

func (c *tcpEnd) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{c}, r)
}

func (c *tcpEnd) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{c})
}

// --- descriptors -----------------------------------------------------------

type fileEnt struct {
	fd   int
	c    *tcpEnd
	next *fileEnt
}

var files *fileEnt

// File returns a duplicate descriptor; it refers to /dev/null, and simsys maps
// it back to the connection.
func (c *tcpEnd) File() (*os.File, error) {
	if c.closed {
		return nil, c.opErr("file", net.ErrClosed)
	}
	if now() < W.scarceEnd && W.scarceKind == 0 { // the others are no matter of dup
		St.DupErrs++
		return nil, c.opErr("file", os.NewSyscallError("dup", syscall.EMFILE))
	}
	fd, err := syscall.Open("/dev/null", syscall.O_RDWR|syscall.O_CLOEXEC, 0)
	if err != nil {
		return nil, c.opErr("file", err)
	}
	for e := files; e != nil; e = e.next {
		if e.fd == fd {
			e.c = nil
			e.fd = -1
		}
	}
	files = &fileEnt{fd: fd, c: c, next: files}
	St.FileDups++
	return os.NewFile(uintptr(fd), "tcp:simnet"), nil
}

// OpenFiles counts duplicated descriptors that are still open.
func OpenFiles() int {
	n := 0
	for e := files; e != nil; e = e.next {
		if e.fd >= 0 {
			if _, _, errno := syscall.Syscall(syscall.SYS_FCNTL, uintptr(e.fd), syscall.F_GETFD, 0); errno == 0 {
				n++
			}
		}
	}
	return n
}

// CloseFiles closes what is left over from a run.
func CloseFiles() {
	for e := files; e != nil; e = e.next {
		if e.fd >= 0 {
			if _, _, errno := syscall.Syscall(syscall.SYS_FCNTL, uintptr(e.fd), syscall.F_GETFD, 0); errno == 0 {
				// the os.File may still own it; leave closing to its cleanup
				_ = errno
			}
		}
	}
	files = nil
}

// PeekFD is recvfrom(fd, MSG_PEEK) for a duplicated descriptor.
func PeekFD(fd int, p []byte, peek bool) (n int, errno syscall.Errno, known bool) {
	var c *tcpEnd
	for e := files; e != nil; e = e.next {
		if e.fd == fd {
			c = e.c
			break
		}
	}
	if c == nil {
		return 0, 0, false
	}
	h := c.in
	t := now()
	if s := h.head; s != nil && s.at <= t && s.kind == kData && len(p) > 0 {
		if !peek {
			return c.consume(p), 0, true
		}
		return copy(p, s.buf[s.off:]), 0, true
	}
	if s := h.head; s != nil && s.at <= t && s.kind == kRst && !c.dead {
		c.kill(s.err)
	}
	if c.err != 0 {
		return 0, c.takeErr(), true
	}
	if h.eof || c.dead || (h.head != nil && h.head.at <= t && h.head.kind == kFin) {
		return 0, 0, true
	}
	return 0, syscall.EAGAIN, true
}

type rawConn struct{ c *tcpEnd }

func (r rawConn) fd() (uintptr, *os.File, error) {
	f, err := r.c.File()
	if err != nil {
		return 0, nil, err
	}
	return f.Fd(), f, nil
}

func (r rawConn) Control(f func(fd uintptr)) error {
	fd, file, err := r.fd()
	if err != nil {
		return err
	}
	defer file.Close()
	f(fd)
	return nil
}

func (r rawConn) Read(f func(fd uintptr) bool) error {
	fd, file, err := r.fd()
	if err != nil {
		return err
	}
	defer file.Close()
	for !f(fd) {
		h := r.c.in
		until := r.c.rdl
		if h.head != nil && h.head.at > now() {
			until = minT(until, h.head.at)
		}
		h.reader.wait(until)
		if expired(r.c.rdl) {
			return r.c.opErr("raw-read", os.ErrDeadlineExceeded)
		}
		if r.c.closed {
			return r.c.opErr("raw-read", net.ErrClosed)
		}
	}
	return nil
}

func (r rawConn) Write(f func(fd uintptr) bool) error {
	fd, file, err := r.fd()
	if err != nil {
		return err
	}
	defer file.Close()
	f(fd)
	return nil
}

func (c *tcpEnd) SyscallConn() (syscall.RawConn, error) {
	if c.closed {
		return nil, c.opErr("raw", net.ErrClosed)
	}
	return rawConn{c}, nil
}

// --- listening and dialing -------------------------------------------------

type TCPListener struct {
	port   int
	addr   *net.TCPAddr
	closed bool
	dl     int64
	qhead  *pending
	qtail  *pending
	wait   waitq

	failedAt int64 // for want of a descriptor
	next     *TCPListener
}

type pending struct {
	c    *tcpEnd
	next *pending
}

func parsePort(network, address string) (int, error) {
	_, ps, err := net.SplitHostPort(address)
	if err != nil {
		return 0, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	if ps == "" {
		return 0, nil
	}
	return net.LookupPort("tcp", ps)
}

func Listen(network, address string) (net.Listener, error) {
	port, err := parsePort(network, address)
	if err != nil {
		return nil, err
	}
	l, err := listen(port)
	if err != nil {
		return nil, err
	}
	return l, nil
}

func ListenTCP(network string, laddr *net.TCPAddr) (*TCPListener, error) {
	port := 0
	if laddr != nil {
		port = laddr.Port
	}
	return listen(port)
}

func listen(port int) (*TCPListener, error) {
	if port == 0 {
		W.nextPort++
		port = W.nextPort
	}
	for l := W.listeners; l != nil; l = l.next {
		if l.port == port && !l.closed {
			return nil, &net.OpError{Op: "listen", Net: "tcp", Addr: l.addr, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
		}
	}
	l := &TCPListener{port: port, addr: &net.TCPAddr{IP: net.IPv6zero, Port: port}, next: W.listeners}
	W.listeners = l
	return l, nil
}

type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
}

func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (net.Listener, error) {
	return Listen(network, address)
}

func (l *TCPListener) opErr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Addr: l.addr, Err: err}
}

func (l *TCPListener) Accept() (net.Conn, error) {
	c, err := l.AcceptTCP()
	if err != nil {
		return nil, err
	}
	return c, nil
}

func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	for {
		if l.closed {
			return nil, l.opErr("accept", net.ErrClosed)
		}
		if expired(l.dl) {
			return nil, l.opErr("accept", os.ErrDeadlineExceeded)
		}
		if now() < W.scarceEnd {
			if now() < l.failedAt+1e6 { // an accept loop without a pause is no live-lock
				l.wait.wait(l.failedAt + 1e6)
				continue
			}
			l.failedAt = now()
			St.AcceptErrs++
			return nil, l.opErr("accept", os.NewSyscallError("accept4", shortages[W.scarceKind]))
		}
		if e := l.qhead; e != nil {
			if now() >= W.scarceAt && e.c.queuedAt < W.scarceEnd+ScarceSlack {
				e.c.readyAt = min(now(), W.scarceEnd+ScarceSlack)
			}
			l.qhead = e.next
			if l.qhead == nil {
				l.qtail = nil
			}
			e.c.accepted = true
			W.events[EvAccepted].wakeAll()
			h := &TCPConn{e.c}
			e.c.handle = weak.Make(h)
			return h, nil
		}
		l.wait.wait(l.dl)
	}
}

func (l *TCPListener) Close() error {
	if l.closed {
		return l.opErr("close", net.ErrClosed)
	}
	l.closed = true
	for e := l.qhead; e != nil; e = e.next {
		// never accepted: the kernel resets it
		e.c.linger0 = true
		e.c.Close()
	}
	l.qhead, l.qtail = nil, nil
	l.wait.wakeAll()
	return nil
}

func (l *TCPListener) Addr() net.Addr { return l.addr }

func (l *TCPListener) SetDeadline(t time.Time) error {
	l.dl = absTime(t)
	l.wait.wakeAll()
	return nil
}

func (l *TCPListener) File() (*os.File, error) {
	return nil, l.opErr("file", errors.New("not supported by the simulator"))
}

func (l *TCPListener) SyscallConn() (syscall.RawConn, error) {
	return nil, l.opErr("raw", errors.New("not supported by the simulator"))
}

// Sleep is a virtual sleep without happens-before edges.
func Sleep(d int64) {
	if d <= 0 {
		return
	}
	var w runtime.SimW
	w.Wait(now() + d)
}

func findListener(port int) *TCPListener {
	for l := W.listeners; l != nil; l = l.next {
		if l.port == port && !l.closed {
			return l
		}
	}
	return nil
}

// Listening reports whether somebody listens on the port.
func Listening(port int) bool { return findListener(port) != nil }

// CloseListeners cleans up after a run.
func CloseListeners() {
	for l := W.listeners; l != nil; l = l.next {
		if !l.closed {
			l.Close()
		}
	}
}

// Connect is a client connecting to a port.
func Connect(port int, p *Params, trig []Trigger) (*TCPConn, error) {
	c, s := newPair(p, clientPort(port), port)
	s.trig = trig
	W.dialing = append(W.dialing, s)
	Sleep(c.latency(c.out))
	for i, d := range W.dialing {
		if d == s {
			W.dialing = append(W.dialing[:i], W.dialing[i+1:]...)
			break
		}
	}
	l := findListener(port)
	if l == nil {
		St.Refused++
		Sleep(c.latency(c.in))
		return nil, &net.OpError{Op: "dial", Net: "tcp", Addr: c.remote, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	St.Conns++
	s.next = W.conns
	W.conns = s
	e := &pending{c: s}
	s.queuedAt = now()
	if l.qtail == nil {
		l.qhead = e
	} else {
		l.qtail.next = e
	}
	l.qtail = e
	l.wait.wakeAll()
	for i := range trig {
		if trig[i].Dir == 0 && trig[i].At == 0 && !trig[i].fired {
			trig[i].fired = true
			St.Trig[trig[i].Kind]++
			c.Fault(trig[i].Kind, trig[i].D)
		}
	}
	Sleep(c.latency(c.in))
	return &TCPConn{c}, nil
}

// OpenServerEnds counts server-side sockets that are not closed (accepted or not),
// optionally only those on one port.
func OpenServerEnds(port int) int {
	n := 0
	for s := W.conns; s != nil; s = s.next {
		if !s.closed && (port == 0 || s.local.Port == port) {
			n++
		}
	}
	return n
}

// HeldHandles counts the closed server ends whose handle is still reachable.
// Meaningful after a garbage collection.
func HeldHandles() int {
	n := 0
	for s := W.conns; s != nil; s = s.next {
		if s.closed && s.accepted && s.handle.Value() != nil {
			n++
		}
	}
	return n
}

// LiveClients counts connections whose client end is open and alive.
func LiveClients(port int) int {
	n := 0
	for s := W.conns; s != nil; s = s.next {
		if !s.peer.closed && !s.peer.dead && !s.closed && (port == 0 || s.local.Port == port) {
			n++
		}
	}
	return n
}

// Dial and friends, for code under test that connects somewhere itself.
func Dial(network, address string) (net.Conn, error) {
	port, err := parsePort(network, address)
	if err != nil {
		return nil, err
	}
	c, err := Connect(port, nil, nil)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func DialTimeout(network, address string, timeout time.Duration) (net.Conn, error) {
	return Dial(network, address)
}

func DialTCP(network string, laddr, raddr *net.TCPAddr) (*TCPConn, error) {
	return Connect(raddr.Port, nil, nil)
}

type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	LocalAddr net.Addr
	KeepAlive time.Duration
}

func (d *Dialer) Dial(network, address string) (net.Conn, error) { return Dial(network, address) }

func (d *Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	return Dial(network, address)
}

type Resolver = net.Resolver
