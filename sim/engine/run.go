package engine

import (
	"context"
	"errors"
	"fmt"
	"os"
	"runtime"
	"strings"
	"time"

	"kmverif/simnet"
	"kmverif/target"
)

const (
	ms  = int64(1e6)
	sec = int64(1e9)
)

type waitBox struct{ w runtime.SimW }

type run struct {
	sc      *Scenario
	h       *History
	km      []*target.Mock
	states  []*actorState
	active  int // actors that main waits for
	mainW   waitBox
	cost    int64
	viol    []Violation
	postN   int
	dirty   bool
	marks   marks
	abort   bool
	final   []*finalState
	idleGor int
	cancel  []context.CancelFunc
	endT    int64
	kgos    []*kgoState
	skip    bool
	trace   bool
}

// marks are "this rare condition was reached" probes.
type marks struct {
	Waiting    int `json:"fetch_waited,omitempty"`
	Stopped    int `json:"stop_while_request_open,omitempty"`
	PartFrame  int `json:"stop_or_fault_inside_frame,omitempty"`
	Pipelined  int `json:"pipelined,omitempty"`
	Blocked    int `json:"server_write_blocked,omitempty"`
	BigReq     int `json:"large_request,omitempty"`
	LimitHit   int `json:"byte_limit_reached,omitempty"`
	ConcPost   int `json:"concurrent_posts,omitempty"`
	Refused    int `json:"dial_refused,omitempty"`
	Redials    int `json:"redials,omitempty"`
	CommitRace int `json:"concurrent_commits,omitempty"`
	Unknown    int `json:"unknown_topic_asked,omitempty"`
	Arrived    int `json:"data_arrived_during_wait,omitempty"`
	Woken      int `json:"fetch_ended_by_stop,omitempty"`
	Restarts   int `json:"restarts,omitempty"`
	LinGivenUp int `json:"register_searches_given_up,omitempty"`
	LeakChecks int `json:"leak_checks,omitempty"`
	KgoMsgs    int `json:"kafka_go_messages,omitempty"`
	KgoResume  int `json:"kafka_go_resumes,omitempty"`
	KgoCuts    int `json:"kafka_go_cuts,omitempty"`
}

type actorState struct {
	r      *run
	a      *Actor
	conn   *Conn
	cur    string
	curI   int
	curT   int64
	done   bool
	inWX   bool          // blocked in an open-ended wait
	joined chan struct{} // closed at the end: what the actor did happens before what main does then
	pos    []posEnt
}

type posEnt struct {
	t   string
	p   int32
	off int64
}

func now() int64 { return runtime.SimNow() }

// taken is virtual time consumed by the scheduler itself: injected stalls and
// the nominal cost of executed steps.
func (r *run) taken() int64 { return runtime.SimStallTotal() + runtime.SimSteps()*r.cost }

func (r *run) begin(s *Span, who string, i int) {
	s.Who, s.OpI = who, i
	// a stall in progress was counted when it began: its rest is yet to come
	s.InvT, s.InvS = now(), r.taken()-max(0, runtime.SimStallUntil()-now())
	s.Inv = simnet.NextSeq()
}

func (r *run) end(s *Span) {
	s.RetT, s.RetS = now(), r.taken()
	s.Ret = simnet.NextSeq()
}

func (r *run) fail(prop, kind, f string, a ...any) {
	n := 0
	for _, v := range r.viol {
		if v.Prop == prop && v.Kind == kind {
			n++
		}
	}
	if n < 4 {
		r.viol = append(r.viol, Violation{prop, kind, fmt.Sprintf(f, a...)})
	}
}

func wallMs() int64 { return (now() + runtime.SimWallOffset()) / 1e6 }

func mix64(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// content makes n bytes that identify record id (if there is room for that).
func content(n int, id uint64, salt uint64) []byte {
	if n < 0 {
		return nil
	}
	b := make([]byte, n)
	if n >= 8 {
		v := idWord(id)
		for i := 0; i < 8; i++ {
			b[i] = byte(v >> (56 - 8*i))
		}
	}
	x := id*7919 + salt
	for i := 8; i < n; i++ {
		if i%8 == 0 {
			x = mix64(x)
		}
		b[i] = byte(x >> (8 * (i % 8)))
	}
	if n < 8 {
		for i := range b {
			b[i] = byte(mix64(id+salt) >> (8 * i))
		}
	}
	return b
}

func idWord(id uint64) uint64 { return id ^ 0x4b4d434b00000000 }

// tsBase is the millisecond base of extended posts' timestamps.
const tsBase = int64(1500000000000)

// noTS marks a simple post.
const noTS = -int64(1) << 63

// --- lifecycle and data calls ----------------------------------------------

func (st *actorState) call(sp *Span, f func()) (p string) {
	r := st.r
	r.begin(sp, st.a.Name, st.curI)
	func() {
		defer func() {
			if e := recover(); e != nil {
				p = fmt.Sprint(e)
				if p == "" {
					p = "panic"
				}
			}
		}()
		f()
	}()
	r.end(sp)
	return
}

func (st *actorState) post(op *Op, twin uint64) uint64 {
	r := st.r
	r.postN++
	p := &Post{Srv: op.Srv, T: op.T, P: op.P, ID: uint64(r.postN), TS: noTS}
	p.CID = p.ID
	if twin != 0 {
		p.CID = twin
	}
	p.Key, p.Val = content(op.KL, p.CID, 1), content(op.VL, p.CID, 2)
	key, val := content(op.KL, p.CID, 1), content(op.VL, p.CID, 2)
	r.h.Posts = append(r.h.Posts, p)
	km := r.km[op.Srv]
	w0 := runtime.SimWallOffset()
	p.WLo = wallMs()
	var pn string
	if op.TS == 0 {
		pn = st.call(&p.Span, func() { km.SimplePost(op.T, int(op.P), key, val) })
	} else {
		p.TS = tsBase + op.TS
		if op.TS == 1 {
			p.TS = tsBase + int64(p.CID)*3
		}
		var hdr map[string][]byte
		if op.Hdr > 0 {
			hdr = map[string][]byte{}
			for i := 0; i < op.Hdr; i++ {
				hdr[fmt.Sprintf("h%d", i)] = content(5+i, p.CID, 3)
			}
		}
		ts := time.UnixMilli(p.TS).Add(time.Duration(op.Ns))
		pn = st.call(&p.Span, func() { km.ExtendedPost(op.T, int(op.P), key, val, hdr, ts) })
	}
	p.WHi = wallMs()
	p.Jump = runtime.SimWallOffset() != w0
	if pn != "" {
		r.fail("C13", "panic", "%s: post to %s/%d panicked: %s", st.a.Name, op.T, op.P, pn)
	}
	if op.Mut {
		for i := range key {
			key[i] ^= 0xa5
		}
		for i := range val {
			val[i] ^= 0x5a
		}
	}
	return p.CID
}

func (st *actorState) life(op *Op) {
	r := st.r
	l := &Life{Srv: op.Srv, K: op.K}
	r.h.Lifes = append(r.h.Lifes, l)
	km := r.km[op.Srv]
	switch op.K {
	case "start":
		l.Panic = st.call(&l.Span, km.Start)
	case "stop":
		l.Panic = st.call(&l.Span, km.RequestStop)
	case "finish":
		l.Panic = st.call(&l.Span, km.FinishRequests)
	case "cancel": // the embedding program cancels the context it gave to the server
		l.Panic = st.call(&l.Span, r.cancel[op.Srv])
	case "wait", "waitx":
		l.Panic = st.call(&l.Span, km.WaitForTermination)
	case "restart":
		l.Panic = st.call(&l.Span, km.Restart)
	}
	simnet.NextSeq()
	if l.K == "wait" && l.Panic == "" {
		r.checkStopped(st, l)
	}
	if l.K == "restart" && l.Panic == "" {
		r.marks.Restarts++
		if !simnet.Listening(r.sc.port0()+op.Srv) && !r.lifeSince(op.Srv, l, "stop", "finish", "restart", "start") && !r.cancelled(op.Srv, inf) {
			r.fail("C12", "restart-not-listening", "%s: the server is not listening when Restart returns", st.a.Name)
		}
	}
}

// cancelled reports whether the server's context was cancelled before seq; such a
// server never serves again.
func (r *run) cancelled(srv int, seq int64) bool {
	for _, l := range r.h.Lifes {
		if l.Srv == srv && l.K == "cancel" && l.Inv < seq {
			return true
		}
	}
	return false
}

// lifeSince reports whether a lifecycle call other than l on the server was
// invoked or in progress since l was invoked.
func (r *run) lifeSince(srv int, l *Life, kinds ...string) bool {
	for _, x := range r.h.Lifes {
		if x == l || x.Srv != srv {
			continue
		}
		if x.Ret != 0 && x.Ret < l.Inv {
			continue
		}
		for _, k := range kinds {
			if x.K == k {
				return true
			}
		}
	}
	return false
}

// checkStopped: termination was awaited by the goroutine that controls the server.
func (r *run) checkStopped(st *actorState, l *Life) {
	if r.lifeSince(l.Srv, l, "start", "restart") {
		return
	}
	if simnet.Listening(r.sc.port0() + l.Srv) {
		r.fail("C10", "port-held", "%s: the port is still bound when waiting for termination returns", st.a.Name)
	}
	if n := simnet.OpenServerEnds(r.sc.port0() + l.Srv); n != 0 {
		r.fail("C10", "conns-open", "%s: %d accepted connections are still open when waiting for termination returns", st.a.Name, n)
	}
}

// --- client operations -----------------------------------------------------

func (c *Conn) usable() bool { return c != nil && !c.Closed && !c.MyClose }

func (r *run) reader(c *Conn) {
	buf := make([]byte, 4096)
	bad := false
	for {
		for c.paused && !c.MyClose {
			c.rw.w.Wait(0)
		}
		n, err := c.C.Read(buf)
		if n > 0 {
			c.EndT = now()
			if bad {
				continue
			}
			c.buf = append(c.buf, buf[:n]...)
			for len(c.buf) >= 4 {
				sz := int64(c.buf[0])<<24 | int64(c.buf[1])<<16 | int64(c.buf[2])<<8 | int64(c.buf[3])
				if sz < 4 || sz > 1<<30 {
					r.fail("C05", "garbled", "%s: a reply frame has size %d", c.Who, sz)
					bad = true
					break
				}
				if int64(len(c.buf)) < 4+sz {
					break
				}
				frame := c.buf[4 : 4+sz]
				r.reply(c, frame)
				c.got += 4 + sz
				c.buf = c.buf[4+sz:]
			}
			c.aw.w.Wake()
			continue
		}
		if err != nil {
			if os.IsTimeout(err) && !strings.Contains(err.Error(), "connection timed out") {
				continue // the deadline that interrupts a read when pausing
			}
			c.Left = len(c.buf)
			c.EndErr = err.Error()
			c.EndT = now()
			c.EndSeq = simnet.NextSeq()
			c.Closed = true
			c.done = true
			c.aw.w.Wake()
			return
		}
	}
}

func (r *run) reply(c *Conn, frame []byte) {
	if c.nrep >= len(c.Reqs) || c.Reqs[c.nrep].Last == 0 {
		c.Extra++
		return
	}
	q := c.Reqs[c.nrep]
	c.nrep++
	q.RStart, q.REnd = c.got, c.got+4+int64(len(frame))
	q.RCorr = int32(uint32(frame[0])<<24 | uint32(frame[1])<<16 | uint32(frame[2])<<8 | uint32(frame[3]))
	q.Body = len(frame) - 4
	if q.RCorr == q.Corr {
		q.Rep = parse(q.Op.Api, frame[4:])
	} else {
		q.Rep = &Reply{}
	}
	r.end(&q.Span)
}

var goodNet = Net{}

func (st *actorState) dial(op *Op) {
	r := st.r
	if st.conn != nil && !st.conn.MyClose {
		st.close(0)
	}
	st.conn = nil
	nt := goodNet
	if op.Net != nil {
		nt = *op.Net
	}
	for try := 0; ; try++ {
		d := &Dial{Srv: op.Srv}
		r.h.Dials = append(r.h.Dials, d)
		p := &simnet.Params{Seed: r.sc.Seed*1000 + uint64(len(r.h.Dials)), LatMin: nt.LatMin, LatMax: nt.LatMax, SegMax: nt.SegMax, WinC2S: nt.WinC2S, WinS2C: nt.WinS2C, ShortRead: nt.Short}
		r.begin(&d.Span, st.a.Name, st.curI)
		tc, err := simnet.Connect(r.sc.port0()+op.Srv, p, nil)
		r.end(&d.Span)
		if err == nil {
			d.OK = true
			c := &Conn{Srv: op.Srv, Who: st.a.Name, C: tc, Net: nt, Dial: d.Span, rw: &waitBox{}, aw: &waitBox{}, corr: int32(op.N)}
			d.C = c
			r.h.Conns = append(r.h.Conns, c)
			st.conn = c
			go r.reader(c)
			return
		}
		r.marks.Refused++
		d.Err = err.Error()
		if op.Once || try >= 60 || r.abort {
			return
		}
		simnet.Sleep(50 * ms)
	}
}

func (st *actorState) close(kind int) {
	c := st.conn
	if c == nil || c.MyClose {
		return
	}
	switch kind {
	case 0:
		c.C.Close()
	case 1:
		c.C.SetLinger(0)
		c.C.Close()
	}
	c.MyClose = true
	c.CloseT, c.CloseSeq = now(), simnet.NextSeq()
	c.rw.w.Wake()
}

func (st *actorState) setPos(t string, p int32, off int64) {
	for i := range st.pos {
		if st.pos[i].t == t && st.pos[i].p == p {
			st.pos[i].off = off
			return
		}
	}
	st.pos = append(st.pos, posEnt{t, p, off})
}

func (st *actorState) getPos(t string, p int32) int64 {
	for i := range st.pos {
		if st.pos[i].t == t && st.pos[i].p == p {
			return st.pos[i].off
		}
	}
	return 0
}

func (st *actorState) write(c *Conn, b []byte, q *Req) bool {
	c.C.SetWriteDeadline(time.Now().Add(90 * time.Second))
	n, err := c.C.Write(b)
	c.sent += int64(n)
	if err != nil {
		q.Fail = err.Error()
		if errors.Is(err, os.ErrDeadlineExceeded) {
			st.close(0) // a torn request cannot be continued
		}
		return false
	}
	return true
}

// nextCorr: most clients count up; the protocol leaves it to them.
func nextCorr(c int32, style, n int) int32 {
	switch style {
	case 1: // always the same
		return c
	case 2: // two in turn
		return c ^ 1
	case 3: // counting down
		return c - 1
	case 4: // anything
		return int32(mix64(uint64(uint32(c))))
	case 5: // each twice
		return c + int32(n&1)
	case 6: // the request's position in the stream, the top bit set
		return int32(-1<<31) + int32(n)
	}
	return c + 1 + int32(mix64(uint64(c))%3)
}

func (st *actorState) req(op *Op) {
	r := st.r
	c := st.conn
	if !c.usable() && st.a.Auto {
		if c != nil {
			r.marks.Redials++
		}
		st.dial(&Op{Srv: op.Srv, Net: op.Net, N: 100})
		c = st.conn
	}
	if !c.usable() || c.partReq != nil {
		return
	}
	op2 := op
	if op.Next && op.Api == "fetch" {
		x := *op
		x.Ent = append([]Ent{}, op.Ent...)
		for i := range x.Ent {
			x.Ent[i].Off = st.getPos(x.Ent[i].T, x.Ent[i].P)
		}
		op2 = &x
	}
	c.corr = nextCorr(c.corr, st.a.Ids, len(c.Reqs))
	q := &Req{Conn: c, Op: op2, Idx: len(c.Reqs), Corr: c.corr, Ents: op2.Ent}
	frame := encode(op2, q.Corr)
	if len(frame) > 4096 {
		r.marks.BigReq++
	}
	if len(c.Reqs) > c.nrep {
		r.marks.Pipelined++
	}
	q.Start, q.End = c.sent, c.sent+int64(len(frame))
	for _, t := range op.Trig {
		at := c.sent + 1 + t.Rel%int64(len(frame))
		if t.Dir == 1 {
			at = c.C.PeerWritten() + t.Rel
		}
		c.C.ArmTrigger(t.Dir, at, t.Kind, t.D)
	}
	r.begin(&q.Span, st.a.Name, st.curI)
	c.Reqs = append(c.Reqs, q)
	if op.Cut > 0 {
		n := 1 + (op.Cut-1)%(len(frame)-1)
		if st.write(c, frame[:n], q) {
			c.part, c.partReq = frame[n:], q
		}
		return
	}
	prev := 0
	cuts := append([]int{}, op.Split...)
	for i := range cuts {
		cuts[i] = 1 + cuts[i]%len(frame)
	}
	for i := range cuts { // insertion sort
		for j := i; j > 0 && cuts[j] < cuts[j-1]; j-- {
			cuts[j], cuts[j-1] = cuts[j-1], cuts[j]
		}
	}
	for _, x := range cuts {
		if x <= prev || x >= len(frame) {
			continue
		}
		if !st.write(c, frame[prev:x], q) {
			return
		}
		prev = x
		simnet.Sleep(op.Gap)
		if c.MyClose || c.Closed {
			q.Fail = "closed while sending"
			return
		}
	}
	q.Last, q.LastT = simnet.NextSeq(), now()
	if !st.write(c, frame[prev:], q) {
		q.Last = 0
		return
	}
	if !op.Pipe {
		st.await(q)
		st.learn(q)
	}
}

// rest sends what a cut request left unsent.
func (st *actorState) rest() {
	c := st.conn
	if !c.usable() || c.partReq == nil {
		return
	}
	q := c.partReq
	q.Last, q.LastT = simnet.NextSeq(), now()
	ok := st.write(c, c.part, q)
	c.part, c.partReq = nil, nil
	if !ok {
		q.Last = 0
		return
	}
	if !q.Op.Pipe {
		st.await(q)
		st.learn(q)
	}
}

func (st *actorState) learn(q *Req) {
	if q.Rep == nil || q.Op.Api != "fetch" {
		return
	}
	for _, p := range q.Rep.Parts {
		if n := len(p.Recs); n > 0 {
			st.setPos(p.T, p.P, p.Recs[n-1].Off+1)
		}
	}
}

// await waits for a reply, for as long as there is reason to expect one.
func (st *actorState) await(q *Req) {
	c := q.Conn
	var budget int64 = 20 * sec
	for i := c.nrep; i <= q.Idx && i < len(c.Reqs); i++ {
		budget += max(c.Reqs[i].Op.Wait, 0) * ms
	}
	t0, s0 := now(), st.r.taken()
	for q.Rep == nil && !c.Closed && !c.MyClose {
		dl := t0
		if c.EndT > dl {
			dl = c.EndT
		}
		dl = max(dl, c.C.ReadyAt())
		dl += budget + (st.r.taken() - s0) + c.C.Stalled()
		if now() >= dl {
			q.Gave, q.GaveT = true, now()
			if st.a.Auto {
				st.close(0)
			}
			return
		}
		c.aw.w.Wait(dl)
	}
}

func (st *actorState) do(i int, op *Op) {
	r := st.r
	st.curI, st.cur, st.curT = i, op.K, now()
	switch op.K {
	case "sleep":
		simnet.Sleep(op.D)
	case "near":
		simnet.Near(int(op.N), op.D, int64(op.VL))
	case "new":
		r.newServer(op.Srv)
	case "post":
		n := int(op.N)
		if n == 0 {
			n = 1
		}
		var twin uint64
		for j := 0; j < n; j++ {
			if id := st.post(op, twin); op.Twin {
				twin = id
			}
			if op.D != 0 {
				simnet.Sleep(op.D)
			}
		}
	case "create":
		c := &Create{Srv: op.Srv, Ts: op.Ts, P: op.P}
		r.h.Creates = append(r.h.Creates, c)
		km := r.km[op.Srv]
		if p := st.call(&c.Span, func() { km.CreatePartitionTopics(op.Ts, int(op.P)) }); p != "" {
			r.fail("C13", "panic", "%s: creating topics panicked: %s", st.a.Name, p)
		}
	case "setoff":
		s := &SetOff{Srv: op.Srv, T: op.T, P: op.P, G: op.G, Off: op.N}
		r.h.Sets = append(r.h.Sets, s)
		km := r.km[op.Srv]
		if p := st.call(&s.Span, func() { km.SetConsumerGroupOffset(op.T, int(op.P), op.G, op.N) }); p != "" {
			r.fail("C13", "panic", "%s: setting an offset panicked: %s", st.a.Name, p)
		}
	case "start", "stop", "finish", "wait", "restart", "cancel":
		st.life(op)
	case "waitx":
		st.inWX = true
		r.actorLeft()
		st.life(op)
	case "cut":
		for _, ks := range r.kgos {
			if op.G == "" || ks.g == op.G {
				ks.cut()
			}
		}
	case "walljump":
		runtime.SimWallJump(op.D)
		r.h.Jumps = append(r.h.Jumps, simnet.NextSeq())
	case "scarce":
		simnet.Scarce(op.D, int(op.N))
	case "dial":
		st.dial(op)
	case "req":
		for n := max(op.Times, 1); n > 0 && !r.abort; n-- {
			st.req(op)
			if !st.conn.usable() {
				break // say it once
			}
		}
	case "rest":
		st.rest()
	case "recvall":
		if c := st.conn; c.usable() {
			for n := len(c.Reqs) - 1; n >= 0; n-- {
				if c.Reqs[n].Last != 0 {
					st.await(c.Reqs[n])
					break
				}
			}
			for _, q := range c.Reqs {
				st.learn(q)
			}
		}
	case "pause":
		if c := st.conn; c.usable() {
			c.paused, c.Paused = true, true
			c.PauseT, c.ResumeT = now(), 0
			c.C.SetReadDeadline(time.Now().Add(-time.Second))
		}
	case "resume":
		if c := st.conn; c != nil && c.paused && !c.MyClose {
			c.paused = false
			c.ResumeT = now()
			c.C.SetReadDeadline(time.Time{})
			c.rw.w.Wake()
		}
	case "close":
		st.close(0)
	case "rst":
		st.close(1)
	case "half":
		if c := st.conn; c.usable() {
			c.C.Fault(simnet.FHalf, 0)
		}
	case "fault":
		if c := st.conn; c.usable() {
			c.C.Fault(int(op.N), op.D)
		}
	default:
		panic("unknown op " + op.K)
	}
	if len(r.viol) >= 40 {
		r.abort = true
	}
}

func (r *run) actorLeft() {
	r.active--
	if r.active == 0 {
		r.mainW.w.Wake()
	}
}

func (st *actorState) main() {
	defer func() {
		st.done = true
		close(st.joined)
		if !st.inWX {
			st.r.actorLeft()
		}
	}()
	simnet.Sleep(st.a.Delay)
	if st.a.Kgo != nil {
		st.kgo()
		return
	}
	for i, op := range st.a.Ops {
		if st.r.abort {
			break
		}
		st.do(i, op)
	}
	st.cur = ""
}

func (r *run) newServer(i int) {
	ctx, cancel := context.WithCancel(context.Background())
	for len(r.cancel) <= i {
		r.cancel = append(r.cancel, nil)
	}
	r.cancel[i] = cancel
	l := newLane(ctx)
	r.km[i] = target.New(l, uint(r.sc.port0()+i))
}

// bounded runs f in a goroutine of its own and waits for it.
func (r *run) bounded(d int64, f func()) bool {
	var w waitBox
	done := false
	joined := make(chan struct{}) // tells the race detector that f happens before the return
	go func() {
		f()
		done = true
		close(joined)
		w.w.Wake()
	}()
	t0, s0 := now(), r.taken()
	for !done {
		dl := t0 + d + 2*(r.taken()-s0)
		if now() >= dl {
			return false
		}
		w.w.Wait(dl)
	}
	<-joined
	return true
}

// Stats of one run, for the evidence.
type Stats struct {
	Steps, Picks, Jumps, Switches, Yields, Stalls int64
	Virtual                                       int64
	Reqs, Replies, Posts, Conns, Ops              int
	Faults                                        [simnet.NFaults]int64
	Trig                                          [simnet.NFaults]int64
	Net                                           simnet.Stats
	Marks                                         marks
	LinOps, LinKeys                               int
}

// Result of one run.
type Result struct {
	Hash  string      `json:"hash"`
	Stats Stats       `json:"stats"`
	Viol  []Violation `json:"viol,omitempty"`
	Dirty bool        `json:"dirty,omitempty"`
	YS    []int64     `json:"ys,omitempty"`
	YD    []int64     `json:"yd,omitempty"`
	PN    []int64     `json:"pn,omitempty"`
	PI    []int32     `json:"pi,omitempty"`
	Over  bool        `json:"over,omitempty"`
	Hist  []string    `json:"hist,omitempty"`
}

// Run executes one scenario.
func Run(sc *Scenario, record, trace bool) *Result {
	r := &run{sc: sc, h: &History{}, cost: sc.Sched.Cost, trace: trace}
	base := runtime.NumGoroutine()
	simnet.Reset(sc.Seed*0x9e3779b97f4a7c15>>62 != 0)
	target.Reset()
	conf := runtime.SimConf{
		Seed: sc.Seed, Policy: sc.Sched.Policy, YieldNum: sc.Sched.Yield, StallNum: sc.Sched.Stall, StallMax: sc.Sched.StallMax,
		PctDepth: sc.Sched.Depth, PctSteps: sc.Sched.Steps, StepCost: sc.Sched.Cost, StepBudget: 25e6,
		RYieldStep: sc.Sched.YS, RYieldDur: sc.Sched.YD, RPickNo: sc.Sched.PN, RPickIdx: sc.Sched.PI,
	}
	runtime.SimBegin(&conf)
	r.execute()
	r.endT = now()
	runtime.SimEnd()
	st := runtime.SimGetStats()
	res := &Result{}
	if record {
		ys, yd, pn, pi, over := runtime.SimRecording()
		res.YS, res.YD = append([]int64{}, ys...), append([]int64{}, yd...)
		res.PN, res.PI = append([]int64{}, pn...), append([]int32{}, pi...)
		res.Over = over
	}
	r.judge(res)
	if !r.dirty {
		r.tidy(base)
	}
	if trace {
		res.Hist = r.dump()
	}
	s := &res.Stats
	s.Steps, s.Picks, s.Jumps, s.Switches, s.Yields, s.Stalls = st.Steps, st.Picks, st.Jumps, st.Switches, st.Yields, st.Stalls
	s.Virtual = st.Elapsed
	s.Posts, s.Conns = len(r.h.Posts), len(r.h.Conns)
	for _, c := range r.h.Conns {
		s.Reqs += len(c.Reqs)
		s.Replies += c.nrep
	}
	s.Ops = s.Posts + s.Reqs + len(r.h.Sets) + len(r.h.Creates) + len(r.h.Lifes)
	s.Net = simnet.St
	s.Faults, s.Trig = simnet.St.Faults, simnet.St.Trig
	if simnet.St.BlockedWr > 0 {
		r.marks.Blocked = 1
	}
	s.Marks = r.marks
	res.Viol = r.viol
	res.Dirty = r.dirty
	h := st.Hash
	for _, c := range r.h.Conns {
		h = mix64(h ^ uint64(c.got)<<20 ^ uint64(c.nrep))
	}
	res.Hash = fmt.Sprintf("%016x", h)
	return res
}

func (r *run) execute() {
	sc := r.sc
	r.km = make([]*target.Mock, sc.Servers)
	if !sc.LateNew {
		for i := range r.km {
			r.newServer(i)
		}
	}
	setup := &actorState{r: r, a: &Actor{Name: "init"}}
	for i, op := range sc.Init {
		setup.do(i, op)
	}
	if !sc.LateNew && !sc.NoStart {
		for i := range r.km {
			setup.life(&Op{K: "start", Srv: i})
		}
	}
	if sc.Drain {
		r.mainW.w.Wait(now() + 20*ms)
		r.idleGor, _ = sutGoroutines()
	}
	for _, a := range sc.Actors {
		r.states = append(r.states, &actorState{r: r, a: a, joined: make(chan struct{})})
	}
	r.active = len(r.states)
	for _, st := range r.states {
		go st.main()
	}
	maxT := sc.MaxT
	if maxT == 0 {
		maxT = 900 * sec
	}
	t0, k0 := now(), r.taken()
	for r.active > 0 {
		end := t0 + maxT + r.taken() - k0 // stalls do not count
		if now() >= end {
			break
		}
		r.mainW.w.Wait(end)
	}
	for _, st := range r.states {
		if st.done {
			<-st.joined
		}
	}
	if r.active > 0 {
		r.abort = true
		r.hung()
		return
	}
	r.epilogue()
}

// hung: some actor never finished.
func (r *run) hung() {
	r.dirty = true
	for _, st := range r.states {
		if st.done || st.inWX {
			continue
		}
		if st.cur == "wait" && !r.stopDue(r.lastLife(st)) {
			r.h.Notes = append(r.h.Notes, st.a.Name+": waits for termination that nobody requested")
			r.skip = true
			continue
		}
		prop := "C05"
		switch st.cur {
		case "post", "create", "setoff", "finish", "cancel":
			prop = "C18"
		case "stop", "wait", "restart":
			prop = "C10"
		case "start":
			prop = "C13"
		case "kgo":
			prop = "C15"
		}
		r.fail(prop, "hang", "%s: operation %d (%s) has not returned after %d s of simulated time", st.a.Name, st.curI, st.cur, (now()-st.curT)/sec)
		if prop != "C13" && (prop == "C10" || st.cur == "finish") {
			r.fail("C13", "hang", "%s: operation %d (%s) has not returned after %d s of simulated time", st.a.Name, st.curI, st.cur, (now()-st.curT)/sec)
		}
		if st.cur == "restart" {
			r.fail("C12", "hang", "%s: operation %d (%s) has not returned after %d s of simulated time", st.a.Name, st.curI, st.cur, (now()-st.curT)/sec)
		}
		if prop == "C18" {
			r.fail("C13", "hang", "%s: operation %d (%s) has not returned", st.a.Name, st.curI, st.cur)
		}
	}
	if len(r.viol) == 0 && !r.skip {
		r.fail("C05", "hang", "an actor did not finish")
	}
}

func (r *run) lastLife(st *actorState) *Life {
	for i := len(r.h.Lifes) - 1; i >= 0; i-- {
		if l := r.h.Lifes[i]; l.Who == st.a.Name && l.Ret == 0 {
			return l
		}
	}
	return &Life{}
}

func (r *run) dump() []string {
	var out []string
	add := func(seq int64, f string, a ...any) { out = append(out, fmt.Sprintf("%9d ", seq)+fmt.Sprintf(f, a...)) }
	t := func(x int64) string { return fmt.Sprintf("%.6fs", float64(x-1e15)/1e9) }
	for _, p := range r.h.Posts {
		add(p.Inv, "%s %s post #%d srv%d %s/%d key=%d val=%d ts=%d -> seq %d", t(p.InvT), p.Who, p.ID, p.Srv, p.T, p.P, len(p.Key), len(p.Val), p.TS, p.Ret)
	}
	for _, p := range r.h.Creates {
		add(p.Inv, "%s %s create srv%d %v/%d -> seq %d", t(p.InvT), p.Who, p.Srv, p.Ts, p.P, p.Ret)
	}
	for _, p := range r.h.Sets {
		add(p.Inv, "%s %s set srv%d %s/%d group %s = %d -> seq %d", t(p.InvT), p.Who, p.Srv, p.T, p.P, p.G, p.Off, p.Ret)
	}
	for _, p := range r.h.Lifes {
		add(p.Inv, "%s %s %s srv%d -> seq %d at %s %s", t(p.InvT), p.Who, p.K, p.Srv, p.Ret, t(p.RetT), p.Panic)
	}
	for _, d := range r.h.Dials {
		add(d.Inv, "%s %s dial srv%d ok=%v -> seq %d at %s", t(d.InvT), d.Who, d.Srv, d.OK, d.Ret, t(d.RetT))
	}
	for i, c := range r.h.Conns {
		for _, q := range c.Reqs {
			cons, _ := c.C.ConsumedAt(q.End)
			wr, _ := c.C.PeerSentAt(q.REnd)
			rep := "no reply"
			if q.Rep != nil {
				rep = fmt.Sprintf("reply seq %d at %s (written %s)", q.Ret, t(q.RetT), t(wr.T))
				for _, p := range q.Rep.Parts {
					rep += fmt.Sprintf(" [%s/%d err %d off %d ts %d n %d]", p.T, p.P, p.Err, p.Off, p.TS, len(p.Recs))
				}
			}
			add(q.Inv, "%s %s conn%d srv%d %s #%d g=%q wait=%d %v (last %d consumed seq %d %s) %s %s", t(q.InvT), q.Who, i, c.Srv, q.Op.Api, q.Corr, q.Op.G, q.Op.Wait, q.Ents, q.Last, cons.Seq, t(cons.T), rep, q.Fail)
		}
		fs, ft := c.C.FaultAt()
		add(c.EndSeq, "%s %s conn%d ended: %s left=%d; client close/fault seq %d at %s; server closed %v at %s", t(c.EndT), c.Who, i, c.EndErr, c.Left, fs, t(ft), c.C.PeerClosed(), t(c.C.PeerClosedAt()))
	}
	for i := 1; i < len(out); i++ {
		for j := i; j > 0 && out[j][:9] < out[j-1][:9]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	out = append(out, r.h.Notes...)
	return out
}
