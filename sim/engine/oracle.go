package engine

import (
	"bytes"
	"fmt"
	"sort"
)

const inf = int64(1) << 62

// plog is everything known about one partition of one server.
type plog struct {
	srv     int
	k       tp
	posts   []*Post
	firstIn int64 // earliest invocation, and earliest return, of a call creating it
	firstRt int64
	rets    []int64 // sequence numbers at which posts returned, ascending
	invs    []int64
	retTs   []int64 // times at which posts returned, ascending
	final   []RecV
	have    bool // final is known
	seen    map[int64]RecV
	ndec    bool // final timestamps do not decrease
}

type judge struct {
	r    *run
	logs map[string]*plog
	byID map[uint64][]*Post // twins share an id
	byTS map[int64][]*Post
	anon map[string][]*Post // simple posts without room for an id, by content
	tops map[string]*plog   // per topic: existence only
}

func lkey(srv int, t string, p int32) string { return fmt.Sprintf("%d|%s|%d", srv, t, p) }

func (j *judge) log(srv int, t string, p int32) *plog {
	k := lkey(srv, t, p)
	l := j.logs[k]
	if l == nil {
		l = &plog{srv: srv, k: tp{t, p}, firstIn: inf, firstRt: inf, seen: map[int64]RecV{}}
		j.logs[k] = l
	}
	return l
}

func (j *judge) topic(srv int, t string) *plog {
	k := lkey(srv, t, 0)
	l := j.tops[k]
	if l == nil {
		l = &plog{srv: srv, k: tp{t, 0}, firstIn: inf, firstRt: inf}
		j.tops[k] = l
	}
	return l
}

func ret(s *Span) int64 {
	if s.Ret == 0 {
		return inf
	}
	return s.Ret
}

func below(a []int64, x int64) int64 { // how many of the ascending a are < x
	return int64(sort.Search(len(a), func(i int) bool { return a[i] >= x }))
}

// serving: the server accepted connections and processed requests throughout
// [from, to], no lifecycle call having touched it.
func (r *run) serving(srv int, from, to int64) bool {
	var s *Life
	for _, l := range r.h.Lifes {
		if l.Srv == srv && (l.K == "start" || l.K == "restart") && l.Panic == "" && ret(&l.Span) < from && (s == nil || l.Ret > s.Ret) {
			s = l
		}
	}
	if s == nil {
		return false
	}
	if r.cancelled(srv, to+1) {
		return false
	}
	for _, l := range r.h.Lifes {
		if l == s || l.Srv != srv || l.Panic != "" {
			continue
		}
		switch l.K {
		case "stop", "finish", "restart", "start":
			if ret(&l.Span) > s.Inv && l.Inv <= to {
				return false
			}
		}
	}
	return true
}

// disturbed returns the earliest sequence number >= from at which a lifecycle
// call was in progress on the server (inf if none).
func (r *run) disturbed(srv int, from int64) int64 {
	d := inf
	if r.cancelled(srv, from) {
		return from
	}
	for _, l := range r.h.Lifes {
		if l.Srv != srv || l.Panic != "" || l.K == "wait" || l.K == "waitx" {
			continue
		}
		if ret(&l.Span) < from {
			continue
		}
		d = min(d, max(l.Inv, from))
	}
	return d
}

func (r *run) judge(res *Result) {
	j := &judge{r: r, logs: map[string]*plog{}, tops: map[string]*plog{}, byID: map[uint64][]*Post{}, byTS: map[int64][]*Post{}, anon: map[string][]*Post{}}
	for _, p := range r.h.Posts {
		l := j.log(p.Srv, p.T, p.P)
		l.posts = append(l.posts, p)
		l.invs = append(l.invs, p.Inv)
		if p.Ret != 0 {
			l.rets = append(l.rets, p.Ret)
			l.retTs = append(l.retTs, p.RetT)
		}
		for _, x := range []*plog{l, j.topic(p.Srv, p.T)} {
			x.firstIn = min(x.firstIn, p.Inv)
			x.firstRt = min(x.firstRt, ret(&p.Span))
		}
		j.byID[p.CID] = append(j.byID[p.CID], p)
		if p.TS != noTS {
			j.byTS[p.TS] = append(j.byTS[p.TS], p)
		} else if len(p.Key) < 8 && len(p.Val) < 8 {
			k := anonKey(p.Srv, p.T, p.P, p.Key, p.Val)
			j.anon[k] = append(j.anon[k], p)
		}
	}
	for _, c := range r.h.Creates {
		for _, t := range c.Ts {
			for _, x := range []*plog{j.log(c.Srv, t, c.P), j.topic(c.Srv, t)} {
				x.firstIn = min(x.firstIn, c.Inv)
				x.firstRt = min(x.firstRt, ret(&c.Span))
			}
		}
	}
	for _, l := range j.logs {
		sort.Slice(l.rets, func(a, b int) bool { return l.rets[a] < l.rets[b] })
		sort.Slice(l.invs, func(a, b int) bool { return l.invs[a] < l.invs[b] })
		sort.Slice(l.retTs, func(a, b int) bool { return l.retTs[a] < l.retTs[b] })
	}
	for srv, f := range r.final {
		if f == nil || r.cancelled(srv, inf) {
			continue
		}
		for k, recs := range f.logs {
			l := j.log(srv, k.t, k.p)
			l.final, l.have = recs, true
			l.ndec = true
			for i := 1; i < len(recs); i++ {
				if recs[i].TS < recs[i-1].TS {
					l.ndec = false
				}
			}
		}
		if !f.ok {
			r.fail("C05", "audit", "the auditing client could not read everything back from server %d", srv)
			r.fail("C12", "audit", "the auditing client could not read everything back from server %d", srv)
		}
	}
	keys := make([]string, 0, len(j.logs))
	for k := range j.logs {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		j.checkLog(j.logs[k])
	}
	for _, c := range r.h.Conns {
		j.checkConn(c)
	}
	j.checkMonotone()
	j.checkLife()
	j.checkDials()
	j.checkCalls()
	j.checkKgo()
	res.Stats.LinOps, res.Stats.LinKeys = j.checkRegisters()
}

func same(a, b []byte) bool { return (a == nil) == (b == nil) && bytes.Equal(a, b) }

func brief(b []byte) string {
	if b == nil {
		return "nil"
	}
	if len(b) > 12 {
		return fmt.Sprintf("%x..(%d)", b[:12], len(b))
	}
	return fmt.Sprintf("%x(%d)", b, len(b))
}

func anonKey(srv int, t string, p int32, key, val []byte) string {
	return fmt.Sprintf("%d|%s|%d|%v%x|%v%x", srv, t, p, key == nil, key, val == nil, val)
}

// owner finds the posts a record may stem from: one, or twins in the order in
// which they were posted.
func (j *judge) owner(l *plog, v *RecV) []*Post {
	for _, b := range [][]byte{v.Val, v.Key} {
		if len(b) >= 8 {
			var x uint64
			for i := 0; i < 8; i++ {
				x = x<<8 | uint64(b[i])
			}
			if p := j.byID[idWord(x)]; p != nil {
				return p
			}
		}
	}
	if p := j.byTS[v.TS]; p != nil {
		var fit []*Post // records too short for an identity may share a timestamp
		for _, x := range p {
			if x.Srv == l.srv && x.T == l.k.t && x.P == l.k.p && same(x.Key, v.Key) && same(x.Val, v.Val) {
				fit = append(fit, x)
			}
		}
		if fit != nil {
			return fit
		}
		return p
	}
	return j.anon[anonKey(l.srv, l.k.t, l.k.p, v.Key, v.Val)]
}

// checkLog: C01 on the log as audited at the end.
func (j *judge) checkLog(l *plog) {
	r := j.r
	if !l.have {
		if len(r.final) > l.srv && r.final[l.srv].ok && l.firstRt != inf {
			r.fail("C01", "partition-lost", "%s/%d was created but does not exist at the end", l.k.t, l.k.p)
			r.fail("C12", "partition-lost", "%s/%d was created but does not exist at the end", l.k.t, l.k.p)
		}
		return
	}
	for i, p := range l.posts {
		if i > 0 && p.Inv < ret(&l.posts[i-1].Span) {
			r.marks.ConcPost++
			break
		}
	}
	at := make([]*Post, len(l.final))
	used := map[*Post]int{}
	for i := range l.final {
		v := &l.final[i]
		if v.Off != int64(i) {
			r.fail("C01", "gap", "%s/%d: record number %d has offset %d", l.k.t, l.k.p, i, v.Off)
			return
		}
		var p *Post
		for _, x := range j.owner(l, v) {
			p = x
			if _, dup := used[x]; !dup {
				break
			}
		}
		if p == nil || p.Srv != l.srv || p.T != l.k.t || p.P != l.k.p {
			for _, prop := range []string{"C01", "C02"} {
				r.fail(prop, "foreign", "%s/%d offset %d: record key=%s value=%s was never posted there", l.k.t, l.k.p, i, brief(v.Key), brief(v.Val))
			}
			continue
		}
		if q, dup := used[p]; dup {
			r.fail("C01", "duplicate", "%s/%d: post #%d occupies offsets %d and %d", l.k.t, l.k.p, p.ID, q, i)
			continue
		}
		used[p] = i
		at[i] = p
		j.sameAs(l, v, p)
	}
	for _, p := range l.posts {
		if _, ok := used[p]; !ok && p.Ret != 0 {
			r.fail("C01", "lost", "%s/%d: post #%d completed but is not in the log of %d records", l.k.t, l.k.p, p.ID, len(l.final))
			r.fail("C12", "lost", "%s/%d: post #%d completed but is not in the log of %d records", l.k.t, l.k.p, p.ID, len(l.final))
		}
	}
	minRet := inf
	var which *Post
	for i := len(at) - 1; i >= 0; i-- {
		p := at[i]
		if p == nil {
			continue
		}
		if minRet < p.Inv {
			r.fail("C01", "order", "%s/%d: post #%d completed before post #%d began but has the higher offset", l.k.t, l.k.p, which.ID, p.ID)
			break
		}
		if x := ret(&p.Span); x < minRet {
			minRet, which = x, p
		}
	}
}

func (j *judge) sameAs(l *plog, v *RecV, p *Post) {
	if !same(v.Key, p.Key) || !same(v.Val, p.Val) {
		j.r.fail("C01", "content", "%s/%d offset %d: post #%d had key=%s value=%s, a fetch shows key=%s value=%s", l.k.t, l.k.p, v.Off, p.ID, brief(p.Key), brief(p.Val), brief(v.Key), brief(v.Val))
	}
	if p.TS != noTS {
		if v.TS != p.TS {
			j.r.fail("C01", "timestamp", "%s/%d offset %d: posted with timestamp %d, shown with %d", l.k.t, l.k.p, v.Off, p.TS, v.TS)
		}
	} else if !p.Jump && (v.TS < p.WLo || p.Ret != 0 && v.TS > p.WHi) {
		j.r.fail("C01", "timestamp", "%s/%d offset %d: posted between %d and %d ms, shown with timestamp %d", l.k.t, l.k.p, v.Off, p.WLo, p.WHi, v.TS)
	}
}

// --- connections -----------------------------------------------------------

func anyHurt(r *run, but *Conn) bool {
	for _, c := range r.h.Conns {
		if c == but {
			continue
		}
		if s, _ := c.C.FaultAt(); s != 0 {
			return true
		}
		if c.Paused || c.C.Stalled() > 0 {
			return true
		}
		for _, q := range c.Reqs {
			if q.Last == 0 {
				return true
			}
		}
	}
	return false
}

// broken reports a failure to serve a client that did nothing wrong.
func (j *judge) broken(c *Conn, prop, kind, f string, a ...any) {
	r := j.r
	r.fail(prop, kind, f, a...)
	hurt := anyHurt(r, c)
	if hurt {
		r.fail("C06", kind, f, a...)
	}
	if prop != "C18" && (hurt || j.others(c)) {
		r.fail("C18", kind, f, a...)
	}
}

// others: another client was connected to the same server meanwhile.
func (j *judge) others(c *Conn) bool {
	for _, x := range j.r.h.Conns {
		if x == c || x.Srv != c.Srv {
			continue
		}
		before := x.Closed && x.EndSeq < c.Dial.Inv || x.MyClose && x.CloseSeq < c.Dial.Inv
		after := c.Closed && c.EndSeq < x.Dial.Inv || c.MyClose && c.CloseSeq < x.Dial.Inv
		if !before && !after {
			return true
		}
	}
	return false
}

func (j *judge) checkConn(c *Conn) {
	r := j.r
	hurtSeq, hurtT := c.C.FaultAt()
	if hurtSeq == 0 {
		hurtSeq = inf
	}
	dist := r.disturbed(c.Srv, c.Dial.Inv) // first lifecycle call since the dial
	served := r.serving(c.Srv, c.Dial.Inv, c.Dial.Inv)
	if !served {
		dist = 0
	}
	name := c.Who
	if c.Extra > 0 {
		r.fail("C05", "extra-reply", "%s: %d replies more than requests", name, c.Extra)
	}
	for _, q := range c.Reqs {
		if q.Rep == nil {
			continue
		}
		if q.RCorr != q.Corr {
			j.broken(c, "C05", "correlation", "%s: reply to %s request %d carries correlation id %d", name, q.Op.Api, q.Corr, q.RCorr)
			break
		}
		if q.Rep.Bad != "" {
			r.fail("C05", "malformed", "%s: reply to %s request: %s", name, q.Op.Api, q.Rep.Bad)
			if dist != inf && ret(&q.Span) > dist {
				r.fail("C11", "malformed", "%s: reply to %s request: %s", name, q.Op.Api, q.Rep.Bad)
			}
			if q.Op.Api == "fetch" {
				r.fail("C02", "malformed", "%s: reply to fetch: %s", name, q.Rep.Bad)
			}
			continue
		}
		j.checkReply(c, q)
		j.checkTiming(c, q, hurtSeq, dist)
	}
	if len(r.h.Lifes) > 0 {
		for _, q := range c.Reqs {
			for _, l := range r.h.Lifes {
				if l.Srv == c.Srv && q.Last != 0 && l.Inv > q.Last && l.Inv < ret(&q.Span) && l.K != "start" && l.K != "wait" && l.K != "waitx" {
					r.marks.Stopped++
				}
			}
		}
	}
	// a reply cut off in the middle
	goneSeq, _ := c.C.GoneAt() // a client that only half-closed its connection goes on reading
	if goneSeq == 0 {
		goneSeq = inf
	}
	if c.Left > 0 && goneSeq == inf && !j.slow(c) {
		r.fail("C11", "truncated", "%s: the connection ended after %d bytes of an incomplete reply", name, c.Left)
		if c.EndSeq < dist {
			j.broken(c, "C05", "truncated", "%s: the connection ended after %d bytes of an incomplete reply", name, c.Left)
		}
	}
	// closed although nothing was wrong
	if c.Closed && c.EndSeq < hurtSeq && c.EndSeq < dist {
		j.broken(c, "C05", "dropped", "%s: the server closed the connection (%s) while it was being used", name, c.EndErr)
	}
	// requests without reply
	if c.nrep < len(c.Reqs) {
		q := c.Reqs[c.nrep]
		if q.Last != 0 && q.Gave && q.Ret == 0 {
			gs := j.seqAt(c, q)
			if gs < dist && (hurtSeq == inf || hurtT >= q.GaveT) && !c.Paused {
				j.broken(c, "C05", "no-reply", "%s: %s request %d has no reply %d s after it was sent", name, q.Op.Api, q.Corr, (q.GaveT-q.LastT)/sec)
				switch q.Op.Api {
				case "commit", "ofetch":
					r.fail("C07", "no-reply", "%s: %s request %d has no reply %d s after it was sent", name, q.Op.Api, q.Corr, (q.GaveT-q.LastT)/sec)
				case "list":
					r.fail("C09", "no-reply", "%s: %s request %d has no reply %d s after it was sent", name, q.Op.Api, q.Corr, (q.GaveT-q.LastT)/sec)
				case "meta", "coord", "sync":
					r.fail("C14", "no-reply", "%s: %s request %d has no reply %d s after it was sent", name, q.Op.Api, q.Corr, (q.GaveT-q.LastT)/sec)
				case "fetch":
					r.fail("C03", "no-reply", "%s: fetch %d has no reply %d s after it was sent", name, q.Corr, (q.GaveT-q.LastT)/sec)
					r.fail("C04", "no-reply", "%s: fetch %d (maximum wait %d ms) has no reply %d s after it was sent", name, q.Corr, q.Op.Wait, (q.GaveT-q.LastT)/sec)
				}
			}
		}
		if _, received := c.C.ConsumedAt(q.End); received && hurtSeq != inf && goneSeq == inf && q.Last != 0 && q.Ret == 0 && c.Closed && c.EndSeq < dist && !j.slow(c) {
			j.broken(c, "C05", "half-closed", "%s: %s request %d was received by the server, whose client then closed its sending side only, and the connection was closed without its reply", name, q.Op.Api, q.Corr)
			r.fail("C17", "half-closed", "%s: %s request %d was received by the server, whose client then closed its sending side only, and the connection was closed without its reply", name, q.Op.Api, q.Corr)
		}
		j.checkInFlight(c, q, goneSeq, name)
	}
	// C10, C11: after a stop or finish the connection is closed
	if c.Paused {
		// a half-closed client that does not read is still there: the server
		// may be waiting to send it the rest of a reply
		if hurtSeq, hurtT = c.C.GoneAt(); hurtSeq == 0 {
			hurtSeq = inf
		}
	}
	j.checkRelease(c, hurtSeq, hurtT, name)
}

// seqAt approximates the sequence number at which the client gave up by the
// latest event not after that time.
func (j *judge) seqAt(c *Conn, q *Req) int64 {
	best := q.Last
	for _, l := range j.r.h.Lifes {
		if l.InvT <= q.GaveT {
			best = max(best, l.Inv)
		}
	}
	return best
}

// slow: delivering what the server wrote could take long for reasons outside
// the server.
func (j *judge) slow(c *Conn) bool {
	if c.Paused || c.C.Stalled() > 0 {
		return true
	}
	var big int64
	for _, q := range c.Reqs {
		big = max(big, q.REnd-q.RStart)
	}
	big = max(big, int64(c.Left)*4, 4096)
	w := int64(c.Net.WinS2C)
	if w == 0 {
		w = 1 << 20
	}
	t := (big/w + 1) * 2 * c.Net.LatMax
	return t > 300*ms
}

// checkInFlight (C11): q is the earliest request without a reply.
func (j *judge) checkInFlight(c *Conn, q *Req, hurtSeq int64, name string) {
	r := j.r
	if q.Last == 0 || hurtSeq != inf || j.slow(c) || !c.Closed {
		return
	}
	cons, ok := c.C.ConsumedAt(q.End)
	if !ok {
		return
	}
	for _, l := range r.h.Lifes {
		if l.Srv != c.Srv || l.Panic != "" || (l.K != "stop" && l.K != "finish" && l.K != "restart" && l.K != "cancel") || l.Inv < c.Dial.Inv {
			continue
		}
		if cons.Seq < l.Inv {
			taken := q.taken(r)
			if taken > 300*ms {
				return
			}
			r.fail("C11", "dropped", "%s: %s request %d was received by the server before %s was called, and the connection was closed without its reply", name, q.Op.Api, q.Corr, l.K)
			return
		}
	}
}

// taken bounds the time the scheduler took away during the request's life.
func (q *Req) taken(r *run) int64 {
	if q.Ret != 0 {
		return q.RetS - q.InvS
	}
	return r.taken() - q.InvS
}

func (j *judge) checkRelease(c *Conn, hurtSeq, hurtT int64, name string) {
	r := j.r
	if !c.C.Accepted() {
		return
	}
	var waits int64
	for _, q := range c.Reqs {
		if q.Rep == nil || hurtSeq != inf && q.RetT > hurtT {
			waits += max(q.Op.Wait, 0) * ms
		}
	}
	allow := 5*sec + waits + c.C.Stalled() + 2*c.Net.LatMax + r.taken()
	hurtT = max(hurtT, c.C.ReadyAt())
	endT := r.endT
	for _, l := range r.h.Lifes { // finishing and stopping close every connection
		if l.Srv != c.Srv || l.Panic != "" || l.Ret == 0 || l.Inv < ret(&c.Dial) || l.K != "finish" && l.K != "stop" && l.K != "cancel" {
			continue
		}
		t := endT
		if c.C.PeerClosed() {
			t = c.C.PeerClosedAt()
		}
		if t-max(l.RetT, c.C.ReadyAt()) > 10*sec+c.C.Stalled()+2*c.Net.LatMax+r.taken() {
			r.fail("C11", "not-closed", "%s: the connection was not closed within %d ms after %s was called", name, (t-l.RetT)/ms, l.K)
			r.fail("C10", "not-closed", "%s: the connection was not closed within %d ms after %s was called", name, (t-l.RetT)/ms, l.K)
		}
	}
	if hurtSeq != inf {
		t := endT
		if c.C.PeerClosed() {
			t = c.C.PeerClosedAt()
		}
		if t-hurtT > allow {
			if c.C.PeerClosed() {
				r.fail("C17", "late-close", "%s: the server closed the connection %d ms after the client had left", name, (t-hurtT)/ms)
			} else {
				r.fail("C17", "not-closed", "%s: the server still holds the connection %d ms after the client left", name, (t-hurtT)/ms)
			}
		}
	}
}

// checkTiming: C04, C18 for a request that was answered.
func (j *judge) checkTiming(c *Conn, q *Req, hurtSeq, dist int64) {
	r := j.r
	cons, ok1 := c.C.ConsumedAt(q.End)
	sent, ok2 := c.C.SentAt(q.End)
	wr, ok3 := c.C.PeerSentAt(q.RStart + 1)
	if !ok1 || !ok2 || !ok3 {
		return
	}
	startLo, startHi := cons.T, sent.At
	if q.Idx > 0 {
		p := c.Reqs[q.Idx-1]
		if pw, ok := c.C.PeerSentAt(p.REnd); ok {
			startLo, startHi = max(startLo, pw.T), max(startHi, pw.T)
		}
	}
	taken := q.taken(r)
	undisturbed := wr.Seq < dist && wr.Seq < hurtSeq
	stalled := c.C.Stalled()
	small := c.Net.WinC2S > 0 && int64(c.Net.WinC2S) < q.End-q.Start
	startHi = max(startHi, c.C.ReadyAt())
	if small { // flow control: the tail of the frame leaves only as the server reads
		startHi = max(startHi, cons.T)
	}
	if q.Op.Api != "fetch" {
		if undisturbed {
			if d := wr.T - startHi - taken - stalled - c.C.PeerBlocked(startHi, wr.T); d > 15*ms {
				j.broken(c, "C18", "slow", "%s: %s request answered %d ms after it arrived", c.Who, q.Op.Api, d/ms)
			}
		}
		return
	}
	n := 0
	for _, p := range q.Rep.Parts {
		n += len(p.Recs)
	}
	wait := max(q.Op.Wait, 0) * ms
	// when did a record surely become available, and could one have been
	avail := inf
	could := false
	negative := false
	for i, e := range q.Ents {
		if e.Off < 0 {
			negative = true
			continue
		}
		l := j.log(c.Srv, e.T, e.P)
		if int64(len(l.retTs)) > e.Off {
			avail = min(avail, l.retTs[e.Off])
		}
		if below(l.invs, wr.Seq) > e.Off && i < len(q.Rep.Parts) && len(q.Rep.Parts[i].Recs) == 0 {
			// something may be there that did not fit
			if !l.have || e.Off >= int64(len(l.final)) || l.final[e.Off].Size > int(e.Lim) {
				could = true
			}
		}
	}
	if negative {
		return
	}
	if n == 0 && !could {
		// what was posted before the wait ended is in the answer, whatever ended it
		for _, e := range q.Ents {
			l := j.log(c.Srv, e.T, e.P)
			if !l.have || e.Off >= int64(min(len(l.rets), len(l.retTs), len(l.final))) || l.final[e.Off].Size > int(e.Lim) {
				continue
			}
			if l.rets[e.Off] >= dist || l.retTs[e.Off] >= startLo+wait {
				continue
			}
			if wr.Seq > dist {
				r.fail("C11", "missed", "%s: a fetch that was waiting when the server was told to finish is answered without the record of %s/%d at %d, posted before that", c.Who, e.T, e.P, e.Off)
			}
			r.fail("C04", "missed", "%s: a fetch with a maximum wait of %d ms is answered without the record of %s/%d at %d, which was posted %d ms after the fetch began", c.Who, wait/ms, e.T, e.P, e.Off, (l.retTs[e.Off]-startLo)/ms)
		}
		if avail != inf && avail < startLo {
			return // C02 reports that
		}
		if wr.Seq < dist && dist != 0 {
			if d := wr.T - startLo; d < wait {
				r.fail("C04", "early", "%s: a fetch with a maximum wait of %d ms was answered empty after %d ms", c.Who, wait/ms, d/ms)
			} else {
				r.marks.Waiting++
			}
		}
	}
	if !undisturbed {
		j.checkWoken(c, q, startHi, wr.T, hurtSeq)
		return
	}
	limit := startHi + wait
	if avail != inf {
		limit = min(limit, max(startHi, avail))
		if avail > startHi && n > 0 {
			r.marks.Arrived++
		}
	}
	if d := wr.T - limit - taken - stalled - c.C.PeerBlocked(limit, wr.T); d > 250*ms {
		what := "its maximum wait ended"
		if avail != inf && max(startHi, avail) <= startHi+wait {
			what = "a record was available"
		}
		j.broken(c, "C04", "late", "%s: a fetch (maximum wait %d ms) was answered %d ms after %s", c.Who, wait/ms, (wr.T-limit)/ms, what)
	}
}

// checkWoken: a stop, finish or restart ends a waiting fetch at once.
func (j *judge) checkWoken(c *Conn, q *Req, start, wrote, hurtSeq int64) {
	r := j.r
	if hurtSeq != inf {
		return
	}
	stops := 0
	for _, l := range r.h.Lifes {
		if l.Srv == c.Srv && l.Panic == "" && (l.K == "stop" || l.K == "restart") && ret(&l.Span) > c.Dial.Inv {
			stops++
		}
	}
	for _, l := range r.h.Lifes {
		if l.Srv != c.Srv || l.Panic != "" || l.Inv < ret(&c.Dial) {
			continue
		}
		at, taken := l.RetT, r.taken()-min(q.InvS, l.InvS)
		if q.Ret != 0 {
			taken = q.RetS - min(q.InvS, l.InvS)
		}
		switch l.K {
		case "finish", "cancel":
		case "stop", "restart":
			if stops > 1 {
				continue // an earlier one may be the one that counts
			}
			if l.K == "restart" {
				at = l.InvT
			}
		default:
			continue
		}
		if at == 0 || l.K != "restart" && l.Ret == 0 {
			continue
		}
		at = max(at, start)
		if d := wrote - at - taken - c.C.Stalled() - c.C.PeerBlocked(at, wrote); d > 250*ms {
			for _, prop := range []string{"C04", "C11"} {
				r.fail(prop, "stop-late", "%s: a fetch (maximum wait %d ms) was answered %d ms after %s was called", c.Who, max(q.Op.Wait, 0), (wrote-at)/ms, l.K)
			}
			return
		}
		if wrote > at {
			r.marks.Woken++
		}
	}
}

func (j *judge) checkReply(c *Conn, q *Req) {
	switch q.Op.Api {
	case "fetch":
		j.checkFetch(c, q)
	case "list":
		j.checkList(c, q)
	case "meta":
		j.checkMeta(c, q)
	case "commit", "ofetch":
		j.checkShape(c, q)
	case "coord":
		if q.Rep.Err != 0 || !j.reaches(q.Rep.Host, q.Rep.Port, c.Srv) {
			j.r.fail("C14", "coordinator", "%s: coordinator is %s:%d (error %d), which is not this server", c.Who, q.Rep.Host, q.Rep.Port, q.Rep.Err)
		}
	case "sync":
		j.checkAssign(c, q)
	case "join", "beat", "leave":
		if q.Rep.Err != 0 {
			j.r.fail("C05", "group-error", "%s: %s answered with error %d", c.Who, q.Op.Api, q.Rep.Err)
		}
	case "vers":
		j.checkVers(c, q)
	}
}

func (j *judge) reaches(host string, port int32, srv int) bool {
	return int(port) == j.r.sc.port0()+srv && (host == "localhost" || host == "127.0.0.1" || host == "::1" || host == "0.0.0.0")
}

func (j *judge) checkVers(c *Conn, q *Req) {
	got := map[int16][2]int16{}
	for _, v := range q.Rep.Vers {
		if _, dup := got[v[0]]; dup {
			j.r.fail("C05", "versions", "api %d is advertised twice", v[0])
		}
		got[v[0]] = [2]int16{v[1], v[2]}
	}
	for _, a := range apis {
		if g, ok := got[a.key]; !ok || g[0] != a.ver || g[1] != a.ver {
			j.r.fail("C05", "versions", "api %d is served in version %d but advertised as %v (present: %v)", a.key, a.ver, g, ok)
		}
		delete(got, a.key)
	}
	if len(got) > 0 {
		j.r.fail("C05", "versions", "%d apis are advertised that are not served", len(got))
	}
	if q.Rep.Err != 0 {
		j.r.fail("C05", "versions", "the versions request is answered with error %d", q.Rep.Err)
	}
}

func (j *judge) checkFetch(c *Conn, q *Req) {
	r := j.r
	// names and order
	k := 0
	okShape := len(q.Rep.Parts) == len(q.Ents)
	q.Op.groupsOf(q.Ents, func(t string, ents []Ent) {
		if k >= len(q.Rep.Topics) || q.Rep.Topics[k] != t {
			okShape = false
		}
		k++
	})
	if k != len(q.Rep.Topics) {
		okShape = false
	}
	for i := 0; okShape && i < len(q.Ents); i++ {
		if q.Rep.Parts[i].T != q.Ents[i].T || q.Rep.Parts[i].P != q.Ents[i].P {
			okShape = false
		}
	}
	if !okShape {
		r.fail("C02", "shape", "%s: the fetch reply does not name the requested topics and partitions in order", c.Who)
		j.unanswered(c, q, "fetch")
		return
	}
	for i := range q.Rep.Parts {
		p := &q.Rep.Parts[i]
		e := q.Ents[i]
		l := j.log(c.Srv, e.T, e.P)
		id := fmt.Sprintf("%s: fetch of %s/%d at %d (limit %d)", c.Who, e.T, e.P, e.Off, e.Lim)
		if e.Off < 0 {
			if len(p.Recs) > 0 {
				r.fail("C02", "negative", "%s returns records", id)
			}
			continue
		}
		if p.Bad != "" {
			r.fail("C02", "message-set", "%s: %s", id, p.Bad)
			r.fail("C05", "message-set", "%s: %s", id, p.Bad)
			continue
		}
		done, begun := below(l.rets, q.Last), below(l.invs, q.Ret)
		unknown := l.firstIn > q.Ret
		if p.Err != 0 {
			prop := "C02"
			if unknown {
				prop = "C08"
			}
			r.fail(prop, "fetch-error", "%s: error %d", id, p.Err)
			continue
		}
		if unknown && len(p.Recs) > 0 {
			r.fail("C08", "records-of-unknown", "%s returns %d records of a partition that does not exist", id, len(p.Recs))
		}
		if unknown {
			r.marks.Unknown++
		}
		size := 0
		bad := false
		for n := range p.Recs {
			v := &p.Recs[n]
			size += v.Size
			if v.Off != e.Off+int64(n) {
				for _, prop := range []string{"C02", "C01", "C03"} {
					r.fail(prop, "offsets", "%s: record %d of the reply has offset %d", id, n, v.Off)
				}
				bad = true
				break
			}
			if int64(n)+e.Off >= begun {
				r.fail("C02", "phantom", "%s: returns offset %d although only %d posts had begun", id, v.Off, begun)
				bad = true
				break
			}
			if l.have {
				if v.Off < int64(len(l.final)) {
					f := &l.final[v.Off]
					if !same(f.Key, v.Key) || !same(f.Val, v.Val) || f.TS != v.TS {
						for m := v.Off + 1; m < int64(len(l.final)); m++ {
							if y := &l.final[m]; same(y.Key, v.Key) && same(y.Val, v.Val) && y.TS == v.TS {
								r.fail("C03", "skipped", "%s: at offset %d it shows the record of offset %d, so a client that pages on never receives the one it asked for", id, v.Off, m)
								break
							}
						}
						for _, prop := range []string{"C02", "C01"} {
							r.fail(prop, "content", "%s: at offset %d it shows key=%s value=%s ts=%d, the log has key=%s value=%s ts=%d", id, v.Off, brief(v.Key), brief(v.Val), v.TS, brief(f.Key), brief(f.Val), f.TS)
						}
						bad = true
						break
					}
				} else {
					for _, prop := range []string{"C01", "C02", "C12"} {
						r.fail(prop, "vanished", "%s: shows offset %d, but the log ends at %d later", id, v.Off, len(l.final))
					}
					bad = true
					break
				}
			}
		}
		if bad {
			continue
		}
		if size != p.Size {
			r.fail("C02", "set-size", "%s: %d bytes of records in a set of %d bytes", id, size, p.Size)
		}
		if p.Size > 0 && p.Size > int(e.Lim) {
			r.fail("C03", "limit", "%s: returns %d bytes", id, p.Size)
		}
		next := e.Off + int64(len(p.Recs))
		if next < done && l.have && next < int64(len(l.final)) {
			if s := l.final[next].Size; size+s <= int(e.Lim) {
				r.fail("C02", "incomplete", "%s: stops before offset %d (%d bytes), which was posted before the request and fits after %d bytes", id, next, s, size)
				r.fail("C03", "incomplete", "%s: stops before offset %d (%d bytes), which was posted before the request and fits after %d bytes", id, next, s, size)
				if r.named2(q) {
					r.fail("C18", "hidden", "%s: hides offset %d", id, next)
				}
			} else {
				r.marks.LimitHit++
			}
		}
		lo, hi := max(e.Off, done), max(e.Off, begun)
		if p.Off < lo || p.Off > hi {
			r.fail("C02", "high-watermark", "%s: high watermark %d, the log end was between %d and %d", id, p.Off, lo, hi)
		}
	}
}

// named2 reports whether another fetch was waiting while q was served.
func (r *run) named2(q *Req) bool {
	for _, c := range r.h.Conns {
		for _, x := range c.Reqs {
			if x != q && x.Op.Api == "fetch" && x.Op.Wait > 0 && x.Inv < ret(&q.Span) && ret(&x.Span) > q.Inv {
				return true
			}
		}
	}
	return false
}

func (op *Op) groupsOf(ents []Ent, f func(string, []Ent)) {
	x := *op
	x.Ent = ents
	x.groups(f)
}

// shape checks that a reply names the requested entries in order.
func (j *judge) ordered(q *Req) bool {
	if len(q.Rep.Parts) != len(q.Ents) {
		return false
	}
	for i := range q.Ents {
		if q.Rep.Parts[i].T != q.Ents[i].T || q.Rep.Parts[i].P != q.Ents[i].P {
			return false
		}
	}
	return true
}

func (j *judge) checkShape(c *Conn, q *Req) {
	r := j.r
	if q.Op.Api == "commit" {
		if !j.ordered(q) {
			r.fail("C07", "shape", "%s: the reply to a commit of %d entries does not answer each of them", c.Who, len(q.Ents))
			j.unanswered(c, q, "offset-commit")
			return
		}
		for i, e := range q.Ents {
			j.exists(c, q, "offset-commit", e, q.Rep.Parts[i].Err)
		}
		return
	}
	// offset fetch: every existing entry exactly as often as asked, nothing else
	want := map[tp]int{}
	for _, e := range q.Ents {
		want[tp{e.T, e.P}]++
	}
	got := map[tp]int{}
	for _, p := range q.Rep.Parts {
		k := tp{p.T, p.P}
		got[k]++
		if got[k] > want[k] {
			r.fail("C07", "shape", "%s: the offset-fetch reply contains %s/%d, which was not asked (or asked less often)", c.Who, p.T, p.P)
			return
		}
		if p.Err != 0 {
			r.fail("C07", "ofetch-error", "%s: offset-fetch of %s/%d: error %d", c.Who, p.T, p.P, p.Err)
		}
	}
	for k, n := range want {
		l := j.log(c.Srv, k.t, k.p)
		if l.firstRt < q.Last && got[k] < n {
			r.fail("C07", "shape", "%s: the offset-fetch reply lacks %s/%d", c.Who, k.t, k.p)
			r.fail("C08", "existing-missing", "%s: the offset-fetch reply lacks %s/%d", c.Who, k.t, k.p)
		}
		if l.firstIn > q.Ret {
			r.marks.Unknown++
			if got[k] > 0 {
				r.fail("C08", "unknown-present", "%s: the offset-fetch reply contains %s/%d, which nobody created", c.Who, k.t, k.p)
			}
		}
	}
}

// unanswered: a reply does not answer the entries asked; if one of them names
// something unknown, the others have been affected or it has not been reported.
func (j *judge) unanswered(c *Conn, q *Req, what string) {
	for _, e := range q.Ents {
		l := j.log(c.Srv, e.T, e.P)
		if what == "metadata" {
			l = j.topic(c.Srv, e.T)
		}
		if l.firstIn > q.Ret {
			j.r.fail("C08", "shape", "%s: the %s reply does not answer each of the %d entries, one of which (%s/%d) nobody created", c.Who, what, len(q.Ents), e.T, e.P)
			return
		}
	}
}

// exists checks an error code against what exists.
func (j *judge) exists(c *Conn, q *Req, what string, e Ent, code int16) {
	l := j.log(c.Srv, e.T, e.P)
	switch {
	case l.firstRt < q.Last:
		if code != 0 {
			prop := "C07"
			if what == "list-offsets" {
				prop = "C09"
			}
			for _, prop := range []string{"C08", prop} {
				j.r.fail(prop, "existing-error", "%s: %s of existing %s/%d: error %d", c.Who, what, e.T, e.P, code)
			}
		}
	case l.firstIn > q.Ret:
		j.r.marks.Unknown++
		if code != 3 {
			j.r.fail("C08", "unknown-error", "%s: %s of %s/%d, which nobody created: error %d", c.Who, what, e.T, e.P, code)
		}
	default:
		if code != 0 && code != 3 {
			j.r.fail("C08", "error-code", "%s: %s of %s/%d: error %d", c.Who, what, e.T, e.P, code)
		}
	}
}

func (j *judge) checkList(c *Conn, q *Req) {
	r := j.r
	if !j.ordered(q) {
		r.fail("C09", "shape", "%s: the list-offsets reply does not answer the %d entries in order", c.Who, len(q.Ents))
		j.unanswered(c, q, "list-offsets")
		return
	}
	for i, e := range q.Ents {
		p := &q.Rep.Parts[i]
		j.exists(c, q, "list-offsets", e, p.Err)
		if p.Err != 0 {
			continue
		}
		l := j.log(c.Srv, e.T, e.P)
		done, begun := below(l.rets, q.Last), below(l.invs, q.Ret)
		switch {
		case e.Off == -1:
			if p.Off < done || p.Off > begun {
				r.fail("C09", "latest", "%s: latest offset of %s/%d is %d, the log had between %d and %d records", c.Who, e.T, e.P, p.Off, done, begun)
			}
		case e.Off == -2:
			if p.Off != 0 {
				r.fail("C09", "earliest", "%s: earliest offset of %s/%d is %d", c.Who, e.T, e.P, p.Off)
			}
		default: // a time, which may be before 1970
			if !l.have || !l.ndec {
				continue
			}
			first := int64(sort.Search(len(l.final), func(i int) bool { return l.final[i].TS >= e.Off }))
			lo, hi := min(first, done), min(first, begun)
			if p.Off < lo || p.Off > hi {
				r.fail("C09", "by-time", "%s: offset of %s/%d by time %d is %d, expected between %d and %d", c.Who, e.T, e.P, e.Off, p.Off, lo, hi)
			} else if p.Off == first && first < done && first < int64(len(l.final)) && p.TS != l.final[first].TS {
				r.fail("C09", "by-time-stamp", "%s: %s/%d by time %d: offset %d has timestamp %d, the reply says %d", c.Who, e.T, e.P, e.Off, p.Off, l.final[first].TS, p.TS)
			}
		}
	}
}

// checkMonotone: latest offsets never go backwards.
func (j *judge) checkMonotone() {
	type obs struct{ last, ret, off int64 }
	m := map[string][]obs{}
	for _, c := range j.r.h.Conns {
		for _, q := range c.Reqs {
			if q.Op.Api != "list" || q.Rep == nil || q.Rep.Bad != "" || !j.ordered(q) {
				continue
			}
			for i, e := range q.Ents {
				if e.Off == -1 && q.Rep.Parts[i].Err == 0 {
					k := lkey(c.Srv, e.T, e.P)
					m[k] = append(m[k], obs{q.Last, q.Ret, q.Rep.Parts[i].Off})
				}
			}
		}
	}
	for k, o := range m {
		sort.Slice(o, func(a, b int) bool { return o[a].ret < o[b].ret })
		pre := make([]int64, len(o)+1)
		for i := range o {
			pre[i+1] = max(pre[i], o[i].off)
		}
		for i := range o {
			n := sort.Search(len(o), func(x int) bool { return o[x].ret >= o[i].last })
			if pre[n] > o[i].off {
				j.r.fail("C09", "backwards", "latest offset of %s went from %d back to %d", k, pre[n], o[i].off)
				return
			}
		}
	}
}

func (j *judge) checkMeta(c *Conn, q *Req) {
	r := j.r
	ids := map[int64]bool{}
	for _, b := range q.Rep.Brokers {
		if j.reaches(b.Host, b.Port, c.Srv) {
			ids[int64(b.ID)] = true
		}
	}
	if len(ids) == 0 {
		r.fail("C14", "broker", "%s: no broker in the metadata is this server: %v", c.Who, q.Rep.Brokers)
	}
	asked := map[string]bool{}
	if q.Op.Null {
		for _, l := range j.tops {
			if l.srv == c.Srv && l.firstRt < q.Last {
				asked[l.k.t] = true
			}
		}
	} else {
		if len(q.Rep.Topics) != len(q.Ents) {
			r.fail("C14", "meta-shape", "%s: metadata for %d topics lists %d", c.Who, len(q.Ents), len(q.Rep.Topics))
			j.unanswered(c, q, "metadata")
			return
		}
		for i, e := range q.Ents {
			if q.Rep.Topics[i] != e.T {
				r.fail("C14", "meta-shape", "%s: metadata entry %d is topic %q, asked for %q", c.Who, i, q.Rep.Topics[i], e.T)
				return
			}
		}
	}
	times := map[string]int{}
	for i, t := range q.Rep.Topics {
		times[t]++
		l := j.topic(c.Srv, t)
		code := q.Rep.TErr[i]
		switch {
		case l.firstRt < q.Last:
			if code != 0 {
				for _, prop := range []string{"C08", "C14"} {
					r.fail(prop, "existing-error", "%s: metadata of existing topic %s: error %d", c.Who, t, code)
				}
			}
		case l.firstIn > q.Ret:
			r.marks.Unknown++
			if q.Op.Null {
				r.fail("C14", "meta-phantom", "%s: metadata lists topic %q, which nobody created", c.Who, t)
				r.fail("C08", "meta-phantom", "%s: metadata lists topic %q, which nobody created", c.Who, t)
			} else if code != 3 {
				r.fail("C08", "unknown-error", "%s: metadata of topic %q, which nobody created: error %d", c.Who, t, code)
			}
		}
	}
	if q.Op.Null {
		for t, n := range times {
			if n > 1 {
				r.fail("C14", "meta-twice", "%s: metadata lists topic %q %d times", c.Who, t, n)
			}
		}
		for t := range asked {
			if times[t] == 0 {
				r.fail("C14", "meta-missing", "%s: metadata does not list existing topic %q", c.Who, t)
			}
		}
	}
	// partitions, per mention of a topic
	cnt := map[tp]int{}
	for i := range q.Rep.Parts {
		p := &q.Rep.Parts[i]
		cnt[tp{p.T, p.P}]++
		if p.Err != 0 {
			r.fail("C14", "meta-partition-error", "%s: metadata of %s/%d: error %d", c.Who, p.T, p.P, p.Err)
		}
		if !ids[p.Off] {
			r.fail("C14", "leader", "%s: leader %d of %s/%d is not a listed broker that reaches this server", c.Who, p.Off, p.T, p.P)
		}
	}
	j.partViews(c, q, cnt, times, "metadata")
}

// partViews compares a set of listed partitions with what exists.
func (j *judge) partViews(c *Conn, q *Req, cnt map[tp]int, times map[string]int, what string) {
	r := j.r
	keys := make([]string, 0, len(cnt))
	for k := range cnt {
		keys = append(keys, lkey(c.Srv, k.t, k.p))
	}
	sort.Strings(keys)
	for k, n := range cnt {
		l := j.log(c.Srv, k.t, k.p)
		if n > times[k.t] || n < times[k.t] && l.firstRt < q.Inv {
			r.fail("C14", "partition-count", "%s: %s lists %s/%d %d times", c.Who, what, k.t, k.p, n)
		}
		if l.firstIn > q.Ret {
			r.fail("C14", "phantom-partition", "%s: %s lists %s/%d, which nobody created", c.Who, what, k.t, k.p)
			r.fail("C08", "phantom-partition", "%s: %s lists %s/%d, which nobody created", c.Who, what, k.t, k.p)
		}
	}
	for _, l := range j.logs {
		if l.srv == c.Srv && l.firstRt < q.Last && times[l.k.t] > 0 && cnt[l.k] == 0 {
			r.fail("C14", "missing-partition", "%s: %s does not list %s/%d", c.Who, what, l.k.t, l.k.p)
		}
	}
}

func (j *judge) checkAssign(c *Conn, q *Req) {
	r := j.r
	if q.Rep.Err != 0 {
		r.fail("C14", "sync-error", "%s: sync answered with error %d", c.Who, q.Rep.Err)
		return
	}
	cnt := map[tp]int{}
	times := map[string]int{}
	for _, t := range q.Rep.Topics {
		times[t]++
		if times[t] > 1 {
			r.fail("C14", "assigned-twice", "%s: the assignment names topic %q twice", c.Who, t)
		}
		if l := j.topic(c.Srv, t); l.firstIn > q.Ret {
			r.fail("C14", "assigned-phantom", "%s: the assignment names topic %q, which nobody created", c.Who, t)
		}
	}
	for _, p := range q.Rep.Parts {
		cnt[tp{p.T, p.P}]++
	}
	for _, l := range j.tops {
		if l.srv == c.Srv && l.firstRt < q.Last && times[l.k.t] == 0 {
			r.fail("C14", "unassigned", "%s: existing topic %q is not assigned", c.Who, l.k.t)
			times[l.k.t] = 0
		}
	}
	j.partViews(c, q, cnt, times, "the assignment")
}

// --- lifecycle, dials, calls -----------------------------------------------

func (j *judge) checkLife() {
	r := j.r
	for _, l := range r.h.Lifes {
		if l.Panic != "" {
			if l.K != "start" || !j.maybeRunning(l) {
				r.fail("C13", "panic", "%s: %s panicked: %s", l.Who, l.K, l.Panic)
			}
			continue
		}
		if l.Ret == 0 {
			continue
		}
		d := l.RetT - l.InvT - 2*(l.RetS-l.InvS)
		switch l.K {
		case "start", "finish":
			if d > 250*ms {
				r.fail("C13", "slow", "%s: %s took %d ms", l.Who, l.K, d/ms)
			}
		case "stop":
			if d > 10*sec {
				r.fail("C10", "slow", "%s: requesting a stop took %d ms", l.Who, d/ms)
			}
		case "wait", "restart":
			if l.K == "wait" && !j.stopBefore(l) {
				continue
			}
			if d > 10*sec {
				r.fail("C10", "slow", "%s: %s took %d ms", l.Who, l.K, d/ms)
				if l.K == "restart" {
					r.fail("C12", "slow", "%s: %s took %d ms", l.Who, l.K, d/ms)
				}
			}
		}
	}
}

// stopBefore: a stop had been requested before l began, and no start since.
func (j *judge) stopBefore(l *Life) bool { return j.r.stopDue(l) }

func (r *run) stopDue(l *Life) bool {
	var started int64
	for _, x := range r.h.Lifes {
		if x.Srv == l.Srv && x != l && (x.K == "start" || x.K == "restart") && x.Panic == "" && x.Inv < ret(&l.Span) {
			started = max(started, ret(&x.Span))
		}
	}
	for _, x := range r.h.Lifes {
		if x.Srv == l.Srv && x.K == "stop" && x.Inv > started && ret(&x.Span) < l.Inv {
			return true
		}
	}
	return false
}

func (j *judge) maybeRunning(l *Life) bool {
	for _, s := range j.r.h.Lifes {
		if s == l || s.Srv != l.Srv || (s.K != "start" && s.K != "restart") || s.Panic != "" || s.Inv > ret(&l.Span) {
			continue
		}
		over := false
		for _, w := range j.r.h.Lifes {
			if w.Srv == l.Srv && (w.K == "wait" || w.K == "waitx") && w.Panic == "" && w.Inv > ret(&s.Span) && ret(&w.Span) < l.Inv {
				over = true
			}
		}
		if !over {
			return true
		}
	}
	return false
}

func (j *judge) checkDials() {
	r := j.r
	for _, d := range r.h.Dials {
		if d.OK || d.Ret == 0 || !r.serving(d.Srv, d.Inv, d.Ret) {
			continue
		}
		var s *Life
		for _, l := range r.h.Lifes {
			if l.Srv == d.Srv && (l.K == "start" || l.K == "restart") && l.Panic == "" && l.Ret != 0 && l.Ret < d.Inv && (s == nil || l.Ret > s.Ret) {
				s = l
			}
		}
		if s.K == "start" && d.InvT-s.RetT < 250*ms+(d.InvS-s.RetS) {
			continue
		}
		r.fail("C12", "refused", "%s: connection refused %d ms after %s returned: %s", d.Who, (d.InvT-s.RetT)/ms, s.K, d.Err)
		if anyHurt(r, nil) {
			r.fail("C06", "refused", "%s: connection refused while the server is up: %s", d.Who, d.Err)
			r.fail("C18", "refused", "%s: connection refused while the server is up: %s", d.Who, d.Err)
		}
	}
}

func (j *judge) checkCalls() {
	chk := func(s *Span, what string) {
		if s.Ret == 0 {
			return
		}
		if d := s.RetT - s.InvT - (s.RetS - s.InvS); d > 5*ms {
			j.r.fail("C18", "blocked", "%s: %s took %d ms", s.Who, what, d/ms)
		}
	}
	for _, p := range j.r.h.Posts {
		chk(&p.Span, "a post")
	}
	for _, p := range j.r.h.Creates {
		chk(&p.Span, "creating a topic")
	}
	for _, p := range j.r.h.Sets {
		chk(&p.Span, "setting an offset")
	}
	for _, l := range j.r.h.Lifes {
		if l.K == "finish" && l.Panic == "" {
			chk(&l.Span, "finishing requests")
		}
	}
}
