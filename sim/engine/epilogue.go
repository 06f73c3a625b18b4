package engine

import (
	"runtime"
	"sort"
	"strings"

	"kmverif/simnet"
)

type tp struct {
	t string
	p int32
}

// finalState is what an auditing client sees on one server after the workload.
type finalState struct {
	ok   bool
	logs map[tp][]RecV
	conn *Conn
}

// named collects every topic-partition and group the history mentions.
func (r *run) named(srv int) (tps []tp, groups []string) {
	seen := map[tp]bool{}
	gs := map[string]bool{}
	add := func(t string, p int32) {
		k := tp{t, p}
		if !seen[k] {
			seen[k] = true
			tps = append(tps, k)
		}
	}
	for _, x := range r.h.Posts {
		if x.Srv == srv {
			add(x.T, x.P)
		}
	}
	for _, x := range r.h.Creates {
		if x.Srv == srv {
			for _, t := range x.Ts {
				add(t, x.P)
			}
		}
	}
	for _, x := range r.h.Sets {
		if x.Srv == srv {
			add(x.T, x.P)
			gs[x.G] = true
		}
	}
	for _, c := range r.h.Conns {
		if c.Srv != srv {
			continue
		}
		for _, q := range c.Reqs {
			for _, e := range q.Ents {
				if q.Op.Api != "meta" {
					add(e.T, e.P)
				}
			}
			if q.Op.Api == "commit" || q.Op.Api == "ofetch" {
				gs[q.Op.G] = true
			}
		}
	}
	for _, ks := range r.kgos {
		gs[ks.g] = true
	}
	for g := range gs {
		groups = append(groups, g)
	}
	sort.Strings(groups)
	sort.Slice(tps, func(i, j int) bool {
		if tps[i].t != tps[j].t {
			return tps[i].t < tps[j].t
		}
		return tps[i].p < tps[j].p
	})
	return
}

func (r *run) audit(srv int) *finalState {
	f := &finalState{logs: map[tp][]RecV{}}
	tps, groups := r.named(srv)
	st := &actorState{r: r, a: &Actor{Name: "audit"}}
	st.do(0, &Op{K: "dial", Srv: srv, Once: true})
	if st.conn == nil {
		st.do(0, &Op{K: "dial", Srv: srv})
	}
	c := st.conn
	if c == nil {
		return f
	}
	f.conn = c
	ask := func(op *Op) *Req {
		op.K, op.Srv = "req", srv
		st.do(0, op)
		if len(c.Reqs) == 0 {
			return nil
		}
		q := c.Reqs[len(c.Reqs)-1]
		if q.Rep == nil || q.Rep.Bad != "" {
			return nil
		}
		return q
	}
	ask(&Op{Api: "vers"})
	ask(&Op{Api: "meta", Null: true})
	if len(tps) == 0 {
		f.ok = true
		return f
	}
	var ents, latest, earliest []Ent
	var tops []Ent
	for _, k := range tps {
		ents = append(ents, Ent{T: k.t, P: k.p})
		latest = append(latest, Ent{T: k.t, P: k.p, Off: -1})
		earliest = append(earliest, Ent{T: k.t, P: k.p, Off: -2})
		if len(tops) == 0 || tops[len(tops)-1].T != k.t {
			tops = append(tops, Ent{T: k.t})
		}
	}
	ask(&Op{Api: "meta", Ent: tops})
	q := ask(&Op{Api: "list", Ent: latest})
	if q == nil {
		return f
	}
	ask(&Op{Api: "list", Ent: earliest})
	for _, p := range q.Rep.Parts {
		if p.Err != 0 {
			continue
		}
		k := tp{p.T, p.P}
		for int64(len(f.logs[k])) < p.Off {
			at := int64(len(f.logs[k]))
			q := ask(&Op{Api: "fetch", Ent: []Ent{{T: p.T, P: p.P, Off: at, Lim: 1 << 27}}, Min: 1})
			if q == nil || len(q.Rep.Parts) != 1 || len(q.Rep.Parts[0].Recs) == 0 {
				return f
			}
			f.logs[k] = append(f.logs[k], q.Rep.Parts[0].Recs...)
		}
		if f.logs[k] == nil {
			f.logs[k] = []RecV{}
		}
	}
	for _, g := range groups {
		ask(&Op{Api: "ofetch", G: g, Ent: ents})
	}
	ask(&Op{Api: "sync", G: "audit"})
	ask(&Op{Api: "coord", G: "audit"})
	f.ok = true
	return f
}

func (r *run) servingNow(srv int) bool {
	s := simnet.NextSeq()
	return r.serving(srv, s, s)
}

func sutGoroutines() (n int, where string) {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for _, g := range strings.Split(string(buf), "\n\n") {
		if strings.Contains(g, "kafka-mock-go.") || strings.Contains(g, "jimsnab/kafka-mock-go") {
			// ignore harness goroutines that are merely calling into it
			if strings.Contains(g, "kmverif/engine.") && !strings.Contains(g, "created by github.com/jimsnab/kafka-mock-go") {
				continue
			}
			n++
			for _, l := range strings.Split(g, "\n") {
				if strings.Contains(l, "kafka-mock-go.") && !strings.Contains(l, "created by") {
					if i := strings.LastIndex(l, "("); i > 0 {
						l = l[:i]
					}
					if i := strings.LastIndex(l, "/"); i > 0 {
						l = l[i+1:]
					}
					where = l
					break
				}
			}
		}
	}
	return
}

func (r *run) epilogue() {
	sc := r.sc
	ctl := &actorState{r: r, a: &Actor{Name: "main"}}
	simnet.Plenty()
	if sc.Drain {
		r.drain()
	}
	for i := range r.km {
		if r.km[i] == nil {
			r.newServer(i)
		}
		if gone := r.cancelled(i, inf); !r.servingNow(i) && !gone || (sc.Seed+uint64(i))%3 == 0 {
			if !r.bounded(40*sec, func() { ctl.life(&Op{K: "restart", Srv: i}) }) {
				r.fail("C13", "hang", "the final restart has not returned after 40 s of simulated time")
				r.fail("C10", "hang", "the final restart has not returned after 40 s of simulated time")
				r.dirty = true
				return
			}
		}
	}
	if !sc.NoAudit {
		for i := range r.km {
			if r.cancelled(i, inf) {
				r.final = append(r.final, &finalState{})
				continue
			}
			r.final = append(r.final, r.audit(i))
		}
	}
	for i := range r.km {
		ok := r.bounded(40*sec, func() {
			ctl.life(&Op{K: "stop", Srv: i})
			ctl.life(&Op{K: "wait", Srv: i})
		})
		if !ok {
			r.fail("C10", "hang", "waiting for termination has not returned 40 s of simulated time after the final stop")
			r.dirty = true
			return
		}
	}
	r.mainW.w.Wait(now() + 100*ms)
	for i := range r.km {
		if n := simnet.OpenServerEnds(r.sc.port0() + i); n > 0 {
			r.fail("C10", "conns-open", "%d accepted connections are open after termination", n)
		}
		if simnet.Listening(r.sc.port0() + i) {
			r.fail("C10", "port-held", "the port is still bound after termination")
		}
	}
	if n, where := sutGoroutines(); n > 0 {
		r.mainW.w.Wait(now() + 2*sec)
		if n, where = sutGoroutines(); n > 0 {
			r.fail("C10", "goroutines", "%d goroutines of the server still run 2 s after it terminated (one in %s)", n, where)
			r.dirty = true
		}
	}
	// whoever waited is told; a stalled goroutine takes a while to hear it
	for i := 0; i < 100; i++ {
		all := true
		for _, st := range r.states {
			all = all && st.done
		}
		if all {
			break
		}
		r.mainW.w.Wait(now() + 100*ms)
	}
	for _, st := range r.states {
		if !st.done {
			r.fail("C13", "hang", "%s: waiting for termination has not returned although the server terminated", st.a.Name)
			r.dirty = true
		}
	}
	if n := simnet.OpenFiles(); n > 0 {
		r.fail("C17", "descriptors", "%d duplicated descriptors are still open after termination", n)
	}
}

// drain: every client leaves; soon after, the server must hold nothing for them.
func (r *run) drain() {
	for _, st := range r.states {
		if st.conn != nil && !st.conn.MyClose {
			st.close(0)
		}
	}
	for _, c := range r.h.Conns {
		if !c.MyClose {
			c.C.Close()
			c.MyClose = true
			c.CloseT, c.CloseSeq = now(), simnet.NextSeq()
			c.rw.w.Wake()
		}
	}
	var longest int64
	for _, a := range r.sc.Actors {
		var sum int64
		for _, op := range a.Ops {
			if op.Api == "fetch" {
				sum += max(op.Wait, 0) * ms
			}
		}
		longest = max(longest, sum)
	}
	r.mainW.w.Wait(now() + 10*sec + longest)
	for i := range r.km {
		if !r.servingNow(i) {
			continue
		}
		if n := simnet.OpenServerEnds(r.sc.port0() + i); n > 0 {
			r.fail("C17", "conns-open", "%d connections are still open on the server %d s after their clients left", n, (10*sec+longest)/sec)
		}
	}
	all := true
	for i := range r.km {
		all = all && r.servingNow(i)
	}
	if all {
		if n, where := sutGoroutines(); n > r.idleGor {
			r.fail("C17", "goroutines", "%d goroutines of the server run %d s after the last client left; %d ran before the first came (one in %s)", n, (10*sec+longest)/sec, r.idleGor, where)
		}
	}
	if n := simnet.OpenFiles(); n > 0 {
		r.fail("C17", "descriptors", "%d duplicated descriptors are open after all clients left", n)
	}
	gone := 0
	for _, c := range r.h.Conns {
		if c.C.Accepted() && c.C.PeerClosed() {
			gone++
		}
	}
	if all && gone >= 6 && len(r.viol) == 0 {
		// everything is asleep: collect garbage and see what the server still refers to
		runtime.SimGC()
		r.marks.LeakChecks++
		if n := simnet.HeldHandles(); n > 2*len(r.km) {
			r.fail("C17", "retained", "the server still refers to %d of the %d connections that are closed", n, gone)
		}
	}
}

// tidy gets the process back to its state before the run.
func (r *run) tidy(base int) {
	for _, c := range r.h.Conns {
		if !c.MyClose {
			c.C.Close()
			c.MyClose = true
		}
		c.rw.w.Wake()
	}
	simnet.CloseListeners()
	simnet.CloseFiles()
	for i := 0; i < 20 && runtime.SimTimers() > 0 || i < 3; i++ {
		simnet.Sleep(3600 * sec)
	}
	if runtime.NumGoroutine() != base || runtime.SimTimers() > 0 {
		r.dirty = true
	}
}
