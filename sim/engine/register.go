package engine

import (
	"fmt"
	"sort"
)

// Committed offsets: every (server, group, topic, partition) is one register
// whose calls must be linearizable (C07). A call is an interval of sequence
// numbers; the checker searches for one order of the calls that respects real
// time and explains every result.

const (
	rExist  = iota // the partition comes into being
	rCommit        // raise to val
	rSet           // put to val
	rRead          // val is what was read; absent: the entry was left out
)

type rop struct {
	kind     int
	val      int64
	absent   bool // commit: error 3; read: left out
	inv, ret int64
	optional bool // may never have taken effect
	unknown  bool // result not seen
	what     string
}

type rkey struct {
	srv  int
	g, t string
	p    int32
}

type rstate struct {
	exists bool
	val    int64
}

func (o *rop) apply(s rstate) (rstate, bool) {
	switch o.kind {
	case rExist:
		s.exists = true
	case rCommit:
		if !o.unknown && o.absent == s.exists {
			return s, false
		}
		if s.exists && o.val > s.val {
			s.val = o.val
		}
	case rSet:
		if s.exists {
			s.val = o.val
		}
	case rRead:
		if o.absent {
			return s, !s.exists
		}
		return s, s.exists && s.val == o.val
	}
	return s, true
}

// linear searches for a linearization. ok is false if there is none, known is
// false if the search was given up.
func linear(ops []rop) (ok, known bool) {
	sort.SliceStable(ops, func(a, b int) bool { return ops[a].inv < ops[b].inv })
	n := len(ops)
	if n == 0 {
		return true, true
	}
	type memo struct {
		first int
		set   string
		s     rstate
	}
	seen := map[memo]bool{}
	budget := 300000
	done := make([]byte, (n+7)/8)
	has := func(i int) bool { return done[i/8]&(1<<(i%8)) != 0 }
	var rec func(first int, s rstate) bool
	rec = func(first int, s rstate) bool {
		for first < n && has(first) {
			first++
		}
		if first == n {
			return true
		}
		budget--
		if budget < 0 {
			return false
		}
		m := memo{first, string(done[first/8:]), s}
		if seen[m] {
			return false
		}
		seen[m] = true
		// the earliest return among the calls still to place bounds the candidates
		minRet := inf
		rest := false
		for i := first; i < n; i++ {
			if has(i) {
				continue
			}
			if !ops[i].optional {
				rest = true
			}
			if ops[i].inv > minRet {
				break
			}
			if !ops[i].optional {
				minRet = min(minRet, ops[i].ret)
			}
		}
		if !rest {
			for i := first; i < n; i++ {
				if !has(i) && !ops[i].optional {
					rest = true
				}
			}
			if !rest {
				return true
			}
		}
		for i := first; i < n && ops[i].inv < minRet; i++ {
			if has(i) {
				continue
			}
			t, can := ops[i].apply(s)
			if !can {
				continue
			}
			if ops[i].optional && t == s && ops[i].kind != rRead {
				// no effect now: placing it is never needed
				continue
			}
			done[i/8] |= 1 << (i % 8)
			if rec(first, t) {
				return true
			}
			done[i/8] &^= 1 << (i % 8)
			if budget < 0 {
				return false
			}
		}
		return false
	}
	ok = rec(0, rstate{})
	return ok, ok || budget >= 0
}

func (j *judge) checkRegisters() (nops, nkeys int) {
	r := j.r
	m := map[rkey][]rop{}
	trunc := map[rkey]bool{}
	add := func(k rkey, o rop) { m[k] = append(m[k], o) }
	for _, s := range r.h.Sets {
		add(rkey{s.Srv, s.G, s.T, s.P}, rop{kind: rSet, val: s.Off, inv: s.Inv, ret: ret(&s.Span), optional: s.Ret == 0, what: fmt.Sprintf("%s sets %d", s.Who, s.Off)})
	}
	for _, c := range r.h.Conns {
		for _, q := range c.Reqs {
			if q.Op.Api != "commit" && q.Op.Api != "ofetch" {
				continue
			}
			answered := q.Rep != nil && q.Rep.Bad == "" && q.RCorr == q.Corr
			if _, arrived := c.C.ConsumedAt(q.End); !arrived {
				for _, e := range q.Ents {
					trunc[rkey{c.Srv, q.Op.G, e.T, e.P}] = true
				}
				continue
			}
			if q.Op.Api == "commit" {
				if answered && !j.ordered(q) {
					continue
				}
				for i, e := range q.Ents {
					o := rop{kind: rCommit, val: e.Off, inv: q.Last, ret: inf, optional: !answered, unknown: !answered, what: fmt.Sprintf("%s commits %d", c.Who, e.Off)}
					if o.inv == 0 {
						o.inv = q.Inv
					}
					if answered {
						o.ret = q.Ret
						code := q.Rep.Parts[i].Err
						if code != 0 && code != 3 {
							continue
						}
						o.absent = code == 3
						if o.absent {
							o.what += " (unknown partition)"
						}
					}
					add(rkey{c.Srv, q.Op.G, e.T, e.P}, o)
				}
				continue
			}
			if !answered {
				continue
			}
			times := map[tp]int{}
			for _, p := range q.Rep.Parts {
				times[tp{p.T, p.P}]++
				add(rkey{c.Srv, q.Op.G, p.T, p.P}, rop{kind: rRead, val: p.Off, inv: q.Last, ret: q.Ret, what: fmt.Sprintf("%s reads %d", c.Who, p.Off)})
			}
			for _, e := range q.Ents {
				if times[tp{e.T, e.P}] == 0 {
					add(rkey{c.Srv, q.Op.G, e.T, e.P}, rop{kind: rRead, absent: true, inv: q.Last, ret: q.Ret, what: c.Who + " reads nothing"})
				}
			}
		}
	}
	keys := make([]rkey, 0, len(m))
	for k := range m {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(a, b int) bool {
		x, y := keys[a], keys[b]
		if x.srv != y.srv {
			return x.srv < y.srv
		}
		if x.g != y.g {
			return x.g < y.g
		}
		if x.t != y.t {
			return x.t < y.t
		}
		return x.p < y.p
	})
	for _, k := range keys {
		if r.kgoGroup(k.g) {
			continue // committed by kafka-go; checkKgo judges it
		}
		ops := m[k]
		l := j.log(k.srv, k.t, k.p)
		if l.firstIn != inf {
			ops = append(ops, rop{kind: rExist, inv: l.firstIn, ret: l.firstRt, optional: l.firstRt == inf, what: "created"})
		}
		commits, overlap := 0, false
		for i := range ops {
			if ops[i].kind == rCommit || ops[i].kind == rSet {
				for x := range ops {
					if x != i && (ops[x].kind == rCommit || ops[x].kind == rSet) && ops[x].inv < ops[i].ret && ops[i].inv < ops[x].ret {
						overlap = true
					}
				}
				commits++
			}
		}
		if overlap {
			r.marks.CommitRace++
		}
		ok, known := linear(ops)
		if !known {
			r.marks.LinGivenUp++
			continue
		}
		nops += len(ops)
		nkeys++
		if ok {
			continue
		}
		msg := fmt.Sprintf("committed offset of group %q for %s/%d: no order of these calls explains the results:", k.g, k.t, k.p)
		for i := range ops {
			if i == 40 {
				msg += " ..."
				break
			}
			msg += fmt.Sprintf(" [%d-", ops[i].inv)
			if ops[i].ret == inf {
				msg += "?"
			} else {
				msg += fmt.Sprint(ops[i].ret)
			}
			msg += " " + ops[i].what + "]"
		}
		r.fail("C07", "register", "%s", msg)
		if trunc[k] {
			r.fail("C06", "register", "%s", msg)
		}
		for i := range ops {
			if o := &ops[i]; o.absent || o.inv < l.firstRt && o.kind != rExist {
				r.fail("C08", "register", "%s", msg)
				break
			}
		}
		life := map[string]bool{}
		for _, l := range r.h.Lifes {
			if l.Srv == k.srv {
				life[l.K] = true
			}
		}
		if life["restart"] {
			r.fail("C12", "register", "%s", msg)
		}
		if life["stop"] || life["finish"] || life["cancel"] || life["restart"] {
			r.fail("C11", "register", "%s", msg)
		}
	}
	return
}

func (r *run) kgoGroup(g string) bool {
	for _, ks := range r.kgos {
		if ks.g == g {
			return true
		}
	}
	return false
}
