package engine

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"time"

	"github.com/segmentio/kafka-go"

	"kmverif/simnet"
)

// A real kafka-go consumer-group reader driven against the server (C15). The
// library is the unmodified one; only its dial function leads into simnet.

type kmark struct {
	definite int64 // committed for certain
	possible int64 // the highest offset that may have been committed
}

type kread struct {
	off      int64
	key, val []byte
	ms       int64
	k        tp
}

type kgoState struct {
	st     *actorState
	g      string
	srv    int
	topics []string
	marks  map[tp]*kmark
	conns  []*simnet.TCPConn
	ever   []*simnet.TCPConn // including those that are over
	reads  []kread
	dialN  uint64
	upset  bool // connections were cut or the server was stopped: redelivery is allowed
	broken bool
}

func (ks *kgoState) mark(k tp) *kmark {
	m := ks.marks[k]
	if m == nil {
		m = &kmark{}
		ks.marks[k] = m
	}
	return m
}

func (ks *kgoState) cut() {
	for _, c := range ks.conns {
		if !c.Dead() && !c.PeerClosed() {
			c.Fault(simnet.FReset, 0)
			ks.st.r.marks.KgoCuts++
		}
	}
	ks.conns = nil
	ks.upset = true
}

// lifeTouched: a lifecycle call touched the server since seq.
func (r *run) lifeTouched(srv int, seq int64) bool { return r.disturbed(srv, seq) != inf }

func (st *actorState) kgo() {
	k := st.a.Kgo
	ks := &kgoState{st: st, g: k.Group, srv: k.Srv, topics: k.Topics, marks: map[tp]*kmark{}}
	st.r.kgos = append(st.r.kgos, ks)
	for i := range k.Sessions {
		if st.r.abort || ks.broken {
			return
		}
		st.curI, st.cur, st.curT = i, "kgo", now()
		ks.session(&k.Sessions[i], k.Net)
	}
}

func (ks *kgoState) session(s *KgoSession, nt *Net) {
	st, r := ks.st, ks.st.r
	who := st.a.Name
	if s.SetBack != nil {
		off := s.SetBack.Off
		// a commit of an earlier session whose connection was cut may still be
		// on its way through the server
		for wait := 0; ks.lingering(); wait++ {
			if wait > 600 {
				ks.broken = true
				return
			}
			simnet.Sleep(50 * ms)
		}
		st.do(st.curI, &Op{K: "setoff", Srv: ks.srv, T: s.SetBack.T, P: s.SetBack.P, G: ks.g, N: off})
		m := ks.mark(tp{s.SetBack.T, s.SetBack.P})
		m.definite, m.possible = off, off
		st.cur = "kgo"
	}
	simnet.Sleep(s.Pause)
	seq0 := simnet.NextSeq()
	ks.upset = false
	ks.conns = nil
	if nt == nil {
		nt = &goodNet
	}
	dialer := &kafka.Dialer{
		ClientID: "kgo",
		Timeout:  10 * time.Second,
		DialFunc: func(ctx context.Context, network, address string) (net.Conn, error) {
			_, ps, err := net.SplitHostPort(address)
			if err != nil {
				return nil, err
			}
			port, err := strconv.Atoi(ps)
			if err != nil {
				return nil, err
			}
			ks.dialN++
			p := &simnet.Params{Seed: r.sc.Seed*77 + ks.dialN + uint64(len(ks.g))<<32, LatMin: nt.LatMin, LatMax: nt.LatMax, SegMax: nt.SegMax, WinC2S: nt.WinC2S, WinS2C: nt.WinS2C, ShortRead: nt.Short}
			c, err := simnet.Connect(port, p, nil)
			if err != nil {
				return nil, err
			}
			ks.conns = append(ks.conns, c)
			ks.ever = append(ks.ever, c)
			return c, nil
		},
	}
	maxB := s.MaxBytes
	if maxB == 0 {
		maxB = 1 << 20
	}
	var errlog, infolog kafka.Logger
	if r.trace {
		errlog = kafka.LoggerFunc(func(f string, a ...any) {
			r.h.Notes = append(r.h.Notes, fmt.Sprintf("%.6fs %s kafka-go error: ", float64(now()-1e15)/1e9, who)+fmt.Sprintf(f, a...))
		})
		infolog = kafka.LoggerFunc(func(f string, a ...any) {
			r.h.Notes = append(r.h.Notes, fmt.Sprintf("%.6fs %s kafka-go: ", float64(now()-1e15)/1e9, who)+fmt.Sprintf(f, a...))
		})
	}
	rd := kafka.NewReader(kafka.ReaderConfig{
		Logger: infolog, ErrorLogger: errlog,
		Brokers: []string{fmt.Sprintf("localhost:%d", ks.st.r.sc.port0()+ks.srv)}, GroupID: ks.g, GroupTopics: ks.topics, Dialer: dialer,
		MinBytes: 1, MaxBytes: maxB, MaxWait: time.Duration(s.MaxWait), QueueCapacity: s.Queue, CommitInterval: time.Duration(s.Interval),
		StartOffset: kafka.FirstOffset,
	})
	last := map[tp]int64{} // last delivered offset + 1
	// A generation that begins after a disturbance may have read the committed
	// offset before the latest commits, which the reader makes from messages it
	// had buffered: it starts no earlier than where the session did.
	floor := map[tp]int64{}
	for k, x := range ks.marks {
		floor[k] = x.definite
	}
	disturbed := func() bool { return ks.upset || r.lifeTouched(ks.srv, seq0) }
	mine := map[tp]int64{} // passed to kafka-go for committing in this session
	var uncommitted []kafka.Message
	var stuck int64
	var lost int64 // messages ReadMessage took and did not return, because committing them failed
	commit := func() {
		if len(uncommitted) == 0 {
			return
		}
		for _, m := range uncommitted {
			k := tp{m.Topic, int32(m.Partition)}
			x := ks.mark(k)
			x.possible = max(x.possible, m.Offset+1)
			mine[k] = max(mine[k], m.Offset+1)
		}
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		err := rd.CommitMessages(ctx, uncommitted...)
		cancel()
		if err == nil && s.Interval == 0 {
			for _, m := range uncommitted {
				x := ks.mark(tp{m.Topic, int32(m.Partition)})
				x.definite = max(x.definite, m.Offset+1)
			}
		}
		uncommitted = nil
	}
	n := 0
	cutAt, cuts := s.CutAfter, 0
	for (s.Max == 0 || n < s.Max) && !r.abort {
		pending := ks.pending(last)
		if !pending && r.postersDone() {
			break
		}
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
		var m kafka.Message
		var err error
		if s.Explicit {
			m, err = rd.FetchMessage(ctx)
		} else {
			m, err = rd.ReadMessage(ctx)
		}
		cancel()
		if err != nil {
			if errors.Is(err, io.EOF) {
				break
			}
			if !s.Explicit && strings.HasPrefix(err.Error(), "committing") {
				ks.upset = true // a message may have been committed without being delivered
				lost++
				for k := range ks.allTps() {
					x := ks.mark(k)
					x.possible = max(x.possible+1, last[k]+lost)
				}
			}
			up := r.servingNow(ks.srv)
			if pending && up {
				if stuck == 0 {
					stuck = now()
				} else if d := now() - stuck; d > 90*sec+3*r.taken() {
					r.fail("C15", "stuck", "%s: group %s has received nothing for %d s although records are waiting (%v)", who, ks.g, d/sec, err)
					ks.broken = true
					break
				}
			} else {
				stuck = 0
				if !up && r.postersDone() {
					break // nobody will start it again
				}
			}
			continue
		}
		stuck = 0
		n++
		r.marks.KgoMsgs++
		k := tp{m.Topic, int32(m.Partition)}
		if r.trace {
			r.h.Notes = append(r.h.Notes, fmt.Sprintf("%.6fs %s received %s/%d offset %d", float64(now()-1e15)/1e9, who, k.t, k.p, m.Offset))
		}
		x := ks.mark(k)
		ks.reads = append(ks.reads, kread{m.Offset, append([]byte{}, m.Key...), append([]byte{}, m.Value...), m.Time.UnixMilli(), k})
		if l, ok := last[k]; ok {
			if m.Offset != l && !(disturbed() && m.Offset >= floor[k] && m.Offset <= max(x.possible, l+lost)) {
				r.fail("C15", "sequence", "%s: group %s, %s/%d: offset %d is delivered after offset %d (committed: between %d and %d)", who, ks.g, k.t, k.p, m.Offset, l-1, x.definite, x.possible)
				ks.broken = true
			}
		} else {
			if m.Offset < x.definite || m.Offset > x.possible {
				r.fail("C15", "resume", "%s: group %s, %s/%d: the session starts at offset %d, but the committed offset is between %d and %d", who, ks.g, k.t, k.p, m.Offset, x.definite, x.possible)
				ks.broken = true
			}
			if x.possible > 0 {
				r.marks.KgoResume++
			}
		}
		last[k] = m.Offset + 1
		if ks.broken {
			break
		}
		if s.Explicit {
			uncommitted = append(uncommitted, m)
			if s.CommitEach > 0 && len(uncommitted) >= s.CommitEach {
				commit()
			}
		} else {
			x.possible = max(x.possible, m.Offset+1)
			mine[k] = max(mine[k], m.Offset+1)
			if s.Interval == 0 {
				x.definite = max(x.definite, m.Offset+1)
			}
		}
		simnet.Sleep(s.Think)
		if cutAt > 0 && n >= cutAt {
			cutAt += s.CutAfter * 3
			if cuts++; cuts >= 8 {
				cutAt = 0 // faults stop, or a reader that never gets far enough to commit starts over for ever
			}
			ks.cut()
		}
	}
	if s.Explicit && !s.Leave {
		commit()
	}
	t0, s0 := now(), r.taken()
	rd.Close()
	if d := now() - t0 - 2*(r.taken()-s0); d > 60*sec && !disturbed() {
		r.fail("C15", "slow-close", "%s: closing the reader took %d s", who, d/sec)
	}
	if !disturbed() && !ks.broken {
		for k, n := range mine {
			x := ks.mark(k)
			x.definite = max(x.definite, n)
		}
	}
}

// lingering: the server has not let go of every connection that is over.
func (ks *kgoState) lingering() bool {
	for _, c := range ks.ever {
		if !c.PeerClosed() && (c.Accepted() || ks.st.r.servingNow(ks.srv)) {
			return true
		}
	}
	return false
}

func (ks *kgoState) allTps() map[tp]bool {
	out := map[tp]bool{}
	for _, p := range ks.st.r.h.Posts {
		if p.Srv == ks.srv {
			out[tp{p.T, p.P}] = true
		}
	}
	return out
}

// pending: a completed post has not been delivered in this session.
func (ks *kgoState) pending(last map[tp]int64) bool {
	cnt := map[tp]int64{}
	for _, p := range ks.st.r.h.Posts {
		if p.Srv == ks.srv && p.Ret != 0 {
			cnt[tp{p.T, p.P}]++
		}
	}
	for k, n := range cnt {
		in := false
		for _, t := range ks.topics {
			in = in || t == k.t
		}
		if in && n > max(last[k], ks.mark(k).possible) {
			return true
		}
	}
	return false
}

// postersDone: every actor except the kafka-go readers has finished.
func (r *run) postersDone() bool {
	for _, st := range r.states {
		if st.a.Kgo == nil && !st.done && !st.inWX {
			return false
		}
	}
	return true
}

// kgoTime is what kafka-go makes of a timestamp.
func kgoTime(ms int64) int64 {
	if ms <= 0 {
		return time.Time{}.UnixMilli()
	}
	return ms
}

// checkKgo compares what was delivered with the logs, and the committed offsets
// with what may have been committed.
func (j *judge) checkKgo() {
	r := j.r
	for _, ks := range r.kgos {
		bad := 0
		for i := range ks.reads {
			d := &ks.reads[i]
			l := j.log(ks.srv, d.k.t, d.k.p)
			if !l.have || bad > 3 {
				continue
			}
			if d.off >= int64(len(l.final)) {
				r.fail("C15", "phantom", "group %s received %s/%d offset %d, the log has %d records", ks.g, d.k.t, d.k.p, d.off, len(l.final))
				bad++
				continue
			}
			f := &l.final[d.off]
			if !bytes.Equal(f.Key, d.key) || !bytes.Equal(f.Val, d.val) || kgoTime(f.TS) != d.ms {
				r.fail("C15", "content", "group %s received %s/%d offset %d with key=%s value=%s ts=%d, the log has key=%s value=%s ts=%d", ks.g, d.k.t, d.k.p, d.off, brief(d.key), brief(d.val), d.ms, brief(f.Key), brief(f.Val), f.TS)
				bad++
			}
		}
		if len(r.final) <= ks.srv || !r.final[ks.srv].ok || ks.broken {
			continue
		}
		for _, q := range r.final[ks.srv].conn.Reqs {
			if q.Op.Api != "ofetch" || q.Op.G != ks.g || q.Rep == nil {
				continue
			}
			for _, p := range q.Rep.Parts {
				m := ks.marks[tp{p.T, p.P}]
				if m == nil {
					m = &kmark{}
				}
				if p.Off < m.definite || p.Off > m.possible {
					r.fail("C15", "committed", "group %s, %s/%d: the committed offset is %d at the end; it must be between %d and %d", ks.g, p.T, p.P, p.Off, m.definite, m.possible)
				}
			}
		}
	}
}
