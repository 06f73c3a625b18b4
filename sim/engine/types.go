// Package engine runs scenarios against the system under test inside the
// simulator, records what happened and judges it.
package engine

import (
	"kmverif/simnet"
)

// Ent is one entry of a multi-entry request.
type Ent struct {
	T     string `json:"t"`
	P     int32  `json:"p"`
	Off   int64  `json:"o,omitempty"` // fetch or commit offset; list-offsets: timestamp
	Lim   int32  `json:"l,omitempty"` // fetch: byte limit; commit: metadata length (-1 null)
	Split bool   `json:"s,omitempty"` // start a new topic group even if the topic is the same
}

// Trig is a fault placed at a byte position relative to the request it is
// attached to.
type Trig struct {
	Dir  int   `json:"dir"`
	Rel  int64 `json:"rel"`
	Kind int   `json:"kind"`
	D    int64 `json:"d,omitempty"`
}

// Net are the conditions of a connection.
type Net struct {
	LatMin int64 `json:"lmin,omitempty"`
	LatMax int64 `json:"lmax,omitempty"`
	SegMax int   `json:"seg,omitempty"`
	WinC2S int   `json:"wc,omitempty"`
	WinS2C int   `json:"ws,omitempty"`
	Short  int   `json:"short,omitempty"`
}

// Op is one step of an actor.
type Op struct {
	K   string `json:"k"`
	Srv int    `json:"srv,omitempty"`
	D   int64  `json:"d,omitempty"` // duration, ns

	T    string   `json:"t,omitempty"`
	P    int32    `json:"p,omitempty"`
	Ts   []string `json:"ts,omitempty"`
	G    string   `json:"g,omitempty"`
	N    int64    `json:"n,omitempty"`  // offset, count
	KL   int      `json:"kl,omitempty"` // key length; -1: nil
	VL   int      `json:"vl,omitempty"`
	TS   int64    `json:"tm,omitempty"`  // ms timestamp of an extended post; 0: simple post
	Hdr  int      `json:"hdr,omitempty"` // headers of an extended post
	Mut  bool     `json:"mut,omitempty"` // overwrite the buffers after the post
	Ns   int64    `json:"nsub,omitempty"`
	Twin bool     `json:"twin,omitempty"` // all N posts have the same content and timestamp

	// requests
	Api   string `json:"api,omitempty"`
	Ent   []Ent  `json:"e,omitempty"`
	Wait  int64  `json:"w,omitempty"` // fetch: max wait, ms
	Min   int    `json:"min,omitempty"`
	Cid   int    `json:"cid,omitempty"`  // client id length; -1: null
	Null  bool   `json:"null,omitempty"` // null array
	Pad   int    `json:"pad,omitempty"`
	Pipe  bool   `json:"pipe,omitempty"`  // do not wait for the reply
	Cut   int    `json:"cut,omitempty"`   // send only part of the frame: 1 + cut-1 % (len-1) bytes
	Split []int  `json:"split,omitempty"` // send in pieces cut at these positions (modulo length)
	Gap   int64  `json:"gap,omitempty"`   // delay between pieces
	Trig  []Trig `json:"trig,omitempty"`
	Next  bool   `json:"next,omitempty"`  // fetch: continue after the last record seen (paging)
	Var   uint64 `json:"var,omitempty"`   // draws the fields that must not matter; 0: usual values
	Fill  int    `json:"fill,omitempty"`  // make the whole frame this long, by the client id
	Times int    `json:"times,omitempty"` // send that often, awaiting each reply
	Net   *Net   `json:"net,omitempty"`
	Once  bool   `json:"once,omitempty"` // dial: one attempt only
}

// Actor is one goroutine of the workload.
type Actor struct {
	Name  string `json:"name"`
	Delay int64  `json:"delay,omitempty"`
	Ops   []*Op  `json:"ops"`
	Auto  bool   `json:"auto,omitempty"` // dial again when the connection is gone
	Kgo   *Kgo   `json:"kgo,omitempty"`  // a real kafka-go reader instead of ops
	Ids   int    `json:"ids,omitempty"`  // how correlation ids go on, see nextCorr
}

// Kgo configures a kafka-go consumer group reader session list.
type Kgo struct {
	Topics   []string     `json:"topics"`
	Group    string       `json:"group"`
	Sessions []KgoSession `json:"sessions"`
	Net      *Net         `json:"net,omitempty"`
	Srv      int          `json:"srv,omitempty"`
}

type KgoSession struct {
	Max        int   `json:"max"`             // messages to read before closing; 0: until caught up
	Explicit   bool  `json:"explicit"`        // FetchMessage + CommitMessages instead of ReadMessage
	CommitEach int   `json:"each,omitempty"`  // explicit: commit after this many
	Interval   int64 `json:"iv,omitempty"`    // commit interval ns (0: synchronous)
	MaxBytes   int   `json:"maxb,omitempty"`  //
	MaxWait    int64 `json:"maxw,omitempty"`  // ns
	Queue      int   `json:"queue,omitempty"` //
	Think      int64 `json:"think,omitempty"` // between messages
	CutAfter   int   `json:"cut,omitempty"`   // cut all connections after this many messages
	Leave      bool  `json:"leave,omitempty"` // explicit: leave the last messages uncommitted
	Pause      int64 `json:"pause,omitempty"` // before the session
	SetBack    *Ent  `json:"setback,omitempty"`
}

// Sched are the scheduler's parameters for one run.
type Sched struct {
	Policy   int    `json:"policy"`
	Yield    uint32 `json:"yield,omitempty"`
	Stall    uint32 `json:"stall,omitempty"`
	StallMax int64  `json:"stallmax,omitempty"`
	Depth    int    `json:"depth,omitempty"`
	Steps    int64  `json:"steps,omitempty"`
	Cost     int64  `json:"cost,omitempty"`

	YS []int64 `json:"ys,omitempty"`
	YD []int64 `json:"yd,omitempty"`
	PN []int64 `json:"pn,omitempty"`
	PI []int32 `json:"pi,omitempty"`
}

// Scenario is everything that determines one run.
type Scenario struct {
	Profile string   `json:"profile"`
	Seed    uint64   `json:"seed"`
	Sched   Sched    `json:"sched"`
	Servers int      `json:"servers"`
	LateNew bool     `json:"latenew,omitempty"` // servers are created by "new" operations
	NoStart bool     `json:"nostart,omitempty"` // not started initially
	NoAudit bool     `json:"noaudit,omitempty"`
	Init    []*Op    `json:"init,omitempty"`
	Actors  []*Actor `json:"actors"`
	MaxT    int64    `json:"maxt,omitempty"` // bound on virtual time, ns
	Drain   bool     `json:"drain,omitempty"`
	Port    int      `json:"port,omitempty"` // of the first server; 0: 19092
}

// port0 is the port of the first server; the others follow.
func (sc *Scenario) port0() int {
	if sc.Port != 0 {
		return sc.Port
	}
	return 19092
}

// --- history ---------------------------------------------------------------

// Span of a call: sequence numbers, virtual time, and the scheduler's stall and
// step-cost totals at both ends (time the scheduler itself took away).
type Span struct {
	Inv, Ret   int64
	InvT, RetT int64
	InvS, RetS int64
	Who        string
	OpI        int
}

type Post struct {
	Span
	Srv      int
	T        string
	P        int32
	ID       uint64
	CID      uint64 // what the content is made from: the ID, except for twins
	Key, Val []byte
	TS       int64 // ms; noTS for a simple post
	WLo, WHi int64 // simple post: wall clock ms when called and when done
	Jump     bool  // the wall clock was changed meanwhile
	order    int
}

type Create struct {
	Span
	Srv int
	Ts  []string
	P   int32
}

type SetOff struct {
	Span
	Srv int
	T   string
	P   int32
	G   string
	Off int64
}

type Life struct {
	Span
	Srv   int
	K     string
	Panic string
}

type Dial struct {
	Span
	Srv int
	OK  bool
	Err string
	C   *Conn
}

type Conn struct {
	Srv      int
	Who      string
	C        *simnet.TCPConn
	Net      Net
	Dial     Span
	Reqs     []*Req
	nrep     int
	corr     int32
	sent     int64 // bytes written by the client
	got      int64 // bytes read by the client, up to the last whole frame
	Left     int   // bytes of an incomplete reply at the end
	Closed   bool
	EndErr   string
	EndT     int64
	EndSeq   int64
	Paused   bool // the client stopped reading at some time
	PauseT   int64
	ResumeT  int64
	paused   bool
	MyClose  bool // the client closed or broke the connection itself
	CloseT   int64
	CloseSeq int64
	Extra    int
	part     []byte // rest of a partly sent frame
	partReq  *Req
	rw, aw   *waitBox
	done     bool
	buf      []byte
	Victim   bool
}

type Req struct {
	Span               // Inv: first byte; Ret: whole reply received
	Last         int64 // sequence number just before the last piece was written (0: never)
	LastT        int64
	Conn         *Conn
	Op           *Op
	Idx          int
	Corr         int32
	End          int64 // position of the frame's end in the stream
	Start        int64
	RStart, REnd int64
	Rep          *Reply
	RCorr        int32
	Body         int
	Gave         bool // the client gave up waiting
	GaveT        int64
	Fail         string
	Ents         []Ent // entries as sent (paging resolved)
}

type History struct {
	Posts   []*Post
	Creates []*Create
	Sets    []*SetOff
	Lifes   []*Life
	Dials   []*Dial
	Conns   []*Conn
	Jumps   []int64
	Notes   []string
}

type Violation struct {
	Prop string `json:"prop"`
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
}
