package engine

import (
	"fmt"
	"strings"

	"kmverif/simnet"
)

// Scenario generation. A scenario is a pure function of (profile, seed). Every
// run draws its own mix (swarm testing): which operations occur at all, how
// fast things happen, which network conditions and scheduling policy rule.

type gen struct {
	s  uint64
	sc *Scenario

	tps    []tp         // the partitions that are or will be created
	ghosts []tp         // never created
	groups []string     // consumer groups
	sizes  map[tp][]int // record sizes posted by Init, in order
	tsAt   map[tp]int64 // last timestamp given out (profiles with ordered time)
	net    func() *Net  // draws connection conditions
	late   map[tp]bool  // created only during the run
	names  int
	maxRec int

	heavy   bool // replies are expensive
	longLog bool // very long logs and very large replies may occur
}

func (g *gen) u() uint64 {
	g.s += 0x9e3779b97f4a7c15
	z := g.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (g *gen) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int((g.u() >> 16) % uint64(n))
}

func (g *gen) in(lo, hi int) int { return lo + g.n(hi-lo+1) }
func (g *gen) p(pct int) bool    { return g.n(100) < pct }

func pick[T any](g *gen, xs ...T) T { return xs[g.n(len(xs))] }

// dur is log-uniform between lo and hi (ns); sometimes 0.
func (g *gen) dur(lo, hi int64) int64 {
	if g.p(15) {
		return 0
	}
	m := lo
	for m*4 <= hi && g.p(60) {
		m *= 4
	}
	return min(hi, m+int64(g.u()>>1)%(m*3+1))
}

// Profiles lists what can be generated.
var Profiles = []string{"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C17", "C18", "C19", "C19cold", "C21", "mix"}

// Generate makes the scenario of a profile and seed.
func Generate(profile string, seed uint64) *Scenario {
	h := seed
	for _, c := range profile {
		h = mix64(h ^ uint64(c))
	}
	g := &gen{s: h, sizes: map[tp][]int{}, tsAt: map[tp]int64{}, late: map[tp]bool{}}
	g.sc = &Scenario{Profile: profile, Seed: h >> 12, Servers: 1}
	g.sched()
	g.universe()
	g.net = g.anyNet()
	if profile == "race" {
		for profile == "race" {
			profile = Profiles[g.n(len(Profiles))]
			if g.p(40) {
				profile = "mix"
			}
		}
	}
	switch profile {
	case "C01":
		g.c01()
	case "C02":
		g.c02()
	case "C03":
		g.c03()
	case "C04":
		g.c04()
	case "C05":
		g.c05()
	case "C06":
		g.c06()
	case "C07":
		g.c07()
	case "C08":
		g.c08()
	case "C09":
		g.c09()
	case "C10":
		g.c10()
	case "C11":
		g.c11()
	case "C12":
		g.c12()
	case "C13":
		g.c13()
	case "C14":
		g.c14()
	case "C15":
		g.c15()
	case "C17":
		g.c17()
	case "C18":
		g.c18()
	case "C19":
		g.c19(false)
	case "C19cold":
		g.c19(true)
	case "C21":
		g.c21()
	case "mix":
		g.mix()
	default:
		panic("unknown profile " + profile)
	}
	if g.sc.Servers == 1 && !g.sc.NoStart && !g.heavy && profile != "C15" && len(g.sc.Actors) < 20 && g.p(5) {
		g.companion(profile)
	}
	if g.p(30) {
		g.sc.Port = pick(g, 1025, 9092, 32766, 32767, 40000, 49999, 65533)
	}
	g.spice()
	for _, a := range g.sc.Actors {
		if a.Kgo == nil && g.p(8) {
			a.Ids = g.in(1, 6)
		}
	}
	return g.sc
}

// companion adds a second server with a workload of its own.
func (g *gen) companion(profile string) {
	n0, i0 := len(g.sc.Actors), len(g.sc.Init)
	g.sc.Servers = 2
	g.sizes, g.tsAt, g.late = map[tp][]int{}, map[tp]int64{}, map[tp]bool{}
	switch {
	case g.p(50):
		g.mix()
	case profile == "C07":
		g.c07()
	case profile == "C04" || profile == "C18":
		g.c04()
	case profile == "C11" || profile == "C10" || profile == "C12":
		g.fetcher(g.in(1, 4), 2*ms, 200)
		g.poster(g.in(1, 4), 2*ms)
		g.owner(g.in(1, 3), pick(g, 100e3, 2*ms, 100*ms))
	default:
		g.c14()
	}
	for _, a := range g.sc.Actors[n0:] {
		for _, op := range a.Ops {
			op.Srv = 1
		}
		if a.Kgo != nil {
			a.Kgo.Srv = 1
		}
	}
	for _, op := range g.sc.Init[i0:] {
		op.Srv = 1
	}
}

// spice adds to any scenario what may turn up in any of them.
func (g *gen) spice() {
	sc := g.sc
	if sc.MaxT == 0 {
		sc.MaxT = 900 * sec
	}
	switch sc.Profile {
	case "C04", "C10", "C11", "C13", "C18":
		var fin []*Op
		for _, a := range sc.Actors {
			for _, op := range a.Ops {
				if op.K == "finish" {
					fin = append(fin, op)
				}
			}
		}
		if len(fin) > 0 && g.p(15) {
			fin[g.n(len(fin))].K = "cancel"
		}
	}
	grid := 6
	switch sc.Profile {
	case "C04", "C07", "C10", "C11", "C12", "C13":
		grid = 20
	}
	if g.p(grid) { // everything happens at few moments
		unit := pick(g, 1*ms, 20*ms, 100*ms)
		round := func(d int64) int64 {
			if d < unit/4 {
				return 0
			}
			return (d + unit - 1) / unit * unit
		}
		still := g.p(70)
		for _, a := range sc.Actors {
			a.Delay = round(a.Delay)
			for _, op := range a.Ops {
				switch {
				case op.K == "sleep":
					op.D = round(op.D)
				case op.K == "dial" && still:
					op.Net = nil
				}
			}
		}
	}
	if !sc.LateNew && !sc.NoStart && sc.Servers == 1 && sc.Profile != "C15" && len(g.tps) > 0 && g.p(grid+grid/2) {
		g.duel()
	}
	if g.p(2 * grid) { // things happen just when a server does something else
		some := pick(g, 30, 100)
		kinds := pick(g, 1, 2, 4)
		for _, a := range sc.Actors {
			if a.Kgo != nil || strings.HasPrefix(a.Name, "clock") {
				continue
			}
			for i := 0; i < len(a.Ops); i++ {
				switch op := a.Ops[i]; op.K {
				case "dial", "req":
					if !g.p(some / 5) {
						continue
					}
				case "post", "create", "setoff", "finish", "stop", "restart", "start", "close", "rst", "half", "fault":
					if !g.p(some) {
						continue
					}
				default:
					continue
				}
				near := &Op{K: "near", N: int64(g.n(kinds)), D: pick(g, 5*ms, 100*ms, 100*ms, 600*ms), Srv: a.Ops[i].Srv}
				if g.p(70) {
					near.VL = 1 + g.n(1<<g.in(1, 8))
				}
				a.Ops = append(a.Ops[:i:i], append([]*Op{near}, a.Ops[i:]...)...)
				i++
			}
		}
	}
	wide := g.p(40)
	odd := pick(g, 0, 0, 20, 100)
	type at struct {
		a *Actor
		i int
	}
	var reqs []at
	for _, a := range sc.Actors {
		if a.Kgo != nil {
			continue
		}
		for i, op := range a.Ops {
			switch op.K {
			case "dial":
				if op.N == 0 && wide {
					op.N = int64(int32(pick(g, int64(g.n(1000)), 255, 65530, 1<<24, 1<<31-20, -5, -1<<31, int64(g.u()>>32))))
				}
			case "req":
				if g.p(odd) {
					op.Var = g.u() | 1
				}
				if op.Cut == 0 && len(op.Split) == 0 && g.p(2) {
					op.Fill = pick(g, 4096, 8192, 8191, 8193, 4095, 4097, 2048, 12288, 16384, 24576, 32768)
				}
				reqs = append(reqs, at{a, i})
			}
		}
	}
	if g.heavy { // long replies need a window that moves them
		for _, a := range sc.Actors {
			for _, op := range a.Ops {
				if op.K == "dial" && op.Net != nil && op.Net.WinS2C > 0 && op.Net.WinS2C < 4096 {
					op.Net.WinS2C = 4096
				}
				if op.Api == "fetch" {
					sum, recs := 0, 0
					for i, e := range op.Ent {
						all := 0
						recs += len(g.sizes[tp{e.T, e.P}])
						for _, n := range g.sizes[tp{e.T, e.P}] {
							all += n
						}
						if sum += min(all, max(0, int(e.Lim))); (sum > 24<<20 || recs > 10000) && i > 0 {
							op.Ent = op.Ent[:i]
							break
						}
					}
				}
			}
		}
	}
	if len(reqs) == 0 || sc.LateNew {
		return
	}
	cheap := func(x at) bool {
		op := x.a.Ops[x.i]
		if op.Api == "fetch" && (op.Wait > 0 || g.heavy) || op.Cut > 0 || len(op.Split) > 0 || len(op.Trig) > 0 || len(op.Ent) > 6 || op.Cid > 100 || op.Pipe {
			return false
		}
		for _, y := range x.a.Ops {
			if y.K == "dial" && y.Net != nil {
				return false
			}
		}
		return true
	}
	rare := 150
	if sc.Profile == "C05" {
		rare = 70
	}
	switch g.n(rare) {
	case 0: // a connection that carries very many requests
		for try := 0; try < 5; try++ {
			if x := reqs[g.n(len(reqs))]; cheap(x) {
				x.a.Ops[x.i].Times = pick(g, 70, 150, 300, 1100, 1100, 2100)
				if len(g.tps) > 50 {
					x.a.Ops[x.i].Times = 150
				}
				return
			}
		}
		if sc.Servers == 1 && !sc.NoStart {
			a := g.actor("chatterer")
			a.Auto = true
			op := g.request(0, 5)
			op.Times = pick(g, 150, 300, 1100, 2100)
			if len(g.tps) > 50 || op.Api == "fetch" && g.heavy {
				op.Times = 150
			}
			a.add(&Op{K: "dial"}, op, g.leave())
		}
	case 4: // very many connections, most of them gone soon
		if sc.Servers > 1 || sc.NoStart || g.heavy {
			return
		}
		for i := g.in(1, 3); i > 0; i-- {
			a := g.actor("comer")
			a.Auto = true
			pace := pick(g, 1000, 100e3, 2*ms)
			for n := pick(g, 10, 20, 40, 120); n > 0; n-- {
				a.add(&Op{K: "dial"})
				if g.p(50) {
					op := g.request(0, 5)
					if g.p(50) {
						op.Cut = g.in(1, 60)
					}
					op.Pipe = g.p(50)
					a.add(op)
				}
				if g.p(80) {
					a.add(g.leave())
				}
				if g.p(50) {
					g.between(a, pace)
				}
			}
			a.add(&Op{K: "dial"}, g.request(20, 5))
		}
	case 3: // a request with many entries
		for try := 0; try < 10; try++ {
			x := reqs[g.n(len(reqs))]
			op := x.a.Ops[x.i]
			if len(op.Ent) == 0 || op.Next || g.heavy || op.Wait > 30000 || sc.Profile == "C07" && op.Api == "commit" {
				continue
			}
			e0 := op.Ent[g.n(len(op.Ent))]
			var more []Ent
			for n := pick(g, 9, 17, 33, 70, 130); n > 0; n-- {
				e := e0
				switch g.n(3) {
				case 0:
					k := g.tp()
					e.T, e.P = k.t, k.p
				case 1:
					e.P = int32(200 + n)
				}
				more = append(more, e)
			}
			at := g.n(len(op.Ent) + 1)
			op.Ent = append(op.Ent[:at:at], append(more, op.Ent[at:]...)...)
			break
		}
	case 1: // a connection that is idle for very long
		if len(sc.Actors) <= 12 {
			x := reqs[g.n(len(reqs))]
			d := pick(g, 35*sec, 70*sec, 200*sec, 700*sec, 3700*sec, 7500*sec)
			sc.MaxT += 2 * d
			x.a.Ops = append(x.a.Ops[:x.i:x.i], append([]*Op{{K: "sleep", D: d, Srv: x.a.Ops[x.i].Srv}}, x.a.Ops[x.i:]...)...)
		}
	case 2: // a fetch that may wait for very long
		for try := 0; try < 20; try++ {
			x := reqs[g.n(len(reqs))]
			if op := x.a.Ops[x.i]; op.Api == "fetch" && op.Wait > 0 && len(op.Ent) < 20 {
				op.Wait = pick[int64](g, 32800, 40000, 66000, 120000, 600000, 3700000)
				sc.MaxT += 2 * op.Wait * ms
				break
			}
		}
	}
}

// duel is a client that asks about a partition time and again, while something is
// done to that partition just when the server deals with the request.
func (g *gen) duel() {
	crossing := 20
	if g.sc.Profile == "C07" {
		crossing = 50
	}
	if g.p(crossing) {
		g.crossing()
		return
	}
	k := g.tp()
	a, b := g.actor("asker"), g.actor("doer")
	a.Auto = true
	a.add(&Op{K: "dial"})
	what := g.n(6)
	fresh := g.p(50)
	gr := pick(g, g.groups...)
	for i := g.in(3, 10); i > 0; i-- {
		e := []Ent{{T: k.t, P: k.p, Lim: 1 << 20}}
		op := &Op{K: "req", Ent: e}
		switch what {
		case 0, 1, 2:
			op.Api, op.Next, op.Min, op.Wait = "fetch", true, 1, int64(pick(g, 300, 600, 1500))
			if g.heavy {
				e[0].Lim = 3000
			}
			if i == 1 || g.p(20) {
				op.Wait = 100
			}
		case 3:
			op.Api, e[0].Off = "list", pick[int64](g, -1, -1, -2)
		case 4:
			op.Api, op.G = pick(g, "meta", "sync"), gr
			if op.Null = op.Api == "meta" && (fresh || g.p(50)); op.Null {
				op.Ent = nil
			}
		case 5:
			op.Api, op.G = pick(g, "commit", "ofetch"), gr
			e[0].Off, e[0].Lim = int64(g.n(30)), int32(pick(g, -1, 0, 5))
		}
		a.add(op)
		if g.p(30) {
			a.add(&Op{K: "sleep", D: g.dur(1000, 20*ms)})
		}
		b.add(&Op{K: "near", N: int64(pick(g, 0, 0, 0, 0, 1)), D: pick(g, 600*ms, 2*sec), VL: g.n(1 << g.in(1, 8))})
		switch {
		case what < 4 || g.p(20):
			if g.p(15) {
				b.add(g.create())
			}
			x := g.post(k)
			x.VL = min(x.VL, 500)
			b.add(x)
		case what == 4:
			x := g.create()
			if g.p(80) { // something new each time
				x = &Op{K: "create", Ts: []string{k.t}, P: int32(300 + i)}
				if fresh {
					x.Ts[0] = fmt.Sprintf("fresh-%d", i)
				}
			}
			b.add(x)
		default:
			b.add(&Op{K: "setoff", T: k.t, P: k.p, G: gr, N: int64(g.n(30))})
		}
	}
}

// crossing is two or three clients that send requests about the same partitions at the same
// moment, each in an order of its own.
func (g *gen) crossing() {
	ents := []Ent{}
	seen := map[tp]bool{}
	for try := g.in(4, 12); try > 0; try-- {
		if k := g.tp(); !seen[k] {
			seen[k] = true
			ents = append(ents, Ent{T: k.t, P: k.p})
		}
	}
	for i := 0; len(ents) < 2; i++ {
		e := Ent{T: ents[0].T, P: int32(400 + i)}
		g.sc.Init = append(g.sc.Init, &Op{K: "create", Ts: []string{e.T}, P: e.P})
		ents = append(ents, e)
	}
	apis := []string{"commit", "commit", "ofetch", "list", "fetch"}[:pick(g, 2, 3, 5)]
	groups := g.groups[:pick(g, 1, len(g.groups))]
	rounds, n := g.in(2, 12), g.in(2, 3)
	pause := pick[int64](g, 0, 0, 1*ms, 5*ms)
	for c := 0; c < n; c++ {
		a := g.actor("crosser")
		a.Auto, a.Delay = true, 0
		a.add(&Op{K: "dial"})
		for i := 0; i < rounds; i++ {
			op := &Op{K: "req", Api: pick(g, apis...), G: pick(g, groups...), Pipe: pause == 0 && g.p(30)}
			for _, x := range ents {
				x.Off, x.Lim = int64(g.n(30)), int32(pick(g, -1, 0, 5))
				switch op.Api {
				case "list":
					x.Off = pick[int64](g, -1, -2)
				case "fetch":
					x.Lim = 1 << 20
				}
				op.Ent = append(op.Ent, x)
			}
			for x := len(op.Ent) - 1; x > 0; x-- {
				y := g.n(x + 1)
				op.Ent[x], op.Ent[y] = op.Ent[y], op.Ent[x]
			}
			if pause > 0 {
				a.add(&Op{K: "sleep", D: pause})
			}
			a.add(op)
		}
		a.add(&Op{K: "recvall"})
	}
}

// Warmup is a fixed scenario that initialises everything that is initialised
// lazily once per process.
func Warmup() *Scenario {
	e := []Ent{{T: "t", Lim: 3000}}
	a := &Actor{Name: "w", Auto: true}
	a.Ops = append(a.Ops, &Op{K: "dial"})
	for _, x := range []string{"vers", "meta", "list", "fetch", "commit", "ofetch", "coord", "join", "sync", "beat", "leave"} {
		a.Ops = append(a.Ops, &Op{K: "req", Api: x, G: "g", Ent: e, Wait: 20})
	}
	b := &Actor{Name: "k", Kgo: &Kgo{Topics: []string{"t"}, Group: "kg", Sessions: []KgoSession{{}, {Explicit: true, CommitEach: 1}}}}
	return &Scenario{Profile: "warmup", Seed: 1, Servers: 1, Sched: Sched{Policy: 1},
		Init:   []*Op{{K: "post", T: "t", KL: 8, VL: 20}, {K: "post", T: "t", KL: 8, VL: 20, TS: 1, Hdr: 1}, {K: "create", Ts: []string{"u"}}},
		Actors: []*Actor{a, b, {Name: "c", Delay: 5 * sec, Ops: []*Op{{K: "setoff", T: "t", G: "g", N: 1}, {K: "restart"}, {K: "finish"}, {K: "restart"}}}}}
}

func (g *gen) sched() {
	s := &g.sc.Sched
	s.Policy = pick(g, 0, 0, 0, 0, 1, 1, 2, 3, 3)
	s.Yield = pick[uint32](g, 0, 60, 300, 1300, 1300, 6500, 16000, 30000)
	s.Depth = g.in(1, 6)
	s.Steps = pick[int64](g, 200, 1000, 4000)
	s.Cost = pick[int64](g, 1, 1, 20, 200)
	if g.p(30) {
		s.Stall = pick[uint32](g, 30, 300, 3000)
		s.StallMax = pick(g, 50e3, 2*ms, 20*ms, 120*ms)
		if s.Stall == 3000 {
			s.StallMax = min(s.StallMax, 2*ms)
		}
	}
}

func (g *gen) universe() {
	names := []string{"t", "t1", "tt", "orders", "a.b_c-D", "T", strings.Repeat("long-name.", 12), "", "tôpic/ü\x01"}
	if g.sc.Profile == "C15" {
		names = names[:7] // kafka-go wants proper names
	}
	twins := g.p(3) && g.sc.Profile != "C15"
	if twins { // long names that differ only at their ends
		base := strings.Repeat("long-name.", pick(g, 3, 6, 13, 25, 26, 102))
		names[6], names[7] = base+"a", base+"b"
		if g.p(30) {
			names[7] = base[:len(base)-1]
		}
	}
	parts := []int32{0, 1, 11, 2, 7, 1000003, 256, 65536, 1<<31 - 1}
	nt := g.in(1, 3)
	np := g.in(1, 3)
	a, b := g.n(len(names)), g.n(len(parts))
	if twins {
		nt, a = max(nt, 2), 6
	}
	for i := 0; i < nt; i++ {
		for k := 0; k < np; k++ {
			if i+k > 0 && g.p(25) {
				continue
			}
			g.tps = append(g.tps, tp{names[(a+i)%len(names)], parts[(b+k)%len(parts)]})
		}
	}
	if g.p(3) { // many partitions or many topics
		for i := g.in(5, 40); i > 0; i-- {
			if g.p(50) {
				g.tps = append(g.tps, tp{g.tps[0].t, int32(100 + i)})
			} else {
				g.tps = append(g.tps, tp{fmt.Sprintf("topic-%d", i), int32(i % 3)})
			}
		}
	}
	t0 := g.tps[0]
	g.ghosts = []tp{{"ghost", 0}, {"ghost", t0.p + 1}, {t0.t, 99}, {t0.t + "x", t0.p}, {names[(a+nt)%len(names)], 3}}
	all := []string{"g", "gt", "g1", "g2", "another-group", "", strings.Repeat("very-long-group/", 20), "gröup"}
	a = g.n(len(all))
	if g.p(3) { // long names that differ only at their ends
		base := strings.Repeat("very-long-group/", pick(g, 2, 4, 8, 16, 17, 64))
		all[6] = base + "a"
		all = append(all[:7], base+"b", "gröup")
		a = 6
	}
	for i := g.in(1, 3); i > 0; i-- {
		g.groups = append(g.groups, all[a%len(all)])
		a++
	}
	if g.p(6) { // names that somebody might take for the same
		t := g.sibling(t0.t)
		if g.p(70) {
			g.tps = append(g.tps, tp{t, t0.p})
		} else {
			g.ghosts[0].t, g.ghosts[1] = t, tp{t, t0.p}
		}
	}
	if g.p(6) {
		g.groups = append(g.groups, g.sibling(g.groups[0]))
	}
}

// sibling is another name that resembles a name.
func (g *gen) sibling(x string) string {
	ys := []string{strings.ToUpper(x), strings.ReplaceAll(strings.ReplaceAll(x, ".", "_"), "-", "_"), x + ".", x + "_", x + "-0"}
	if g.sc.Profile != "C15" {
		ys = append(ys, x+" ", " "+x, x+"\x00", x+"\n", strings.ReplaceAll(x, "ö", "o\u0308"), x+"\xff", x+"/", "/"+x, x+"*")
	}
	for i := g.n(len(ys)); ; i = (i + 1) % len(ys) {
		if y := ys[i]; y != x {
			return y
		}
	}
}

func (g *gen) tp() tp { return g.tps[g.n(len(g.tps))] }

// --- network ----------------------------------------------------------------

func (g *gen) anyNet() func() *Net {
	base := g.oneNet()
	switch g.n(3) {
	case 0:
		return func() *Net { return nil }
	case 1:
		return func() *Net { x := base; return &x }
	}
	return func() *Net { x := g.oneNet(); return &x }
}

func (g *gen) oneNet() Net {
	var n Net
	switch g.n(5) {
	case 0, 1:
	case 2:
		n.LatMax = 1 * ms
	case 3:
		n.LatMin, n.LatMax = 1*ms, 5*ms
	case 4:
		n.LatMax = pick(g, 20*ms, 60*ms, 200*ms)
	}
	n.SegMax = pick(g, 0, 0, 1, 3, 17, 100, 1000)
	n.WinC2S = pick(g, 0, 0, 5, 64, 1024)
	n.WinS2C = pick(g, 0, 0, 1024, 4096)
	if n.LatMax <= 1*ms && g.p(20) {
		n.WinS2C = pick(g, 7, 100)
	}
	if n.LatMax > 5*ms && n.WinC2S > 0 && n.WinC2S < 1024 {
		n.WinC2S = 1024
	}
	n.Short = pick(g, 0, 0, 64, 200)
	return n
}

// calm: a connection without latency to speak of, for timing-sensitive work
func (g *gen) calm() *Net {
	n := g.oneNet()
	n.LatMin, n.LatMax = 0, pick(g, 0, 0, 1*ms)
	if n.WinC2S > 0 {
		n.WinC2S = 1024
	}
	n.WinS2C = 0
	return &n
}

// --- building blocks --------------------------------------------------------

func (g *gen) actor(kind string) *Actor {
	g.names++
	a := &Actor{Name: fmt.Sprintf("%s%d", kind, g.names)}
	g.sc.Actors = append(g.sc.Actors, a)
	return a
}

func (a *Actor) add(ops ...*Op) { a.Ops = append(a.Ops, ops...) }

func (g *gen) length() int {
	switch g.n(10) {
	case 0, 1:
		return -1
	case 2:
		return 0
	case 3:
		return g.in(1, 7)
	case 4:
		return g.in(41, 400)
	}
	return g.in(8, 40)
}

func (g *gen) post(k tp) *Op {
	op := &Op{K: "post", T: k.t, P: k.p, KL: g.length(), VL: g.length(), Mut: g.p(50)}
	if op.KL < 8 && op.VL < 8 {
		op.TS = 1
	} else if g.p(50) {
		op.TS = 1
	}
	if g.maxRec > 0 && g.p(10) {
		op.VL = g.in(8, g.maxRec)
	}
	if g.maxRec > 0 && g.sc.Profile != "C15" && g.n(200) == 0 {
		op.KL = pick(g, 1000, 4100, 9000, 33000, 66000)
	}
	if op.TS == 1 && max(op.KL, op.VL) >= 8 && g.p(8) {
		op.TS = pick(g, farTimes...) - tsBase
	}
	if op.TS != 0 {
		if g.p(20) {
			op.Hdr = g.in(1, 3)
		}
		op.Ns = int64(pick(g, 0, 0, 999999, 500000))
	}
	return op
}

// farTimes are unusual record times (ms): the zero time, before 1678, around
// 1970, after 2262 and the last one that RFC 3339 can express.
var farTimes = []int64{-62135596800000, -11676096000000, -1, 0, 1, 10413792000000, 253402300799999}

func recSize(op *Op) int { return 34 + max(op.KL, 0) + max(op.VL, 0) }

// bulk posts some records that make large replies.
func (g *gen) bulk() {
	g.heavy = true
	k := g.tp()
	for i := g.in(1, 5); i > 0; i-- {
		op := g.post(k)
		op.VL = pick(g, 9000, 40000, 70000, 200000)
		g.sc.Init = append(g.sc.Init, op)
		g.sizes[k] = append(g.sizes[k], recSize(op))
	}
}

// initPosts fills logs before the run.
func (g *gen) initPosts(lo, hi int) {
	if g.p(1) && g.longLog {
		g.long()
	}
	if g.n(250) == 0 && g.longLog {
		g.huge()
	}
	for _, k := range g.tps {
		if g.late[k] {
			continue
		}
		for i := g.in(lo, hi); i > 0; i-- {
			op := g.post(k)
			if op.KL < 8 && op.VL < 8 && g.p(40) {
				// told apart by its place only: posted by one goroutine
				op.TS, op.Hdr, op.Ns = 0, 0, 0
			}
			g.sc.Init = append(g.sc.Init, op)
			g.sizes[k] = append(g.sizes[k], recSize(op))
			if g.p(4) {
				op.Twin = true
				op.N = int64(g.in(2, 3))
				for n := op.N; n > 1; n-- {
					g.sizes[k] = append(g.sizes[k], recSize(op))
				}
			}
		}
	}
}

// long makes a log of very many small records.
func (g *gen) long() {
	k := g.tp()
	if g.late[k] {
		return
	}
	g.heavy = true
	op := &Op{K: "post", T: k.t, P: k.p, KL: g.in(-1, 3), VL: g.in(8, 12), N: pick[int64](g, 130, 260, 520, 520, 1100, 1100, 2100, pick[int64](g, 520, 4200, 9000))}
	if g.p(50) {
		op.TS = 1
	}
	g.sc.Init = append(g.sc.Init, op)
	for n := op.N; n > 0; n-- {
		g.sizes[k] = append(g.sizes[k], recSize(op))
	}
}

// huge makes logs whose replies have several megabytes.
func (g *gen) huge() {
	g.net = func() *Net { return nil }
	g.heavy = true
	k := g.tp()
	if g.late[k] {
		return
	}
	for i := g.in(1, 5); i > 0; i-- {
		op := g.post(k)
		op.VL = pick(g, 300000, 1<<20-34, 1<<20, 1500000, 2200000)
		g.sc.Init = append(g.sc.Init, op)
		g.sizes[k] = append(g.sizes[k], recSize(op))
	}
}

func (g *gen) initCreate() {
	for _, k := range g.tps {
		if !g.late[k] {
			g.sc.Init = append(g.sc.Init, &Op{K: "create", Ts: []string{k.t}, P: k.p})
		}
	}
}

// between draws a pause between two steps of an actor
func (g *gen) between(a *Actor, hi int64) {
	if hi > 0 && g.p(60) {
		a.add(&Op{K: "sleep", D: g.dur(1000, hi)})
	}
}

func (g *gen) poster(n int, pace int64) *Actor {
	a := g.actor("poster")
	a.Delay = g.dur(1000, pace*4+1)
	for i := 0; i < n; i++ {
		if g.p(8) {
			a.add(g.create())
		} else {
			op := g.post(g.tp())
			if g.p(10) {
				op.N = int64(g.in(2, 6))
				op.Twin = g.p(40) && (op.KL >= 8 || op.VL >= 8)
			}
			a.add(op)
		}
		g.between(a, pace)
	}
	return a
}

func (g *gen) create() *Op {
	k := g.tp()
	ts := []string{k.t}
	for g.p(30) {
		ts = append(ts, g.tp().t)
	}
	for i := range ts { // only partitions that are known to exist at some time
		found := false
		for _, x := range g.tps {
			found = found || x.t == ts[i] && x.p == k.p
		}
		if !found {
			ts[i] = k.t
		}
	}
	return &Op{K: "create", Ts: ts, P: k.p}
}

func (g *gen) limit(k tp, off int64) int32 {
	s := g.sizes[k]
	switch g.n(6) {
	case 0:
		return pick[int32](g, 0, -1, 1, 33, 34, 35, 1<<26, 1<<31-1)
	case 1, 2, 3:
		if off >= 0 && int(off) < len(s) {
			sum, n := 0, g.in(1, len(s)-int(off))
			for i := 0; i < n; i++ {
				sum += s[int(off)+i]
			}
			return int32(sum + g.in(-1, 1))
		}
	case 4:
		return int32(g.in(30, 2000))
	}
	return pick[int32](g, 1<<20, 1<<20, 1<<24, 1<<31-1)
}

func (g *gen) offset(k tp) int64 {
	n := len(g.sizes[k])
	switch g.n(12) {
	case 0:
		return pick[int64](g, -1, -2, 1<<32, 1<<40, 1<<62, 1<<63-1, -(1 << 62), -(1 << 63))
	case 1, 2:
		return int64(n)
	case 3:
		return int64(n + g.in(1, 5))
	}
	return int64(g.in(0, n))
}

// ents draws the entries of a request.
func (g *gen) ents(lo, hi int, ghosts int) []Ent {
	var es []Ent
	n := g.in(lo, hi)
	for len(es) < n {
		k := g.tp()
		if g.p(ghosts) {
			k = g.ghosts[g.n(len(g.ghosts))]
		}
		es = append(es, Ent{T: k.t, P: k.p, Split: g.p(10)})
	}
	if ghosts > 0 && g.p(ghosts/2) { // all partitions of a topic that does not exist
		for i := g.in(2, 4); i > 0; i-- {
			es = append(es, Ent{T: pick(g, "ghost", "ghost2"), P: pick(g, int32(i), int32(i), g.tp().p)})
		}
		for i := range es {
			j := g.n(i + 1)
			es[i], es[j] = es[j], es[i]
		}
	}
	if g.p(60) { // group by topic, as real clients do
		for i := 1; i < len(es); i++ {
			for j := i; j > 0 && es[j].T < es[j-1].T; j-- {
				es[j], es[j-1] = es[j-1], es[j]
			}
		}
	}
	return es
}

func (g *gen) fetch(es []Ent, wait int64) *Op {
	op := &Op{K: "req", Api: "fetch", Ent: es, Wait: wait, Min: pick(g, 1, 1, 0, 100000), Cid: g.cid()}
	for i := range op.Ent {
		e := &op.Ent[i]
		e.Off = g.offset(tp{e.T, e.P})
		e.Lim = g.limit(tp{e.T, e.P}, e.Off)
	}
	return op
}

func (g *gen) cid() int { return pick(g, -1, 0, 3, 3, 12) }

func (g *gen) wait(hi int64) int64 {
	w := pick[int64](g, 0, 0, 1, 10, 50, 99, 100, 101, 150, 250, 500, 1000, 2500, 9999, -1, -(1 << 31))
	return min(w, hi)
}

func (g *gen) page(a *Actor, k tp, n int, lim int32, wait int64) {
	for i := 0; i < n; i++ {
		a.add(&Op{K: "req", Api: "fetch", Next: true, Ent: []Ent{{T: k.t, P: k.p, Lim: lim}}, Wait: wait, Min: 1})
	}
}

// request draws any request; hi bounds fetch waits (ms).
func (g *gen) request(hi int64, ghosts int) *Op {
	op := &Op{K: "req", Cid: g.cid(), G: pick(g, g.groups...)}
	switch g.n(16) {
	case 0, 1, 2, 3:
		op = g.fetch(g.ents(1, 4, ghosts), g.wait(hi))
	case 4, 5:
		op.Api = "list"
		op.Ent = g.ents(1, 4, ghosts)
		for i := range op.Ent {
			op.Ent[i].Off = pick(g, -1, -1, -2, 0, tsBase+int64(g.n(60)), int64(1)<<50)
		}
	case 6:
		op.Api = "meta"
		if op.Null = g.p(40); !op.Null {
			op.Ent = g.ents(0, 3, ghosts)
		}
	case 7, 8:
		op.Api = "commit"
		op.Ent = g.ents(1, 4, ghosts)
		for i := range op.Ent {
			op.Ent[i].Off = pick(g, int64(g.n(40)), int64(g.n(40)), 0, -1, 1<<40, 1<<31+7, 1<<53+1, 1<<63-1, -(1 << 40))
			op.Ent[i].Lim = int32(pick(g, -1, 0, 5))
		}
		op.Min = g.n(3)
		op.Pad = pick(g, 0, 9)
	case 9, 10:
		op.Api = "ofetch"
		op.Ent = g.ents(1, 4, ghosts)
	case 11:
		op.Api = "coord"
	case 12:
		op.Api = pick(g, "join", "sync")
		op.Null = g.p(30)
		op.Pad = pick(g, 0, 9)
	case 13:
		op.Api = pick(g, "beat", "leave")
		op.Pad = pick(g, 0, 9)
	case 14:
		op.Api = "vers"
	case 15:
		op.Api = pick(g, "fetch", "list", "commit", "ofetch")
		op.Null = true
		op.Wait = g.wait(min(hi, 100))
	}
	return op
}

// style makes a request arrive in an unusual way.
func (g *gen) style(op *Op) *Op {
	if g.p(30) {
		for i := g.in(1, 4); i > 0; i-- {
			op.Split = append(op.Split, pick(g, g.n(12), g.n(40), g.n(4000)))
		}
		op.Gap = g.dur(1000, pick(g, 1*ms, 50*ms, 1500*ms))
	}
	return op
}

func (g *gen) client(n int, pace int64, hi int64, ghosts int) *Actor {
	a := g.actor("client")
	a.Auto = true
	a.Delay = g.dur(1000, pace*2+1)
	a.add(&Op{K: "dial", Net: g.net(), N: int64(g.n(1000))})
	for i := 0; i < n; i++ {
		op := g.request(hi, ghosts)
		op.Net = nil
		a.add(op)
		g.between(a, pace)
	}
	return a
}

func (g *gen) fetcher(n int, pace, hi int64) *Actor {
	a := g.actor("fetcher")
	a.Auto = true
	a.add(&Op{K: "dial", Net: g.net()})
	for i := 0; i < n; i++ {
		if g.p(60) {
			k := g.tp()
			es := []Ent{{T: k.t, P: k.p, Lim: pick[int32](g, 1<<20, 1<<20, 3000, 500)}}
			for g.p(30) {
				k := g.tp()
				dup := false
				for _, e := range es {
					dup = dup || e.T == k.t && e.P == k.p
				}
				if !dup {
					es = append(es, Ent{T: k.t, P: k.p, Lim: 1 << 20})
				}
			}
			a.add(&Op{K: "req", Api: "fetch", Next: true, Ent: es, Wait: g.wait(hi), Min: 1})
		} else {
			a.add(g.fetch(g.ents(1, 3, 5), g.wait(hi)))
		}
		g.between(a, pace)
	}
	return a
}

func (g *gen) committer(n int, pace int64) *Actor {
	a := g.actor("committer")
	a.Auto = true
	a.add(&Op{K: "dial", Net: g.net()})
	hi := pick(g, 3, 10, 1000)
	base := pick[int64](g, 0, 0, 0, 0, 1<<31-2, 1<<32-1, 1<<53, -2)
	for i := 0; i < n; i++ {
		op := &Op{K: "req", Api: "commit", G: pick(g, g.groups...), Ent: g.ents(1, pick(g, 1, 3), 4)}
		for x := range op.Ent {
			op.Ent[x].Off = int64(g.n(hi))
			if g.p(70) {
				op.Ent[x].Off += base
			}
		}
		if g.p(45) {
			op.Api = "ofetch"
		}
		op.Pipe = g.p(15)
		a.add(op)
		g.between(a, pace)
		if g.p(12) { // what else a group's members send must leave its offsets alone
			a.add(&Op{K: "req", Api: pick(g, "leave", "join", "sync", "beat", "coord"), G: op.G, Null: g.p(20), Pad: pick(g, 0, 9)})
			g.between(a, pace)
			if g.p(50) {
				a.add(&Op{K: "req", Api: "ofetch", G: op.G, Ent: append([]Ent(nil), op.Ent...)})
			}
		}
	}
	a.add(&Op{K: "recvall"})
	return a
}

func (g *gen) setter(n int, pace int64) *Actor {
	a := g.actor("setter")
	for i := 0; i < n; i++ {
		k := g.tp()
		if g.p(8) {
			k = g.ghosts[g.n(len(g.ghosts))]
		}
		a.add(&Op{K: "setoff", T: k.t, P: k.p, G: pick(g, g.groups...), N: pick(g, int64(g.n(12)), int64(g.n(12)), int64(g.n(12)), int64(1)<<31-1, 1<<32, 1<<62, -1, -5)})
		g.between(a, pace)
	}
	return a
}

// victim is a client to which something bad happens.
func (g *gen) victim(pace int64) *Actor {
	a := g.actor("victim")
	net := g.net()
	if g.p(50) {
		net = nil
	}
	for round := g.in(1, 3); round > 0; round-- {
		g.between(a, pace)
		a.add(&Op{K: "dial", Net: net, Once: g.p(50)})
		for i := g.n(3); i > 0; i-- {
			op := g.request(300, 5)
			op.Pipe = g.p(30)
			a.add(op)
		}
		op := g.request(pick[int64](g, 0, 300, 3000), 5)
		kind := g.n(simnet.NFaults)
		d := g.dur(1*ms, 3*sec)
		switch g.n(6) {
		case 0: // fault when the server has read part of the request
			op.Trig = []Trig{{Dir: 0, Rel: int64(g.n(4000)), Kind: kind, D: d}}
			a.add(op)
		case 1: // fault when the server has written part of the reply
			op.Trig = []Trig{{Dir: 1, Rel: int64(g.in(1, pick(g, 4, 60, 600))), Kind: kind, D: d}}
			a.add(op)
		case 2: // part of a frame, then a fault
			op.Cut = g.in(1, 200)
			a.add(op)
			g.between(a, 100*ms)
			a.add(g.leave())
		case 3: // a request, then a fault at some time
			op.Pipe = true
			a.add(op, &Op{K: "sleep", D: g.dur(1000, 400*ms)}, g.leave())
		case 4: // stops reading, asks for much, then leaves
			a.add(&Op{K: "pause"})
			for i := g.in(1, 6); i > 0; i-- {
				x := g.request(0, 5)
				x.Pipe = true
				a.add(x)
			}
			a.add(&Op{K: "sleep", D: g.dur(1*ms, 2*sec)})
			if g.p(40) {
				a.add(&Op{K: "resume"}, &Op{K: "recvall"})
			}
			a.add(g.leave())
		case 5: // idle, then a fault
			a.add(&Op{K: "sleep", D: g.dur(1*ms, 3*sec)}, g.leave())
		}
		if g.p(50) {
			a.add(g.leave())
		}
	}
	return a
}

func (g *gen) leave() *Op {
	switch g.n(4) {
	case 0:
		return &Op{K: "close"}
	case 1:
		return &Op{K: "rst"}
	case 2:
		return &Op{K: "half"}
	}
	return &Op{K: "fault", N: int64(g.n(simnet.NFaults)), D: g.dur(1*ms, 2*sec)}
}

// owner controls the server's lifecycle.
func (g *gen) owner(rounds int, pace int64) *Actor {
	a := g.actor("owner")
	if g.p(4) {
		rounds += g.in(5, 15)
	}
	for i := 0; i < rounds; i++ {
		a.add(&Op{K: "sleep", D: g.dur(10e3, pace)})
		switch g.n(4) {
		case 0, 1:
			if g.p(30) {
				a.add(&Op{K: "finish"})
				g.between(a, pace)
			}
			a.add(&Op{K: "restart"})
		case 2:
			a.add(&Op{K: "stop"})
			g.between(a, pace)
			a.add(&Op{K: "wait"})
			for x := g.n(3); x > 0; x-- {
				a.add(g.post(g.tp()))
			}
			g.between(a, pace)
			a.add(&Op{K: "start"})
		case 3:
			a.add(&Op{K: "finish"})
			g.between(a, pace)
			a.add(&Op{K: "stop"}, &Op{K: "wait"})
			g.between(a, pace)
			a.add(&Op{K: pick(g, "start", "restart")})
		}
	}
	return a
}

func (g *gen) pace() int64 { return pick(g, 0, 100e3, 2*ms, 30*ms, 200*ms) }

// --- profiles ---------------------------------------------------------------

func (g *gen) c01() {
	g.longLog = true
	g.maxRec = pick(g, 0, 3000)
	if g.p(30) {
		g.initPosts(0, 4)
	} else if g.p(20) {
		g.initCreate()
	}
	pace := g.pace()
	for i := g.in(2, 5); i > 0; i-- {
		g.poster(g.in(2, 10), pace)
	}
	if g.p(30) {
		a := g.actor("creator")
		for i := g.in(1, 5); i > 0; i-- {
			a.add(g.create())
			g.between(a, pace)
		}
	}
	for i := g.n(3); i > 0; i-- {
		g.fetcher(g.in(2, 8), pace, 150)
	}
	switch g.n(6) {
	case 0:
		g.sc.NoStart = true
		g.sc.Actors = append([]*Actor{}, g.sc.Actors...)
		for _, a := range g.sc.Actors {
			a.Auto = false
		}
		a := g.actor("owner")
		a.add(&Op{K: "sleep", D: g.dur(1000, pace*5+1)}, &Op{K: "start"})
	case 1, 2:
		g.owner(g.in(1, 2), max(pace*4, 100e3))
	}
}

func (g *gen) c02() {
	g.longLog = true
	g.maxRec = pick(g, 0, 0, 5000)
	g.initPosts(0, pick(g, 3, 12))
	if g.p(8) {
		g.bulk()
	}
	pace := g.pace()
	for i := g.in(1, 3); i > 0; i-- {
		a := g.actor("client")
		a.Auto = true
		a.add(&Op{K: "dial", Net: g.net()})
		for k := g.in(2, 8); k > 0; k-- {
			op := g.fetch(g.ents(1, 6, 8), g.wait(200))
			op.Pipe = g.p(15)
			a.add(op)
			g.between(a, pace)
		}
		a.add(&Op{K: "recvall"})
	}
	for i := g.n(3); i > 0; i-- {
		g.poster(g.in(1, 8), pace)
	}
}

func (g *gen) c03() {
	g.longLog = true
	g.maxRec = pick(g, 0, 5000, 5000, 70000)
	g.initPosts(1, pick(g, 4, 14))
	pace := g.pace()
	for i := g.in(1, 3); i > 0; i-- {
		a := g.actor("client")
		a.Auto = true
		a.add(&Op{K: "dial", Net: g.net()})
		if g.p(50) {
			k := g.tp()
			m := 0
			for _, s := range g.sizes[k] {
				m = max(m, s)
			}
			lim := int32(m + pick(g, 0, 0, 1, 34, m))
			g.page(a, k, min(len(g.sizes[k])+g.in(0, 3), 60), lim, g.wait(60))
			continue
		}
		for k := g.in(2, 8); k > 0; k-- {
			es := g.ents(1, 5, 5)
			op := g.fetch(es, g.wait(120))
			for i := range op.Ent {
				e := &op.Ent[i]
				if x := len(g.sizes[tp{e.T, e.P}]); x > 0 {
					e.Off = int64(g.n(x))
				}
				if g.p(20) {
					e.Lim = pick[int32](g, 0, 1, 34, 60, -5, -(1 << 31))
				} else {
					e.Lim = g.limit(tp{e.T, e.P}, e.Off)
				}
			}
			a.add(op)
			g.between(a, pace)
		}
	}
	for i := g.n(3); i > 0; i-- {
		g.poster(g.in(1, 8), pace)
	}
}

func (g *gen) c04() {
	for _, k := range g.tps {
		g.late[k] = g.p(40)
	}
	g.initPosts(0, 3)
	for i := g.in(1, 3); i > 0; i-- {
		a := g.actor("waiter")
		a.Auto = true
		a.Delay = g.dur(1*ms, 300*ms)
		a.add(&Op{K: "dial", Net: g.net()})
		for k := g.in(1, 4); k > 0; k-- {
			es := g.ents(1, 4, 15)
			op := &Op{K: "req", Api: "fetch", Ent: es, Min: 1, Wait: pick(g, g.wait(20000), int64(g.in(1, 1500)))}
			for x := range es {
				es[x].Lim = pick[int32](g, 1<<20, 1<<20, 1<<20, 2000)
				n := len(g.sizes[tp{es[x].T, es[x].P}])
				es[x].Off = int64(pick(g, n, n, n, n+1, n+3))
				if g.p(10) {
					es[x].Off = 0
				}
			}
			op.Next = g.p(50)
			a.add(op)
			g.between(a, 50*ms)
		}
	}
	for i := g.in(1, 3); i > 0; i-- {
		a := g.actor("poster")
		for k := g.in(1, 6); k > 0; k-- {
			a.add(&Op{K: "sleep", D: pick(g, g.dur(1*ms, 800*ms), int64(g.in(0, 600))*ms, int64(g.in(8, 12))*10*ms)})
			if g.p(10) {
				a.add(g.create())
			}
			a.add(g.post(g.tp()))
		}
	}
	if g.p(35) {
		a := g.actor("clock")
		for k := g.in(1, 5); k > 0; k-- {
			a.add(&Op{K: "sleep", D: g.dur(1*ms, 700*ms)})
			a.add(&Op{K: "walljump", D: pick[int64](g, 1, -1) * pick(g, 50*ms, 500*ms, 5*sec, 3600*sec, 86400*365*sec)})
		}
	}
	if g.p(30) {
		a := g.actor("owner")
		a.add(&Op{K: "sleep", D: g.dur(10*ms, 2*sec)}, &Op{K: pick(g, "stop", "finish", "restart")})
	}
}

func (g *gen) c05() {
	g.longLog = true
	g.maxRec = pick(g, 0, 3000)
	g.initPosts(0, 6)
	if g.p(8) {
		g.bulk()
	}
	for i := g.in(1, 3); i > 0; i-- {
		a := g.actor("client")
		a.Auto = g.p(70)
		net := g.oneNet()
		a.add(&Op{K: "dial", Net: &net, N: int64(pick(g, 0, 0, 1<<31-20, -5))})
		pipe := pick(g, 0, 0, 50, 90)
		for k := g.in(2, 12); k > 0; k-- {
			op := g.style(g.request(pick[int64](g, 20, 200, 1200), 8))
			switch {
			case g.p(6):
				op.Cid = pick(g, 32767, 5000, 4080)
			case g.p(6) && (op.Api == "commit" || op.Api == "ofetch" || op.Api == "list" || op.Api == "fetch") && !op.Null:
				// many entries: larger than any read buffer
				for n := pick(g, 40, 300, 700); len(op.Ent) < n; {
					e := op.Ent[len(op.Ent)%3%len(op.Ent)]
					e.P = int32(len(op.Ent) % 5)
					op.Ent = append(op.Ent, e)
				}
			case g.p(5) && (op.Api == "join" || op.Api == "commit" || op.Api == "sync"):
				op.Pad = pick(g, 32767, 4096)
			}
			op.Pipe = g.p(pipe)
			if g.p(12) {
				op.Pipe = false
				op.Cut = g.in(1, pick(g, 8, 60))
				op.Split, op.Gap = nil, 0
				a.add(op, &Op{K: "sleep", D: g.dur(1*ms, pick(g, 100*ms, 30*sec))}, &Op{K: "rest"})
				continue
			}
			a.add(op)
			if g.p(10) {
				a.add(&Op{K: "sleep", D: g.dur(100*ms, 40*sec)})
			} else {
				g.between(a, g.pace())
			}
		}
		a.add(&Op{K: "recvall"})
		if g.p(20) {
			// half-close after pipelined requests: all are still answered
			a.add(&Op{K: "half"}, &Op{K: "sleep", D: 3 * sec})
		}
	}
	if g.p(40) {
		g.poster(g.in(1, 6), 30*ms)
	}
}

func (g *gen) c06() {
	g.initPosts(0, 4)
	pace := g.pace()
	for i := g.in(1, 3); i > 0; i-- {
		g.victim(max(pace, 10*ms))
	}
	for i := g.in(1, 3); i > 0; i-- {
		switch g.n(3) {
		case 0:
			g.client(g.in(2, 8), pace, 300, 5)
		case 1:
			g.fetcher(g.in(2, 6), pace, 300)
		case 2:
			g.committer(g.in(2, 6), pace)
		}
	}
	if g.p(60) {
		g.poster(g.in(1, 6), max(pace, 1*ms))
	}
	if g.p(15) {
		g.owner(1, 500*ms)
	}
}

func (g *gen) c07() {
	if len(g.tps) > 3 {
		g.tps = g.tps[:3]
	}
	if g.p(70) {
		g.initCreate()
	}
	pace := pick(g, 0, 0, 100e3, 2*ms)
	for i := g.in(2, 4); i > 0; i-- {
		g.committer(g.in(2, 9), pace)
	}
	if g.p(60) {
		g.setter(g.in(1, 5), pace)
	}
	if g.p(30) {
		g.poster(g.in(1, 4), pace)
	}
	if g.p(30) {
		g.owner(g.in(1, 2), max(pace*4, 100e3))
	}
	if g.p(20) {
		g.victim(max(pace, 1*ms))
	}
}

func (g *gen) c08() {
	for _, k := range g.tps {
		g.late[k] = g.p(60)
	}
	if g.p(60) {
		g.initPosts(0, 3)
	} else {
		g.initCreate()
	}
	pace := g.pace()
	for i := g.in(1, 3); i > 0; i-- {
		a := g.client(g.in(3, 10), pace, 60, 35)
		for _, op := range a.Ops {
			op.Pipe = op.K == "req" && g.p(10)
		}
		a.add(&Op{K: "recvall"})
	}
	if g.p(40) {
		g.setter(g.in(1, 4), pace)
	}
	if g.p(80) {
		g.poster(g.in(1, 6), max(pace, 100e3))
	}
}

func (g *gen) c09() {
	if len(g.tps) > 4 {
		g.tps = g.tps[:4]
	}
	ts := map[tp]int64{}
	era := int64(2) // of the timestamps, relative to tsBase
	if g.p(30) {
		era = pick[int64](g, -5, -20, -1e9, -60e12, 1<<31, 1<<45) - tsBase
	}
	long := g.p(10)
	tpost := func(k tp) *Op {
		op := g.post(k)
		op.Ns = 0
		if op.VL < 8 && op.KL < 8 {
			op.VL = 8 + g.n(10)
		}
		ts[k] += int64(pick(g, 0, 0, 1, 1, 2, 10))
		if long && g.p(20) {
			ts[k] += pick[int64](g, 1000, 1<<31, 1<<32, 86400000)
		}
		op.TS = era + ts[k]
		return op
	}
	simple := g.p(15)
	mk := func(k tp) *Op {
		op := tpost(k)
		if simple {
			op.TS, op.Hdr = 0, 0
		}
		return op
	}
	for _, k := range g.tps {
		for i := g.n(9); i > 0; i-- {
			op := mk(k)
			g.sc.Init = append(g.sc.Init, op)
		}
		if g.p(10) {
			g.sc.Init = append(g.sc.Init, &Op{K: "create", Ts: []string{k.t}, P: k.p})
		}
	}
	pace := g.pace()
	if g.p(60) { // one poster per partition keeps its timestamps in order
		for _, k := range g.tps {
			if g.p(60) {
				a := g.actor("poster")
				for i := g.in(1, 6); i > 0; i-- {
					a.add(mk(k))
					g.between(a, pace)
				}
			}
		}
	}
	for i := g.in(1, 3); i > 0; i-- {
		a := g.actor("lister")
		a.Auto = true
		a.add(&Op{K: "dial", Net: g.net()})
		for k := g.in(2, 8); k > 0; k-- {
			op := &Op{K: "req", Api: "list", Ent: g.ents(1, 6, 6), Cid: g.cid(), Pipe: g.p(10)}
			for x := range op.Ent {
				e := &op.Ent[x]
				base := tsBase + era
				if simple {
					base = 1700000000002
				}
				last := base + ts[tp{e.T, e.P}]
				e.Off = pick(g, int64(-1), int64(-1), -2, base+int64(g.n(30)), base+int64(g.n(30)), last, last+1, 0, int64(1)<<60)
				if long && g.p(20) {
					e.Off = base + int64(g.n(int(min(last-base, 1<<40))+2))
				}
			}
			a.add(op)
			g.between(a, pace)
		}
		a.add(&Op{K: "recvall"})
	}
	if g.p(15) {
		g.owner(1, max(pace*4, 100e3))
	}
}

// bother adds a client in some state that a stop must cope with.
func (g *gen) bother() *Actor {
	a := g.actor("client")
	a.Delay = g.dur(10e3, 100*ms)
	a.Auto = false
	switch g.n(9) {
	case 0: // idle
		a.add(&Op{K: "dial", Net: g.net()}, &Op{K: "sleep", D: g.dur(10*ms, 12*sec)})
	case 1: // long fetch
		op := g.fetch(g.ents(1, 3, 20), pick[int64](g, 1000, 30000, 200000))
		for i := range op.Ent {
			op.Ent[i].Off = int64(len(g.sizes[tp{op.Ent[i].T, op.Ent[i].P}]))
		}
		a.add(&Op{K: "dial", Net: g.net()}, op)
	case 2: // half a frame
		op := g.request(50, 10)
		op.Cut = g.in(1, 60)
		a.add(&Op{K: "dial", Net: g.net()}, op, &Op{K: "sleep", D: g.dur(10*ms, 12*sec)})
		if g.p(50) {
			a.add(&Op{K: "rest"})
		}
	case 3: // pipelining
		a.add(&Op{K: "dial", Net: g.net()})
		for i := g.in(2, 12); i > 0; i-- {
			op := g.request(100, 10)
			op.Pipe = true
			a.add(op)
		}
		a.add(&Op{K: "recvall"})
	case 4: // does not read replies
		net := Net{WinS2C: pick(g, 7, 200, 1024)}
		a.add(&Op{K: "dial", Net: &net}, &Op{K: "pause"})
		for i := g.in(1, 8); i > 0; i-- {
			var op *Op
			if g.p(60) {
				k := g.tp()
				op = &Op{K: "req", Api: "fetch", Ent: []Ent{{T: k.t, P: k.p, Lim: 1 << 20}}, Min: 1, Pipe: true}
			} else {
				op = g.request(50, 5)
				op.Pipe = true
			}
			a.add(op)
		}
		a.add(&Op{K: "sleep", D: g.dur(10*ms, 15*sec)})
		if g.p(50) {
			a.add(&Op{K: "resume"}, &Op{K: "recvall"})
		}
	case 5: // connecting again and again
		for i := g.in(2, 10); i > 0; i-- {
			a.add(&Op{K: "dial", Net: g.net(), Once: true})
			if g.p(50) {
				a.add(g.request(20, 5))
			}
			g.between(a, 20*ms)
		}
	case 6: // already gone
		a.add(&Op{K: "dial", Net: g.net()}, g.request(20, 5), g.leave())
	case 7: // steady requests
		a.add(&Op{K: "dial", Net: g.net()})
		for i := g.in(3, 12); i > 0; i-- {
			a.add(g.request(100, 5))
		}
	case 8:
		g.sc.Actors = g.sc.Actors[:len(g.sc.Actors)-1]
		return g.victim(20 * ms)
	}
	return a
}

// crowd adds many clients that stay connected and do nothing, or wait.
func (g *gen) crowd() {
	n := pick(g, 12, 20, 40, 70, 130)
	d := g.dur(500*ms, 5*sec)
	k := g.tp()
	every := pick(g, 8, 8, 1)
	for i := 0; i < n; i++ {
		a := g.actor("idler")
		a.Delay = g.dur(1000, 10*ms)
		a.add(&Op{K: "dial"})
		if i%every == 3%every {
			a.add(&Op{K: "req", Api: "fetch", Ent: []Ent{{T: k.t, P: k.p, Off: 1000, Lim: 1000}}, Wait: d / ms, Min: 1})
		} else {
			a.add(&Op{K: "sleep", D: d})
		}
	}
}

func (g *gen) c10() {
	g.maxRec = pick(g, 0, 5000)
	g.initPosts(0, 6)
	if g.p(8) {
		g.bulk()
	}
	for i := g.in(1, 5); i > 0; i-- {
		g.bother()
	}
	if g.p(40) {
		g.poster(g.in(1, 6), 30*ms)
	}
	if g.p(3) {
		g.crowd()
	}
	a := g.actor("owner")
	a.add(&Op{K: "sleep", D: g.dur(10e3, pick(g, 1*ms, 200*ms, 3*sec))})
	for i := g.in(1, 2); i > 0; i-- {
		if g.p(25) {
			a.add(&Op{K: "finish"})
			g.between(a, 300*ms)
		}
		if g.p(25) {
			a.add(&Op{K: "restart"})
		} else {
			a.add(&Op{K: "stop"})
			g.between(a, 2*sec)
			if g.p(20) {
				a.add(&Op{K: "stop"})
			}
			a.add(&Op{K: "wait"})
			if i > 1 {
				a.add(&Op{K: "start"})
			}
		}
		g.between(a, 500*ms)
	}
}

func (g *gen) c11() {
	g.maxRec = pick(g, 0, 5000)
	g.initPosts(0, 6)
	if g.p(15) {
		g.bulk()
	}
	pace := pick(g, 0, 0, 100e3, 2*ms)
	for i := g.in(1, 4); i > 0; i-- {
		a := g.actor("client")
		a.Auto = g.p(30)
		a.Delay = g.dur(1000, 1*ms)
		net := g.net()
		if g.p(60) {
			net = g.calm()
		}
		a.add(&Op{K: "dial", Net: net})
		for k := g.in(3, 14); k > 0; k-- {
			op := g.request(pick[int64](g, 0, 300, 20000), 5)
			op.Pipe = g.p(25)
			a.add(op)
			g.between(a, pace)
		}
		a.add(&Op{K: "recvall"})
	}
	if g.p(40) {
		g.committer(g.in(3, 8), pace)
	}
	if g.p(30) {
		g.poster(g.in(1, 6), max(pace, 100e3))
	}
	a := g.actor("owner")
	a.add(&Op{K: "sleep", D: pick(g, g.dur(1000, 300e3), g.dur(10e3, 30*ms), g.dur(1*ms, 500*ms))})
	switch g.n(4) {
	case 0:
		a.add(&Op{K: "finish"})
	case 1:
		a.add(&Op{K: "stop"})
	case 2:
		a.add(&Op{K: "restart"})
	case 3:
		a.add(&Op{K: "finish"}, &Op{K: "sleep", D: g.dur(1000, 100*ms)}, &Op{K: pick(g, "stop", "restart")})
	}
	if g.p(15) {
		a.add(&Op{K: "sleep", D: 13 * sec}) // long enough for every connection to be closed
	}
}

func (g *gen) c12() {
	g.longLog = true
	if g.p(60) {
		g.initPosts(0, 4)
	}
	pace := pick(g, 0, 100e3, 2*ms, 30*ms)
	for i := g.in(1, 3); i > 0; i-- {
		switch g.n(4) {
		case 0:
			g.committer(g.in(2, 6), pace)
		case 1:
			g.fetcher(g.in(2, 6), pace, 200)
		case 2:
			g.client(g.in(2, 6), pace, 200, 5)
		case 3:
			g.bother()
		}
	}
	if g.p(70) {
		g.poster(g.in(2, 8), pace)
	}
	if g.p(30) {
		g.setter(g.in(1, 4), pace)
	}
	g.owner(g.in(1, 4), pick(g, 100e3, 2*ms, 100*ms))
	if g.p(15) {
		g.sc.Actors = g.sc.Actors[len(g.sc.Actors)-1:] // nothing but restarts
	}
}

func (g *gen) c13() {
	g.sc.NoStart = g.p(50)
	if g.p(50) {
		g.initPosts(0, 2)
	}
	pace := pick(g, 0, 0, 10e3, 1*ms, 50*ms)
	a := g.actor("owner")
	stopped := g.sc.NoStart // a wait would return without anyone's stop
	for i := g.in(2, 9); i > 0; i-- {
		g.between(a, pace)
		switch g.n(8) {
		case 0, 1:
			a.add(&Op{K: "start"})
			stopped = false
		case 2:
			a.add(&Op{K: "stop"})
			stopped = true
		case 3:
			a.add(&Op{K: "finish"})
		case 4, 5:
			if stopped {
				a.add(&Op{K: "wait"})
			} else {
				a.add(&Op{K: "stop"})
				g.between(a, pace)
				a.add(&Op{K: "wait"})
				stopped = true
			}
		case 6:
			a.add(&Op{K: "restart"})
			stopped = false
		case 7:
			a.add(g.post(g.tp()))
		}
	}
	for i := g.n(4); i > 0; i-- {
		b := g.actor("other")
		b.Delay = g.dur(1000, pace*6+1)
		for k := g.in(1, 5); k > 0; k-- {
			switch g.n(6) {
			case 0, 1:
				b.add(&Op{K: "stop"})
			case 2:
				b.add(&Op{K: "finish"})
			case 3:
				b.add(g.post(g.tp()))
			case 4:
				b.add(g.create())
			case 5:
				k := g.tp()
				b.add(&Op{K: "setoff", T: k.t, P: k.p, G: "g", N: 3})
			}
			g.between(b, pace)
		}
		if g.p(40) {
			b.add(&Op{K: "waitx"})
		}
	}
	for i := g.n(3); i > 0; i-- {
		c := g.bother()
		for _, op := range c.Ops {
			if op.K == "dial" {
				op.Once = true
			}
		}
	}
}

func (g *gen) c14() {
	late := 50
	if g.p(2) { // very many topics, or partitions
		n, kind := pick(g, 70, 130, 260, 300), g.n(3)
		late = pick(g, 0, 50)
		for i := 0; i < n; i++ {
			k := tp{fmt.Sprintf("many-%d", i), 0}
			if kind == 1 || kind == 2 && g.p(50) {
				k = tp{g.tps[0].t, int32(1000 + i)}
			}
			g.tps = append(g.tps, k)
		}
	}
	for _, k := range g.tps {
		g.late[k] = g.p(late)
	}
	g.initCreate()
	pace := pick(g, 0, 0, 100e3, 2*ms)
	for i := g.in(0, 3); i > 0; i-- {
		a := g.actor("creator")
		for k := g.in(1, 5); k > 0; k-- {
			if g.p(60) {
				a.add(g.create())
			} else {
				a.add(g.post(g.tp()))
			}
			g.between(a, pace)
		}
	}
	for i := g.in(1, 3); i > 0; i-- {
		a := g.actor("asker")
		a.Auto = true
		a.add(&Op{K: "dial", Net: g.net()})
		for k := g.in(2, 8); k > 0; k-- {
			op := &Op{K: "req", Cid: g.cid(), G: pick(g, g.groups...), Pipe: g.p(15)}
			switch g.n(6) {
			case 0, 1:
				op.Api, op.Null = "meta", true
			case 2:
				op.Api, op.Ent = "meta", g.ents(0, 4, 15)
			case 3, 4:
				op.Api = "sync"
			case 5:
				op.Api = pick(g, "coord", "join")
			}
			a.add(op)
			g.between(a, pace)
		}
		a.add(&Op{K: "recvall"})
	}
	if g.p(15) {
		g.owner(1, max(pace*4, 100e3))
	}
}

func (g *gen) c15() {
	g.maxRec = pick(g, 0, 3000)
	if len(g.tps) > 4 {
		g.tps = g.tps[:4]
	}
	var topics []string
	for _, k := range g.tps {
		seen := false
		for _, t := range topics {
			seen = seen || t == k.t
		}
		if !seen {
			topics = append(topics, k.t)
		}
	}
	g.initPosts(0, pick(g, 3, 15))
	g.initCreate()
	upset := g.p(45)
	for i := g.in(1, 2); i > 0; i-- {
		a := g.actor("reader")
		a.Delay = g.dur(1*ms, 500*ms)
		k := &Kgo{Topics: topics, Group: fmt.Sprintf("kg%d", i)}
		k.Net = g.net()
		if k.Net != nil && k.Net.LatMax > 1*ms {
			// kafka-go gives up on a reply after MaxWait: the network has to be
			// faster than that, or it never gets anything
			k.Net.LatMin, k.Net.LatMax = min(k.Net.LatMin, 5*ms), min(k.Net.LatMax, 20*ms)
			if k.Net.SegMax > 0 && k.Net.SegMax < 100 {
				k.Net.SegMax = 100
			}
		}
		mode := g.n(3) // how this group's program reads
		for s := g.in(1, 4); s > 0; s-- {
			x := KgoSession{Max: pick(g, 0, 1, 3, 10, 30), MaxWait: pick(g, 200*ms, 500*ms, 2*sec, 10*sec), Queue: pick(g, 0, 1, 5), Pause: g.dur(1*ms, 3*sec)}
			if s == 1 {
				x.Max = 0
			}
			x.MaxBytes = pick(g, 0, 0, g.maxRec+600, 2*g.maxRec+5000)
			x.Explicit = mode != 0
			x.CommitEach = pick(g, 0, 1, 2, 7)
			if mode == 2 || mode == 0 && g.p(40) {
				x.Interval = pick(g, 10*ms, 300*ms, 1*sec)
			}
			x.Leave = g.p(30)
			x.Think = g.dur(1000, 50*ms)
			if upset && g.p(60) {
				x.CutAfter = g.in(1, 10)
			}
			if g.p(20) && len(k.Sessions) > 0 {
				t := g.tp()
				if n := len(g.sizes[t]); n > 0 {
					x.SetBack = &Ent{T: t.t, P: t.p, Off: int64(g.n(n))}
				}
			}
			k.Sessions = append(k.Sessions, x)
		}
		a.Kgo = k
	}
	for i := g.n(3); i > 0; i-- {
		a := g.poster(g.in(1, 12), pick(g, 1*ms, 100*ms, 1*sec))
		keep := a.Ops[:0]
		for _, op := range a.Ops {
			if op.K != "create" {
				keep = append(keep, op)
			}
		}
		a.Ops = keep
	}
	if upset {
		if g.p(40) {
			a := g.actor("cutter")
			for i := g.in(1, 4); i > 0; i-- {
				a.add(&Op{K: "sleep", D: g.dur(10*ms, 4*sec)}, &Op{K: "cut"})
			}
		}
		if g.p(50) {
			g.owner(g.in(1, 2), 5*sec)
		}
	}
	// a reader whose MaxBytes is below the size of a record can never get it
	big := 0
	see := func(ops []*Op) {
		for _, op := range ops {
			if op.K == "post" {
				big = max(big, 34+max(op.KL, 0)+max(op.VL, 0))
			}
		}
	}
	see(g.sc.Init)
	for _, a := range g.sc.Actors {
		see(a.Ops)
	}
	for _, a := range g.sc.Actors {
		if a.Kgo != nil {
			for i := range a.Kgo.Sessions {
				if x := &a.Kgo.Sessions[i]; x.MaxBytes > 0 && x.MaxBytes < big+200 {
					x.MaxBytes = big + 200
				}
			}
		}
	}
	g.sc.MaxT = 3600 * sec
}

func (g *gen) c17() {
	g.initPosts(0, 4)
	g.sc.Drain = true
	for i := g.in(1, 4); i > 0; i-- {
		switch g.n(4) {
		case 0, 1:
			g.victim(50 * ms)
		case 2:
			g.bother()
		case 3:
			a := g.actor("visitor")
			for k := g.in(1, 12); k > 0; k-- {
				a.add(&Op{K: "dial", Net: g.net()})
				for x := g.n(3); x > 0; x-- {
					op := g.request(100, 5)
					op.Pipe = g.p(20)
					a.add(op)
				}
				a.add(g.leave())
				g.between(a, 20*ms)
			}
		}
	}
	if g.p(30) {
		g.client(g.in(2, 6), 30*ms, 200, 5)
	}
	if g.p(15) {
		g.owner(1, 200*ms)
	}
}

func (g *gen) c18() {
	g.maxRec = pick(g, 0, 5000)
	g.initPosts(0, 6)
	if g.p(8) {
		g.bulk()
	}
	// the slow ones
	for i := g.in(1, 5); i > 0; i-- {
		g.bother()
	}
	if g.p(8) {
		g.crowd()
	}
	// the active ones
	for i := g.in(1, 2); i > 0; i-- {
		a := g.client(g.in(3, 10), pick(g, 0, 2*ms, 100*ms), 0, 5)
		a.Delay = g.dur(10*ms, 400*ms)
		if g.p(70) {
			a.Ops[0].Net = g.calm()
		}
		if g.p(30) {
			b := g.actor("visitor")
			b.Delay = g.dur(10*ms, 200*ms)
			for k := g.in(2, 6); k > 0; k-- {
				b.add(&Op{K: "dial"}, g.request(0, 5), &Op{K: "close"})
				g.between(b, 50*ms)
			}
		}
	}
	g.poster(g.in(2, 8), 50*ms).Delay = g.dur(10*ms, 300*ms)
	if g.p(40) {
		g.setter(g.in(1, 4), 50*ms).Delay = g.dur(10*ms, 300*ms)
	}
	if g.p(25) {
		a := g.actor("owner")
		a.add(&Op{K: "sleep", D: g.dur(10*ms, 1*sec)}, &Op{K: "finish"})
	}
}

func (g *gen) c19(cold bool) {
	g.sc.Servers = g.in(2, 3)
	g.sc.LateNew = cold
	pace := pick(g, 0, 0, 100e3, 2*ms, 20*ms)
	if cold {
		for s := 0; s < g.sc.Servers; s++ {
			a := g.actor("user")
			a.add(&Op{K: "new", Srv: s}, &Op{K: "start", Srv: s}, &Op{K: "dial", Srv: s})
			a.add(&Op{K: "req", Srv: s, Api: "vers"})
			for i := g.n(6); i > 0; i-- {
				op := g.request(50, 5)
				if g.p(40) {
					op = g.post(g.tp())
				}
				op.Srv = s
				a.add(op)
				g.between(a, pace)
			}
		}
		g.sc.Sched.Yield = pick[uint32](g, 1300, 6500, 16000, 30000)
		return
	}
	for s := 0; s < g.sc.Servers; s++ {
		n0, i0 := len(g.sc.Actors), len(g.sc.Init)
		if g.p(50) {
			g.sizes = map[tp][]int{}
			g.initPosts(0, 3)
		}
		if g.p(70) {
			g.poster(g.in(1, 6), pace)
		}
		for i := g.in(1, 2); i > 0; i-- {
			switch g.n(4) {
			case 0:
				g.client(g.in(2, 6), pace, 150, 8)
			case 1:
				g.fetcher(g.in(2, 6), pace, 150)
			case 2:
				g.committer(g.in(2, 6), pace)
			case 3:
				g.setter(g.in(1, 4), pace)
			}
		}
		if g.p(40) {
			g.owner(1, max(pace*4, 100e3))
		}
		if g.p(20) {
			g.victim(max(pace, 1*ms))
		}
		for _, a := range g.sc.Actors[n0:] {
			for _, op := range a.Ops {
				op.Srv = s
			}
		}
		for _, op := range g.sc.Init[i0:] {
			op.Srv = s
		}
	}
}

func (g *gen) c21() {
	g.mix()
	pace := pick(g, 100e3, 2*ms, 50*ms, 500*ms)
	a := g.actor("system")
	for i := g.in(1, 4); i > 0; i-- {
		a.add(&Op{K: "sleep", D: g.dur(1000, pace)}, &Op{K: "scarce", D: g.dur(100e3, pick(g, 2*ms, 100*ms, 3*sec, 40*sec)), N: int64(pick(g, 0, 0, 1, 2, 3))})
	}
	for i := g.in(1, 3); i > 0; i-- {
		a := g.actor("newcomer")
		a.Auto = true
		for k := g.in(1, 4); k > 0; k-- {
			g.between(a, pace)
			a.add(&Op{K: "dial", Net: g.net(), Once: g.p(20)})
			for x := g.n(3); x > 0; x-- {
				a.add(g.request(200, 8))
			}
			if g.p(40) {
				a.add(g.leave())
			}
		}
	}
	if g.p(50) {
		g.victim(max(pace, 1*ms))
	}
	own := false // one owner is enough: restarts must not overlap
	for _, a := range g.sc.Actors {
		own = own || strings.HasPrefix(a.Name, "owner")
	}
	if !own && g.p(20) {
		g.owner(g.in(1, 2), max(pace*4, 1*ms))
	}
}

func (g *gen) mix() {
	if g.p(4) {
		a := g.actor("system")
		a.add(&Op{K: "sleep", D: g.dur(1000, 300*ms)}, &Op{K: "scarce", D: g.dur(100e3, 2*sec)})
	}
	if g.p(60) {
		g.initPosts(0, 4)
	}
	pace := g.pace()
	for i := g.in(2, 6); i > 0; i-- {
		switch g.n(10) {
		case 0, 1:
			g.poster(g.in(1, 6), pace)
		case 2:
			g.fetcher(g.in(1, 5), pace, 200)
		case 3:
			g.committer(g.in(1, 5), pace)
		case 4:
			g.setter(g.in(1, 4), pace)
		case 5, 6:
			g.client(g.in(2, 8), pace, 200, 8)
		case 7:
			g.victim(max(pace, 5*ms))
		case 8:
			g.bother()
		case 9:
			a := g.actor("creator")
			for k := g.in(1, 4); k > 0; k-- {
				a.add(g.create())
				g.between(a, pace)
			}
		}
	}
	if g.p(40) {
		g.owner(g.in(1, 3), max(pace*4, 100e3))
	} else if g.p(20) {
		for i := g.in(1, 2); i > 0; i-- {
			b := g.actor("other")
			b.add(&Op{K: "sleep", D: g.dur(10e3, 100*ms)}, &Op{K: pick(g, "stop", "finish")})
			if g.p(50) {
				b.add(&Op{K: "waitx"})
			}
		}
	}
}
