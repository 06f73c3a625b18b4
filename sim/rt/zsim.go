// Deterministic-simulation support, added to package runtime through a build
// overlay (see /verif/DESIGN.md). With simOn the single P runs goroutines in an
// order chosen by a seeded PRNG, the clock is virtual and jumps to the next
// timer when nothing is runnable, and map/select/global randomness is seeded.

package runtime

import (
	"internal/runtime/atomic"
	"unsafe"
)

const (
	simMaxRec = 1 << 17
	simCovLen = 1 << 16
)

// scheduling policies
const (
	simPolUniform = 0 // uniformly random among the runnable
	simPolFifo    = 1 // first in, first out (with yields as the only perturbation)
	simPolLifo    = 2 // newest first, mostly
	simPolPct     = 3 // random priorities with change points
	simPolReplay  = 4 // decisions from lists only; default is FIFO and no yield
)

// SimConf configures the scheduler for one run.
type SimConf struct {
	Seed       uint64
	Policy     int
	YieldNum   uint32 // yield probability at an instrumentation point is YieldNum/65536
	StallNum   uint32 // stall probability is StallNum/(1<<20)
	StallMax   int64  // longest stall, ns
	PctDepth   int    // number of priority change points
	PctSteps   int64  // steps over which change points are spread
	StepCost   int64  // virtual ns consumed per instrumentation point
	StepBudget int64  // livelock bound
	// replay lists (policy simPolReplay)
	RYieldStep []int64
	RYieldDur  []int64 // 0: yield, >0: stall of that many ns, -1: yield and drop priority
	RPickNo    []int64
	RPickIdx   []int32
}

var (
	simOn    bool
	simRec   bool
	simClock bool
	simTime  int64
	simWall  int64
	simS0    uint64 // scheduler stream
	simS1    uint64 // map, select and math/rand stream
	simS2    uint64 // cheaprand stream

	simC          SimConf
	simStep       int64
	simPicks      int64
	simJumps      int64
	simHash       uint64
	simSwitches   int64
	simYields     int64
	simWakeW      [16]*SimW // who is woken at a step
	simWakeSite   [16]int64
	simWakeN      int
	simSiteSeen   [1 << 14]uint32
	simSiteEpoch  uint32
	simSiteN      int64
	simWakeAt     int64
	simFrozen     bool
	simProgress   int64
	simNapAt      int64 // step of the last jump of the clock by 5 ms or more
	simStalls     int64
	simStallTotal int64
	simStallUntil int64
	simLastG      uint64
	simLastSite   uint32
	simBaseG      uint64
	simPctAt      [16]int64
	simDropped    uint64 // counter giving ever lower priorities
	simCov        [simCovLen / 64]uint64

	simRecN      int
	simRecOver   bool
	simYStep     [simMaxRec]int64
	simYDur      [simMaxRec]int64
	simPN        int
	simPNo       [simMaxRec]int64
	simPIdx      [simMaxRec]int32
	simRY, simRP int
)

//go:nosplit
func simMix(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	z := *s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simRand() uint64 { return simMix(&simS1) }

func simRandn(n uint32) uint32 {
	if !simOn {
		return cheaprandn(n)
	}
	return uint32((simRand() >> 32) * uint64(n) >> 32)
}

// simRel is the id of a goroutine relative to the start of the run.
func simRel(gp *g) uint64 {
	if gp.goid < simBaseG {
		return 0
	}
	return gp.goid - simBaseG + 1
}

// simPrio is the PCT priority of a goroutine in this run.
func simPrio(gp *g) uint64 {
	if gp.simPrio != 0 && gp.simEpoch == simC.Seed^gp.goid {
		return gp.simPrio
	}
	s := simC.Seed ^ simRel(gp)*0xd6e8feb86659fd93
	gp.simEpoch = simC.Seed ^ gp.goid
	gp.simPrio = simMix(&s)>>1 | 1<<62
	return gp.simPrio
}

// simPick removes and returns one goroutine of the local run queue.
func simPick(pp *p) *g {
	h := atomic.LoadAcq(&pp.runqhead)
	t := pp.runqtail
	n := t - h
	if n == 0 {
		return nil
	}
	L := uint32(len(pp.runq))
	k := uint32(0)
	if simRec && n > 1 {
		simPicks++
		switch simC.Policy {
		case simPolUniform:
			k = uint32((simMix(&simS0) >> 32) * uint64(n) >> 32)
		case simPolLifo:
			k = n - 1
			if r := simMix(&simS0); r&7 == 0 {
				k = uint32((r >> 32) * uint64(n) >> 32)
			}
		case simPolPct:
			if simPicks&63 == 0 {
				break // let the oldest run now and then: no starvation
			}
			best := uint64(0)
			for i := uint32(0); i < n; i++ {
				if p := simPrio(pp.runq[(h+i)%L].ptr()); p > best {
					best, k = p, i
				}
			}
		case simPolReplay:
			for simRP < len(simC.RPickNo) && simC.RPickNo[simRP] < simPicks {
				simRP++
			}
			if simRP < len(simC.RPickNo) && simC.RPickNo[simRP] == simPicks {
				if x := simC.RPickIdx[simRP]; uint32(x) < n {
					k = uint32(x)
				}
				simRP++
			}
		}
		if k != 0 {
			if simPN < simMaxRec {
				simPNo[simPN], simPIdx[simPN] = simPicks, int32(k)
				simPN++
			} else {
				simRecOver = true
			}
		}
		simHash = (simHash ^ uint64(k+1)) * 0x100000001b3
	}
	gp := pp.runq[(h+k)%L].ptr()
	for i := k; i > 0; i-- {
		pp.runq[(h+i)%L] = pp.runq[(h+i-1)%L]
	}
	atomic.StoreRel(&pp.runqhead, h+1)
	return gp
}

// simIdle jumps the clock to the next timer.
func simIdle(pp *p) bool {
	w := pp.timers.wakeTime()
	if w == 0 || simFrozen {
		return false
	}
	if w >= simTime+5e6 { // waiting by polling is not a live-lock
		simProgress = min(simStep, simProgress+min(simStep-simNapAt, 20000))
		simNapAt = simStep
	}
	if w > simTime {
		simTime = w
	}
	if simRec {
		simJumps++
	}
	return true
}

// SimY is an instrumentation point of the system under test.
func SimY(site uint32) {
	if !simRec {
		return
	}
	simStep++
	simTime += simC.StepCost
	if simStep-simProgress > simC.StepBudget || simStep > 8*simC.StepBudget {
		if simStep-simProgress == simC.StepBudget+1 || simStep == 8*simC.StepBudget+1 {
			println("SIM-LIVELOCK steps=", simStep, "site=", site, "time=", simTime)
			tracebackothers(getg())
			exit(97)
		}
		return
	}
	due := false
	if simWakeN != 0 {
		if x := &simSiteSeen[site%uint32(len(simSiteSeen))]; *x != simSiteEpoch {
			*x = simSiteEpoch
			simSiteN++
			due = simSiteN >= simWakeAt && simWakeDue()
		}
	}
	gp := getg()
	rel := simRel(gp)
	if rel != simLastG {
		simSwitches++
		h := (simLastSite*2654435761 ^ site*40503) % simCovLen
		simCov[h/64] |= 1 << (h % 64)
		simHash = (simHash ^ (rel<<32 | uint64(site))) * 0x100000001b3
		simLastG = rel
	}
	simLastSite = site

	dur := int64(-2)
	switch simC.Policy {
	case simPolReplay:
		for simRY < len(simC.RYieldStep) && simC.RYieldStep[simRY] < simStep {
			simRY++
		}
		if simRY < len(simC.RYieldStep) && simC.RYieldStep[simRY] == simStep {
			dur = simC.RYieldDur[simRY]
			simRY++
		}
	case simPolPct:
		for i := 0; i < simC.PctDepth && i < len(simPctAt); i++ {
			if simPctAt[i] == simStep {
				simDropped++
				gp.simEpoch = simC.Seed ^ gp.goid
				gp.simPrio = 1<<40 - simDropped
				dur = 0
			}
		}
		if dur == -2 {
			pp := gp.m.p.ptr()
			h, t := pp.runqhead, pp.runqtail
			mine := simPrio(gp)
			for i := h; i != t; i++ {
				if simPrio(pp.runq[i%uint32(len(pp.runq))].ptr()) > mine {
					dur = 0
					break
				}
			}
		}
		if dur == -2 && simC.StallNum != 0 {
			dur = simStallDraw()
		}
	default:
		if simC.YieldNum != 0 {
			if r := simMix(&simS0); uint32(r&0xffff) < simC.YieldNum {
				dur = 0
			}
		}
		if simC.StallNum != 0 {
			if d := simStallDraw(); d >= 0 {
				dur = d
			}
		}
	}
	if dur == -2 && due && simC.Policy != simPolReplay {
		dur = 0
	}
	if dur == -2 {
		return
	}
	if simRecN < simMaxRec {
		simYStep[simRecN], simYDur[simRecN] = simStep, dur
		simRecN++
	} else {
		simRecOver = true
	}
	if dur > 0 {
		simStalls++
		simStallTotal += dur
		if simTime+dur > simStallUntil {
			simStallUntil = simTime + dur
		}
		timeSleep(dur)
		return
	}
	simYields++
	Gosched()
}

func simStallDraw() int64 {
	r := simMix(&simS0)
	if uint32(r&0xfffff) >= simC.StallNum || simC.StallMax <= 0 {
		return -2
	}
	// log-uniform between 1 us and StallMax
	m := simC.StallMax
	for r = simMix(&simS0); r&1 != 0 && m > 4000; r >>= 1 {
		m /= 4
	}
	return 1000 + int64((simMix(&simS0)>>1)%uint64(m))
}

// SimW parks and wakes goroutines without creating happens-before edges for the
// race detector. Single P and no preemption make plain fields sufficient.
type SimW struct {
	gp     *g
	t      timer
	inited bool
	parked bool
	woken  bool
	until  int64
}

func simWFire(arg any, _ uintptr, _ int64) {
	w := arg.(*SimW)
	if w.parked {
		w.parked = false
		goready(w.gp, 0)
	}
}

func simWCommit(gp *g, p unsafe.Pointer) bool {
	w := (*SimW)(p)
	if w.until != 0 {
		w.t.reset(w.until, 0)
	}
	return true
}

// Wait parks the caller until Wake or until the virtual time until (0: forever).
// It reports whether it was woken.
func (w *SimW) Wait(until int64) bool {
	if !w.inited {
		w.t.init(simWFire, w)
		w.inited = true
	}
	if until != 0 && until <= simTime {
		return false
	}
	w.gp = getg()
	w.until = until
	w.parked = true
	w.woken = false
	gopark(simWCommit, unsafe.Pointer(w), waitReasonSleep, traceBlockSleep, 1)
	if until != 0 && w.woken {
		w.t.stop()
	}
	return w.woken
}

// Wake makes the waiter runnable; it reports whether there was one.
func (w *SimW) Wake() bool {
	if !w.parked {
		return false
	}
	w.parked = false
	w.woken = true
	goready(w.gp, 1)
	return true
}

// WakeIn makes the waiter runnable when n places of the code under test have been
// passed that were not passed before since now, or a little later if nothing runs;
// whoever passes the last of them yields.
func (w *SimW) WakeIn(n int64) bool {
	if !w.parked || n <= 0 || simWakeN == len(simWakeW) || w.until == 0 {
		return w.Wake()
	}
	if simWakeN == 0 {
		simSiteEpoch++
		simSiteN, simWakeAt = 0, 1<<62
	}
	simWakeW[simWakeN], simWakeSite[simWakeN] = w, simSiteN+n
	simWakeN++
	simWakeAt = min(simWakeAt, simSiteN+n)
	if soon := simTime + 10000*simC.StepCost + 1000; soon < w.until {
		w.t.reset(soon, 0)
	}
	return true
}

func simWakeDue() bool {
	woke := false
	at, k := int64(1<<62), 0
	for i := 0; i < simWakeN; i++ {
		w, n := simWakeW[i], simWakeSite[i]
		if simSiteN >= n {
			woke = w.Wake() || woke
		} else if w.parked {
			simWakeW[k], simWakeSite[k] = w, n
			k++
			at = min(at, n)
		}
	}
	for i := k; i < simWakeN; i++ {
		simWakeW[i] = nil
	}
	simWakeN, simWakeAt = k, at
	return woke
}

func SimInit() {
	simClock = true
	simTime = 1e15
	simOn = true
	simWall = 1700000000e9 - simTime
}

func SimTimers() int { return len(getg().m.p.ptr().timers.heap) }

func SimBegin(c *SimConf) {
	simC = *c
	simTime = 1e15
	simWall = 1700000000e9 - simTime
	s := c.Seed
	simS0 = simMix(&s)
	simS1 = simMix(&s)
	simS2 = simMix(&s)
	simStep, simPicks, simJumps, simHash, simSwitches = 0, 0, 0, 14695981039346656037, 0
	simYields, simStalls, simStallTotal, simStallUntil = 0, 0, 0, 0
	simLastG, simLastSite, simProgress, simNapAt = 0, 0, 0, 0
	simRecN, simPN, simRecOver, simRY, simRP = 0, 0, false, 0, 0
	simDropped = 0
	for i := range simWakeW {
		simWakeW[i] = nil
	}
	simWakeN, simWakeAt = 0, 1<<62
	simBaseG = getg().m.p.ptr().goidcache
	if getg().m.p.ptr().goidcache == getg().m.p.ptr().goidcacheend {
		simBaseG = sched.goidgen.Load() + 1
	}
	for i := range simPctAt {
		simPctAt[i] = 1 + int64((simMix(&s)>>1)%uint64(max(c.PctSteps, 1)))
	}
	simRec = true
}

func SimEnd() { simRec = false }

// SimGC collects garbage while the clock stands still. The collector's own
// goroutines would disturb the schedule, so no decision is drawn from here on:
// what is left of the run is first in, first out.
func SimGC() {
	simRec, simFrozen = false, true
	GC()
	simFrozen = false
}

// SimFresh tells the race detector that memory is new.
func SimFresh(p unsafe.Pointer, n uintptr) {
	if raceenabled && n > 0 {
		racemalloc(p, n)
	}
}

type SimStats struct {
	Hash                                          uint64
	Steps, Picks, Jumps, Switches, Yields, Stalls int64
	StallTotal, Elapsed                           int64
}

func SimGetStats() SimStats {
	return SimStats{simHash, simStep, simPicks, simJumps, simSwitches, simYields, simStalls, simStallTotal, simTime - 1e15}
}

// SimRecording returns the recorded deviations of the run.
func SimRecording() (ys, yd, pn []int64, pi []int32, overflow bool) {
	return simYStep[:simRecN], simYDur[:simRecN], simPNo[:simPN], simPIdx[:simPN], simRecOver
}

func SimCov() []uint64     { return simCov[:] }
func SimNow() int64        { return simTime }
func SimWallOffset() int64 { return simWall }
func SimWallJump(d int64)  { simWall += d }
func SimStallTotal() int64 { return simStallTotal }
func SimStallUntil() int64 { return simStallUntil }
func SimSteps() int64      { return simStep }
func SimRealNano() int64   { return nanotime1() }
func SimGoid() uint64      { return getg().goid }

// SimMoved notes that bytes moved; see StepBudget.
func SimMoved()        { simProgress = simStep }
func SimMark(v uint64) { simHash = (simHash ^ v) * 0x100000001b3 }
