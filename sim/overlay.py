"""Build overlay that turns the Go runtime into a deterministic one."""
import json, os, subprocess

def goroot():
    return subprocess.check_output(["go", "env", "GOROOT"], text=True).strip()

PATCH = {
 "proc.go": [
  ("const haveSysmon = GOARCH != \"wasm\"", "const haveSysmon = false"),
  ("	if pp.schedtick%61 == 0 && !sched.runq.empty() {", "	if !simOn && pp.schedtick%61 == 0 && !sched.runq.empty() {"),
  ("	if preempted && sched.gcwaiting.Load() {\n		// If preempted for STW, keep", "	if simOn || preempted && sched.gcwaiting.Load() {\n		// If preempted for STW, keep"),
  ("	// If there's a runnext, it's the next G to run.\n	next := pp.runnext\n", "	if simOn {\n		return simPick(pp), false\n	}\n	// If there's a runnext, it's the next G to run.\n	next := pp.runnext\n"),
  ("	gp, otherReady := beforeIdle(now, pollUntil)\n", "	if simOn && simIdle(pp) {\n		goto top\n	}\n	gp, otherReady := beforeIdle(now, pollUntil)\n"),
 ],
 "runtime2.go": [
  ("	goid         uint64\n", "	goid         uint64\n	simPrio      uint64\n	simEpoch     uint64\n"),
 ],
 "select.go": [("		j := cheaprandn(uint32(norder + 1))\n", "		j := simRandn(uint32(norder + 1))\n")],
 "rand.go": [
  ("	mp := getg().m\n	c := &mp.chacha8\n	for {\n		// Note: c.Next is", "	if simOn {\n		return simRand()\n	}\n	mp := getg().m\n	c := &mp.chacha8\n	for {\n		// Note: c.Next is"),
  ("	globalRand.state.Init(*seed)\n	clear(seed[:])", "	for i := range seed {\n		seed[i] = byte(i*37 + 11)\n	}\n	globalRand.state.Init(*seed)\n	clear(seed[:])"),
  ("func cheaprand() uint32 {\n	mp := getg().m\n", "func cheaprand() uint32 {\n	if simOn {\n		return uint32(simMix(&simS2) >> 32)\n	}\n	mp := getg().m\n"),
  ("func cheaprandu64() uint64 {\n", "func cheaprandu64() uint64 {\n	if simOn {\n		return simMix(&simS2)\n	}\n"),
 ],
 "time_nofake.go": [("	return nanotime1()\n", "	if simClock {\n		return simTime\n	}\n	return nanotime1()\n")],
 "time_linux_amd64.s": [("TEXT time·now<ABIInternal>(SB)", "TEXT runtime·realtimenow<ABIInternal>(SB)")],
 "timeasm.go": [
  ("//go:linkname time_now time.now\n", ""),
  ("func time_now() (sec int64, nsec int32, mono int64)", """func realtimenow() (sec int64, nsec int32, mono int64)

//go:linkname time_now time.now
func time_now() (sec int64, nsec int32, mono int64) {
	if simClock {
		w := simTime + simWall
		return w / 1e9, int32(w % 1e9), simTime
	}
	return realtimenow()
}
"""),
 ],
}

def write(outdir, here):
    """Writes the patched runtime files to outdir and returns the overlay map."""
    R = goroot() + "/src/runtime/"
    os.makedirs(outdir, exist_ok=True)
    rep = {}
    for f, subs in PATCH.items():
        s = open(R + f).read()
        for a, b in subs:
            if s.count(a) != 1:
                raise RuntimeError("runtime patch does not apply: %s %r" % (f, a))
            s = s.replace(a, b)
        p = os.path.join(outdir, "rt_" + f)
        open(p, "w").write(s)
        rep[R + f] = p
    p = os.path.join(outdir, "rt_zsim.go")
    open(p, "w").write(open(os.path.join(here, "rt", "zsim.go")).read())
    rep[R + "zsim.go"] = p
    return rep
