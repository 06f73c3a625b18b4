#!/usr/bin/env python3
"""check.py PROPERTY            decide one property (VERIF_SEED, VERIF_TIER)
check.py replay FILE [-v]    run a replay file again
check.py min FILE            minimise a replay file further"""
import copy, hashlib, json, os, re, resource, select, signal, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
import build

NPROC = max(2, min(8, os.cpu_count() or 8))
SILENCE = 45            # seconds without a line from a worker: it is spinning outside instrumented code
MARK = "github.com/jimsnab/kafka-mock-go."
FAULTS = ["reset", "close", "halfclose", "timeout", "hostunreach", "netunreach", "epipe", "aborted", "stall", "other_errno"]

# property: profiles with their share of the runs, and which runs count as non-trivial
P = {
    "C01": ([("C01", 8), ("mix", 1)], "at least two records posted", lambda s: s["Posts"] > 1),
    "C02": ([("C02", 8), ("mix", 1)], "at least one reply received", lambda s: s["Replies"] > 0),
    "C03": ([("C03", 9), ("mix", 1)], "a reply reached its byte limit", lambda s: "byte_limit_reached" in s["Marks"]),
    "C04": ([("C04", 9), ("mix", 1)], "a fetch had to wait", lambda s: "fetch_waited" in s["Marks"]),
    "C05": ([("C05", 8), ("mix", 1)], "at least one reply received", lambda s: s["Replies"] > 0),
    "C06": ([("C06", 8), ("mix", 1)], "a connection fault was injected", lambda s: sum(s["Faults"]) > 0),
    "C07": ([("C07", 8), ("mix", 1)], "at least one committed-offset operation was judged", lambda s: s["LinOps"] > 0),
    "C08": ([("C08", 9), ("mix", 1)], "something unknown was asked for", lambda s: "unknown_topic_asked" in s["Marks"]),
    "C09": ([("C09", 9), ("mix", 1)], "at least one reply received", lambda s: s["Replies"] > 0),
    "C10": ([("C10", 8), ("C13", 1), ("mix", 1)], "at least one connection was made", lambda s: s["Net"]["Conns"] > 0),
    "C11": ([("C11", 9), ("mix", 1)], "the server stopped with a request open", lambda s: "stop_while_request_open" in s["Marks"]),
    "C12": ([("C12", 9), ("mix", 1)], "a restart took place", lambda s: "restarts" in s["Marks"]),
    "C13": ([("C13", 9), ("mix", 1)], "at least two operations", lambda s: s["Ops"] > 1),
    "C14": ([("C14", 9), ("mix", 1)], "at least one reply received", lambda s: s["Replies"] > 0),
    "C15": ([("C15", 1)], "kafka-go delivered at least one message", lambda s: s["Marks"].get("kafka_go_messages", 0) > 0),
    "C16": ([("race", 1)], "at least two operations and two context switches", lambda s: s["Ops"] > 1 and s["Switches"] > 1),
    "C17": ([("C17", 8), ("C06", 1), ("mix", 1)], "at least one connection was made", lambda s: s["Net"]["Conns"] > 0),
    "C18": ([("C18", 9), ("mix", 1)], "at least two operations and two connections", lambda s: s["Ops"] > 1 and s["Net"]["Conns"] > 1),
    "C19": ([("C19", 9), ("C19cold", 1)], "at least two operations", lambda s: s["Ops"] > 1),
    "C21": ([("C21", 9), ("C06", 1)], "a call of the server failed for want of descriptors, or a connection fault was injected", lambda s: s["Net"]["AcceptErrs"] + s["Net"]["DupErrs"] + sum(s["Faults"]) > 0),
}
# in the runs of these profiles every violation is one of the property, since the
# runs are made of what must not matter (failing clients, restarts, other servers)
ALL_TAGS = {"C06", "C12", "C19", "C21"}

def accepts(prop, profile, tag):
    return tag == prop or prop in ALL_TAGS and profile.startswith(prop)

class HarnessError(Exception):
    pass

# --- one worker process ------------------------------------------------------

def limits(race):
    def f():
        os.setpgrp()
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if not race:
            resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    return f

class Proc:
    """A worker process whose lines are read with a watchdog."""
    def __init__(self, exe, race, args):
        e = dict(os.environ)
        e["GOTRACEBACK"] = "all"
        e["GORACE"] = "halt_on_error=1 exitcode=66 history_size=4"
        e.pop("GODEBUG", None)
        e.pop("GOMAXPROCS", None)
        e.pop("GOGC", None)
        self.err = tempfile.TemporaryFile()
        self.p = subprocess.Popen([exe] + args, stdout=subprocess.PIPE, stderr=self.err, stdin=subprocess.DEVNULL, env=e, preexec_fn=limits(race))
        self.silent = False
        self.buf = b""

    def lines(self, stop=lambda: False):
        last = time.time()
        fd = self.p.stdout.fileno()
        while True:
            r, _, _ = select.select([fd], [], [], 0.25)
            if stop():
                self.kill()
                return
            if not r:
                if time.time() - last > SILENCE:
                    self.silent = True
                    os.kill(self.p.pid, signal.SIGABRT)
                    time.sleep(1.5)
                    self.kill()
                    return
                continue
            b = os.read(fd, 1 << 20)
            if not b:
                return
            last = time.time()
            self.buf += b
            *ls, self.buf = self.buf.split(b"\n")
            for l in ls:
                yield l.decode("utf-8", "replace")

    def kill(self):
        try:
            self.p.kill()
        except OSError:
            pass

    def end(self):
        """Waits and returns (exit code, stderr)."""
        try:
            self.p.wait(20)
        except subprocess.TimeoutExpired:
            self.kill()
            self.p.wait()
        self.p.stdout.close()
        self.err.seek(0)
        t = self.err.read().decode("utf-8", "replace")
        self.err.close()
        return self.p.returncode, t

def death(rc, err, silent):
    """What the end of a worker process in the middle of a run means:
    (kind, message), or None when it is not the system's doing."""
    if rc == 66 or "WARNING: DATA RACE" in err:
        return race_report(err)
    if "SIM-LIVELOCK" in err:
        at = re.findall(r"SIM-LIVELOCK.*", err)[0]
        fn = [f for f in re.findall(re.escape(MARK) + r"([^\s(]*(?:\([^)]*\))?[^\s(]*)\(", err)]
        return "livelock", "the run does not come to an end (%s); goroutines in: %s" % (at, ", ".join(sorted(set(fn))[:6]))
    if silent:
        for g in err.split("\n\n"):
            if re.match(r"goroutine \d+ .*\[running", g) and MARK in g:
                return "livelock", "a goroutine of the server spins: " + first_frame(g)
        if MARK in err:
            return "livelock", "the process makes no progress; server goroutines: " + first_frame(err)
        return None
    if "panic:" in err or "fatal error:" in err:
        head = re.search(r"^(?:panic:|fatal error:).*(?:\n.*)?", err, re.M).group(0).strip().replace("\n", " | ")
        blocks = err[err.find(head[:10]):].split("\n\n")
        for g in blocks:
            if g.startswith("goroutine "):
                if MARK in g.split("created by")[0]:
                    return "crash", head[:300] + " in " + first_frame(g)
                break
        if "concurrent map" in head and MARK in err:
            return "crash", head[:300]
        return None
    return None

def first_frame(g):
    m = re.search(re.escape(MARK) + r".*\n\s+(\S+)", g)
    if not m:
        return "?"
    return m.group(0).split("(0x")[0].split("\n")[0].replace(MARK, "") + " at " + os.path.basename(m.group(1))

def race_report(err):
    for r in err.split("=================="):
        if "WARNING: DATA RACE" not in r:
            continue
        parts = re.split(r"\n\s*\n", r.strip())
        acc = [x for x in parts if re.match(r"(WARNING: DATA RACE\n)?(Read|Write|Previous|Atomic)", x.strip(), re.I)]
        if len(acc) >= 2 and all(MARK in x for x in acc[:2]):
            what = []
            for x in acc[:2]:
                k = re.search(r"(Previous )?(atomic )?(read|write)", x, re.I).group(0).lower()
                what.append(k + " in " + first_frame(x + "\n"))
            return "race", " / ".join(what)
    return None

# --- search ------------------------------------------------------------------

class Agg:
    def __init__(self):
        self.n = 0
        self.hashes = set()
        self.nt = set()
        self.sum = {}
        self.cov = None
        self.byprof = {}
        self.viol = {}
        self.real = 0
        self.other = 0
        self.ignored = {}
        self.procs = 0
        self.sample = []
        self.maxvirt = 0

    def add(self, prof, d, nontrivial):
        self.n += 1
        self.byprof[prof] = self.byprof.get(prof, 0) + 1
        h = (prof, d["hash"])
        self.hashes.add(h)
        s = d["stats"]
        if nontrivial(s):
            self.nt.add(h)
        merge(self.sum, s)
        self.maxvirt = max(self.maxvirt, s["Virtual"])
        self.real += d.get("real", 0)

def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        elif isinstance(v, list):
            o = a.get(k) or [0] * len(v)
            a[k] = [x + y for x, y in zip(o, v)]
        else:
            a[k] = a.get(k, 0) + v

class Search:
    def __init__(self, prop, exe, race, base, seconds, known):
        self.prop, self.exe, self.race, self.base = prop, exe, race, base
        self.known = known
        self.mix, self.rule, self.nontrivial = P[prop]
        self.deadline = time.time() + seconds
        self.lock = threading.Lock()
        self.next = {p: 0 for p, _ in self.mix}
        self.done = {p: 0.0 for p, _ in self.mix}
        self.agg = Agg()
        self.found = []      # findings
        self.knownhits = {}
        self.errors = []
        self.stopflag = False

    def block(self):
        with self.lock:
            p = min(self.mix, key=lambda x: self.done[x[0]] / x[1])[0]
            n = 400
            first = self.base + self.next[p]
            self.next[p] += n
            self.done[p] += n
            return p, first, n

    def stopped(self):
        return self.stopflag or time.time() > self.deadline + 30

    def work(self):
        try:
            while time.time() < self.deadline and not self.stopflag:
                p, first, n = self.block()
                end = first + n
                while first < end and time.time() < self.deadline and not self.stopflag:
                    first = self.batch(p, first, end)
        except Exception as e:
            with self.lock:
                self.errors.append("%s: %s" % (type(e).__name__, e))
                self.stopflag = True

    def batch(self, p, first, end):
        """Runs seeds first..end-1 in one process; returns the next seed to run."""
        secs = max(1, int(self.deadline - time.time()))
        w = Proc(self.exe, self.race, ["batch", p, str(first), "1", str(end - first), str(secs)])
        self.agg.procs += 1
        cur, open_ = first - 1, False
        for l in w.lines(self.stopped):
            if l.startswith("B "):
                cur, open_ = int(l[2:]), True
            elif l.startswith("{"):
                d = json.loads(l)
                open_ = False
                with self.lock:
                    self.agg.add(p, d, self.nontrivial)
                    if len(self.agg.sample) < 3 and self.nontrivial(d["stats"]):
                        self.agg.sample.append((p, cur, d["hash"]))
                for v in d.get("viol") or []:
                    if accepts(self.prop, p, v["prop"]):
                        self.report(p, first, cur, v["kind"], v["msg"], v["prop"])
                    else:
                        self.agg.other += 1
            elif l.startswith("C "):
                c = json.loads(l[2:])
                with self.lock:
                    a = self.agg.cov
                    self.agg.cov = c if a is None else [x | y for x, y in zip(a, c)]
        rc, err = w.end()
        if self.stopflag:
            return end
        if open_ or rc not in (0,):
            if not open_ and rc == 0:
                return cur + 1
            k = death(rc, err, w.silent)
            if k is None:
                if "WARNING: DATA RACE" in err:
                    r = re.sub(r"0x[0-9a-f]+", "", err)[:600]
                    with self.lock:
                        self.agg.ignored["race outside the server"] = self.agg.ignored.get("race outside the server", 0) + 1
                    return cur + 1
                if time.time() > self.deadline + 25:
                    return end
                raise HarnessError("worker ended with %s in %s seed %d: %s" % (rc, p, cur, err[:2500]))
            if k[0] == "race" and self.prop != "C16":
                return cur + 1
            self.report(p, first, cur, k[0], k[1], self.prop)
        if cur < first:
            return end  # no time left
        return cur + 1

    def report(self, p, first, seed, kind, msg, tag):
        with self.lock:
            for k in self.known:
                if k["prop"] == self.prop and k["kind"] == kind and re.search(k["match"], msg):
                    self.knownhits[k["line"]] = self.knownhits.get(k["line"], 0) + 1
                    return
            self.found.append(dict(profile=p, first=first, seed=seed, kind=kind, msg=msg, tag=tag))
            self.stopflag = True

    def run(self):
        ts = [threading.Thread(target=self.work) for _ in range(NPROC)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

# --- single runs -------------------------------------------------------------

def gen(exe, profile, seed):
    r = subprocess.run([exe, "gen", profile, str(seed)], capture_output=True, text=True, timeout=60)
    return json.loads(r.stdout)

def run_file(exe, race, doc, *flags):
    """Runs one scenario in a fresh process: (result line or None, death or None)."""
    with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
        json.dump(doc, f)
    try:
        w = Proc(exe, race, ["run", f.name] + list(flags))
        d, started = None, False
        for l in w.lines():
            if l.startswith("B "):
                started = True
            elif l.startswith("{") and started:
                d = json.loads(l)
        rc, err = w.end()
        k = None
        if d is None or rc != 0:
            k = death(rc, err, w.silent)
        return d, k, err
    finally:
        os.unlink(f.name)

def outcome(prop, profile, d, k):
    """The accepted violations of a result: list of (tag, kind, msg)."""
    out = []
    if d:
        out += [(v["prop"], v["kind"], v["msg"]) for v in d.get("viol") or [] if accepts(prop, profile, v["prop"])]
    if k and (k[0] != "race" or prop == "C16"):
        out.append((prop, k[0], k[1]))
    return out

class Minimizer:
    def __init__(self, prop, profile, exe, race, doc, tag, kind, msg, seconds):
        self.prop, self.profile, self.exe, self.race = prop, profile, exe, race
        self.doc, self.tag, self.kind = doc, tag, kind
        self.site = msg.rsplit(" in ", 1)[-1] if kind == "crash" else None  # a smaller run must crash in the same place
        self.deadline = time.time() + seconds
        self.tries = 0
        self.slow = False

    def shows(self, doc):
        d, k, _ = run_file(self.exe, self.race, doc)
        for t, kd, m in outcome(self.prop, self.profile, d, k):
            if t == self.tag and kd == self.kind and self.site in (None, m.rsplit(" in ", 1)[-1]):
                return m
        return None

    def first_that_shows(self, docs):
        """Tries documents in parallel; returns the first (in order) that still shows the violation."""
        docs = list(docs)
        i = 0
        while i < len(docs) and time.time() < self.deadline:
            part = docs[i:i + NPROC]
            res = [None] * len(part)
            def one(j):
                try:
                    res[j] = self.shows(part[j])
                except Exception:
                    res[j] = None
            ts = [threading.Thread(target=one, args=(j,)) for j in range(len(part))]
            for t in ts:
                t.start()
            for t in ts:
                t.join()
            self.tries += len(part)
            for j, m in enumerate(res):
                if m is not None:
                    return i + j
            i += NPROC
        return None

    def list_at(self, doc, path):
        x = doc
        for p in path:
            x = x[p]
        return x

    def ddlist(self, path, least=0):
        """Removes chunks of a list."""
        n = len(self.list_at(self.doc, path) or [])
        size = max(1, n // 2)
        while size >= 1 and time.time() < self.deadline:
            xs = self.list_at(self.doc, path) or []
            starts = [i for i in range(0, len(xs), size) if len(xs) - len(xs[i:i + size]) >= least]
            if not starts:
                if size == 1:
                    return
                size //= 2
                continue
            cands = []
            for i in starts:
                c = copy.deepcopy(self.doc)
                l = self.list_at(c, path)
                del l[i:i + size]
                cands.append(c)
            k = self.first_that_shows(cands)
            if k is None:
                if size == 1:
                    return
                size //= 2
            else:
                self.doc = cands[k]
                size = min(size, max(1, len(self.list_at(self.doc, path) or [])))

    def fields(self):
        """Removes optional parts of operations."""
        sc = self.doc["scenario"]
        drop = ["net", "trig", "split", "gap", "pad", "cid", "mut", "nsub", "hdr", "delay", "tm", "pipe", "once", "kl", "vl", "min"]
        paths = []
        for ai, a in enumerate(sc.get("actors") or []):
            for k in ("delay", "ids"):
                if k in a:
                    paths.append((("scenario", "actors", ai), k))
            for oi, op in enumerate(a.get("ops") or []):
                for k in drop:
                    if k in op:
                        paths.append((("scenario", "actors", ai, "ops", oi), k))
        for k in ("stall", "stallmax", "cost", "yield"):
            if k in sc["sched"]:
                paths.append((("scenario", "sched"), k))
        # all at once, then halves
        def go(ps):
            if not ps or time.time() > self.deadline:
                return
            c = copy.deepcopy(self.doc)
            for path, k in ps:
                self.list_at(c, path).pop(k, None)
            if self.first_that_shows([c]) is not None:
                self.doc = c
                return
            if len(ps) > 1:
                go(ps[:len(ps) // 2])
                go(ps[len(ps) // 2:])
        go(paths)

    def ops(self):
        self.ddlist(("scenario", "actors"), 0)
        for ai in range(len(self.doc["scenario"]["actors"])):
            a = self.doc["scenario"]["actors"][ai]
            if a.get("ops"):
                self.ddlist(("scenario", "actors", ai, "ops"))
            elif a.get("kgo"):
                self.ddlist(("scenario", "actors", ai, "kgo", "sessions"), 1)
        if self.doc["scenario"].get("init"):
            self.ddlist(("scenario", "init"))
        for ai, a in enumerate(self.doc["scenario"]["actors"]):
            for oi, op in enumerate(a.get("ops") or []):
                if len(op.get("e") or []) > 1:
                    self.ddlist(("scenario", "actors", ai, "ops", oi, "e"))

    def schedule(self):
        """Replaces the random scheduler by the list of what it did, and shortens that."""
        d, k, _ = run_file(self.exe, self.race, self.doc, "record")
        if not d or d.get("over"):
            return
        c = copy.deepcopy(self.doc)
        s = c["scenario"]["sched"]
        s["policy"] = 4
        for f in ("ys", "yd", "pn", "pi"):
            s[f] = d.get(f) or []
        if self.first_that_shows([c]) is None:
            return
        self.doc = c
        for x, y in (("ys", "yd"), ("pn", "pi")):
            s = self.doc["scenario"]["sched"]
            pairs = list(zip(s[x], s[y]))
            size = max(1, len(pairs))
            while pairs and time.time() < self.deadline:
                cands = []
                keeps = []
                for i in range(0, len(pairs), size):
                    rest = pairs[:i] + pairs[i + size:]
                    c = copy.deepcopy(self.doc)
                    c["scenario"]["sched"][x] = [p[0] for p in rest]
                    c["scenario"]["sched"][y] = [p[1] for p in rest]
                    cands.append(c)
                    keeps.append(rest)
                k = self.first_that_shows(cands)
                if k is not None:
                    self.doc, pairs = cands[k], keeps[k]
                    size = min(size, max(1, len(pairs)))
                elif size == 1:
                    break
                else:
                    size = max(1, size // 2)

    def run(self):
        if self.doc.get("prefix"):
            self.ddlist(("prefix",))
        self.ops()
        self.fields()
        self.ops()
        self.schedule()
        self.ops()
        return self.doc

def size_of(doc):
    sc = doc["scenario"]
    return dict(actors=len(sc.get("actors") or []), operations=sum(len(a.get("ops") or []) for a in sc.get("actors") or []) + len(sc.get("init") or []),
                preemptions=len(sc["sched"].get("ys") or []), choices=len(sc["sched"].get("pn") or []), policy=sc["sched"]["policy"], prefix=len(doc.get("prefix") or []))

def confirm(prop, exe, race, f):
    """Reproduces a finding in a fresh process; returns (doc, tag, kind, msg) or None."""
    sc = gen(exe, f["profile"], f["seed"])
    for doc in ({"scenario": sc}, None):
        if doc is None:
            if f["seed"] == f["first"]:
                break
            doc = {"prefix": [gen(exe, f["profile"], s) for s in range(f["first"], f["seed"])], "scenario": sc}
        for _ in range(2):
            d, k, _ = run_file(exe, race, doc)
            got = outcome(prop, f["profile"], d, k)
            same = [x for x in got if x[0] == f["tag"] and x[1] == f["kind"]] or got
            if same:
                return (doc,) + same[0]
    return None

def write_replay(prop, exe, race, profile, doc, tag, kind, msg, f, seconds):
    before = size_of(doc)
    m = Minimizer(prop, profile, exe, race, doc, tag, kind, msg, seconds)
    small = m.run()
    d, k, err = run_file(exe, race, small)
    got = [x for x in outcome(prop, profile, d, k) if x[0] == tag and x[1] == kind]
    if not got:
        small = doc
        d, k, err = run_file(exe, race, small)
        got = [x for x in outcome(prop, profile, d, k) if x[0] == tag and x[1] == kind] or [(tag, kind, msg)]
    dt, _, _ = run_file(exe, race, small, "trace")
    os.makedirs("replays", exist_ok=True)
    name = "replays/%s-%s-%s-%d.json" % (prop, kind, f["profile"], f["seed"])
    out = dict(property=prop, tag=tag, kind=kind, message=got[0][2], race=race, profile=profile, found=f, size_found=before, size=size_of(small),
               expect=dict(hash=d["hash"] if d else None, death=list(k) if k else None), history=(dt or {}).get("hist"))
    if k and not d:
        out["stderr"] = err[:6000]
    out.update(small)
    json.dump(out, open(name, "w"), indent=1)
    return name, got[0][2], out

# --- known findings ------------------------------------------------------------

def known_findings():
    """Lines 'known: property=C01 kind=lost match=<regex> :: what fails'; 'fixed:' lines suppress nothing."""
    out = []
    try:
        for l in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"known: property=(\S+) kind=(\S+) match=(.*?) :: (.*)", l)
            if m:
                out.append(dict(prop=m.group(1), kind=m.group(2), match=m.group(3), line=m.group(4).strip()))
    except FileNotFoundError:
        pass
    return out

# --- evidence ------------------------------------------------------------------

REAL = "all of /repo's non-test code (server, client handler, data store, codec, every API handler), go-lane, kafka-go (C15), Go's net error types, context, sync, time and channels"
STUB = "the kernel's TCP and the network (package net replaced by an in-process byte-stream network with ports, backlog, windows, latency, segmentation and faults), the two non-portable calls of kafka-client.go on the socket, the Go scheduler's choices, clocks, timers and randomness (runtime overlay), the clients other than kafka-go"

def write_evidence(prop, tier, seed, s, facts, wall, search_s, viol, det, first):
    a = s.agg
    st = a.sum
    faults = {n: c for n, c in zip(FAULTS, st.get("Faults", []))}
    trig = {n: c for n, c in zip(FAULTS, st.get("Trig", []))}
    net = st.get("Net", {})
    samples = []
    for p, sd, h in a.sample[:3]:
        try:
            sc = gen(s.exe, p, sd)
            samples.append(dict(profile=p, seed=sd, hash=h, scheduler=sc["sched"], servers=sc["servers"],
                                init=len(sc.get("init") or []), actors=[dict(name=x["name"], ops=[brief(o) for o in (x.get("ops") or [])[:12]], kafka_go=x.get("kgo")) for x in sc["actors"]][:8]))
        except Exception as e:
            samples.append(dict(profile=p, seed=sd, hash=h, error=str(e)))
    cov = dict(
        evaluations=a.n, distinct_nontrivial=len(a.nt),
        rule="One evaluation is one simulated run of a generated scenario (workload, network conditions, faults, scheduler parameters) from one seed. Two runs are the same when the hash over the sequence of (goroutine, instrumentation point) at every context switch and over the bytes delivered is the same; non-trivial: " + s.rule + ".",
        samples=samples,
        seeds={p: "%d..%d" % (s.base, s.base + n - 1) for p, n in s.next.items() if n}, runs_by_profile=a.byprof,
        runs_per_hour=int(a.n / max(search_s, 0.1) * 3600), seeds_per_hour=int(a.n / max(search_s, 0.1) * 3600),
        simulated_seconds=round(st.get("Virtual", 0) / 1e9, 1), longest_run_simulated_seconds=round(a.maxvirt / 1e9, 1),
        distinct_interleavings=len(a.hashes),
        interleaving_measure="hash of the (goroutine, point) sequence at context switches",
        switch_pairs_covered=sum(bin(x).count("1") for x in a.cov or []),
        switch_pairs_measure="distinct (point switched from, point switched to) pairs, hashed into a bitmap",
        instrumentation_points=facts.get("points"), instrumentation=facts.get("mode"),
        scheduler=dict(steps=st.get("Steps"), picks=st.get("Picks"), preemptions=st.get("Yields"), stalls=st.get("Stalls"), context_switches=st.get("Switches"), clock_jumps_to_next_event=st.get("Jumps")),
        faults_injected=faults, of_these_at_a_byte_position=trig,
        network=dict(connections=net.get("Conns"), refused=net.get("Refused"), segments=net.get("Segments"), bytes_to_server=net.get("BytesC2S"), bytes_to_clients=net.get("BytesS2C"),
                     server_writes_blocked=net.get("BlockedWr"), short_reads=net.get("ShortReads"), partial_writes=net.get("PartialWr"), deadlines_expired=net.get("Deadlines"), descriptor_shortages=net.get("Shortages"), accepts_failed=net.get("AcceptErrs"), dups_failed=net.get("DupErrs"), resets_with_unread_data=net.get("RstUnread")),
        workload=dict(operations=st.get("Ops"), requests=st.get("Reqs"), replies=st.get("Replies"), posts=st.get("Posts"), register_operations_judged=st.get("LinOps"), registers_judged=st.get("LinKeys")),
        reached=st.get("Marks"), processes=a.procs, violations_of_other_properties=a.other, ignored=a.ignored,
        determinism_check=det, real_code=REAL, stubbed=STUB)
    if first:
        cov["first_violation"] = first
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(wall, 1), violations=viol,
              assumptions=["Interleavings happen at instrumentation points (every statement and every access to shared state of /repo's code) and at blocking operations, on one processor: weaker memory effects are only seen by the race detector of C16.",
                           "The simulated TCP behaves as documented for Linux; the simulator, the oracles and the Go toolchain are trusted."])
    os.makedirs("evidence", exist_ok=True)
    tmp = "evidence/.%s.tmp" % prop
    json.dump(ev, open(tmp, "w"), indent=1)
    os.rename(tmp, "evidence/%s.json" % prop)

def brief(o):
    x = {k: v for k, v in o.items() if k not in ("net",)}
    return x

def determinism(s):
    """Runs seeds of this search again in fresh processes and compares the hashes."""
    out = []
    for p, sd, h in s.agg.sample[:3]:
        doc = {"scenario": gen(s.exe, p, sd)}
        d, k, _ = run_file(s.exe, s.race, doc)
        out.append(bool(d) and d["hash"] == h)
    return dict(rerun_in_a_fresh_process=len(out), same_hash=sum(out))

# --- main ----------------------------------------------------------------------

def decide(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    secs = float(os.environ.get("VERIF_SECONDS") or (480 if tier == "thorough" else 30))
    race = prop == "C16"
    exe, facts = build.build(race)
    base = (int(hashlib.sha256(("%d %s" % (seed, prop)).encode()).hexdigest()[:8], 16) % 4000000) * 1000000 + 1
    s = Search(prop, exe, race, base, secs, known_findings())
    t1 = time.time()
    s.run()
    t2 = time.time()
    if s.found:
        budget = 150 if tier == "thorough" else 40
        for f in s.found[:4]:
            c = confirm(prop, exe, race, f)
            if c is None:
                continue
            doc, tag, kind, msg = c
            name, msg, out = write_replay(prop, exe, race, f["profile"], doc, tag, kind, msg, f, budget)
            print("%s %s: %s" % (tag, kind, msg))
            print("found by profile %s seed %d; minimised from %s to %s; replay with: python3 check.py replay %s" % (f["profile"], f["seed"], out["size_found"], out["size"], name))
            write_evidence(prop, tier, seed, s, facts, time.time() - t0, t2 - t1, len(s.found), None, dict(kind=kind, message=msg, seed=f["seed"], profile=f["profile"], replay=name))
            print("VIOLATION property=%s replay=%s" % (prop, os.path.join(HERE, name)))
            return 1
        print("a violation was seen but could not be reproduced: %s" % s.found[0], file=sys.stderr)
        return 2
    if s.errors:
        print("harness error: " + s.errors[0], file=sys.stderr)
        return 2
    if s.agg.n == 0:
        print("harness error: no run was completed", file=sys.stderr)
        return 2
    det = determinism(s)
    for line, n in s.knownhits.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, line))
    write_evidence(prop, tier, seed, s, facts, time.time() - t0, t2 - t1, 0, det, None)
    print("%s: %d runs (%d distinct non-trivial), %.0f simulated seconds, no violation; %.0f s" % (prop, s.agg.n, len(s.agg.nt), s.agg.sum["Virtual"] / 1e9, time.time() - t0))
    return 0

def replay(path, verbose):
    doc = json.load(open(path))
    exe, _ = build.build(doc["race"])
    run = {k: doc[k] for k in ("prefix", "scenario") if k in doc}
    ok = 0
    for i in range(2):
        d, k, err = run_file(exe, doc["race"], run, *(["trace"] if verbose and i == 0 else []))
        if verbose and i == 0:
            print("\n".join((d or {}).get("hist") or [err[:8000]]))
        got = [x for x in outcome(doc["property"], doc["profile"], d, k) if x[0] == doc["tag"] and x[1] == doc["kind"]]
        h = d["hash"] if d else None
        print("run %d: hash %s (recorded %s): %s" % (i + 1, h, doc["expect"]["hash"], got[0][2] if got else "the violation does not occur"))
        ok += bool(got)
    if ok:
        print("VIOLATION property=%s replay=%s" % (doc["property"], path))
        return 1
    return 0

def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["replay"]:
            return replay(a[1], "-v" in a)
        return decide(a[0])
    except (HarnessError, build.BuildError) as e:
        print("error: %s" % e, file=sys.stderr)
        return 2

if __name__ == "__main__":
    sys.exit(main())
