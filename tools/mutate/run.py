"""run.py [--files a.go,b.go] [--count N] [--out FILE] [--jobs J]: machine-made mutations of /repo's code: builds each in a
scratch copy, runs a short sweep over all profiles, and lists the mutations that nothing notices, for a person to look at."""
import json, os, subprocess, sys, shutil, threading, queue, time
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.abspath(os.path.join(HERE, "..", ".."))
sys.dont_write_bytecode = True
a = sys.argv[1:]
files = "kafka-mock.go,kafka-client.go,fetch.go,datastore.go,list_offsets.go,offset_commit.go,offset_fetch.go,metadata.go,sync_group.go,kafka-message.go,net-utils.go,inbound-utils.go,outbound-utils.go,find_coordinator.go,join_group.go,heartbeat.go,leave_group.go,api_versions.go,api-keys.go,encoder.go,decoder.go".split(",")
count, out, jobs, only = 150, "/tmp/km/mut.jsonl", 4, None
while a:
    if a[0] == "--files": files = a[1].split(",")
    if a[0] == "--count": count = int(a[1])
    if a[0] == "--out": out = a[1]
    if a[0] == "--jobs": jobs = int(a[1])
    if a[0] == "--only": only = set(a[1].split(","))
    a = a[2:]
subprocess.run(["go", "build", "-o", "/tmp/km/enum", HERE + "/enum.go"], check=True)
ms = [json.loads(l) for l in subprocess.run(["/tmp/km/enum"] + ["/repo/" + f for f in files], capture_output=True, text=True, check=True).stdout.splitlines()]
done = set()
if os.path.exists(out):
    for l in open(out):
        d = json.loads(l); done.add((d["file"], d["off"], d["len"], d["new"]))
seen = set(); todo = []
for m in ms:
    k = (m["file"], m["off"], m["len"], m["new"])
    if k in seen or k in done or any(x in m["old"] for x in (".Trace", ".Warnf", ".Errorf")) and m["kind"] == "drop": continue
    seen.add(k); todo.append(m)
print(len(ms), "mutations,", len(todo), "to do", flush=True)
P = "C01,C02,C03,C04,C05,C06,C07,C08,C09,C10,C11,C12,C13,C14,C15,C17,C18,C19,C21,mix".split(",")
q = queue.Queue()
for m in todo: q.put(m)
lock = threading.Lock()
def one(m, repo, env):
    src = open("/repo/" + m["file"], "rb").read()
    new = src[:m["off"]] + m["new"].encode() + src[m["off"] + m["len"]:]
    open(repo + "/" + m["file"], "wb").write(new)
    try:
        r = subprocess.run(["go", "build", "./..."], cwd=repo, env=env, capture_output=True, text=True)
        if r.returncode: return "nobuild", r.stderr.split("\n")[1:2]
        r = subprocess.run(["python3", V + "/build.py"], env=env, capture_output=True, text=True)
        if r.returncode: return "simbuild", r.stdout[-300:] + r.stderr[-300:]
        exe = r.stdout.split()[0]
        ps = {}
        hits = []
        try:
            for rnd in range(2):
                n = count // 5 if rnd == 0 else count
                for p in P:
                    first = 77000001 + (0 if rnd == 0 else 100000)
                    try:
                        r = subprocess.run([exe, "batch", p, str(first), "1", str(n), "120"], capture_output=True, text=True, timeout=180)
                    except subprocess.TimeoutExpired:
                        hits.append((p, "timeout")); continue
                    for l in r.stdout.splitlines():
                        if l.startswith("{"):
                            for x in json.loads(l).get("viol") or []:
                                hits.append((x["prop"], x["kind"], x["msg"][:100]))
                    if r.returncode not in (0, 3) and "SIM" not in r.stdout[:0]:
                        if "panic" in r.stderr or "fatal" in r.stderr or "SIM-" in r.stderr:
                            hits.append((p, "death", r.stderr.strip().split("\n")[0][:120]))
                        elif r.returncode: hits.append((p, "rc", r.returncode))
                    if hits: return "caught", hits[:3]
            return "missed", None
        finally:
            shutil.rmtree(os.path.dirname(exe), ignore_errors=True)
    finally:
        open(repo + "/" + m["file"], "wb").write(src)
def worker(i):
    repo = "/tmp/km/mutrepo%d" % i
    shutil.rmtree(repo, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    env = dict(os.environ, KMSIM_REPO=repo, GOFLAGS="-mod=mod", GOPROXY="off")
    while True:
        try: m = q.get_nowait()
        except queue.Empty: break
        try: st, why = one(m, repo, env)
        except Exception as e: st, why = "error", repr(e)
        with lock:
            m = dict(m, status=st, why=why)
            open(out, "a").write(json.dumps(m) + "\n")
    shutil.rmtree(repo, ignore_errors=True)
ts = [threading.Thread(target=worker, args=(i,)) for i in range(jobs)]
for t in ts: t.start()
for t in ts: t.join()
import collections
c = collections.Counter(json.loads(l)["status"] for l in open(out)); print(c)
