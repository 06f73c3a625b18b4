"""ideas.py [-j N] [--secs S] [--seed N] [ID...]: small mutants without demonstrations, run against the check of the
property they break (scratch copies; nothing is left behind)."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.abspath(os.path.join(HERE, "..", ".."))
M = []
def m(id, props, *edits): M.append((id, props.split(), edits))
DS, F, KM, KC, LO, MD, OC, OF, SG, ENC, DEC, IN, NET, MSG, AK, LG, FC = ("datastore.go", "fetch.go", "kafka-mock.go", "kafka-client.go", "list_offsets.go",
 "metadata.go", "offset_commit.go", "offset_fetch.go", "sync_group.go", "encoder.go", "decoder.go", "inbound-utils.go", "net-utils.go", "kafka-message.go", "api-keys.go", "leave_group.go", "find_coordinator.go")
for f in sorted(os.listdir(HERE)):
    if f.startswith("ideas_") and f.endswith(".py"):
        exec(open(os.path.join(HERE, f)).read())

def one(x, secs, seed):
    id, props, edits = x
    repo = "/tmp/km/idea/" + id
    if os.path.isdir(repo): shutil.rmtree(repo)
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    try:
        for name, old, new in edits:
            p = repo + "/" + name; s = open(p).read()
            if s.count(old) != 1: return "%-22s EDIT %s matches %d: %s" % (id, name, s.count(old), old[:60])
            open(p, "w").write(s.replace(old, new))
        b = subprocess.run(["go", "vet", "."], cwd=repo, capture_output=True, text=True, env=dict(os.environ, GOFLAGS="-mod=mod", GOPROXY="off"))
        b = subprocess.run(["go", "build", "./..."], cwd=repo, capture_output=True, text=True)
        if b.returncode: return "%-22s BUILD %s" % (id, b.stderr[:400])
        out = []
        for p in props:
            env = dict(os.environ, KMSIM_REPO=repo, VERIF_SECONDS=str(secs), VERIF_SEED=str(seed))
            t = time.time()
            r = subprocess.run(["python3", V + "/check.py", p], capture_output=True, text=True, env=env)
            out.append("%-22s %s %s %.0fs %s" % (id, p, {0: "MISSED", 1: "caught"}.get(r.returncode, "rc=%d" % r.returncode), time.time() - t, r.stdout.strip().split("\n")[0][:170] + r.stderr[-300:]))
        return "\n".join(out)
    finally:
        shutil.rmtree(repo)

def main():
    a = sys.argv[1:]; secs, seed, j = 18, 1, 1
    while a and a[0].startswith("-"):
        if a[0] == "-j": j = int(a[1])
        if a[0] == "--secs": secs = float(a[1])
        if a[0] == "--seed": seed = int(a[1])
        a = a[2:]
    xs = [x for x in M if not a or x[0] in a or any(x[0].startswith(y[:-1]) for y in a if y.endswith("*")) or any(p in a for p in x[1])]
    with cf.ThreadPoolExecutor(j) as ex:
        for r in ex.map(lambda x: one(x, secs, seed), xs): print(r, flush=True)
if __name__ == "__main__": main()
