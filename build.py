"""Builds the simulation worker from /repo's current working tree."""
import fcntl, hashlib, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(HERE, "sim")
REPO = os.environ.get("KMSIM_REPO", "/repo")  # development only: another tree
sys.dont_write_bytecode = True
sys.path.insert(0, SIM)
import overlay

class BuildError(Exception):
    pass

def env():
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=mod", GOPROXY="off", GOSUMDB="off", GOTOOLCHAIN="local", GOWORK="off")
    cache = subprocess.run(["go", "env", "GOCACHE"], capture_output=True, text=True).stdout.strip()
    try:
        os.makedirs(cache, exist_ok=True)
        t = os.path.join(cache, ".vt%d" % os.getpid())
        open(t, "w").close()
        os.unlink(t)
    except OSError:
        cache = os.path.join(HERE, ".cache", "go-build")
        os.makedirs(cache, exist_ok=True)
    e["GOCACHE"] = cache
    return e

def sources():
    out = []
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if not d.startswith("."))
        out += [os.path.join(root, f) for f in sorted(files) if f.endswith(".go") and not f.endswith("_test.go") or f in ("go.mod", "go.sum")]
    for root, dirs, files in os.walk(SIM):
        dirs[:] = sorted(d for d in dirs if d != "__pycache__")
        out += [os.path.join(root, f) for f in sorted(files) if not f.endswith(".pyc")]
    out.append(os.path.abspath(__file__))
    return out

def key():
    h = hashlib.sha256()
    for f in sources():
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()[:20]

def run(cmd, e, cwd=SIM):
    r = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError("%s\n%s%s" % (" ".join(cmd), r.stdout[-3000:], r.stderr[-3000:]))
    return r.stdout

def build(race=False):
    """Returns the path of the worker binary and facts about the build."""
    base = os.path.join(HERE, "build")
    os.makedirs(base, exist_ok=True)
    k = key()
    d = os.path.join(base, k + ("-race" if race else ""))
    exe = os.path.join(d, "worker")
    with open(os.path.join(base, ".lock" + ("-race" if race else "")), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            olds = sorted((os.path.join(base, x) for x in os.listdir(base) if not x.startswith(".") and x.endswith("-race") == race), key=os.path.getmtime)
            for x in olds[:-4]:
                shutil.rmtree(x, ignore_errors=True)
            _build(d, race)
    facts = json.load(open(os.path.join(d, "facts.json")))
    return exe, facts

def _build(d, race):
    e = env()
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    rep = overlay.write(d, SIM)
    # outside the overlay: go.mod of the harness as a scratch copy, so that nothing in /verif/sim changes
    mod = os.path.join(d, "go.mod")
    open(mod, "w").write(open(os.path.join(SIM, "go.mod")).read().replace("=> /repo", "=> " + REPO))
    shutil.copy(os.path.join(SIM, "go.sum"), os.path.join(d, "go.sum"))
    instr = os.path.join(d, "instr")
    run(["go", "build", "-modfile", mod, "-o", instr, "./cmd/instr"], e)
    last = None
    for mode in ([], ["nowrap"]):
        src = os.path.join(d, "src")
        shutil.rmtree(src, ignore_errors=True)
        os.makedirs(src)
        info = json.loads(run([instr, REPO, src, "github.com/jimsnab/kafka-mock-go"] + mode, e))
        ov = dict(rep)
        ov.update(info["overlay"])
        ovf = os.path.join(d, "overlay.json")
        json.dump({"Replace": ov}, open(ovf, "w"))
        cmd = ["go", "build", "-modfile", mod, "-overlay", ovf, "-o", os.path.join(d, "worker.tmp")]
        x = dict(e)
        if race:
            x["CGO_ENABLED"] = "1"
            # the size-specialised allocators that packages compiled without -race
            # call do not tell the race detector that memory is new
            x["GOEXPERIMENT"] = "nosizespecializedmalloc,noruntimefreegc"
            cmd += ["-race"] + ["-gcflags=kmverif/%s=-race=false -l" % p for p in ("engine", "simnet", "simsys", "cmd/...")]
        else:
            x["CGO_ENABLED"] = "0"
        try:
            run(cmd + ["./cmd/worker"], x)
        except BuildError as err:
            last = err
            continue
        json.dump({"points": info["points"], "typed": info["typed"], "mode": "stores split" if not mode else "stores not split"}, open(os.path.join(d, "facts.json"), "w"))
        os.rename(os.path.join(d, "worker.tmp"), os.path.join(d, "worker"))
        return
    raise last

if __name__ == "__main__":
    try:
        for r in ([False, True] if "both" in sys.argv else ["race" in sys.argv]):
            print(*build(r))
    except BuildError as err:
        print(err, file=sys.stderr)
        sys.exit(2)
