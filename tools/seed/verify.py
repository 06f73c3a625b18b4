"""verify.py [-j N] [--demo] ID...: confirms planted bugs in scratch copies: the patch applies and builds, the demo
passes without and fails with it, the stable tests pass with it. Results in /tmp/km/sd/<id>.json."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.abspath(os.path.join(HERE, "..", "..", "seeded"))
W = "/tmp/km/sd"
def inns(repo, cmd):
    return subprocess.run(["unshare", "-Urnm", "sh", "-c", "ip link set lo up; mount --bind %s /repo; cd /repo; %s" % (repo, cmd)], capture_output=True, text=True)
def one(i, demo_only):
    os.makedirs(W, exist_ok=True)
    repo = os.path.join(W, i)
    if os.path.isdir(repo): shutil.rmtree(repo)
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    res = {"id": i}
    demo = os.path.join(SEED, i, "demo.sh")
    r = inns(repo, "bash /opt/vp/build.sh && bash %s" % demo)
    res["clean"] = r.returncode; res["clean_out"] = (r.stdout + r.stderr)[-1500:]
    r = subprocess.run(["git", "-C", repo, "apply", os.path.join(SEED, i, "patch.diff")], capture_output=True, text=True)
    res["apply"] = r.returncode
    r = inns(repo, "bash /opt/vp/build.sh"); res["build"] = r.returncode; res["build_out"] = r.stderr[-800:]
    r = inns(repo, "bash %s" % demo); res["patched"] = r.returncode; res["patched_out"] = (r.stdout + r.stderr)[-1500:]
    if not demo_only and res["build"] == 0:
        r = inns(repo, "bash /opt/vp/test.sh %s/%s.tests.json" % (W, i))
        try:
            t = json.load(open("%s/%s.tests.json" % (W, i)))
            base = json.load(open("/opt/vp/BASELINE.json"))
            stable = base["stable"]
            res["missing"] = sorted(set(stable) - set(t["passed"]))
        except Exception as e:
            res["missing"] = repr(e) + r.stdout[-500:] + r.stderr[-500:]
    shutil.rmtree(repo)
    ok = res["clean"] == 0 and res["apply"] == 0 and res["build"] == 0 and res["patched"] != 0 and (demo_only or res.get("missing") == [])
    res["ok"] = ok
    json.dump(res, open("%s/%s.json" % (W, i), "w"), indent=1)
    return res
args = sys.argv[1:]
j = 3
if "-j" in args:
    k = args.index("-j"); j = int(args[k+1]); del args[k:k+2]
demo = "--demo" in args
ids = [a for a in args if a != "--demo"] or sorted(os.listdir(SEED))
with cf.ThreadPoolExecutor(j) as ex:
    for r in ex.map(lambda i: one(i, demo), ids):
        print("OK  " if r["ok"] else "BAD ", r["id"], {k: r[k] for k in ("clean", "apply", "build", "patched")}, r.get("missing", ""), "" if r["ok"] else r["clean_out"][-300:] + r["build_out"][-300:] + r["patched_out"][-400:], flush=True)
