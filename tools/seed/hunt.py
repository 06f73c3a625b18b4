"""hunt.py [--seed N] [--secs S] ID...: runs the property's check against scratch copies with a planted bug."""
import json, os, shutil, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.abspath(os.path.join(HERE, "..", ".."))
a = sys.argv[1:]; env = dict(os.environ)
props = None
while a and a[0].startswith("--"):
    if a[0] == "--seed": env["VERIF_SEED"] = a[1]
    if a[0] == "--secs": env["VERIF_SECONDS"] = a[1]
    if a[0] == "--props": props = a[1].split(",")
    a = a[2:]
repo = "/tmp/km/huntrepo"
for i in a or sorted(os.listdir(V + "/seeded")):
    if os.path.isdir(repo): shutil.rmtree(repo)
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    subprocess.run(["git", "-C", repo, "apply", V + "/seeded/" + i + "/patch.diff"], check=True)
    env["KMSIM_REPO"] = repo
    for p in props or [json.load(open(V + "/seeded/" + i + "/meta.json"))["property"]]:
        t = time.time()
        r = subprocess.run(["python3", V + "/check.py", p], capture_output=True, text=True, env=env)
        print("%-20s %s rc=%d %.0fs %s" % (i, p, r.returncode, time.time() - t, (r.stdout.strip().split("\n")[0][:220] + r.stderr[-300:])), flush=True)
