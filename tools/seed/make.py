"""make.py [id...]: writes /verif/seeded/<id>/ from bugs*.py: patch.diff, demo.sh, demo_test.go, meta.json."""
import difflib, importlib, json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
OUT = os.path.join(HERE, "..", "..", "seeded")
DEMO = '''#!/bin/bash
# exit 0 on the unchanged tree, nonzero with the change
D="$(cd "$(dirname "$0")" && pwd)"
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=%d
T=$(mktemp) || exit 3
trap 'rm -f "$T"' EXIT
printf '{"Replace": {"%%s/zz_demo_test.go": "%%s/demo_test.go", "%%s/zz_client_test.go": "%%s/client_test.go"}}' "$PWD" "$D" "$PWD" "$D" > "$T"
go test%s -vet=off -count=1 -overlay "$T" -run '^TestDemo$' -timeout 240s .
'''
bugs = {}
for f in sorted(os.listdir(HERE)):
    if f.startswith("bugs") and f.endswith(".py"):
        for b in importlib.import_module(f[:-3]).BUGS:
            assert b["id"] not in bugs, b["id"]
            bugs[b["id"]] = b

def main(ids):
    for i in ids or bugs:
        b = bugs[i]
        files = {}
        for name, old, new in b["edits"]:
            s = files.get(name) or open("/repo/" + name).read()
            assert s.count(old) == 1, (i, name, s.count(old), old)
            files[name] = s.replace(old, new)
        diff = ""
        for name, s in files.items():
            o = open("/repo/" + name).read()
            fm = subprocess.run(["gofmt"], input=s, capture_output=True, text=True)
            assert fm.returncode == 0, (i, fm.stderr)
            s = fm.stdout
            diff += "diff --git a/%s b/%s\n" % (name, name)
            diff += "".join(difflib.unified_diff(o.splitlines(True), s.splitlines(True), "a/" + name, "b/" + name))
        d = os.path.join(OUT, i)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        race = b.get("race", False)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO % (race, " -race" if race else ""))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo_test.go"), "w").write("package kafkamock_test\n\n" + b["demo"].strip() + "\n")
        shutil.copy(os.path.join(HERE, "client_test.go"), os.path.join(d, "client_test.go"))
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        print(i)

if __name__ == "__main__":
    main(sys.argv[1:])
