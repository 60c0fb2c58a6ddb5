#!/usr/bin/env python3
"""Builds /verif/seeded/<id>/ from the bugs in bugs*.py (same folder) and confirms each in a scratch copy:
mk.py [id...]: without ids, every bug which is not there yet."""
import os, sys, subprocess, shutil, json, glob
H = os.path.dirname(os.path.abspath(__file__))
W = "/tmp/w"
B = {}
def bug(id, prop, edits, needs, breaks, demo, imports=""):
    """edits: list of (file, old, new)"""
    assert id not in B, id
    B[id] = dict(prop=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, imports=imports)
for f in sorted(glob.glob(H + "/bugs*.py")):
    exec(open(f).read())
def run(cmd, cwd=W, t=600):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
ids = sys.argv[1:] or [i for i in B if not os.path.exists("/verif/seeded/%s/patch.diff" % i)]
if not os.path.exists(W): run("cp -a /repo " + W, "/tmp")
base = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, capture_output=True, text=True).stdout.strip()
run("git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq")
def tests():
    r = run("go vet ./... >/dev/null 2>&1; go build ./... 2>&1 && go test -count=1 -json ./... 2>/dev/null")
    ok, bad = set(), set()
    for l in r.stdout.splitlines():
        try: d = json.loads(l)
        except Exception: continue
        if d.get("Test"):
            n = d["Package"] + " " + d["Test"]
            if d["Action"] == "pass": ok.add(n)
            if d["Action"] == "fail": bad.add(n)
    return ok, bad, r
ok0, bad0, _ = tests()
print("baseline", len(ok0), len(bad0))
for i in ids:
    b = B[i]
    run("git checkout -q -f . && git clean -fdq")
    D = "/tmp/seedtmp/" + i
    shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
    pre = open(H + "/prelude.go").read()
    if b["imports"]:
        pre = pre.replace('import (\n', 'import (\n' + b["imports"] + "\n", 1)
    open(D + "/demo_test.go", "w").write(pre + "\n" + b["demo"].strip() + "\n")
    run("gofmt -w " + D + "/demo_test.go")
    shutil.copy(H + "/demo.sh", D + "/demo.sh"); os.chmod(D + "/demo.sh", 0o755)
    clean = run("bash %s/demo.sh" % D)
    for f, old, new in b["edits"]:
        p = W + "/" + f; s = open(p).read()
        assert s.count(old) == 1, (i, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    run("gofmt -l . ")
    diff = run("git diff").stdout
    # removed lines must be lines of the original
    mine = []
    for f in {e[0] for e in b["edits"]}:
        orig = run("git show %s:%s" % (base, f)).stdout.splitlines()
        mine += [l for l in run("git diff " + f).stdout.splitlines() if l.startswith("-") and not l.startswith("---") and l[1:] not in orig]
    ok, bad, r = tests()
    broken = run("bash %s/demo.sh" % D)
    msgs = []
    if clean.returncode != 0: msgs.append("demo fails on clean tree:\n" + clean.stdout[-2500:] + clean.stderr[-800:])
    if broken.returncode == 0: msgs.append("demo passes with the bug")
    if "build failed" in broken.stdout: msgs.append("BUILD FAILED " + broken.stdout[-800:] + broken.stderr[-800:])
    if ok0 - ok: msgs.append("tests lost: %s %s" % (ok0 - ok, r.stdout[:500] if not ok else ""))
    if mine: msgs.append("touches lines of mine: %s" % mine)
    if msgs:
        print("BAD ", i, *msgs); continue
    print("ok  ", i, [l.strip() for l in broken.stdout.splitlines() if "demo_test.go" in l or "panic" in l][:1])
    json.dump(dict(property=b["prop"], needs=b["needs"], what_it_breaks=b["breaks"]), open(D + "/meta.json", "w"), indent=1)
    open(D + "/patch.diff", "w").write(diff)
    T = "/verif/seeded/" + i
    shutil.rmtree(T, ignore_errors=True); shutil.copytree(D, T)
run("git checkout -q -f . && git clean -fdq")
