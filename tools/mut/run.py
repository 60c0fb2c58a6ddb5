#!/usr/bin/env python3
"""run.py [ids]: applies each change of muts*.py to a scratch copy; builds, tests, runs the checks of its properties. Prints caught / MISSED."""
import os, sys, subprocess, json, glob, shutil, concurrent.futures as cf
H = os.path.dirname(os.path.abspath(__file__))
M = {}
def m(id, props, edits): M[id] = (props.split(), edits)
r = m
for f in sorted(glob.glob(H + "/muts*.py") + glob.glob(H + "/refs*.py")): exec(open(f).read())
ids = sys.argv[1:] or list(M)
V = os.environ.get("V", "/tmp/vmut")
subprocess.run("rm -rf %s; mkdir -p %s; cd /verif && tar cf - --exclude=./seeded --exclude=./.git --exclude=./out . | tar xf - -C %s; bash %s/setup.sh" % (V, V, V, V), shell=True)
def sh(c, cwd="/"): return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True)
def one(i):
    props, edits = M[i]
    if not edits or not edits[0][1]: return
    w = "/tmp/wm/" + i
    sh("rm -rf %s; mkdir -p /tmp/wm; cp -a /repo %s" % (w, w))
    for f, o, n in edits:
        s = open(w + "/" + f).read()
        if s.count(o) != 1: print("EDIT?", i, f, s.count(o), repr(o[:60]), flush=True); return
        open(w + "/" + f, "w").write(s.replace(o, n))
    b = sh("go build ./... && go vet ./... 2>&1 | grep -c . >/dev/null; go build ./...", w)
    if b.returncode: print("BUILD", i, b.stderr[:300], flush=True); return
    t = sh("go test -count=1 ./... 2>&1 | grep -E '^(FAIL|---|panic)' | head -3", w)
    if t.stdout.strip(): print("TESTS", i, t.stdout.strip()[:150].replace("\n", " | "), flush=True)
    for p in props:
        r = sh("VX_REPO=%s VX_VERIF=%s timeout 900 bash %s/check.sh %s quick" % (w, V, V, p), w)
        open("/tmp/wm/%s.%s.log" % (i, p), "w").write(r.stdout + r.stderr)
        vi = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
        ok = r.returncode == 1 and vi
        if i[0] == "r": word = "quiet" if r.returncode == 0 else "ALARM"
        else: word = "caught" if ok else "MISSED"
        red = [l for l in r.stdout.splitlines() if l.startswith('reduced:')]
        for l in red: print('   ', i, l[:220], flush=True)
        print(word, i, p, "rc", r.returncode, (vi or [""])[0][:140], flush=True)
    sh("rm -rf " + w)
with cf.ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex: list(ex.map(one, ids))
