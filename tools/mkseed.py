#!/usr/bin/env python3
"""Create and validate a planted bug.

  mkseed.py make ID SPEC.py     SPEC.py defines prop, needs, breaks, edits=[(file, old, new)],
                                pkg (dir of the demo test, relative to /repo), test (Go source)
  mkseed.py check ID...         applies, builds, runs the stable tests, runs the demo both ways
"""
import json, os, shutil, subprocess, sys, tempfile, runpy

SEED = "/verif/seeded"
DEMO = '''#!/bin/bash
# Exits 0 when the behaviour is right, 1 when it is broken.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
printf '{"Replace":{"%s/@PKG@/zz_demo_test.go":"%s/demo_test.go.txt"}}' "$repo" "$here" > "$tmp/overlay.json"
go test -vet=off -count=1 -timeout 120s -overlay "$tmp/overlay.json" -run '^TestZZDemo$' ./@PKG@ > "$tmp/out" 2>&1
rc=$?
tail -40 "$tmp/out"
grep -q '^ok' "$tmp/out" && ! grep -q 'no tests to run' "$tmp/out" || rc=1
exit $rc
'''

def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)

def make(sid, spec):
    s = runpy.run_path(spec)
    d = f"{SEED}/{sid}"
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="mkseed", dir="/tmp")
    try:
        run(f"git -C /repo archive HEAD | tar x -C {w}", "/")
        run("git init -q && git add -A && git -c user.email=a@b -c user.name=n commit -qm base", w)
        for f, old, new in s["edits"]:
            p = f"{w}/{f}"
            t = open(p).read()
            assert t.count(old) == 1, (f, old, t.count(old))
            open(p, "w").write(t.replace(old, new))
        r = run("gofmt -l . | grep -v zz", w)
        diff = run("git diff", w).stdout
        assert diff
        open(f"{d}/patch.diff", "w").write(diff)
    finally:
        shutil.rmtree(w)
    open(f"{d}/demo.sh", "w").write(DEMO.replace("@PKG@", s.get("pkg", "proxy")))
    os.chmod(f"{d}/demo.sh", 0o755)
    open(f"{d}/demo_test.go.txt", "w").write(s["test"])
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(f"{d}/meta.json", "w"), indent=1)

def check(sid):
    """Runs in a private copy bound by path: demo and tests use cwd, so a copy is enough."""
    d = f"{SEED}/{sid}"
    w = tempfile.mkdtemp(prefix="ckseed", dir="/tmp")
    ok = True
    try:
        run(f"cp -a /repo {w}/repo", "/")
        repo = f"{w}/repo"
        env = dict(os.environ)
        r = run(["bash", f"{d}/demo.sh"], repo)
        if r.returncode != 0:
            print(sid, "demo fails on the unchanged tree:", r.stdout[-1500:]); ok = False
        r = run(["git", "apply", f"{d}/patch.diff"], repo)
        if r.returncode:
            print(sid, "patch:", r.stderr); return False
        r = run(". /opt/vp/env.sh; go build ./... && go build -tags noquic,pprof ./... && go test -json -vet=off -count=1 -timeout 10m ./... > ../go.json; python3 /opt/vp/results.py ../out.json gojson:../go.json", repo, executable="/bin/bash")
        base = json.load(open("/opt/vp/BASELINE.json"))
        try:
            out = json.load(open(f"{w}/out.json"))
        except Exception:
            print(sid, "build/test failed", r.stdout[-800:], r.stderr[-800:]); return False
        s = json.dumps(out)
        passed = set(out.get("passed") or out.get("pass") or [])
        miss = [t for t in base["stable"] if t not in passed]
        if miss:
            print(sid, "stable tests fail:", miss); ok = False
        r = run(["bash", f"{d}/demo.sh"], repo)
        if r.returncode == 0:
            print(sid, "demo passes with the patch"); ok = False
        else:
            print(sid, "demo output with the patch:", [l for l in r.stdout.splitlines() if "zz_demo" in l or "panic" in l][:3])
    finally:
        shutil.rmtree(w)
    print(sid, "OK" if ok else "BAD")
    return ok

if sys.argv[1] == "make":
    make(sys.argv[2], sys.argv[3])
elif sys.argv[1] == "check":
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as ex:
        sys.exit(0 if all(list(ex.map(check, sys.argv[2:]))) else 1)
