#!/usr/bin/env python3
"""Check driver:  run.py <PROPERTY> [quick|thorough]

Builds the harness package that decides PROPERTY against /repo's current working
tree (through a go build overlay; nothing is written in /repo), runs it, and
turns what its monitors recorded into evidence/<PROPERTY>.json and a verdict:
exit 0 (held on everything explored) or exit 1 with a VIOLATION line.
"""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

GOROOT = "/opt/veriftools/go1.24.13"

def goenv(extra=None):
    e = dict(os.environ)
    e.update({
        "HOME": "/root", "GOROOT": GOROOT,
        "PATH": GOROOT + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        "GOTOOLCHAIN": "local", "GOPROXY": "off", "GOFLAGS": "-mod=mod -buildvcs=false",
        "GOPATH": "/root/go", "GOMODCACHE": "/root/go/pkg/mod",
        "GOCACHE": os.environ.get("GOCACHE", "/root/.cache/go-build"),
        "GOWORK": "off", "CGO_ENABLED": "1",
    })
    for k in ("GOOS", "GOARCH", "GOEXPERIMENT", "GORACE"):
        e.pop(k, None)
    if extra:
        e.update(extra)
    return e

def build(scratch, pkg, race=False, experiment="", tags="verif"):
    """Compile harness package pkg; returns path of the test binary."""
    hroot = os.path.join(VERIF, "harness")
    repl = {}
    virt = os.path.join(REPO, "proxy/internal/zzverif")
    for d in ("vh", "vp", pkg):
        src = os.path.join(hroot, d)
        if not os.path.isdir(src):
            continue
        for f in sorted(os.listdir(src)):
            if f.endswith(".go"):
                repl[os.path.join(virt, d, f)] = os.path.join(src, f)
    # The browser-side WASM client is embedded by the pki package; its content is
    # irrelevant to the monitors, and building it would only cost time.
    stubs = os.path.join(hroot, "stubs")
    for f in ("pki.wasm.bz2", "wasm_exec.js"):
        repl[os.path.join(REPO, "proxy/internal/pki", f)] = os.path.join(stubs, f)
    ov = os.path.join(scratch, "overlay.json")
    with open(ov, "w") as f:
        json.dump({"Replace": repl}, f)
    for f in ("go.mod", "go.sum"):
        shutil.copy(os.path.join(REPO, f), os.path.join(scratch, f))
    out = os.path.join(scratch, pkg + (".race" if race else "") + ".test")
    cmd = ["go", "test", "-vet=off", "-c", "-o", out, "-overlay", ov,
           "-modfile", os.path.join(scratch, "go.mod"), "-tags", tags]
    if race:
        cmd.append("-race")
    cmd.append("./proxy/internal/zzverif/" + pkg)
    env = goenv({"GOEXPERIMENT": experiment} if experiment else None)
    r = subprocess.run(cmd, cwd=REPO, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        sys.stdout.write(r.stdout[-6000:])
        raise SystemExit(2)
    return out

FRAME = re.compile(r"^\s+(/\S+\.go):(\d+)", re.M)

def crash_origin(log):
    """If the process died from a Go panic/fatal error, return (headline, key, in_proxy)."""
    m = re.search(r"^(panic: .*|fatal error: .*|SIGSEGV.*|unexpected fault address.*)$", log, re.M)
    if not m:
        return None
    tail = log[m.start():]
    head = m.group(1)
    # first goroutine block = the crashing one
    blocks = re.split(r"\n\n", tail)
    stack = ""
    for b in blocks:
        if b.lstrip().startswith("goroutine "):
            stack = b
            break
    files = []
    for f, ln in FRAME.findall(stack):
        if "/go1.24" in f and "/src/" in f:
            continue
        files.append(f)
    first = next((f for f in files if REPO + "/" in f or "/zzverif/" in f or VERIF in f), "")
    inproxy = bool(first) and "/zzverif/" not in first and not first.startswith(VERIF)
    funcs = re.findall(r"^(?:github\.com/c2FmZQ/tlsproxy/)(\S+?)\(", stack, re.M)
    funcs = [x for x in funcs if "zzverif" not in x]
    return head, (funcs[0] if funcs else first), inproxy, tail[:6000]

def races(logs):
    """Parse race detector reports -> list of (key, text)."""
    out = []
    for text in logs:
        for blk in re.findall(r"WARNING: DATA RACE\n(.*?)\n==================", text, re.S):
            parts = re.split(r"\n\n", blk)
            acc = []
            for prt in parts[:2]:
                fn = [x for x in re.findall(r"^  (\S+)\(", prt, re.M)]
                repo = [x for x in fn if "c2FmZQ/tlsproxy" in x and "zzverif" not in x]
                acc.append((repo[0] if repo else (fn[0] if fn else "?")).replace("github.com/c2FmZQ/tlsproxy/", ""))
            files = FRAME.findall(blk)
            in_repo = any((f.startswith(REPO + "/") and "/zzverif/" not in f) for f, _ in files)
            key = "race:" + "|".join(sorted(acc))
            out.append((key, in_repo, blk))
    return out

def main():
    if sys.argv[1:] == ["--selftest"]:
        # setup: the tools and every harness file the checks need are there
        for pid, c in CHECKS.items():
            for st in c["steps"]:
                d = os.path.join(VERIF, "harness", st["pkg"])
                assert os.path.isdir(d), d
        subprocess.run(["go", "version"], env=goenv(), check=True)
        print("ok"); return 0
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        print("usage: run.py PROPERTY [quick|thorough]"); return 2
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = CHECKS[pid]
    t0 = time.time()
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    for f in os.listdir(evdir):
        if f.startswith(pid + ".") or f.startswith(pid + "-replay"):
            os.unlink(os.path.join(evdir, f))
    scratch = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    rc = 2
    try:
        rc = run(pid, tier, seed, spec, t0, evdir, scratch)
    finally:
        if os.environ.get("VERIF_KEEP"):
            print("scratch kept:", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    return rc

def run(pid, tier, seed, spec, t0, evdir, scratch):
    known = []
    kf = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(kf):
        for line in open(kf):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                known.append((m.group(2), m.group(3)))
    total = {"evaluations": 0, "distinct": 0, "counts": {}, "samples": [], "rules": [], "assumptions": []}
    viols, inconclusive, notes = [], [], []
    for step in spec["steps"]:
        pkg, test = step["pkg"], step["test"]
        # In a races_only step, another property's workload runs only for the sake
        # of the race detector: what else it finds is that property's business.
        only = step.get("races_only", False)
        race = step.get("race", False)
        binp = build(scratch, pkg, race=race, experiment=step.get("experiment", ""))
        tmp = os.path.join(scratch, "w-%s-%d" % (pkg, len(notes))); notes.append(pkg)
        os.makedirs(tmp)
        os.chmod(tmp, 0o755)
        outp = os.path.join(tmp, "result.json")
        logp = os.path.join(tmp, "log.txt")
        work = os.path.join(tmp, "work"); os.makedirs(work)
        env = goenv({"VERIF_OUT": outp, "VERIF_TIER": tier, "VERIF_SEED": str(seed), "VERIF_PROPERTY": pid,
                     "VERIF_WORK": work, "TMPDIR": work, "VERIF_RACE": "1" if race else "",
                     "GOTRACEBACK": "all",
                     "GORACE": "halt_on_error=0 log_path=%s/race history_size=3 atexit_sleep_ms=200" % tmp})
        if step.get("args_env"):
            env.update(step["args_env"])
        to = step.get("timeout", {}).get(tier, 600 if tier == "quick" else 3600)
        attempts = 0
        while True:
            attempts += 1
            with open(logp, "wb") as lf:
                pr = subprocess.Popen([binp, "-test.run", "^" + test + "$", "-test.timeout", "%ds" % to, "-test.count=1"],
                                      cwd=work, env=env, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True)
                try:
                    prc = pr.wait(timeout=to + 30)
                except subprocess.TimeoutExpired:
                    prc = -99
                finally:
                    try:
                        os.killpg(pr.pid, signal.SIGKILL)
                    except OSError:
                        pass
                    pr.wait()
            with open(logp, "rb") as lf:
                log = lf.read().decode("utf8", "replace")
            res = None
            if os.path.exists(outp):
                try:
                    res = json.load(open(outp))
                except ValueError:
                    res = None
            co = crash_origin(log) if prc != 0 else None
            if res is not None and res.get("done"):
                break
            if co and co[2] and "test timed out" not in co[0]:
                break
            if res is not None and res.get("violations"):
                break
            if attempts >= 2 or only:
                break
        if os.environ.get("VERIF_VERBOSE"):
            sys.stdout.write(log[-20000:])
        if res:
            total["evaluations"] += res.get("evaluations", 0)
            total["distinct"] += res.get("distinct", 0)
            for k, v in (res.get("counts") or {}).items():
                total["counts"][k] = total["counts"].get(k, 0) + v
            total["samples"] += (res.get("samples") or [])[:6]
            if res.get("rule"):
                total["rules"].append(res["rule"])
            for v in [] if only else res.get("violations") or []:
                viols.append((v["key"], v["msg"], v.get("replay")))
            for v in [] if only else res.get("inconclusive") or []:
                inconclusive.append(v)
        if race:
            rl = []
            for f in sorted(os.listdir(tmp)):
                if f.startswith("race."):
                    rl.append(open(os.path.join(tmp, f), errors="replace").read())
            rl.append(log)
            nrace = 0
            seen = set()
            for key, in_repo, blk in races(rl):
                nrace += 1
                if key in seen:
                    continue
                seen.add(key)
                if in_repo:
                    viols.append((key, "data race reported by the Go race detector: " + key, blk))
                else:
                    inconclusive.append("race report outside the code under test: " + key)
            total["counts"]["race_reports"] = total["counts"].get("race_reports", 0) + nrace
        if co and co[2] and "test timed out" not in co[0]:
            viols.append(("crash:" + co[1], "the process running the proxy crashed: " + co[0], co[3]))
        elif (res is None or not res.get("done")) and not only:
            if not viols:
                sys.stdout.write((co[3] + "\n...\n" if co else "") + log[-4000:])
                print("INCONCLUSIVE property=%s harness did not finish (exit %s)" % (pid, prc))
                return 2
    # verdict
    fresh, knownhit = [], {}
    for key, msg, rep in viols:
        hit = next((k for k in known if k[0] == key), None)
        if hit:
            knownhit.setdefault(key, hit[1])
        else:
            fresh.append((key, msg, rep))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": total["evaluations"], "distinct_nontrivial": total["distinct"],
            "rule": " ".join(total["rules"]), "samples": total["samples"],
            "observed": total["counts"], "inconclusive": inconclusive[:20],
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2), "violations": len(fresh),
    }
    with open(os.path.join(evdir, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for key, what in knownhit.items():
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    for i in inconclusive[:5]:
        print("note: inconclusive observation: %s" % i)
    print("property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs" % (pid, tier, total["evaluations"], total["distinct"], time.time() - t0))
    print("observed: " + json.dumps(total["counts"], sort_keys=True))
    if not fresh:
        if total["evaluations"] == 0:
            print("INCONCLUSIVE nothing observed"); return 2
        return 0
    shown = set()
    for i, (key, msg, rep) in enumerate(fresh):
        if key in shown or len(shown) >= 8:
            continue
        shown.add(key)
        rp = os.path.join(evdir, "%s-replay-%d.json" % (pid, i))
        with open(rp, "w") as f:
            json.dump({"property": pid, "tier": tier, "seed": seed, "key": key, "message": msg, "witness": rep,
                       "command": "VERIF_SEED=%d python3 %s/run.py %s %s" % (seed, VERIF, pid, tier)}, f, indent=1)
        print("violation [%s]: %s" % (key, msg[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    return 1

if __name__ == "__main__":
    sys.exit(main())
