#!/usr/bin/env python3
"""Runs the check of one property.

  check.py C01 [quick|thorough]      run the check
  check.py --replay FILE             run one recorded counterexample again
  check.py --build                   only build (setup)

Exit 0: held on everything explored (known findings are printed).
Exit 1: violated; a line VIOLATION property=<id> replay=<path> is printed.
Any other status: the check gave no answer (build failure, out of time, ...).
"""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
HARNESS = os.path.join(VERIF, "harness")
GO = "/opt/veriftools/go1.23.12"

# per property: shards, race build
CFG = {"C27": {"shards": 4, "race": True}}
DEFAULT_SHARDS = 7


def goenv():
    e = dict(os.environ)
    e.update(HOME="/root", PATH=GO + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
             GOROOT=GO, GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
             GOTOOLCHAIN="local", GOSUMDB="off", GOPROXY="off", GOWORK="off", GOENV="off", CGO_ENABLED="1")
    return e


def build(tmp, race=False):
    """Compiles the harness against the working tree of /repo."""
    mod = os.path.join(tmp, "verif.mod")
    shutil.copy(os.path.join(HARNESS, "verif.mod"), mod)
    shutil.copy(os.path.join(HARNESS, "verif.sum"), os.path.join(tmp, "verif.sum"))
    ov = os.path.join(tmp, "overlay.json")
    rep = {}
    for f in glob.glob(os.path.join(HARNESS, "*_test.go")):
        rep[os.path.join(REPO, "zzverif", os.path.basename(f))] = f
    for f in glob.glob(os.path.join(HARNESS, "data", "*")):
        rep[os.path.join(REPO, "zzverif", "data", os.path.basename(f))] = f
    json.dump({"Replace": rep}, open(ov, "w"))
    out = os.path.join(tmp, "zz.test")
    e = goenv()
    e["GOFLAGS"] = "-mod=mod -modfile=" + mod
    cmd = ["go", "test", "-c", "-vet=off", "-overlay", ov, "-o", out]
    if race:
        cmd.append("-race")
    cmd.append("./zzverif")
    r = subprocess.run(cmd, cwd=REPO, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        print(r.stdout[-6000:])
        print("ERROR: the harness does not build against", REPO)
        sys.exit(4)
    return out


def run_shards(prop, binary, tmp, tier, seed, shards, limit, pattern, extra_env=None, extra_args=None, only=None):
    procs = []
    todo = range(shards) if only is None else [only]
    for s in todo:
        d = os.path.join(tmp, "shard%d" % s)
        os.makedirs(d, exist_ok=True)
        os.chmod(d, 0o755)
        e = dict(goenv())
        e.update(VERIF_TIER=tier, VERIF_SHARD=str(s), VERIF_SHARDS=str(shards), VERIF_OUT=d,
                 VERIF_RAPID_SEED=str((seed * 1000003 + s * 7919777 + 1) & 0x7fffffffffffffff),
                 VERIF_SEED=str(seed), TMPDIR=d, GOMAXPROCS="2", VERIF_DIR=VERIF)
        e.setdefault("GOTRACEBACK", "all")
        e["GORACE"] = "log_path=%s halt_on_error=0" % os.path.join(d, "race")
        e.update(extra_env or {})
        log = open(os.path.join(d, "log"), "wb")
        args = [binary, "-test.run", pattern, "-test.timeout", "0", "-test.v"] + (extra_args or [])
        procs.append((s, d, subprocess.Popen(args, cwd=d, env=e, stdout=log, stderr=subprocess.STDOUT,
                                             start_new_session=True), log))
    end = time.time() + limit
    res = []
    for s, d, p, log in procs:
        timed = False
        try:
            rc = p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            timed = True
            try:
                os.killpg(p.pid, 9)
            except ProcessLookupError:
                pass
            rc = p.wait()
        log.close()
        txt = open(os.path.join(d, "log"), "rb").read().decode("utf8", "replace")
        res.append(dict(shard=s, dir=d, rc=rc, timed=timed, out=txt))
    return res


FAIL = re.compile(r"^\s*--- FAIL: (Test\w+)(/\S+)? ", re.M)


def failures(r):
    """Failed sub-tests of one shard: (full name, text, fail file or None)."""
    names = [(a, b or "") for a, b in FAIL.findall(r["out"])]
    leaf = [a + b for a, b in names if b]
    if not leaf:
        leaf = [a for a, b in names]
    res = []
    for n in leaf:
        end = r["out"].find("--- FAIL: " + n + " ")
        start = max(r["out"].find("=== RUN   " + n + "\n"), 0)
        k = r["out"].find("[rapid] ", start, end)  # the log of the sub-test precedes its verdict
        if k >= 0:
            start = r["out"].rfind("\n", 0, k) + 1
        txt = r["out"][start:end][:40000] + r["out"][end:end + 2000]
        m = re.search(r'-rapid\.failfile="([^"]+)"', txt)
        ff = None
        if m:
            ff = m.group(1)
            if not os.path.isabs(ff):
                ff = os.path.join(r["dir"], ff)
        res.append((n, txt, ff))
    return res


def interesting(txt):
    """The useful part of a failure text."""
    lines = [l for l in txt.split("\n") if "[rapid] draw" not in l and not l.startswith(("object folder '", "object id '"))]
    return "\n".join(lines[:40])[:5000]


def save_replay(prop, tier, seed, r, shards, name, ff, txt):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s-%d-%d.json" % (prop, re.sub(r"\W+", "_", name), seed, r["shard"]))
    rep = dict(property=prop, test=name, tier=tier, seed=seed, shard=r["shard"], shards=shards, text=txt[:20000])
    if ff and os.path.exists(ff):
        rep["failfile"] = open(ff, encoding="utf8", errors="replace").read()
    json.dump(rep, open(path, "w"), indent=1)
    return path


def crash_of(r):
    """A crash of the test process caused by the code under test, or ''."""
    if r["rc"] in (0, 1, 3) and "panic: " not in r["out"]:
        return ""
    o = r["out"]
    for mark in ("WARNING: DATA RACE", "fatal error: ", "panic: "):
        i = o.find(mark)
        if i >= 0 and (REPO + "/pkg/" in o[i:] or "je4/gocfl" in o[i:]):
            return o[i:i + 6000]
    return ""


def describe(prop):
    for m in json.load(open(os.path.join(VERIF, "MANIFEST.json")))["checks"]:
        if m["property"] == prop:
            return m
    return {"level": "exploration"}


def rules():
    return json.load(open(os.path.join(HARNESS, "rules.json")))


def main():
    a = sys.argv[1:]
    tmp = tempfile.mkdtemp(prefix="verif-")
    os.chmod(tmp, 0o755)
    try:
        if a and a[0] == "--build":
            build(tmp)
            print("built")
            return 0
        if len(a) == 2 and a[0] == "--replay":
            return replay(a[1], tmp)
        return check(a, tmp)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(tmp, ignore_errors=True)
        else:
            print("kept", tmp)


def replay(f, tmp):
    rep = json.load(open(f))
    prop = rep["property"]
    binary = build(tmp, CFG.get(prop, {}).get("race", False))
    args = ["-rapid.nofailfile"]
    if rep.get("failfile"):
        ff = os.path.join(tmp, "replay.fail")
        open(ff, "w", encoding="utf8").write(rep["failfile"])
        args = ["-rapid.failfile=" + ff]
    pat = "/".join("^" + re.escape(p) + "$" for p in rep["test"].split("/")) if rep["test"] else "^Test" + prop + "$"
    res = run_shards(prop, binary, tmp, rep["tier"], rep["seed"], rep["shards"], 850, pat, extra_args=args, only=rep["shard"])
    r = res[0]
    print(r["out"][-12000:])
    if failures(r) or crash_of(r):
        print("VIOLATION property=%s replay=%s" % (prop, f))
        return 1
    return 0 if r["rc"] == 0 else 5


def check(a, tmp):
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    cfg = CFG.get(prop, {})
    shards = cfg.get("shards", DEFAULT_SHARDS)
    binary = build(tmp, cfg.get("race", False))
    limit = 820 if tier == "quick" else int(os.environ.get("VERIF_LIMIT", "7200"))
    env = {"VERIF_BUDGET": str(cfg.get("budget", 420) if tier == "quick" else limit - 600)}
    res = run_shards(prop, binary, tmp, tier, seed, shards, limit, "^Test%s$" % prop, env)

    # evidence
    evals, hashes, samples, classes, known = 0, set(), [], {}, []
    parts = 0
    for r in res:
        f = os.path.join(r["dir"], "part-%d.json" % r["shard"])
        if not os.path.exists(f):
            continue
        parts += 1
        p = json.load(open(f))
        evals += p["evaluations"]
        hashes.update(p["hashes"] or [])
        for s in (p["samples"] or []):
            if len(samples) < 24 and sum(x.get("check") == s.get("check") for x in samples) < 3:
                samples.append(s)
        for k, v in (p["classes"] or {}).items():
            classes[k] = classes.get(k, 0) + v
        for k in (p["known"] or []):
            if k not in known:
                known.append(k)
    viol, infra = [], []
    for r in res:
        fs = failures(r)
        c = crash_of(r)
        for n, txt, ff in fs:
            viol.append((r, n, txt, ff))
        if c:
            n = ""
            m = re.findall(r"^=== RUN\s+(\S+)", r["out"], re.M)
            if m:
                n = m[-1]
            if not any(v[0] is r and v[1] == n for v in viol):
                viol.append((r, n, "process crashed:\n" + c, None))
        elif r["timed"]:
            infra.append("shard %d ran out of time" % r["shard"])
        elif r["rc"] != 0 and not fs:
            infra.append("shard %d ended with status %s:\n%s" % (r["shard"], r["rc"], r["out"][-3000:]))
        elif r["rc"] == 0 and not os.path.exists(os.path.join(r["dir"], "part-%d.json" % r["shard"])):
            infra.append("shard %d wrote no evidence" % r["shard"])
    man = describe(prop)
    ev = dict(property=prop, tier=tier, seed=seed, level=man["level"],
              coverage=dict(evaluations=evals, distinct_nontrivial=len(hashes),
                            rule=rules().get(prop, ""), samples=samples, classes=dict(sorted(classes.items()))),
              assumptions=man.get("assumptions", []) or ["see level_note in MANIFEST.json and DESIGN.md"],
              wall_s=round(time.time() - t0, 1), violations=len({v[1] for v in viol}))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, %.0f s" % (prop, tier, seed, evals, len(hashes), ev["wall_s"]))
    listed = open(os.path.join(VERIF, "known-findings.txt")).read().splitlines()
    for k in sorted(known):
        if "known: property=%s %s" % (prop, k) in listed:
            print("KNOWN-FINDING: property=%s %s" % (prop, k))
        else:
            viol.append((res[0], "Test" + prop, "not a listed known finding: " + k, None))
    if viol:
        seen = set()
        for r, n, txt, ff in viol:
            if n in seen:
                continue
            seen.add(n)
            path = save_replay(prop, tier, seed, r, shards, n or prop, ff, txt)
            print("---- " + (n or prop))
            print(interesting(txt))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if infra:
        print("ERROR: no answer:\n" + "\n".join(infra))
        return 5
    if evals == 0:
        print("ERROR: no case was run")
        return 6
    return 0


if __name__ == "__main__":
    sys.exit(main())
