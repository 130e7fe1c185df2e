#!/usr/bin/env python3
"""Build the monitors against /repo's working tree, run one property's check.

  check.py <ID> [--thorough]      run the check, write evidence/<ID>.json
  check.py <ID> --replay FILE     run again the one case a violation came from

Exit 0: the property held on everything observed. Exit 1: a VIOLATION line.
Exit 2: no verdict (build failure, harness error).
"""
import json, os, re, shutil, subprocess, sys, tempfile, time, hashlib, threading

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.join(HERE, "harness")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

DEADLINE = [0]
MODULE = "cardinal-streams/v2/"


def goenv():
    e = dict(os.environ)
    e.update(GOFLAGS="-mod=readonly", GOPROXY="off", GOTOOLCHAIN="local", GOWORK="off", CGO_ENABLED="1")
    e.pop("GOEXPERIMENT", None)
    return e


def build(parts, tmp):
    """go test -c every needed binary, in parallel."""
    todo = {}
    for p in parts:
        todo[(p["pkg"], bool(p.get("race")))] = None
    errs = []

    def one(key):
        pkg, race = key
        out = os.path.join(tmp, "%s%s.test" % (pkg, "-race" if race else ""))
        cmd = ["go", "test", "-c", "-vet=off", "-o", out]
        if race:
            cmd.append("-race")
        r = subprocess.run(cmd + ["./" + pkg], cwd=HARNESS, env=goenv(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            errs.append(r.stdout)
        todo[key] = out

    ts = [threading.Thread(target=one, args=(k,)) for k in todo]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        print("BUILD FAILED\n" + "\n".join(errs)[-6000:])
        sys.exit(2)
    return todo


def crash_site(text):
    """Classify the output of a worker that died: (sig, ours)."""
    kind = "crash"
    m = re.search(r"^(panic: .*|fatal error: .*|VERIF-HANG.*)$", text, re.M)
    head = m.group(1)[:300] if m else "worker died"
    if head.startswith("VERIF-HANG"):
        kind = "hang"
    elif "deadlock: main bubble goroutine" in head or "all goroutines in bubble are blocked" in head:
        kind = "deadlock"
    body = text[m.start():] if m else text
    frames = re.findall(r"^(?:created by )?github\.com/openrelayxyz/cardinal-streams/v2/((?:[\w./-]|\(\*\w+\))+)", body, re.M)
    frames = [re.sub(r"\(0x.*|\(\{.*|\(\)$|\(\.\.\.\)$", "", f) for f in frames]
    if kind == "crash" and m:
        # the first goroutine printed is the one that died
        first = body.split("\n\ngoroutine ", 2)
        first = "\n".join(first[:2])
        ours = MODULE in first or "/repo/" in first
    else:
        ours = bool(frames)
    site = frames[0] if frames else "?"
    if kind == "hang":  # a running or lock-blocked goroutine of ours
        for g in re.split(r"\n\ngoroutine ", body):
            if MODULE in g and re.match(r"(goroutine )?\d+ .*\[(running|runnable|sync\.|semacquire)", g):
                f = re.search(r"cardinal-streams/v2/((?:[\w./-]|\(\*\w+\))+)", g)
                if f:
                    site = f.group(1)
                    break
    return "%s:%s" % (kind, site), head, ours


RACE_RE = re.compile(r"={18}\nWARNING: DATA RACE\n(.*?)\n={18}", re.S)


def races(text):
    """Race reports whose accesses are the code under test's own."""
    out = []
    for m in RACE_RE.finditer(text):
        rep = m.group(1)
        stacks = re.split(r"\n\n", rep)
        sites = []
        for st in stacks:
            h = st.strip().split("\n")[0]
            if not re.search(r"(read|write) at 0x", h, re.I):
                continue
            frames = []
            lines = st.strip().split("\n")[1:]
            for i in range(0, len(lines) - 1, 2):
                frames.append((lines[i].strip(), lines[i + 1].strip()))
            own = None
            for fn, loc in frames:
                if "/go1." in loc and "/src/" in loc or fn.startswith(("runtime.", "sync.", "internal/")):
                    continue  # standard library: look at its caller
                if MODULE in fn:
                    own = re.sub(r"\(\)$", "", fn[fn.index(MODULE) + len(MODULE):])
                elif "gorilla/websocket" in fn:
                    continue  # a connection's rules are its user's to keep
                break
            sites.append(own)
        ours = [s for s in sites if s]
        if ours:
            out.append(("race:" + "|".join(sorted(set(ours))), rep))
    return out


def run_worker(binary, part, prop, tier, seed, shard, shards, tmp, only=None):
    """Run one shard, resuming past crashes. Returns (results, violations, errors)."""
    results, viols, errors = [], [], []
    start = ""
    for attempt in range(4):
        tag = "%s-%s-%d-%d" % (part["name"], prop, shard, attempt)
        out = os.path.join(tmp, tag + ".json")
        prog = os.path.join(tmp, tag + ".prog")
        logp = os.path.join(tmp, tag + ".log")
        env = goenv()
        env.update(VERIF_PROP=prop, VERIF_TIER=tier, VERIF_SEED=str(seed), VERIF_SHARD=str(shard), VERIF_SHARDS=str(shards),
                   VERIF_OUT=out, VERIF_PROGRESS=prog, VERIF_FROM=start, VERIF_PART=part["name"],
                   GOMAXPROCS=str(part.get("procs", 2)), GOTRACEBACK="all", TMPDIR=tmp,
                   GORACE="halt_on_error=0 exitcode=66 history_size=3")
        env.update(part.get("env", {}))
        if only:
            env["VERIF_ONLY"] = only
            env["VERIF_VERBOSE"] = "1"
        with open(logp, "w") as lf:
            try:
                p = subprocess.run([binary, "-test.run", "^TestCheck$", "-test.timeout", "0"], cwd=tmp, env=env, stdout=lf, stderr=subprocess.STDOUT, timeout=max(5, DEADLINE[0] - time.time()))
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
        text = open(logp, errors="replace").read()
        res = None
        if os.path.exists(out):
            try:
                res = json.load(open(out))
                results.append(res)
            except ValueError:
                pass
        at = open(prog).read() if os.path.exists(prog) else ""
        for sig, rep in races(text):
            viols.append(dict(sig=sig, msg="data race: " + sig[5:], suite=at.split("/")[0], case=-1, trace=rep.split("\n")[:120], part=part["name"]))
        if only:
            print(text[-20000:])
        if res and res.get("done"):
            break
        if rc == "timeout":
            if not (res and res.get("violations")) and not viols:
                errors.append("worker %s ran out of time at %s" % (tag, at))
            break
        sig, head, ours = crash_site(text)
        if not ours:
            errors.append("worker %s died without a verdict (rc %s, at %s): %s\n%s" % (tag, rc, at, head, text[max(0, text.find(head[:40])):][:2500]))
            break
        suite, _, case = at.partition("/")
        viols.append(dict(sig=sig, msg="the process died: " + head, suite=suite, case=int(case or -1), trace=text[text.find(head[:40]):].split("\n")[:300], part=part["name"]))
        start = at
        if only or sig.startswith("hang"):
            break
    return results, viols, errors


def load_known(prop):
    known = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) sig=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                known.append((m.group(2), m.group(3)))
    return known


def main():
    args = sys.argv[1:]
    if args == ["--setup"]:
        tmp = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            pkgs = {(p["pkg"], bool(p.get("race"))) for c in CHECKS.values() for p in c["parts"]}
            build([dict(pkg=a, race=b) for a, b in pkgs], tmp)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        print("built", len(pkgs), "monitor binaries")
        return
    prop = args[0]
    tier = "thorough" if "--thorough" in args else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    spec = CHECKS[prop]
    only, only_part = None, None
    if "--replay" in args:
        rp = json.load(open(args[args.index("--replay") + 1]))
        seed, tier, only_part = rp["seed"], rp["tier"], rp["part"]
        if rp["case"] >= 0:
            only = "%s/%d" % (rp["suite"], rp["case"])
    parts = [dict(p) for p in spec["parts"]]
    for i, p in enumerate(parts):
        p.setdefault("name", "p%d" % i)
    if only_part:
        parts = [p for p in parts if p["name"] == only_part]
    t0 = time.time()
    # a check has 900 s; what was observed by then decides
    DEADLINE[0] = t0 + (780 if tier == "quick" else 6 * 3600)
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop)
    try:
        bins = build(parts, tmp)
        tbuild = time.time() - t0
        jobs, results, viols, errors = [], [], [], []
        lock = threading.Lock()
        # parts that mostly wait ("conc") run more workers than there are cores
        sems = {p["name"]: threading.Semaphore(p.get("conc") or os.cpu_count() or 8) for p in parts}

        def go(part, shard, shards):
            with sems[part["name"]]:
                r, v, e = run_worker(bins[(part["pkg"], bool(part.get("race")))], part, prop, tier, seed, shard, shards, tmp, only)
            for x in r:
                for y in x["violations"] or []:
                    y["part"] = part["name"]
            with lock:
                results.extend(r)
                viols.extend(v)
                errors.extend(e)

        for p in parts:
            n = 1 if only else p.get("shards", 8)
            for s in range(n):
                jobs.append(threading.Thread(target=go, args=(p, s, n)))
        [j.start() for j in jobs]
        [j.join() for j in jobs]
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    evals = sum(r["evaluations"] for r in results)
    distinct = set()
    counters, inconclusive, samples = {}, {}, []
    for r in results:
        distinct.update(r["distinct"] or [])
        samples += r["samples"] or []
        viols += r["violations"] or []
        for k, v in (r["counters"] or {}).items():
            counters[k] = max(counters.get(k, 0), v) if k.startswith("max_") else counters.get(k, 0) + v
        for k, v in (r["inconclusive"] or {}).items():
            inconclusive[k] = inconclusive.get(k, 0) + v
    ninc = sum(inconclusive.values())
    known = load_known(prop)
    seen_known, new = {}, {}
    for v in viols:
        hit = next((w for s, w in known if re.fullmatch(s, v["sig"])), None)
        if hit:
            seen_known[hit] = seen_known.get(hit, 0) + 1
        else:
            new.setdefault(v["sig"], v)
    if only is None:
        cov = dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=spec["rule"],
                   samples=[s[:1200] for s in samples[:6]] or ["none"], observed=counters,
                   held=max(0, evals - ninc - counters.get("violations", 0)), inconclusive=inconclusive, build_s=round(tbuild, 1))
        ev = dict(property=prop, tier=tier, seed=seed, level=spec.get("level", "exploration"), coverage=cov,
                  assumptions=spec.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(new))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for k, n in inconclusive.items():
        print("INCONCLUSIVE %s x%d" % (k, n))
    for w in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    for sig, v in sorted(new.items()):
        rdir = os.path.join(HERE, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (prop, hashlib.sha1(sig.encode()).hexdigest()[:8]))
        with open(path, "w") as f:
            json.dump(dict(property=prop, seed=seed, tier=tier, part=v.get("part", "p0"), suite=v["suite"], case=v["case"], sig=sig, msg=v["msg"], trace=v.get("trace")), f, indent=1)
        print("%s/%s [%s] %s" % (v["suite"], v["case"], sig, v["msg"][:400]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s seed=%d: %d executions, %d distinct, %s, %d violation kinds, %.1fs" % (prop, tier, seed, evals, len(distinct), json.dumps(counters), len(new), time.time() - t0))
    if new:
        sys.exit(1)
    for e in errors[:2]:
        print("HARNESS ERROR " + e)
    if errors or (evals == 0):
        sys.exit(2)
    if any(k.startswith("harness panic") for k in inconclusive):
        sys.exit(2)
    if spec.get("min_conclusive") and evals - ninc < spec["min_conclusive"] * evals:
        print("too many inconclusive executions")
        sys.exit(2)
    sys.exit(0)


main()
