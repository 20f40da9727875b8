"""Driver side: builds the code under test, runs worker shards, collects what
the monitors observed, decides the verdict and writes the evidence.

Verdicts are three-valued: exit 0 (held on everything observed), exit 1 with a
VIOLATION line, exit 2 (inconclusive: harness error, or a monitor that observed
nothing)."""
import concurrent.futures
import fcntl
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = "/opt/venv/bin/python"
BUILD_ROOT = os.path.join(VERIF, ".build")
RUN_ROOT = os.path.join(VERIF, ".run")

FLAVOURS = {
    # C assertions stay on in every flavour (-UNDEBUG), as in the project's CI.
    "plain": "-g -O2 -fwrapv -Wall -UNDEBUG",
    "san": "-g -O1 -fwrapv -fno-omit-frame-pointer -UNDEBUG "
           "-fsanitize=address,undefined -fno-sanitize=alignment",
}


class Inconclusive(Exception):
    pass


def source_hash():
    h = hashlib.sha256()
    files = []
    for top in ("guppy", "src", "specs", "docs"):
        for d, dn, fn in os.walk(os.path.join(REPO, top)):
            dn[:] = sorted(x for x in dn if x != "__pycache__")
            for f in sorted(fn):
                if f.endswith((".so", ".pyc", ".o")):
                    continue
                files.append(os.path.join(d, f))
    files.append(os.path.join(REPO, "setup.py"))
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(os.path.relpath(f, REPO).encode() + b"\0")
            with open(f, "rb") as fp:
                h.update(fp.read())
            h.update(b"\0")
    h.update(json.dumps(FLAVOURS, sort_keys=True).encode())
    return h.hexdigest()[:20]


def build(flavour):
    """Build the current working tree of REPO in a private copy; returns its path."""
    os.makedirs(BUILD_ROOT, exist_ok=True)
    key = source_hash()
    dst = os.path.join(BUILD_ROOT, key + "-" + flavour)
    with open(os.path.join(BUILD_ROOT, "lock-" + flavour), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(dst, ".done")):
            return dst
        # drop stale builds of this flavour (disk space)
        old = sorted((d for d in os.listdir(BUILD_ROOT) if d.endswith("-" + flavour) and
                      os.path.isdir(os.path.join(BUILD_ROOT, d))),
                     key=lambda d: os.path.getmtime(os.path.join(BUILD_ROOT, d)))
        for d in old[:-1]:
            shutil.rmtree(os.path.join(BUILD_ROOT, d), ignore_errors=True)
        tmp = dst + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        ign = shutil.ignore_patterns("*.so", "__pycache__", "*.pyc")
        for top in ("guppy", "src", "specs", "docs"):
            if os.path.isdir(os.path.join(REPO, top)):
                shutil.copytree(os.path.join(REPO, top), os.path.join(tmp, top), ignore=ign)
        for f in ("setup.py", "README.md", "ChangeLog"):
            if os.path.exists(os.path.join(REPO, f)):
                shutil.copy(os.path.join(REPO, f), tmp)
        env = dict(os.environ, CFLAGS=FLAVOURS[flavour], LC_ALL="C.UTF-8",
                   PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1")
        env.pop("LD_PRELOAD", None)
        if flavour == "san":
            env["LDFLAGS"] = "-fsanitize=address,undefined"
        p = subprocess.run([PY, "setup.py", "build_ext", "--inplace", "--force", "--parallel", "4"],
                           cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=600)
        if p.returncode:
            raise Inconclusive("build (%s) failed:\n%s" % (flavour, p.stdout[-4000:]))
        shutil.rmtree(os.path.join(tmp, "build"), ignore_errors=True)
        open(os.path.join(tmp, ".done"), "w").close()
        shutil.rmtree(dst, ignore_errors=True)
        os.rename(tmp, dst)
        return dst


def _libasan():
    p = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True)
    return os.path.realpath(p.stdout.strip())


class Shard:
    """One worker process."""

    def __init__(self, worker, flavour="plain", timeout=400, env=None, name=None, **args):
        self.worker = worker
        self.flavour = flavour
        self.timeout = timeout
        self.env = env or {}
        self.args = args
        self.name = name or worker

    def spec(self):
        return {"worker": self.worker, "flavour": self.flavour, "timeout": self.timeout,
                "env": self.env, "args": self.args}


SAN_RE = re.compile(r"(ERROR: AddressSanitizer: [^\n]*|[^\n]*runtime error: [^\n]*)")


def parse_san(logs, stderr, bdir):
    """-> list of (key, text) for sanitizer reports that involve the extension code."""
    out = []
    texts = list(logs)
    if "AddressSanitizer" in stderr or "runtime error:" in stderr:
        texts.append(stderr)
    for t in texts:
        ms = list(SAN_RE.finditer(t))
        for i, m in enumerate(ms):
            end = ms[i + 1].start() if i + 1 < len(ms) else len(t)
            blk = t[m.start():end][:6000]
            frames = re.findall(r"#\d+ 0x[0-9a-f]+ in (\S+) (\S*)", blk)
            if "runtime error:" in m.group(0):
                loc = re.match(r"\s*(\S+?):(\d+):\d+: runtime error: (.*)", m.group(0))
                fn = next((f for f, w in frames if "src/" in w or "setsc" in w or "heapyc" in w), "?")
                kind = re.sub(r"0x[0-9a-f]+|-?\d+", "N", loc.group(3)) if loc else "?"
                key = "ubsan:%s:%s:%s" % (os.path.basename(loc.group(1)) if loc else "?", fn, kind)
            else:
                kind = m.group(0).split("AddressSanitizer:")[1].split()[0]
                fn = next((f for f, w in frames if "src/" in w or "setsc" in w or "heapyc" in w), None)
                key = "asan:%s:%s" % (kind, fn or (frames[0][0] if frames else "?"))
            out.append((key[:200], blk))
    return out


def run_shard(shard, rundir, idx, seed, tier):
    bdir = build(shard.flavour)
    os.makedirs(rundir, exist_ok=True)
    base = os.path.join(rundir, "s%03d" % idx)
    out = base + ".out.jsonl"
    beat = base + ".beat"
    cfg = {"out": out, "beat": beat, "seed": seed, "tier": tier, "args": shard.args,
           "build": bdir, "flavour": shard.flavour, "scratch": base + ".scratch",
           "idx": idx, "verif": VERIF}
    os.makedirs(cfg["scratch"], exist_ok=True)
    with open(base + ".cfg", "w") as f:
        json.dump(cfg, f)
    env = {k: v for k, v in os.environ.items()
           if k in ("PATH", "HOME", "LANG", "TERM", "TMPDIR", "USER")}
    env.update(PYTHONPATH=bdir + ":" + os.path.join(VERIF, "lib") + ":" + os.path.join(VERIF, "workers"),
               PYTHONDONTWRITEBYTECODE="1", PYTHONNOUSERSITE="1", PYTHONHASHSEED="0",
               LC_ALL="C.UTF-8", VERIF_SEED=str(seed), VERIF_TIER=tier)
    env.update(shard.env)
    sanlog = base + ".san"
    if shard.flavour == "san":
        env["LD_PRELOAD"] = _libasan()
        env["PYTHONMALLOC"] = env.get("PYTHONMALLOC", "malloc")
        env["ASAN_OPTIONS"] = ("detect_leaks=0:exitcode=77:log_path=%s:allocator_may_return_null=1:"
                               "handle_segv=1:detect_stack_use_after_return=0:quarantine_size_mb=64" % sanlog)
        env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=0:log_path=%s" % sanlog
    t0 = time.time()
    errf = open(base + ".stderr", "wb")
    p = subprocess.Popen([PY, "-X", "faulthandler", os.path.join(VERIF, "workers", shard.worker + ".py"), base + ".cfg"],
                         cwd=cfg["scratch"], env=env, stdin=subprocess.DEVNULL,
                         stdout=errf, stderr=errf, start_new_session=True)
    timed_out = False
    try:
        p.wait(shard.timeout)
    except subprocess.TimeoutExpired:
        timed_out = True
    finally:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        errf.close()
    with open(base + ".stderr", "rb") as f:
        stderr = f.read().decode("utf-8", "replace")
    res = {"shard": shard, "idx": idx, "rc": p.returncode, "timed_out": timed_out,
           "wall": time.time() - t0, "violations": [], "errors": [], "events": {},
           "cases": 0, "sigs": set(), "samples": [], "finished": False, "stderr": stderr[-6000:], "notes": []}
    try:
        with open(out, errors="replace") as f:
            for line in f:
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                t = r["t"]
                if t == "viol":
                    res["violations"].append(r)
                elif t == "summary":
                    res["events"] = r["events"]
                    res["cases"] = r["cases"]
                    res["sigs"] = set(r["sigs"])
                    res["samples"] = r["samples"]
                    res["finished"] = r.get("finished", False)
                elif t == "error":
                    res["errors"].append(r["msg"])
                elif t == "note":
                    res["notes"].append(r["msg"])
    except OSError:
        pass
    lastop = ""
    try:
        with open(beat, "rb") as f:
            lastop = f.read().split(b"\0", 1)[0].decode("utf-8", "replace")
    except OSError:
        pass
    res["lastop"] = lastop
    if shard.flavour == "san":
        logs = []
        d = os.path.dirname(sanlog)
        for fn in os.listdir(d):
            if fn.startswith(os.path.basename(sanlog) + "."):
                with open(os.path.join(d, fn), errors="replace") as f:
                    logs.append(f.read())
        seen = set()
        for key, text in parse_san(logs, stderr, bdir):
            if key in seen:
                continue
            seen.add(key)
            res["violations"].append({"key": key, "msg": "sanitizer report: " + text[:3000], "data": {"lastop": lastop}})
    if timed_out:
        res["hang"] = True
    elif not res["finished"]:
        rc = p.returncode
        if rc is not None and rc < 0 and rc != -signal.SIGKILL:
            sig = signal.Signals(-rc).name
            m = re.search(r"(\S+:\d+: .*Assertion `.*' failed)", stderr)
            res["violations"].append({
                "key": "crash:%s:%s" % (sig, lastop.split(" ")[0][:80]),
                "msg": "process died with %s during: %s\n%s\n%s" % (sig, lastop[:2000], m.group(1) if m else "", stderr[-3000:]),
                "data": {}})
        elif rc == 77 and shard.flavour == "san":
            if not res["violations"]:
                res["errors"].append("sanitizer exit without a parsed report: " + stderr[-2000:])
        elif not res["violations"] and not res["errors"]:
            res["errors"].append("worker ended early, rc=%s, last op %s\n%s" % (rc, lastop[:300], stderr[-3000:]))
    shutil.rmtree(cfg["scratch"], ignore_errors=True)
    return res


def load_known(prop):
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.rstrip("\n"))
                if m and m.group(1) == prop:
                    out.append((m.group(2), m.group(3)))
    return out


def run_check(prop, level, rule, shards, min_events, assumptions=(), technique=None,
              tier=None, seed=None, jobs=8, extra=None):
    """Run all shards and decide.  min_events: {event name: least total count} below
    which the run is inconclusive."""
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") if seed is None else seed)
    t0 = time.time()
    rundir = os.path.join(RUN_ROOT, "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(rundir, ignore_errors=True)
    os.makedirs(rundir)
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    try:
        return _run_check(prop, level, rule, shards, min_events, assumptions, tier, seed, jobs, rundir, evdir, t0, extra)
    except Inconclusive as e:
        print("INCONCLUSIVE property=%s %s" % (prop, e))
        return 2
    finally:
        shutil.rmtree(rundir, ignore_errors=True)


def _run_check(prop, level, rule, shards, min_events, assumptions, tier, seed, jobs, rundir, evdir, t0, extra):
    for fl in sorted({s.flavour for s in shards}):
        build(fl)
    with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
        futs = [ex.submit(run_shard, s, rundir, i, seed, tier) for i, s in enumerate(shards)]
        results = [f.result() for f in futs]
    # A hang is a violation only if it repeats alone, with a more generous limit.
    for i, r in enumerate(results):
        if r.get("hang"):
            if r["violations"] or any(x["violations"] for x in results):
                continue
            if time.time() - t0 > 450:
                r["errors"].append("timed out (last op %s)" % r["lastop"][:300])
                continue
            lim = max(30, min(2 * r["shard"].timeout, 850 - (time.time() - t0)))
            sh = Shard(r["shard"].worker, r["shard"].flavour, lim, r["shard"].env, **r["shard"].args)
            r2 = run_shard(sh, rundir, 500 + i, seed, tier)
            if r2.get("hang") and r2["lastop"] == r["lastop"]:
                r["violations"].append({"key": "hang:" + r["lastop"].split(" ")[0][:80],
                                        "msg": "operation does not complete (twice, %d s): %s" % (lim, r["lastop"][:2000]),
                                        "data": {}})
            elif r2.get("hang"):
                r["errors"].append("timed out twice at different operations (slow machine?)")
            else:
                results[i] = r2
    events = {}
    sigs = set()
    cases = 0
    samples = []
    errors = []
    viols = []
    for r in results:
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        cases += r["cases"]
        sigs |= r["sigs"]
        samples.extend(r["samples"][:3])
        errors.extend("[shard %d %s] %s" % (r["idx"], r["shard"].worker, e) for e in r["errors"])
        for v in r["violations"]:
            viols.append((r, v))
    known = load_known(prop)
    unlisted = []
    hit = {}
    for r, v in viols:
        for key, what in known:
            if v["key"] == key:
                hit[key] = hit.get(key, 0) + 1
                break
        else:
            unlisted.append((r, v))
    for key, what in known:
        print("KNOWN-FINDING: property=%s %s [%s; seen %d times in this run]" % (prop, what, key, hit.get(key, 0)))
    rc = 0
    if unlisted:
        rc = 1
        repdir = os.path.join(VERIF, "replays")
        os.makedirs(repdir, exist_ok=True)
        done = set()
        for r, v in unlisted:
            if v["key"] in done or len(done) >= 5:
                continue
            done.add(v["key"])
            h = hashlib.sha256(v["key"].encode()).hexdigest()[:10]
            path = os.path.join(repdir, "%s-%s-%d-%s.json" % (prop, tier, seed, h))
            with open(path, "w") as f:
                json.dump({"property": prop, "seed": seed, "tier": tier, "shard": r["shard"].spec(), "idx": r["idx"],
                           "key": v["key"], "msg": v["msg"], "data": v.get("data"),
                           "replay": "python3 check.py --replay " + path}, f, indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  key: %s\n  %s" % (v["key"], v["msg"][:1500].replace("\n", "\n  ")))
    missing = {k: (events.get(k, 0), n) for k, n in min_events.items() if events.get(k, 0) < n}
    if rc == 0 and (errors or missing):
        rc = 2
        for e in errors[:10]:
            print("ERROR property=%s %s" % (prop, e))
        if missing:
            print("INCONCLUSIVE property=%s monitors observed too little: %s" % (prop, missing))
    cov = {"evaluations": cases, "distinct_nontrivial": len(sigs), "rule": rule,
           "samples": samples[:8] or ["none"], "monitor_events": dict(sorted(events.items())),
           "shards": [{"worker": r["shard"].worker, "flavour": r["shard"].flavour, "args": r["shard"].args,
                       "wall_s": round(r["wall"], 2), "cases": r["cases"]} for r in results]}
    if extra:
        cov.update(extra)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": list(assumptions), "wall_s": round(time.time() - t0, 2), "violations": len(unlisted)}
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s property=%s tier=%s seed=%d cases=%d distinct=%d events=%d wall=%.1fs" % (
        {0: "HELD", 1: "VIOLATED", 2: "INCONCLUSIVE"}[rc], prop, tier, seed, cases, len(sigs),
        sum(events.values()), time.time() - t0))
    return rc


def replay(path):
    with open(path) as f:
        d = json.load(f)
    sp = d["shard"]
    sh = Shard(sp["worker"], sp["flavour"], sp["timeout"], sp["env"], **sp["args"])
    rundir = os.path.join(RUN_ROOT, "replay-%d" % os.getpid())
    try:
        r = run_shard(sh, rundir, d["idx"], d["seed"], d["tier"])
    finally:
        shutil.rmtree(rundir, ignore_errors=True)
    for v in r["violations"]:
        print("key: %s\n%s\n" % (v["key"], v["msg"]))
    for e in r["errors"]:
        print("error:", e)
    print("reproduced" if any(v["key"] == d["key"] for v in r["violations"]) else "not reproduced")
    return 1 if r["violations"] else 0
