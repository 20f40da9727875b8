#!/usr/bin/env python3
"""mkseed.py SPEC.py [ID...]: make and validate planted bugs in a scratch copy of /repo.

SPEC.py defines SEEDS = [dict(id, prop, edits=[(file, old, new)...], demo=python source, needs, breaks)].
mkseed.py --check ID...: validate the planted bugs that exist, and run the property's check on them."""
import json
import os
import re
import shutil
import subprocess
import sys

V = "/verif"
S = "/tmp/seedwork"
R = S + "/repo"


def sh(cmd, cwd=None, timeout=900, env=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith("VERIF")}
    e.update(env or {})
    p = subprocess.run(cmd, shell=isinstance(cmd, str), cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout


def touches_original(patch):
    """Does it remove or replace a line of the original repository?"""
    f, ln, ok = None, 0, False
    for l in patch.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
        elif l.startswith("@@"):
            ln = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-") and not l.startswith("---"):
            rc, o = sh(["git", "blame", "-s", "-l", "-L", "%d,%d" % (ln, ln), "HEAD", "--", f], "/repo")
            if o.startswith("^") and l[1:].strip():
                ok = True
            ln += 1
        elif not l.startswith("+"):
            ln += 1
    return ok


def setup():
    os.makedirs(S, exist_ok=True)
    if not os.path.isdir(R):
        sh(["cp", "-a", "/repo", R])
    sh("git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD && git clean -fdq", R)
    vp = S + "/vp"
    shutil.rmtree(vp, ignore_errors=True)
    shutil.copytree("/opt/vp", vp, ignore=shutil.ignore_patterns("cache*"))
    for f in os.listdir(vp):
        p = os.path.join(vp, f)
        if os.path.isfile(p):
            s = open(p, errors="replace").read()
            s = s.replace("/repo", R).replace("/opt/vp", vp)
            open(p, "w").write(s)


def build():
    return sh(["bash", S + "/vp/build.sh"])


def tests():
    rc, o = sh(["bash", S + "/vp/test.sh", S + "/out.json"])
    d = json.load(open(S + "/out.json"))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    ok = set(d.get("passed", [])) if isinstance(d.get("passed"), list) else {k for k, v in d.items() if v == "passed"}
    return stable - ok


def demo(d):
    try:
        return sh(["bash", os.path.join(d, "demo.sh")], R, 300)
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def validate(sid, check=True):
    d = os.path.join(V, "seeded", sid)
    meta = json.load(open(d + "/meta.json"))
    setup()
    rc, o = build()
    if rc:
        return "base build fails: " + o[-500:]
    rc0, o0 = demo(d)
    rc, o = sh(["git", "apply", d + "/patch.diff"], R)
    if rc:
        return "patch does not apply: " + o
    rc, o = build()
    if rc:
        return "patched build fails: " + o[-1500:]
    rc1, o1 = demo(d)
    miss = tests()
    res = []
    if rc0:
        res.append("demo fails on base rc=%d: %s" % (rc0, o0[-800:]))
    if not rc1:
        res.append("demo passes on the patched tree")
    if miss:
        res.append("tests broken: %s" % sorted(miss)[:5])
    if not touches_original(open(d + '/patch.diff').read()):
        res.append('changes no line of the original repository')
    if res:
        return "; ".join(res)
    out = "valid (demo: %s)" % o1.strip()[-150:].replace("\n", " | ")
    if check:
        rc, o = sh(["python3", "check.py", meta["property"]], V, 900, {"VERIF_REPO": R, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
        keys = re.findall(r"key: (.*)", o)
        out += "\n   check rc=%d %s" % (rc, "CAUGHT " + "; ".join(k[:100] for k in keys[:4]) if rc == 1 else "MISSED " + o[-300:])
    return out


def main():
    if sys.argv[1] == "--check":
        ids = sys.argv[2:] or sorted(os.listdir(V + "/seeded"))
    else:
        ns = {}
        exec(open(sys.argv[1]).read(), ns)
        ids = []
        for s in ns["SEEDS"]:
            if sys.argv[2:] and s["id"] not in sys.argv[2:]:
                continue
            setup()
            bad = False
            for f, old, new in s["edits"]:
                p = os.path.join(R, f)
                t = open(p).read()
                if t.count(old) != 1:
                    print(s["id"], "edit matches", t.count(old), "times in", f, repr(old[:60]))
                    bad = True
                t = t.replace(old, new)
                open(p, "w").write(t)
            if bad:
                continue
            d = os.path.join(V, "seeded", s["id"])
            os.makedirs(d, exist_ok=True)
            rc, diff = sh(["git", "diff"], R)
            open(d + "/patch.diff", "w").write(diff)
            open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
            open(d + "/demo.sh", "w").write(
                '#!/bin/bash\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 exec /opt/venv/bin/python -X faulthandler "$(dirname "$0")/demo.py"\n')
            os.chmod(d + "/demo.sh", 0o755)
            json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
            ids.append(s["id"])
    for i in ids:
        print("==", i, validate(i), flush=True)


main()
