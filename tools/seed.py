"""Write and validate planted changes (developer tool, no check uses it).

seed.py SPEC.py [ID ...]: SPEC.py defines SEEDS, a list of dicts with
id, property, edits [(file, old, new)], needs, breaks, demo, files {name: text}.
"""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

PRE = '''#!/bin/bash
# exit 0: the property holds for this scenario; non-zero: it is broken
set -u
here=$(cd "$(dirname "$0")" && pwd)
K=$PWD/knfmt
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$T"' EXIT
fail() { echo "FAIL: $*"; exit 1; }
'''
OUT = "/verif/seeded"


def sh(cmd, d):
    """run cmd with the copy d mounted on /repo"""
    return subprocess.run(["unshare", "-m", "sh", "-c", "mount --bind %s /repo && cd /repo && %s" % (d, cmd)],
                          capture_output=True, text=True)


def one(s):
    d = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        r = d + "/r"
        subprocess.check_call(["cp", "-a", "/repo", r])
        subprocess.check_call(["git", "-C", r, "checkout", "-q", "--", "."])
        for f, o, n in s["edits"]:
            t = open(r + "/" + f).read()
            if t.count(o) != 1:
                return s["id"], "pattern occurs %d times in %s: %r" % (t.count(o), f, o)
            open(r + "/" + f, "w").write(t.replace(o, n))
        for f in sorted({e[0] for e in s["edits"]}):
            if "/" not in f:
                subprocess.run(["/repo/knfmt", "-i", f], cwd=r)
        out = OUT + "/" + s["id"]
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        p = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True).stdout
        open(out + "/patch.diff", "w").write(p)
        open(out + "/demo.sh", "w").write(PRE + s["demo"].strip("\n") + "\nexit 0\n")
        os.chmod(out + "/demo.sh", 0o755)
        for n, t in s.get("files", {}).items():
            open(out + "/" + n, "w").write(t)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
                  open(out + "/meta.json", "w"), indent=1)
        # demo on the unchanged tree
        x = subprocess.run(["bash", out + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        if x.returncode != 0:
            return s["id"], "demo fails on the unchanged tree: %s%s" % (x.stdout, x.stderr)
        x = sh("bash /opt/vp/build.sh >%s/b.log 2>&1; bash /opt/vp/test.sh %s/o.json >/dev/null 2>&1" % (d, d), r)
        o = json.load(open(d + "/o.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        base = base["stable"]
        miss = [t for t in base if t not in o["passed"]]
        if miss or "warning" in open(d + "/b.log").read():
            return s["id"], "tests fail: %s %s" % (miss[:5], open(d + "/b.log").read()[-600:])
        x = sh("bash %s/demo.sh" % out, r)
        if x.returncode == 0:
            return s["id"], "demo passes with the change: %s%s" % (x.stdout, x.stderr)
        c = subprocess.run(["python3", "/verif/run.py", s["property"]],
                           env=dict(os.environ, VERIF_REPO=r, VERIF_EVID=d), capture_output=True, text=True)
        return s["id"], "ok, demo: %s | check %s: %s" % (
            x.stdout.strip()[-120:], {0: "MISSED", 1: "caught"}.get(c.returncode, "ERROR %s" % c.stderr[-300:]),
            "".join(l[:200] for l in c.stdout.split("\n") if l.startswith(s["property"] + ":"))[:240])
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    sel = sys.argv[2:]
    with ThreadPoolExecutor(4) as ex:
        for i, m in ex.map(one, [s for s in g["SEEDS"] if not sel or s["id"] in sel]):
            print(i, m, flush=True)


main()
