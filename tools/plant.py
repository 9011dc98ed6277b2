"""Confirm planted bugs described in python files (SEEDS dict) and store them under /verif/seeded.

usage: plant.py FILE [id ...]    (works on a scratch copy of /repo's sources for the demo and checks; the stable
tests are run on /repo itself with the patch applied, and the patch is undone straight afterwards)
"""
import json, os, shutil, subprocess, sys, tempfile

DEMO = '''#!/bin/bash
# cwd: the repository
here="$(cd "$(dirname "$0")" && pwd)"
export JAX_PLATFORMS=cpu JAX_ENABLE_X64=1 PYTHONPATH="$PWD/src" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$here/demo.py"
'''
sh = lambda c, **k: subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ids = sys.argv[2:] or list(ns["SEEDS"])
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for i in ids:
        s = ns["SEEDS"][i]
        d = "/verif/seeded/" + i
        assert not sh("git -C /repo status --porcelain").stdout.strip()
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        base = sh("bash %s/demo.sh" % d, cwd="/repo")
        msg = []
        ok = base.returncode == 0
        if not ok:
            msg.append("demo fails on the unchanged tree: " + (base.stdout + base.stderr)[-600:])
        try:
            for f, old, new in s["edits"]:
                p = "/repo/src/microjax/" + f
                t = open(p).read()
                if t.count(old) != 1:
                    raise SystemExit("%s: %d occurrences of %r in %s" % (i, t.count(old), old, f))
                open(p, "w").write(t.replace(old, new))
            open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
            r = sh("timeout 280 bash %s/demo.sh" % d, cwd="/repo")
            if r.returncode == 0:
                ok = False
                msg.append("demo passes with the patch: " + r.stdout[-300:])
            b = sh("bash /opt/vp/build.sh")
            if b.returncode:
                ok = False
                msg.append("build fails")
            sh("bash /opt/vp/test.sh /tmp/seed_out.json")
            lost = stable - set(json.load(open("/tmp/seed_out.json"))["passed"])
            if lost:
                ok = False
                msg.append("tests fail: %s" % sorted(lost)[:3])
            c = sh("timeout 900 python3-vt -m sa.check %s" % s["property"], cwd="/verif") if os.path.exists("/verif/checks/%s.py" % s["property"].lower()) else None
            caught = c and c.returncode == 1 and "VIOLATION property=%s" % s["property"] in c.stdout
        finally:
            sh("git -C /repo checkout -- .")
        print(i, "COUNTS" if ok else "REJECTED", "caught" if caught else "MISSED" if c else "no check", "; ".join(msg))
        if not ok and "--keep" not in sys.argv:
            pass


main()
