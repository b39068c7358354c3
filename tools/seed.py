"""seed.py SPEC.py...: turn planted-bug specs into /verif/seeded/<id>/ and confirm them.

A spec defines PROPERTY, NEEDS, BREAKS, EDITS [(file below ros_bt_py/ros_bt_py, old, new)], DEMO (python source),
HELPERS (files copied from harness/).  The bug is applied to /repo and undone straight afterwards.
"""
import json
import os
import shutil
import subprocess
import sys

ROOT = "/repo/ros_bt_py/ros_bt_py/"
V = "/verif"
DEMO_SH = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export ROS_LOG_DIR=$(mktemp -d)
trap 'rm -rf "$ROS_LOG_DIR"' EXIT
export PYTHONPATH="$here:$PYTHONPATH"
timeout 200 /opt/venv/bin/python "$here/demo.py" >/dev/null
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def restore():
    sh("git -C /repo checkout -- .")


def main(path, checks):
    name = os.path.basename(path)[:-3]
    spec = {}
    exec(open(path).read(), spec)
    d = f"{V}/seeded/{name}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for h in ["btshim.py", "bt.py"] + spec.get("HELPERS", []):
        shutil.copy(f"{V}/harness/{h}", d)
    open(f"{d}/demo.py", "w").write(spec["DEMO"].lstrip())
    open(f"{d}/demo.sh", "w").write(DEMO_SH)
    json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(f"{d}/meta.json", "w"), indent=1)
    if sh("git -C /repo status --porcelain").stdout.strip():
        sys.exit("/repo is not clean")
    r = sh(f"bash {d}/demo.sh", cwd="/repo")
    if r.returncode:
        print(name, "BAD: demo fails on the unchanged tree", r.stdout[-2000:], r.stderr[-2000:])
        return
    try:
        for f, old, new, *k in spec["EDITS"]:
            t = open(ROOT + f).read()
            n = t.count(old)
            k = k[0] if k else None
            if n == 0 or (n > 1 and k is None):
                print(name, f"BAD: {n} matches in {f}: {old[:60]!r}")
                return
            parts = t.split(old)
            k = k or 0
            open(ROOT + f, "w").write(old.join(parts[:k + 1]) + new + old.join(parts[k + 1:]))
        open(f"{d}/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        r = sh(f"bash {d}/demo.sh", cwd="/repo")
        if not r.returncode:
            print(name, "BAD: demo passes with the patch")
            return
        why = r.stderr.strip().splitlines()[-1:]
        sh("bash /opt/vp/test.sh /tmp/seed-tests.json")
        b = json.load(open("/opt/vp/BASELINE.json"))
        o = set(json.load(open("/tmp/seed-tests.json")).get("passed", []))
        want = [x for v in b.values() if isinstance(v, list) for x in v]
        if [x for x in want if x not in o]:
            print(name, "BAD: tests fail")
            return
        res = []
        for c in checks or [spec["PROPERTY"]]:
            e = dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick")
            r = subprocess.run(["bash", f"{V}/run.sh", c], capture_output=True, text=True, env=e, errors="replace")
            hit = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            keys = [x.strip()[:110] for x in r.stdout.splitlines() if x.startswith("  key=")]
            res.append(f"{c}: {'CAUGHT' if r.returncode == 1 and hit else 'MISSED rc=%d' % r.returncode} {keys[:2]}")
        print(name, "ok", why, *res, sep="\n    ")
    finally:
        restore()


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if a.endswith(".py")]
    checks = [a for a in sys.argv[1:] if not a.endswith(".py")]
    for a in args:
        main(a, checks)
