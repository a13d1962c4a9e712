"""Development tool (not used by any check): confirm a planted change and run a check against it.

    seed.py new ID            make a scratch copy of /repo at /tmp/seedw/ID to edit
    seed.py keep ID PROP "needs" "breaks"   diff, demo (from /tmp/seedw/ID.demo.py), tests; keep as seeded/ID
    seed.py check ID [CNN..]  apply to /repo, run the quick check(s), undo
"""
import json
import os
import re
import subprocess
import sys
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
W = Path("/tmp/seedw")
ENV = dict(os.environ, PATH="/opt/venv/bin:" + os.environ["PATH"], PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", CUDA_VISIBLE_DEVICES="")


def sh(cmd, cwd=None, env=None, timeout=1800):
    return subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, capture_output=True, text=True, timeout=timeout)


def new(i):
    W.mkdir(exist_ok=True)
    d = W / i
    assert not d.exists()
    print(sh(f"cp -a /repo {d}").stderr)


def keep(i, prop, needs, breaks):
    d = W / i
    diff = sh("git diff HEAD", cwd=d).stdout
    assert diff.strip(), "no change"
    out = VERIF / "seeded" / i
    out.mkdir(parents=True, exist_ok=True)
    (out / "patch.diff").write_text(diff)
    demo = W / f"{i}.demo.py"
    if demo.exists():
        (out / "demo.py").write_text(demo.read_text())
    (out / "demo.sh").write_text('#!/bin/bash\nexport PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1\nexec python "$(dirname "$0")/demo.py"\n')
    (out / "demo.sh").chmod(0o755)
    (out / "meta.json").write_text(json.dumps({"property": prop, "needs": needs, "what_it_breaks": breaks}, indent=1) + "\n")
    env = dict(ENV, PYTHONPATH=str(d))
    if ".pyx" in diff or ".pxd" in diff or ".hh" in diff:
        r = sh("python setup.py build_ext --inplace -j 4", cwd=d)
        assert r.returncode == 0, r.stderr[-2000:]
    a = sh(f"bash {out}/demo.sh", cwd="/repo")
    b = sh(f"bash {out}/demo.sh", cwd=d, env=env)
    print("demo clean:", a.returncode, a.stderr[-300:], "| patched:", b.returncode, b.stderr[-300:])
    ok = a.returncode == 0 and b.returncode != 0
    r = sh("python -m pytest -q -p no:cacheprovider --hypothesis-seed=0 -n 8 --dist worksteal --timeout=400 -x thinc/tests", cwd=d, env=dict(env, PYTHONPATH=f"{d}:/opt/vp/plugin"))
    print("tests:", r.stdout.strip().splitlines()[-1:], r.returncode)
    print("KEPT" if ok and r.returncode == 0 else "NOT GOOD")
    subprocess.run(["rm", "-rf", str(d)])


def check(i, props):
    out = VERIF / "seeded" / i
    meta = json.loads((out / "meta.json").read_text())
    diff = (out / "patch.diff").read_text()
    pyx = any(x in diff for x in (".pyx", ".pxd", ".hh"))
    assert not sh("git status --porcelain", cwd="/repo").stdout.strip()
    r = sh(f"git apply {out}/patch.diff", cwd="/repo")
    assert r.returncode == 0, r.stderr
    try:
        if pyx:
            print(sh("bash /opt/vp/build.sh").returncode)
        for p in props or [meta["property"]]:
            r = sh(f"{VERIF}/check {p}", cwd=VERIF, env=dict(ENV, VERIF_SEED="1", VERIF_TIER="quick"))
            v = [x for x in r.stdout.splitlines() if x.startswith(("VIOLATION", "---"))]
            print(i, p, "exit", r.returncode, "CAUGHT" if any(f"VIOLATION property={p} " in x for x in v) else "MISSED", v[:4], r.stdout.strip().splitlines()[-1][:200])
    finally:
        sh("git checkout -- .", cwd="/repo")
        if pyx:
            sh("bash /opt/vp/build.sh")


if __name__ == "__main__":
    c, *a = sys.argv[1:]
    if c == "new":
        new(a[0])
    elif c == "keep":
        keep(*a)
    else:
        check(a[0], a[1:])
