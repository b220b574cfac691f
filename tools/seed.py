#!/usr/bin/env python3
"""seed.py test ID...: confirm a planted bug in a scratch copy (patch applies, stable tests pass, demo 0 -> nonzero) and report
which check catches it. Development aid: no check uses it."""
import sys, os, subprocess, json, shutil, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", MPLCONFIGDIR="/opt/vp/mplconfig", CUDA_VISIBLE_DEVICES="", PYTHONHASHSEED="0")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])

DEMO_SH = '#!/bin/bash\nexec env PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES= /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'


def make(ID, prop, needs, breaks, edits, demo):
    """edits: [(file, old, new)]"""
    d = os.path.join(HERE, "seeded", ID)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mk_")
    patch = ""
    byfile = {}
    for f, old, new in edits:
        s = byfile.get(f) or open("/repo/" + f).read()
        assert s.count(old) == 1, (ID, f, s.count(old), old)
        byfile[f] = s.replace(old, new)
    for f, s in byfile.items():
        p = os.path.join(t, "n"); open(p, "w").write(s)
        r = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, "/repo/" + f, p], capture_output=True, text=True)
        patch += r.stdout
    shutil.rmtree(t)
    open(d + "/patch.diff", "w").write(patch)
    open(d + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.py", "w").write(demo.strip() + "\n")
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)


def run(cmd, cwd, tmax=900, env=ENV):
    p = subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=tmax)
    return p.returncode, p.stdout + p.stderr


def test(ID, checks=None, skip_tests=False):
    d = os.path.join(HERE, "seeded", ID)
    prop = json.load(open(d + "/meta.json"))["property"]
    w = tempfile.mkdtemp(prefix="sd_")
    try:
        t = w + "/repo"
        subprocess.run(["cp", "-a", "/repo", t], check=True)
        out = []
        e = dict(ENV, PYTHONPATH=t)
        rc0, o0 = run(["bash", d + "/demo.sh"], t, 300)
        out.append("demo clean rc %d" % rc0 + ("" if rc0 == 0 else " !!! " + o0[-300:]))
        rc, o = run(["git", "apply", d + "/patch.diff"], t)
        if rc: return print(ID, "PATCH FAILS", o)
        rc1, o1 = run(["bash", d + "/demo.sh"], t, 300)
        out.append("demo bug rc %d" % rc1 + (" !!!" if rc1 == 0 else ""))
        if not skip_tests:
            rc, o = run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-n", "8", "--timeout=300", "-rf", "tests"], t, 900, e)
            last = [l for l in o.splitlines() if " passed" in l or " failed" in l][-1:]
            fails = [l.split(" - ")[0] for l in o.splitlines() if l.startswith(("FAILED", "ERROR")) and "test_load_dataset" not in l]
            out.append("tests " + str(last) + " ".join(fails)[:600])
        for p in (checks or [prop]):
            rc, o = run(["python3", "check.py", p], HERE, 900, dict(ENV, PYVC_REPO=t))
            v = [l for l in o.splitlines() if l.startswith(("VIOLATION", "BOUNDED", "note")) or "obligation '" in l]
            out.append(f"check {p} rc {rc}: " + " | ".join(x[:170] for x in v[:4]))
        print(ID, prop, "\n   ", "\n    ".join(out), flush=True)
    finally: shutil.rmtree(w)


if __name__ == "__main__":
    a = sys.argv[2:]
    skip = "--skip-tests" in a
    for i in [x for x in a if not x.startswith("--")]: test(i, skip_tests=skip)
