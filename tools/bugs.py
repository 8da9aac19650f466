"""Planted bugs (development aid, read by no check).

bugs.py make            write /verif/seeded/<id>/ from the table below
bugs.py verify [id..]   in scratch copies: patch applies, builds, stable tests pass, demo 0 -> nonzero
bugs.py catch [id..]    run the property's quick check on a patched scratch copy
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")
PY = "/opt/venv/bin/python"
BUGS = {}
for _t in ("bug_table.py", "bug_table2.py", "bug_table3.py", "bug_table4.py", "bug_table5.py", "bug_table6.py"):
    exec(open(os.path.join(HERE, _t)).read())
# caught by the repository's own tests, or of no consequence beyond rounding
for _i in ("c14-pval-truncated", "c05-tiny-spread", "c11-first-precision", "c13-neginf-grid", "c05-few-points", "c07-sorted-ref", "c13-grid-sorted", "c22-zero-bar", "c24-duplicate-cells", "c26-dense-levels", "c07-confidence-digits", "c08-second-draw", "c13-searchsorted-left", "c23-tie-break", "c20-lag-fill", "c01-brier-expanded",
           "c05-constant-shortcut", "c05-one-minus-cdf", "c10-identity", "c22-eb-digits", "c22-negative-zero", "c22-thousands", "c23-abs-order"):
    del BUGS[_i]


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **k)


def copy():
    d = tempfile.mkdtemp(prefix="bug.", dir="/tmp")
    r = sh("cp -a /repo/. %s/" % d)
    assert r.returncode == 0, r.stdout
    return d


def make(ids):
    for i in ids:
        b = BUGS[i]
        d = copy()
        try:
            for f, old, new in b["edits"]:
                p = os.path.join(d, f)
                s = open(p).read()
                assert s.count(old) == 1, (i, f, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            patch = sh("git -C %s diff" % d).stdout
            out = os.path.join(SEEDED, i)
            os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(patch)
            open(out + "/demo.py", "w").write("import os\nimport sys\n\nsys.path.insert(0, os.getcwd())\nimport warnings\n\nwarnings.simplefilter(\"ignore\")\n" + b["demo"].strip() + "\nprint(\"demo: property holds\")\n")
            open(out + "/demo.sh", "w").write("#!/bin/bash\nhere=$(cd \"$(dirname \"$0\")\" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 OMP_NUM_THREADS=1\nexec %s -W ignore \"$here/demo.py\"\n" % PY)
            os.chmod(out + "/demo.sh", 0o755)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(out + "/meta.json", "w"), indent=1)
        finally:
            shutil.rmtree(d)


def tests(d):
    env = dict(os.environ, PYTHONNOUSERSITE="1", MPLBACKEND="Agg", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONPATH=d, PYTHONPYCACHEPREFIX=d + "/.pyc")
    for t, n in (("tests", 4), ("slow_tests", 9))[: 1 if FAST else 2]:
        r = sh("%s -m pytest %s -q -p no:cacheprovider -n %d --randomly-seed=1 --randomly-dont-reorganize --timeout=1500 --continue-on-collection-errors --disable-warnings --tb=short -o junit_family=xunit2 --junitxml=%s/%s.xml" % (PY, t, n, d, t), cwd=d, env=env)
    r = sh("/usr/bin/python3 /opt/vp/results.py %s/out.json 'junit:%s/*.xml'" % (d, d))
    res = json.load(open(d + "/out.json"))
    base = json.load(open("/opt/vp/BASELINE.json"))
    return res, base


def verify(ids):
    from concurrent.futures import ThreadPoolExecutor

    def one(i):
        d = copy()
        try:
            msg = []
            r0 = sh("bash %s/%s/demo.sh" % (SEEDED, i), cwd=d)
            if r0.returncode != 0:
                msg.append("DEMO FAILS CLEAN " + r0.stdout[-300:])
            r = sh("git -C %s apply %s/%s/patch.diff" % (d, SEEDED, i))
            if r.returncode:
                return i, "PATCH " + r.stdout
            r1 = sh("bash %s/%s/demo.sh" % (SEEDED, i), cwd=d)
            if r1.returncode == 0:
                msg.append("DEMO PASSES WITH BUG")
            if NOTEST:
                return i, "; ".join(msg) or "demo ok"
            res, base = tests(d)
            def passed(x):
                return set(x.get("passed", []))
            st = base.get("stable") or base.get("passed") or base.get("tests")
            missing = sorted(x for x in set(st) - passed(res) if not (FAST and "slow_tests" in x))
            if missing:
                msg.append("TESTS FAIL: %s" % missing[:4])
            return i, "; ".join(msg) or "ok"
        finally:
            shutil.rmtree(d, ignore_errors=True)

    with ThreadPoolExecutor(PAR) as ex:
        for i, m in ex.map(one, ids):
            print("verify", i, m, flush=True)


def catch(ids):
    for i in ids:
        d = copy()
        try:
            r = sh("git -C %s apply %s/%s/patch.diff" % (d, SEEDED, i))
            assert r.returncode == 0, r.stdout
            prop = BUGS[i]["property"]
            r = sh("bash %s/check.sh %s quick" % (os.path.dirname(HERE), prop), env=dict(os.environ, VERIF_REPO=d))
            hit = [l for l in r.stdout.split("\n") if l.startswith(("VIOLATION", "scenario"))]
            print("catch", i, prop, "exit", r.returncode, " | ".join(hit)[:300], flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


def table(ids):
    """Rewrite the table of planted bugs in DESIGN.md."""
    rows = ["| planted bug | property | needs |", "|---|---|---|"] + ["| %s | %s | %s |" % (i, BUGS[i]["property"], BUGS[i]["needs"]) for i in sorted(BUGS)]
    p = os.path.join(os.path.dirname(HERE), "DESIGN.md")
    s = open(p).read()
    a, b = s.index("<!-- bugs -->"), s.index("<!-- /bugs -->")
    open(p, "w").write(s[:a] + "<!-- bugs -->\n" + "\n".join(rows) + "\n" + s[b:])


NOTEST = "--notest" in sys.argv
FAST = "--fast" in sys.argv
PAR = int(os.environ.get("PAR", "2"))
args = [a for a in sys.argv[2:] if not a.startswith("--")]
ids = args or sorted(BUGS)
dict(make=make, verify=verify, catch=catch, table=table)[sys.argv[1]](ids)
