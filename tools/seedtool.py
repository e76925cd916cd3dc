"""Helper to plant and confirm bugs (never used by a check).
seed(id, prop, edits, demo, needs, what): edits = [(file under src/qinfer, old, new)], demo = python
source run with cwd = tree, /src importable, which must exit 0 on the clean tree and nonzero with the patch."""
import json, os, re, shutil, subprocess, sys, tempfile, concurrent.futures as cf
HERE = os.environ.get("SEED_VERIF") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
DEMO_SH = '''#!/bin/bash
# exit 0: the behaviour is as it should be; nonzero: the planted change is present
D="$(cd "$(dirname "$0")" && pwd)"
export MPLBACKEND=Agg PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 MALLOC_PERTURB_=190
PYTHONPATH="$PWD/src" timeout 250 /opt/venv/bin/python -W ignore "$D/demo.py"
'''
ENV = dict(os.environ, MPLBACKEND="Agg", PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
           MALLOC_PERTURB_="255", PYTHONDONTWRITEBYTECODE="1")

def tests_pass(tree):
    x = tempfile.mktemp(suffix=".xml")
    subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300",
                    "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + x, "src/qinfer"],
                   cwd=tree, env=dict(ENV, PYTHONPATH=tree + "/src"), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    import xml.etree.ElementTree as ET
    ok = set()
    for c in ET.parse(x).iter("testcase"):
        if not list(c) or all(k.tag not in ("failure", "error", "skipped") for k in c):
            ok.add(c.get("classname") + "::" + c.get("name"))
    os.unlink(x)
    return STABLE - ok

def seed(sid, prop, edits, demo, needs, what, checks=None, tests=True, tier="quick"):
    tree = tempfile.mkdtemp(prefix="seed-") + "/repo"
    try:
        subprocess.check_call(["cp", "-a", os.environ.get("VERIF_REPO", "/repo"), tree])
        d = os.path.join(HERE, "seeded", sid)
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.py", "w").write(demo.lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO_SH)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
        rc0 = subprocess.run([d + "/demo.sh"], cwd=tree, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        for f, a, b, *nth in edits:
            p = os.path.join(tree, "src/qinfer", f)
            s = open(p).read()
            if nth:     # the nth occurrence
                parts = s.split(a)
                s = a.join(parts[:nth[0] + 1]) + b + a.join(parts[nth[0] + 1:])
                open(p, "w").write(s)
                continue
            if s.count(a) != 1:
                return "%s: EDIT does not apply (%d) in %s: %r" % (sid, s.count(a), f, a[:60])
            open(p, "w").write(s.replace(a, b))
        diff = subprocess.check_output(["git", "-C", tree, "diff"], text=True)
        open(d + "/patch.diff", "w").write(diff)
        rc1 = subprocess.run([d + "/demo.sh"], cwd=tree, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        msg = "%s [%s]: demo clean=%d patched=%d" % (sid, prop, rc0.returncode, rc1.returncode)
        if rc0.returncode or not rc1.returncode:
            msg += "\n   DEMO WRONG: " + (rc0.stdout if rc0.returncode else rc1.stdout)[-600:]
        if tests:
            bad = tests_pass(tree)
            msg += " tests=%s" % ("ok" if not bad else "FAIL %s" % sorted(bad)[:3])
        for c in (checks if checks is not None else [prop]):
            r = subprocess.run([HERE + "/run.sh", c, tier], env=dict(os.environ, VERIF_REPO=tree, VERIF_SEED="1",
                               VERIF_EVIDENCE=os.path.dirname(tree)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            cl = re.findall(r"clause=(\S+)", r.stdout)
            msg += " | %s -> rc=%d %s" % (c, r.returncode, "CAUGHT " + ",".join(cl[:4]) if r.returncode == 1 and "VIOLATION property=" + c in r.stdout else "MISSED " + r.stdout[-300:] if r.returncode != 1 else "??")
        return msg
    finally:
        shutil.rmtree(os.path.dirname(tree), ignore_errors=True)

def run_all(seeds, workers=2):
    with cf.ThreadPoolExecutor(workers) as ex:
        for f in cf.as_completed([ex.submit(seed, **s) for s in seeds]):
            print(f.result(), flush=True)

def recheck(ids=None, workers=2, tier="quick"):
    """Re-run the property's check against every kept bug."""
    def one(sid):
        d = os.path.join(HERE, "seeded", sid)
        meta = json.load(open(d + "/meta.json"))
        tree = tempfile.mkdtemp(prefix="seed-") + "/repo"
        try:
            subprocess.check_call(["cp", "-a", os.environ.get("VERIF_REPO", "/repo"), tree])
            p = subprocess.run(["git", "-C", tree, "apply", d + "/patch.diff"], stderr=subprocess.PIPE, text=True)
            if p.returncode:
                return "%s: patch does not apply: %s" % (sid, p.stderr[:200])
            r = subprocess.run([HERE + "/run.sh", meta["property"], tier], env=dict(os.environ, VERIF_REPO=tree, VERIF_SEED="1",
                               VERIF_EVIDENCE=os.path.dirname(tree)), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            cl = re.findall(r"clause=(\S+)", r.stdout)
            return "%s %s %s %s" % (sid, meta["property"], "CAUGHT" if r.returncode == 1 else "MISSED rc=%d" % r.returncode, ",".join(cl[:4]))
        finally:
            shutil.rmtree(os.path.dirname(tree), ignore_errors=True)
    ids = ids or sorted(os.listdir(os.path.join(HERE, "seeded")))
    with cf.ThreadPoolExecutor(workers) as ex:
        for r in ex.map(one, ids):
            print(r, flush=True)

if __name__ == "__main__":
    recheck(sys.argv[1:])
