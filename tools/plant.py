"""Maintenance helper: turns the bug descriptions of tools/bugs_*.py into /verif/seeded/<id>/ after checking each in a scratch copy:
the patch touches an original line, the stable tests pass with it, the demonstration passes without and fails with it.
usage: plant.py bugs_1 [id ...]"""
import importlib
import json
import os
import shutil
import subprocess
import sys
import xml.etree.ElementTree as ET

HERE = os.path.dirname(os.path.abspath(__file__))
SEED = os.path.join(os.path.dirname(HERE), "seeded")
BASE = "1ba061e"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def original_lines(f):
    """text lines of HEAD's file that blame to the original repository"""
    out = sh("git -C /repo blame -s --abbrev=12 HEAD -- src/mud/%s" % f).stdout.splitlines()
    base = sh("git -C /repo rev-list %s" % BASE).stdout.split()
    s = set(b[:12] for b in base)
    res = []
    for l in out:
        h = l.split()[0].lstrip("^")
        res.append((any(b.startswith(h[:11]) for b in s), l.split(")", 1)[1][1:]))
    return res


def stable():
    return set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def one(bid, prop, edits, needs, breaks, demo):
    work = "/tmp/plant/" + bid
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    sh("cp -a /repo %s/repo" % work)
    repo = work + "/repo"
    orig = False
    for f, old, new in edits:
        p = os.path.join(repo, "src/mud", f)
        s = open(p).read()
        if s.count(old) != 1:
            return "edit matches %d times in %s: %r" % (s.count(old), f, old[:60])
        k = s[: s.index(old)].count("\n")
        open(p, "w").write(s.replace(old, new))
        lines = original_lines(f)
        ol, nl = old.split("\n"), new.split("\n")
        for j, l in enumerate(ol):
            if l.strip() and l not in nl and k + j < len(lines) and lines[k + j][0]:
                orig = True
    if not orig:
        return "no original line changed"
    diff = sh("git -C %s diff HEAD" % repo).stdout
    out = os.path.join(SEED, bid)
    tmp = work + "/seed"
    os.makedirs(tmp)
    open(tmp + "/patch.diff", "w").write(diff)
    open(tmp + "/demo.py", "w").write(demo)
    open(tmp + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(tmp + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(tmp + "/meta.json", "w"), indent=1)
    a = sh("bash %s/demo.sh" % tmp, cwd="/repo")
    if a.returncode:
        return "demo fails on the unchanged tree: " + (a.stdout + a.stderr)[-600:]
    b = sh("PYTHONPATH=%s/src bash %s/demo.sh" % (repo, tmp), cwd=repo)
    if b.returncode == 0:
        return "demo passes with the patch"
    if "AssertionError" not in b.stderr and "Error" not in b.stderr:
        return "odd demo failure " + b.stderr[-300:]
    t = sh("PYTHONPATH=%s/src PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider --no-cov --timeout=300 --randomly-seed=0 --randomly-dont-reorganize --continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s/j.xml" % (repo, work), cwd=repo)
    bad = []
    st = stable()
    for c in ET.parse(work + "/j.xml").getroot().iter("testcase"):
        if c.find("failure") is not None or c.find("error") is not None:
            nm = "%s::%s" % (c.get("classname"), c.get("name"))
            if any(c.get("name") in x for x in st):
                bad.append(nm)
    if bad:
        return "tests fail: %s" % bad[:4]
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(tmp, out)
    shutil.rmtree(work)
    return "kept"


def main():
    from concurrent.futures import ThreadPoolExecutor
    sys.path.insert(0, HERE)
    m = importlib.import_module(sys.argv[1])
    only = sys.argv[2:]
    jobs = [x for x in m.BUGS if not only or x[0] in only]
    with ThreadPoolExecutor(6) as ex:
        for x, r in zip(jobs, ex.map(lambda j: one(*j), jobs)):
            print(x[0], x[1], r, flush=True)


if __name__ == "__main__":
    main()
