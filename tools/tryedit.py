"""tryedit.py MODULE BUG: runs the check of a bug description (tools/bugs_*.py) on a scratch copy with its edits, planted or not"""
import importlib, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
m = importlib.import_module(sys.argv[1])
for bid, prop, edits, *_ in m.BUGS:
    if any(bid.startswith(x) for x in sys.argv[2:]):
        w = tempfile.mkdtemp()
        shutil.copytree("/repo/src/mud", w + "/mud")
        for f, a, b in edits:
            s = open(w + "/mud/" + f).read()
            assert s.count(a) in (1, 2), (bid, f)
            open(w + "/mud/" + f, "w").write(s.replace(a, b))
        r = subprocess.run("MUDLINT_SRC=%s/mud MUDLINT_EVID=%s/ev python3 -m mudlint.run %s" % (w, w, prop), shell=True, capture_output=True, text=True, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
        l = [x for x in r.stdout.splitlines() if x.startswith(("obligation", "UNDECIDED"))]
        print(bid, prop, "rc=%d" % r.returncode, l[0][:150] if l else "", flush=True)
        shutil.rmtree(w)
