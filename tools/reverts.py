"""Maintenance helper, not a check: every repair undone in a scratch copy, and the check that reports it again.

reverts.py OUT [commit ...]   writes OUT/<commit>; uses the property named in known-findings.txt's fixed: lines
"""
import os, re, shutil, subprocess, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out, only = sys.argv[1], sys.argv[2:]
os.makedirs(out, exist_ok=True)
for l in open(os.path.join(HERE, "known-findings.txt")):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if not m or only and m.group(2) not in only:
        continue
    prop, commit, what = m.groups()
    w = "/tmp/revert"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    r = subprocess.run(["git", "-C", w, "-c", "user.email=a@b", "-c", "user.name=a", "revert", "--no-edit", "-X", "theirs", commit], capture_output=True, text=True)
    if r.returncode:
        print(commit, prop, "NO REVERT", r.stderr[:100].replace("\n", " "), flush=True)
        continue
    p = subprocess.run([sys.executable, "-m", "mudlint.run", prop], cwd=HERE, env={**os.environ, "MUDLINT_SRC": w + "/src/mud", "MUDLINT_EVID": out}, capture_output=True, text=True)
    open(os.path.join(out, commit), "w").write(p.stdout + p.stderr)
    print(commit, prop, "reported" if p.returncode == 1 and "VIOLATION" in p.stdout else "MISSED rc=%d" % p.returncode, what, flush=True)
shutil.rmtree("/tmp/revert", ignore_errors=True)
