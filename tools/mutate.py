"""Maintenance helper, not a check: mutants of the library and the checks that notice them.

mutate.py map              records which obligations interpret which source lines (/tmp/mut/map.json)
mutate.py run N SEED [file[:from-to] ...]   N random mutants; those no sampled obligation reports go to /tmp/mut/survivors.SEED
mutate.py full SURVIVORS   the survivors against every obligation that reads their line
"""
import ast, copy, json, multiprocessing as mp, os, random, shutil, sys, time, difflib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
SRC = "/repo/src/mud"
FILES = ["base.py", "funs.py", "util.py", "norm.py", "plot.py", "preprocessing.py"]
OUT = "/tmp/mut"


def clients():
    return sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "clients")) if f.startswith("C") and f.endswith(".py"))


def one(job):
    src, pid, n, f, kw = job
    from mudlint import run, interp

    run.SRC = src
    lines = set()
    orig = interp.Interp.stmt if hasattr(interp, "Interp") else None

    def stmt(self, s, fr):
        if fr.mod is not None and fr.mod.path:
            lines.add((os.path.basename(fr.mod.path), getattr(s, "lineno", 0)))
        return orig(self, s, fr)

    cls = interp.Interp
    cls.stmt = stmt
    try:
        r = run.run_instance((pid, n, f, kw, 100))
    finally:
        cls.stmt = orig
    return {"pid": pid, "name": n, "f": f, "kw": kw, "wall": r["wall"], "status": r["status"], "lines": sorted(lines), "what": [p["what"] for p in r.get("problems", [])][:2], "why": r.get("why")}


def build_map():
    from mudlint import run

    jobs = [(SRC, pid, n, f, kw) for pid in clients() for n, f, kw in run.instances(pid, "quick")]
    random.Random(1).shuffle(jobs)
    with mp.get_context("fork").Pool(8, maxtasksperchild=20) as pool:
        res = list(pool.imap_unordered(one, jobs, chunksize=4))
    json.dump(res, open(OUT + "/map.json", "w"))
    print(len(res), sum(r["wall"] for r in res))


SWAP = {"min": "max", "max": "min", "argmin": "argmax", "argmax": "argmin", "inv": "pinv", "sum": "mean", "prod": "sum", "zeros": "ones", "ones": "zeros", "vstack": "hstack", "any": "all", "all": "any", "multiply": "add", "divide": "multiply",
        "pdf": "logpdf", "logpdf": "pdf", "X": "y", "y": "X", "A": "b", "mean_i": "y", "cov_i": "cov_o", "cov_o": "cov_i", "_pr": "_ob", "_ob": "_pr", "_in": "_pr", "_up": "_r", "_r": "_up", "times": "sensors", "sensors": "times", "n_ts": "n_sensors", "n_sensors": "n_ts",
        "measurements": "true_vals", "true_vals": "measurements", "lam": "data", "n_params": "n_features", "n_features": "n_params", "n_samples": "n_features", "set_xlabel": "set_ylabel", "extend": "append", "_pr_dist": "_ob_dist", "_in_dist": "_pr_dist", "_ob_dist": "_in_dist", "_ll": "_pr", "_ps": "_ll"}


def mutants(fname):
    text = open(os.path.join(SRC, fname)).read()
    tree = ast.parse(text)
    out = []
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            docs.add(id(n.body[0]))
    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n

    def stmt_of(n):
        while not isinstance(n, ast.stmt):
            n = parents[n]
        return n

    def emit(n, desc, change):
        """change mutates a copy located by position"""
        st = stmt_of(n)
        p = n
        while p in parents:
            if isinstance(p, ast.JoinedStr) or isinstance(p, ast.Raise) and p is not n:
                return
            if isinstance(p, ast.stmt) and "mud_plot_params" in ast.unparse(p)[:40]:
                return
            p = parents[p]
        if isinstance(st, ast.FunctionDef):
            body = [b for b in st.body if id(b) not in docs]
            st = body[0] if body else st
        out.append((st.lineno, n, desc, change))

    for n in ast.walk(tree):
        try:
            if any(isinstance(p, ast.FunctionDef) and n in ast.walk(p.returns) for p in [parents.get(n)] if isinstance(p, ast.FunctionDef) and p.returns):
                continue
        except Exception:
            pass
        if isinstance(n, ast.BinOp):
            m = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}.get(type(n.op))
            if m:
                emit(n, "op", lambda x, m=m: ast.BinOp(x.left, m(), x.right))
            emit(n, "left only", lambda x: x.left)
            emit(n, "right only", lambda x: x.right)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            m = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}.get(type(n.ops[0]))
            emit(n, "compare", lambda x, m=m: ast.Compare(x.left, [m()], x.comparators))
            if isinstance(n.ops[0], ast.Is):
                emit(n, "truth", lambda x: ast.UnaryOp(ast.Not(), x.left))
            if isinstance(n.ops[0], ast.IsNot):
                emit(n, "truth", lambda x: x.left)
        elif isinstance(n, ast.BoolOp):
            emit(n, "bool", lambda x: ast.BoolOp(ast.And() if isinstance(x.op, ast.Or) else ast.Or(), x.values))
            emit(n, "bool first", lambda x: x.values[0])
            emit(n, "bool last", lambda x: x.values[-1])
        elif isinstance(n, ast.UnaryOp):
            emit(n, "unary", lambda x: x.operand)
        elif isinstance(n, ast.Constant) and not isinstance(parents.get(n), ast.Expr):
            v = n.value
            if isinstance(v, bool):
                emit(n, "flip", lambda x: ast.Constant(not x.value))
            elif isinstance(v, int):
                emit(n, "+1", lambda x: ast.Constant(x.value + 1))
                if v:
                    emit(n, "0", lambda x: ast.Constant(0))
                else:
                    emit(n, "-1", lambda x: ast.UnaryOp(ast.USub(), ast.Constant(1)))
            elif isinstance(v, float):
                emit(n, "x2", lambda x: ast.Constant(x.value * 2 + (1 if not x.value else 0)))
            elif isinstance(v, str) and not isinstance(parents.get(n), (ast.JoinedStr, ast.FormattedValue, ast.Dict)) and not isinstance(stmt_of(n), (ast.Raise, ast.Assert, ast.FunctionDef)) and "label" not in ast.unparse(stmt_of(n))[:200]:
                emit(n, "string", lambda x: ast.Constant(x.value + "x"))
            elif v is None and not isinstance(parents.get(n), (ast.arguments, ast.Subscript, ast.Tuple, ast.Compare)):
                emit(n, "none", lambda x: ast.Constant(0))
        elif isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                emit(n, "drop keyword %s" % n.keywords[k].arg, lambda x, k=k: ast.Call(x.func, x.args, x.keywords[:k] + x.keywords[k + 1:]))
            if len(n.args) > 1:
                emit(n, "drop last argument", lambda x: ast.Call(x.func, x.args[:-1], x.keywords))
                emit(n, "swap arguments", lambda x: ast.Call(x.func, [x.args[1], x.args[0]] + x.args[2:], x.keywords))
            if len(n.args) == 1 and not n.keywords:
                emit(n, "argument itself", lambda x: x.args[0])
            if isinstance(n.func, ast.Attribute) and not (isinstance(n.func.value, ast.Name) and n.func.value.id in ("np", "plt", "dist", "dists")):
                emit(n, "receiver itself", lambda x: x.func.value)
        elif isinstance(n, ast.Attribute):
            if n.attr in SWAP:
                emit(n, "attr %s" % SWAP[n.attr], lambda x: ast.Attribute(x.value, SWAP[x.attr], x.ctx))
            if n.attr == "T":
                emit(n, "no T", lambda x: x.value)
        elif isinstance(n, ast.IfExp):
            emit(n, "always", lambda x: x.body)
            emit(n, "never", lambda x: x.orelse)
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                emit(n, "no lower", lambda x: ast.Slice(None, x.upper, x.step))
            if n.upper is not None:
                emit(n, "no upper", lambda x: ast.Slice(x.lower, None, x.step))
        elif isinstance(n, ast.If):
            emit(n, "if always", lambda x: ast.If(ast.Constant(True), x.body, x.orelse))
            emit(n, "if never", lambda x: ast.If(ast.Constant(False), x.body, x.orelse))
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Assert, ast.Raise)) or (isinstance(n, ast.Expr) and id(n) not in docs):
            if isinstance(parents[n], (ast.FunctionDef, ast.If, ast.For, ast.With, ast.Try)):
                emit(n, "delete", lambda x: ast.Pass())
    res = []
    for line, n, desc, change in out:
        res.append((fname, line, n, desc, change))
    return text, tree, res


def source(tree, node, change):
    class R(ast.NodeTransformer):
        def visit(self, x):
            if x is node:
                return ast.copy_location(change(x), x)
            return super().visit(x)

    memo = {}
    t = copy.deepcopy(tree, memo)
    new = memo[id(node)]
    node2 = new

    class Q(ast.NodeTransformer):
        def visit(self, x):
            if x is node2:
                return ast.copy_location(change(x), x)
            return super().visit(x)

    return ast.unparse(ast.fix_missing_locations(Q().visit(t)))


def attempt(args):
    k, fname, line, desc, src, orig, insts, cap = args
    w = OUT + "/w%d" % os.getpid()
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree(SRC, w, ignore=shutil.ignore_patterns("examples", "__pycache__"))
    os.makedirs(w + "/examples", exist_ok=True)
    for f in os.listdir(SRC + "/examples"):
        if f.endswith(".py"):
            shutil.copy(SRC + "/examples/" + f, w + "/examples/")
    open(os.path.join(w, fname), "w").write(src)
    t0 = time.time()
    und = []
    import subprocess
    hit = None
    tot = 0
    code = "import sys,json; sys.path.insert(0,%r); sys.path.insert(0,%r)\nimport mutate\njobs=json.load(sys.stdin)\nu=0\nfor j in jobs:\n    r=mutate.one([%r]+j)\n    if r['status']=='violated':\n        print(json.dumps(['HIT',r['pid'],r['name'],r['what']])); break\n    if r['status']=='undecided':\n        u+=1; print(json.dumps(['UND',r['pid'],r['name'],r['why']]))\n        if u>25: break\n" % (HERE + "/tools", HERE, w)
    try:
        p = subprocess.run([sys.executable, "-c", code], input=json.dumps([[i["pid"], i["name"], i["f"], i["kw"]] for i in insts]), capture_output=True, text=True, timeout=cap)
        outp = p.stdout
    except subprocess.TimeoutExpired as e:
        outp = (e.stdout or b"").decode() if isinstance(e.stdout, bytes) else (e.stdout or "")
        und.append(["TIME"])
    for l in outp.splitlines():
        try:
            v = json.loads(l)
        except Exception:
            continue
        if v[0] == "HIT":
            hit = v
        else:
            und.append(v)
    shutil.rmtree(w, ignore_errors=True)
    d = [l for l in difflib.unified_diff(orig.splitlines(), src.splitlines(), lineterm="", n=0) if l[:1] in "+-" and l[:3] not in ("+++", "---")]
    return {"k": k, "file": fname, "line": line, "desc": desc, "diff": d, "hit": hit, "und": und[:4], "nund": len(und), "ninst": len(insts), "wall": time.time() - t0, "src": src}


def choose(mp_, fname, line, rng, maxn, maxw):
    by = {}
    for r in mp_:
        if [fname, line] in r["lines"] if False else (fname, line) in r["L"]:
            by.setdefault((r["pid"], r["f"]), []).append(r)
    for v in by.values():
        rng.shuffle(v)
    keys = sorted(by, key=lambda k: min(r["wall"] for r in by[k]))
    out, w = [], 0
    while keys and len(out) < maxn and w < maxw:
        for k in list(keys):
            r = by[k].pop()
            out.append(r)
            w += r["wall"]
            if not by[k]:
                keys.remove(k)
            if len(out) >= maxn or w >= maxw:
                break
    return out


def main():
    os.makedirs(OUT, exist_ok=True)
    if sys.argv[1] == "map":
        return build_map()
    m = json.load(open(OUT + "/map.json"))
    for r in m:
        r["L"] = set(map(tuple, r["lines"]))
        del r["lines"]
    if sys.argv[1] == "run":
        n, seed = int(sys.argv[2]), int(sys.argv[3])
        rng = random.Random(seed)
        jobs = []
        for a in sys.argv[4:] or FILES:
            fn, _, rg = a.partition(":")
            lo, hi = map(int, rg.split("-")) if rg else (0, 10**6)
            text, tree, ms = mutants(fn)
            base = ast.unparse(tree)
            for f, line, node, desc, ch in ms:
                if lo <= line <= hi:
                    jobs.append((f, line, node, desc, ch, tree, base))
        print(len(jobs), "mutants in all")
        rng.shuffle(jobs)
        jobs = jobs[:n]

        def gen():
            for k, (f, line, node, desc, ch, tree, base) in enumerate(jobs):
                try:
                    s = source(tree, node, ch)
                    compile(s, f, "exec")
                except Exception:
                    continue
                if s == base:
                    continue
                insts = choose(m, f, line, rng, 150, 40)
                yield (k, f, line, desc, s, base, insts, 150)
    else:
        old = json.load(open(sys.argv[2]))
        seed = "full"
        rng = random.Random(5)

        def gen():
            for o in old:
                tree = ast.parse(open(os.path.join(SRC, o["file"])).read())
                yield (o["k"], o["file"], o["line"], o["desc"], o["src"], ast.unparse(tree), choose(m, o["file"], o["line"], rng, 10**6, 10**6), 900)
    surv, tot = [], 0
    import concurrent.futures as cf
    with mp.get_context("fork").Pool(8) as pool:
        for r in pool.imap_unordered(attempt, gen()):
            tot += 1
            if not r["hit"]:
                surv.append(r)
                print("SURVIVED %s:%d %s  %s (%d inst, %d und, %.0fs) %s" % (r["file"], r["line"], r["desc"], " | ".join(x.strip() for x in r["diff"])[:220], r["ninst"], r["nund"], r["wall"], r["und"][:1]), flush=True)
                json.dump(surv, open(OUT + "/survivors.%s" % seed, "w"))
    print(tot, "mutants,", len(surv), "survived")


if __name__ == "__main__":
    main()
