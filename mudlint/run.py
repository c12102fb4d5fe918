"""Decides one property: python3 -m mudlint.run C03 [--tier quick|thorough]"""
import argparse
import ast
import faulthandler
import itertools
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = os.environ.get("MUDLINT_SRC", "/repo/src/mud")
CLIENTS = os.path.join(HERE, "clients")
EVID = os.environ.get("MUDLINT_EVID", os.path.join(HERE, "evidence"))
KNOWN = os.path.join(HERE, "known-findings.txt")

PRE = open(os.path.join(CLIENTS, "prelude.py")).read() if os.path.exists(os.path.join(CLIENTS, "prelude.py")) else ""


class Timeout(Exception):
    pass


def client_text(pid):
    """the client file, after the one it names in a first line `# include Cxx`"""
    path = os.path.join(CLIENTS, pid + ".py")
    if not os.path.exists(path):
        return ""
    text = open(path).read()
    first = text.split("\n", 1)[0].split()
    if first[:2] == ["#", "include"]:
        text = client_text(first[2]) + "\n" + text
    return text


def instances(pid, tier):
    """[(name, function, kwargs)] of the client file of a property; a later definition of a name replaces an earlier one"""
    body = ast.parse(client_text(pid), pid).body
    last = {f.name: f for f in body if isinstance(f, ast.FunctionDef)}
    tree = ast.Module([f for f in body if isinstance(f, ast.FunctionDef) and last[f.name] is f], [])
    out = []
    for f in tree.body:
        if not (isinstance(f, ast.FunctionDef) and f.name.startswith("ob_")):
            continue
        if any(isinstance(d, ast.Name) and d.id == "thorough" for d in f.decorator_list) and tier != "thorough":
            continue
        a = f.args
        names = [x.arg for x in a.args]
        lists = [ast.literal_eval(d) for d in a.defaults]
        if len(lists) != len(names):
            raise SystemExit("client %s.%s: every parameter needs a list of variants" % (pid, f.name))
        for combo in itertools.product(*lists):
            tag = ",".join("%s=%s" % kv for kv in zip(names, combo))
            out.append((f.name[3:] + ("[" + tag + "]" if tag else ""), f.name, dict(zip(names, combo))))
    return out


def run_instance(job):
    pid, name, fname, kw, limit = job
    t0 = time.time()
    sys.setrecursionlimit(12000)

    def onalarm(*a):
        raise Timeout()

    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(limit)
    try:
        r = decide(pid, name, fname, kw)
        relied, ints = r.pop("relied", ()), r.pop("ints", ())
        if r["status"] == "proved":
            again(r, relied, ints, pid, name, fname, kw)
    except Timeout:
        r = {"status": "undecided", "why": "time limit of %d s" % limit}
    except RecursionError:
        r = {"status": "undecided", "why": "recursion limit"}
    except MemoryError:
        r = {"status": "undecided", "why": "memory"}
    except Exception as e:  # the analysis itself failed on this obligation
        r = {"status": "undecided", "why": "%s: %s" % (type(e).__name__, e), "trace": traceback.format_exc()[-1500:]}
    finally:
        signal.alarm(0)
    r["name"] = name
    r["wall"] = time.time() - t0
    return r


def again(r, relied, ints, pid, name, fname, kw):
    """sizes of different names were taken to differ: where a branch of the library relied on it, decide the case of equality too;
    inputs were taken to be arrays of floating-point numbers: where the library creates or changes arrays of an input's type, decide the case of integers too
    """
    from . import sym as S

    cases = []
    for p in relied:
        c0, ds = S._linear_dims(p)
        ns = [(m[0][0].args[0], c) for m, c in ds.items() if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "sym"]
        if len(ns) != len(ds):
            continue
        if len(ns) == 1 and abs(ns[0][1]) == 1:
            k = -c0 / ns[0][1]
            if k.denominator == 1 and 1 <= k <= 6:
                cases.append({ns[0][0]: int(k)})
        elif len(ns) == 2 and c0 == 0 and ns[0][1] == -ns[1][1]:
            a, b = sorted(n for n, c in ns)
            cases.append({b: a})
    r["equal"] = []
    r["integer"] = []
    for sizes in sorted(cases, key=str)[:6] + sorted((sorted(x) for x in ints), key=str)[:6]:
        if isinstance(sizes, list):
            q = decide(pid, name, fname, kw, None, frozenset(sizes))
            exempt = {k[len("integers:"):] for k, _ in known_findings(pid) if k.startswith("integers:")} & set(q.get("truncated", ()))
            if q["problems"] and exempt:
                q2 = decide(pid, name, fname, kw, None, frozenset(sizes), frozenset(exempt))
                if not q2["problems"]:
                    r["problems"] += [{"key": "integers:" + x, "what": "integers are cut off in %s" % x} for x in sorted(exempt)]
                q = q2
            r["integer"].append(sizes)
            tag = " when %s hold integers" % ", ".join(sizes)
        else:
            q = decide(pid, name, fname, kw, sizes)
            r["equal"].append(sizes)
            tag = " when sizes %s" % ", ".join("%s = %s" % kv for kv in sizes.items())
        for k in ("probes", "cases", "stmts", "calls"):
            r[k] += q.get(k, 0)
        for x in q["problems"]:
            x["what"] += tag
            r["problems"].append(x)
        if q["problems"]:
            r["status"] = "violated"
            return


def fmt_site(s):
    return "%s:%s (%s)" % (s[0], s[2], s[1]) if s else "?"


def has_opq(n):
    return n.opq


def decide(pid, name, fname, kw, sizes=None, ints=frozenset(), exempt=frozenset()):
    from . import sym as S, rand as R
    from .client import Client, Unknown, Dead, NeedSplit, Missing
    from . import client as C

    c = Client(SRC)
    c.sizes = sizes or {}
    I = c.I
    c.pid = pid
    I.ints = ints
    I.exempt = exempt
    res = {"status": "proved", "probes": 0, "cases": 0, "problems": [], "undecided": []}
    text = PRE + "\n" + client_text(pid)
    call = "%s(%s)" % (fname, ", ".join("%s=%r" % kv for kv in kw.items()))

    def finish():
        res["relied"] = [] if I.tried else list(I.relied)
        res["truncated"] = sorted(I.truncated)
        res["ints"] = [] if I.tried else list(I.relied_ints)
        res["functions"] = sorted("%s:%s" % f for f in I.funcs)
        res["stmts"] = I.stmts
        res["calls"] = I.calls
        res["opaque"] = sorted(map(str, I.opaque))
        if res["problems"]:
            res["status"] = "violated"
        elif res["undecided"]:
            res["status"] = "undecided"
            res["why"] = res["undecided"][0]
        return res

    try:
        if not c.run(text):
            e = [x for x in c.fr.exits if x.kind == "raise"]
            res["problems"].append({"what": "the library does not import: %s" % (e[0].val.extra,), "site": fmt_site(e[0].site)} if e else {"what": "import"})
            return finish()
    except Missing as e:
        res["problems"].append({"what": "the library does not import: %s" % e, "site": "?"})
        return finish()
    c.start()
    try:
        alive = c.run(call)
    except Unknown as e:
        if os.environ.get("MUDLINT_DEBUG"):
            traceback.print_exc()
        res["undecided"].append("not decided: %s%s" % (e, " (no model of %s)" % ", ".join(sorted(I.opaque)) if I.opaque else ""))
        return finish()
    except Missing as e:
        res["problems"].append({"what": "missing module or name: %s" % e, "site": fmt_site(I.site())})
        return finish()
    judge = "JUDGE_RAISES = False" not in text  # effect clients: whether a call raises is judged elsewhere
    for e in c.fr.exits:
        if e.kind != "raise" or not judge:
            continue
        if S.contradictory(e.st.facts):
            continue
        p = I.rel(e.st.path, c.st0)
        if p is S.FALSE:
            continue
        exc = e.val.extra if getattr(e.val, "extra", None) else ("exception", None)
        if isinstance(exc[1], str) and exc[0] == "AttributeError" and "'_" in exc[1] and e.site is None:
            res["undecided"].append("private attribute gone: %s" % exc[1])
            continue
        msg = "%s%s raised%s" % (exc[0], "(%s)" % (exc[1],) if exc[1] is not None else "", "" if p is S.TRUE else " when " + S.show(p)[:600])
        if p.opq or (hasattr(e.val, "node") and e.val.node.opq):
            res["undecided"].append(msg)
        elif p is not S.TRUE and R.possible(p, dict(e.st.facts)) is False:
            res["undecided"].append(msg + " (not possible under random interpretation)")
        else:
            res["problems"].append({"what": msg, "site": fmt_site(e.site), "rule": "no exception on a valid request"})
            if ints and p is not S.TRUE and exc[0] != "TypeError":
                res["problems"].pop()  # clients state their assumptions for floating-point inputs
    if not alive and not judge:
        ex = [e for e in c.fr.exits if e.kind == "raise"]
        last = ex[-1] if ex else None
        if last is not None and last.site and getattr(last.val, "extra", None) and last.val.extra[0] in ("NameError", "UnboundLocalError", "TypeError", "AttributeError") and "'_" not in str(last.val.extra[1]):
            res["problems"].append({"what": "%s(%s) raised" % (last.val.extra[0], last.val.extra[1]), "site": fmt_site(last.site), "rule": "no exception on a valid request"})
        else:
            res["undecided"].append("the client ends early: %s" % ("; ".join("%s at %s" % (e.val.extra, fmt_site(e.site)) for e in ex[-2:])))
    if not alive and not c.probes and not res["problems"] and not res["undecided"]:
        res["undecided"].append("client did not reach its checks")
    for label, got, want, st, recorded in c.probes:
        res["probes"] += 1
        stats = {"cases": 0}
        unsure = []

        def confirm(facts, a, b):
            if len(unsure) < 12:
                same = R.agree(a, b, facts)
                if same is True:
                    unsure.append(1)
                    if os.environ.get("MUDLINT_DIFF"):
                        print("A", S.show(a)[:1500], "\nB", S.show(b)[:1500], file=sys.stderr)
                return same is not True
            return True

        whole = {}
        for c0, v0 in st.facts.items():
            if c0.op == "eq0" and v0 is S.TRUE:
                whole.update({x: y for x, y in S.implied({}, c0, v0).items() if x.op == "fn"})
        if whole:
            got, want = S.subst(got, whole), S.subst(want, whole)
        d = S.split_equal(got, want, dict(st.facts), 4096, stats, confirm)
        res["cases"] += stats["cases"]
        if d is None:
            if unsure:
                res["undecided"].append("%s: equal under random interpretation, normal forms differ" % label)
            continue
        facts, a, b = d
        m = S.diff(a, b) or (a, b)
        if stats["cases"] > 4096:
            res["undecided"].append("%s: too many cases" % label)
            continue
        if got.opq or want.opq:
            res["undecided"].append("%s: depends on operations without a model%s" % (label, " (%s)" % ", ".join(sorted(I.opaque)) if I.opaque else ""))
            continue
        if recorded is not None and S.split_equal(got, recorded, dict(st.facts), 4096, {"cases": 0}, None) is None:
            label += ": as recorded"  # the recorded defect, and no other
        res["problems"].append({
            "what": label,
            "rule": "value computed by the code and value stated by the property are the same term",
            "computed": S.show(a)[:3000], "stated": S.show(b)[:3000],
            "first difference": "%s  /  %s" % (S.show(m[0])[:800], S.show(m[1])[:800]),
            "when": "; ".join("%s is %s" % (S.show(k)[:200], "true" if v is S.TRUE else "false" if v is S.FALSE else S.show(v)[:80]) for k, v in list(facts.items())[:8]),
        })
    for label, why, site in c.problems:
        res["probes"] += 1
        res["problems"].append({"what": label, "rule": why, "site": site})
    for label, why in c.undecided:
        res["undecided"].append("%s: %s" % (label, why))
    res["probes"] += c.passed
    return finish()


def known_findings(pid):
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                rest = l[len("finding: property=%s " % pid):]
                key, _, what = rest.partition(" ")
                out.append((key, what))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("--limit", type=int, default=None)
    a = ap.parse_args()
    pid = a.property
    t0 = time.time()
    limit = a.limit or (100 if a.tier == "quick" else 400)
    insts = instances(pid, a.tier)
    if a.only:
        insts = [i for i in insts if a.only in i[0]]
    jobs = [(pid, n, f, kw, limit) for n, f, kw in insts]
    results = []
    if jobs:
        if a.j > 1 and len(jobs) > 1:
            with mp.get_context("fork").Pool(min(a.j, len(jobs)), maxtasksperchild=1) as pool:
                for r in pool.imap_unordered(run_instance, jobs):
                    results.append(r)
        else:
            results = [run_instance(j) for j in jobs]
    results.sort(key=lambda r: r["name"])
    from . import rules

    try:
        results += rules.run(pid, SRC, a.tier)
    except Exception:
        traceback.print_exc()
        return 2
    return report(pid, a, results, t0)


def report(pid, a, results, t0):
    known = known_findings(pid)
    os.makedirs(EVID, exist_ok=True)
    viol, seen = [], set()
    for r in results:
        for pr in r.get("problems", []):
            key = "%s/%s" % (r["name"], pr["what"].replace(" ", "_"))
            k = [x for x in known if pr.get("key") == x[0] or key.startswith(x[0])]
            if k and not (pr.get("once") and k[0] in seen):
                if k[0] not in seen:
                    seen.add(k[0])
                    print("KNOWN-FINDING: property=%s %s" % (pid, k[0][1]))
                continue
            viol.append((r["name"], pr))
    proved = [r for r in results if r["status"] == "proved"]
    und = [r for r in results if r["status"] == "undecided"]
    funcs = sorted(set(f for r in results for f in r.get("functions", [])))
    ev = {
        "property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
        "coverage": {
            "explanation": "Static analysis of %s: every obligation is a short client of the library, interpreted abstractly together with the library source; "
            "the value graph it yields is compared with the one the property states, for all values and sizes of the inputs." % SRC,
            "obligations": len(results), "discharged": len(proved), "undecided": len(und),
            "comparisons": sum(r.get("probes", 0) for r in results),
            "condition_cases": sum(r.get("cases", 0) for r in results),
            "equal_size_cases": sum(len(r.get("equal", ())) for r in results),
            "integer_cases": sum(len(r.get("integer", ())) for r in results),
            "statements_interpreted": sum(r.get("stmts", 0) for r in results),
            "call_sites_interpreted": sum(r.get("calls", 0) for r in results),
            "functions_analysed": funcs,
            "undecided_obligations": [{"name": r["name"], "why": r.get("why", "")} for r in und],
            "samples": [{"obligation": r["name"], "comparisons": r.get("probes", 0), "functions": r.get("functions", [])[:12]} for r in proved[:5]],
            "known_findings": [k[1] for k in seen],
        },
        "assumptions": ASSUME,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
    }
    with open(os.path.join(EVID, pid + ".json"), "w") as fp:
        json.dump(ev, fp, indent=1)
    print("%s: %d obligations, %d proved, %d undecided, %d functions analysed, %.1f s" % (pid, len(results), len(proved), len(und), len(funcs), time.time() - t0))
    groups = {}
    for r in und:
        groups.setdefault(r.get("why", ""), []).append(r)
    for why, rs in list(groups.items())[:20]:
        print("UNDECIDED %s%s: %s" % (rs[0]["name"], " and %d more" % (len(rs) - 1) if len(rs) > 1 else "", why[:600]))
        if a.v and "trace" in rs[0]:
            print(rs[0]["trace"])
    if a.v:
        for r in sorted(results, key=lambda r: -r.get("wall", 0)):
            print("  %-10s %6.1fs %3d probes %5d cases %s %s" % (r["status"], r.get("wall", 0), r.get("probes", 0), r.get("cases", 0), r["name"], r.get("opaque") or ""))
    if viol:
        rdir = os.path.join(EVID, "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, pid + ".txt")
        with open(path, "w") as fp:
            for n, pr in viol:
                fp.write("obligation %s (clients/%s.py)\n" % (n, pid))
                for k, v in pr.items():
                    fp.write("  %s: %s\n" % (k, v))
                fs = [r.get("functions", []) for r in results if r["name"] == n]
                if fs:
                    fp.write("  functions on the path: %s\n" % ", ".join(fs[0]))
                fp.write("\n")
        for n, pr in viol[:6]:
            print("obligation %s: %s" % (n, pr["what"][:700]))
            for k, v in pr.items():
                if k != "what" and v:
                    print("    %s: %s" % (k, str(v)[:900]))
        if len(viol) > 6:
            print("... and %d more" % (len(viol) - 6))
        print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if not results or (not proved and not seen):
        print("analysis broken: nothing was decided")
        return 2
    return 0


ASSUME = [
    "numpy, scipy, scikit-learn and matplotlib calls behave as the summaries in mudlint/nplib.py state (exact real arithmetic; rounding, overflow and NaN are outside the model)",
    "symbolic sizes are at least two and generic; size one and equal sizes are separate obligations where listed",
    "objects passed as distributions answer pdf/logpdf per entry without side effects",
]

if __name__ == "__main__":
    faulthandler.enable()
    sys.exit(main())
