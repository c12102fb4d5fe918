"""Command-line declarations: every option reaches the function, and the study the function runs."""
import ast

from . import binding as B

FUNC = B.FUNC


def tail(e):
    return e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else None


def declared_name(decls, argument):
    """the parameter name click derives from its declarations"""
    options = []
    for d in decls:
        if d.isidentifier():
            return d
        first = d.split("/")[0].strip() if "/" in d[1:] else d
        stripped = first.lstrip("-")
        options.append((len(first) - len(stripped), stripped))
    if not options:
        return None
    options.sort(key=lambda x: -x[0])  # stable: the first of the longest prefix
    name = options[0][1].replace("-", "_").lower()
    return name if name.isidentifier() else None


def commands(prog):
    """[(module, function, kind, declarations, understood, passes context)]"""
    out = []
    for m in prog.mods.values():
        for f in ast.walk(m.tree):
            if not isinstance(f, FUNC):
                continue
            kind, decls, known, ctx = None, [], True, 0
            for d in f.decorator_list:
                target = d.func if isinstance(d, ast.Call) else d
                t = tail(target)
                if t in ("command", "group"):
                    kind = t
                elif t in ("option", "argument") and isinstance(d, ast.Call):
                    names = [a.value for a in d.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
                    if len(names) != len(d.args) or any(k.arg is None for k in d.keywords):
                        known = False
                        continue
                    exposed = [k.value for k in d.keywords if k.arg == "expose_value"]
                    if exposed and isinstance(exposed[0], ast.Constant) and exposed[0].value is False:
                        continue
                    name = declared_name(names, t == "argument")
                    if name is None:
                        known = False
                    else:
                        decls.append((name, d, names))
                elif t in ("pass_context", "pass_obj"):
                    ctx += 1
                elif t in ("version_option", "help_option"):
                    pass
                else:
                    known = False
            if kind:
                out.append((m, f, kind, decls, known, ctx))
    return out


class Flow:
    """does the value of a parameter reach something outside its function?"""

    def __init__(self, prog):
        self.p, self.memo = prog, {}

    def parent_map(self, f):
        up = {}
        for n in ast.walk(f):
            for c in ast.iter_child_nodes(n):
                up[c] = n
        return up

    def reaches(self, mod, f, name):
        """True when some read of the parameter is not merely a pass to a parameter that goes nowhere"""
        key = (mod.name, f.name, f.lineno, name)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = False  # a cycle alone uses nothing
        up = self.parent_map(f)
        env = B.Env(self.p, mod, {})
        inner = {}
        B.collect(f.body, inner)
        env.binds = {k: v for k, v in inner.items()}
        env.me = env.cls = None
        ok = False
        for n in ast.walk(f):
            if not (isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Load)):
                continue
            if self.live(mod, f, env, up, n):
                ok = True
                break
        self.memo[key] = ok
        return ok

    def live(self, mod, f, env, up, n):
        """is this read more than a pass into a dead parameter"""
        x, before = n, None
        while x in up and not isinstance(x, ast.stmt):
            p = up[x]
            if isinstance(p, ast.keyword):
                call = up[p]
                if isinstance(call, ast.Call) and p.arg is not None and p.value is x:
                    return self.into(mod, env, call, p.arg)
            if isinstance(p, ast.Call) and x in p.args and x is n:
                return self.into(mod, env, p, p.args.index(x))
            x = p
        return True

    def into(self, mod, env, call, slot):
        d = self.p.expr_def(mod, env, call.func)
        if d is None or d[0] != "def":
            return True
        g, gm, drop = d[2], d[1], 0
        if isinstance(g, ast.ClassDef):
            k = self.p.klass(gm, g)
            ms = k and k["methods"].get("__init__")
            if not ms or len(ms) != 1 or k["open"]:
                return True
            gm, g, drop = ms[0][0], ms[0][1], 1
        if g.decorator_list or any(isinstance(a, ast.Starred) for a in call.args):
            return True
        a = g.args
        pos = [x.arg for x in a.posonlyargs + a.args][drop:]
        if isinstance(slot, int):
            if slot >= len(pos):
                return True
            slot = pos[slot]
        if slot not in pos + [x.arg for x in a.kwonlyargs]:
            return True  # swallowed by ** or does not bind, which is another rule
        return self.reaches(gm, g, slot)


def check(src):
    """[(rule, subject, problems, number of sites)]"""
    prog = B.Program(src)
    flow = Flow(prog)
    out, cmds = [], commands(prog)
    for m, f, kind, decls, known, ctx in cmds:
        where = "%s:%d (%s)" % (m.path, f.lineno, f.name)
        a = f.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        body = params[ctx:]
        names = [d[0] for d in decls]
        pr = []
        for name, d, texts in decls:
            site = "%s:%d (%s)" % (m.path, d.lineno, f.name)
            if name not in params and a.kwarg is None:
                pr.append(("accepted", "%s does not accept %s, declared as %s" % (f.name, name, " ".join(texts)), site))
        for name in sorted(set(names)):
            if names.count(name) > 1:
                pr.append(("once", "%s declares %s %d times" % (f.name, name, names.count(name)), where))
        if known:
            need = set(B.Signature(f).required) - set(params[:ctx]) - set(names)
            for name in sorted(need):
                pr.append(("given", "%s needs %s, which no declaration gives" % (f.name, name), where))
            for name in body:
                if name not in names and name not in need:
                    pr.append(("given", "%s has parameter %s without a declaration" % (f.name, name), where))
        for name in sorted(set(names)):
            if name in params and not flow.reaches(m, f, name):
                pr.append(("used", "%s of %s is never used" % (name, f.name), where))
        out.append(("options of %s" % f.name, pr, len(decls) + len(body), f.name))
    # the values a group keeps for its commands
    stored, reads = set(), []
    for m, f, kind, decls, known, ctx in cmds:
        for n in ast.walk(f):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and n.value.attr == "obj" and isinstance(n.slice, ast.Constant):
                if isinstance(n.ctx, ast.Store):
                    stored.add(n.slice.value)
                else:
                    reads.append((m, f, n))
    dynamic = any(isinstance(n, ast.Attribute) and n.attr in ("update", "setdefault") and isinstance(n.value, ast.Attribute) and n.value.attr == "obj" for m, f, *_ in cmds for n in ast.walk(f)) or any(
        isinstance(n, ast.Attribute) and n.attr == "obj" and isinstance(n.ctx, ast.Store) for m, f, *_ in cmds for n in ast.walk(f)
    )
    pr = []
    if not dynamic:
        for m, f, n in reads:
            if n.slice.value not in stored:
                pr.append(("kept", "%s reads %r of the context, which no group keeps" % (f.name, n.slice.value), "%s:%d (%s)" % (m.path, n.lineno, f.name)))
    for m, f, n in reads:
        up = flow.parent_map(f)
        env = B.Env(prog, m, {})
        B.collect(f.body, env.binds)
        env.me = env.cls = None
        if not flow.live(m, f, env, up, n):
            pr.append(("used", "%s of the group is never used by what %s calls" % (n.slice.value, f.name), "%s:%d (%s)" % (m.path, n.lineno, f.name)))
    out.append(("values kept for commands", pr, len(reads), "context"))
    # every group hangs below the entry point
    pr = []
    attached, groups = set(), {}
    for m, f, kind, decls, known, ctx in cmds:
        if kind == "group":
            groups[f.name] = (m, f)
        for d in f.decorator_list:
            t = d.func if isinstance(d, ast.Call) else d
            if isinstance(t, ast.Attribute) and t.attr in ("command", "group") and isinstance(t.value, ast.Name) and t.value.id != "click":
                attached.add(f.name)
    for m in prog.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "add_command" and n.args:
                d = prog.expr_def(m, None, n.args[0])
                if d and d[0] == "def":
                    attached.add(d[2].name)
        # handed on in another way: named as a value in a module other than its own
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load) and tail(n) in groups and groups[tail(n)][0] is not m:
                attached.add(tail(n))
    top = [g for g, (m, f) in groups.items() if m.name == "mud.cli"]
    for g, (m, f) in groups.items():
        if g not in attached and g not in top:
            pr.append(("attached", "group %s is not reachable from the command line" % g, "%s:%d" % (m.path, f.lineno)))
    for m, f, kind, decls, known, ctx in cmds:
        if kind == "command" and f.name not in attached:
            pr.append(("attached", "command %s belongs to no group" % f.name, "%s:%d" % (m.path, f.lineno)))
    if "mud.cli" in prog.mods and not top and not attached:
        pr.append(("attached", "the command line has no entry point", "mud/cli.py"))
    out.append(("commands hang below the entry point", pr, len(cmds), "tree"))
    return out


if __name__ == "__main__":
    import sys

    for name, pr, n, key in check(sys.argv[1] if len(sys.argv) > 1 else "/repo/src/mud"):
        print(name, n)
        for p in pr:
            print("   ", p)
