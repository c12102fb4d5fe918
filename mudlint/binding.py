"""Names, imports, calls and attributes of the whole package, resolved statically.

Four rules over the syntax trees of every module (examples and command line included):
  name     every name read is bound in an enclosing scope, the module, or the builtins
  import   every name imported from a module of the package exists there
  call     every call whose target resolves to one function or class of the package binds to its signature
  attr     every attribute read from `self`, or from a variable holding a known instance, is one its class can have
A call or read whose target does not resolve to exactly one definition is left alone.
"""
import ast
import builtins
import os

BUILTIN = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__builtins__", "__path__", "__package__", "__spec__", "__loader__", "__class__"}
FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)
PLAIN = {"property", "staticmethod", "classmethod", "abstractmethod"}


class Module:
    def __init__(self, name, path, package):
        self.name, self.path = name, path
        self.is_package = package
        self.tree = ast.parse(open(path).read(), path)
        self.binds = {}  # name -> [binding nodes]
        collect(self.tree.body, self.binds)


def collect(body, out, into_class=False):
    """names bound by a statement list in its own scope"""
    for st in body:
        bind_stmt(st, out)


def bind_target(t, out, node):
    if isinstance(t, ast.Name):
        out.setdefault(t.id, []).append(node)
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            bind_target(e, out, None)
    elif isinstance(t, ast.Starred):
        bind_target(t.value, out, None)


def walrus(node, out):
    for n in scope_walk(node):
        if isinstance(n, ast.NamedExpr):
            bind_target(n.target, out, n)


def scope_walk(node):
    """the nodes of a scope: does not enter nested functions, lambdas or classes (comprehensions are entered)"""
    todo = [node]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, FUNC + (ast.Lambda, ast.ClassDef)) and n is not node:
            continue
        todo += list(ast.iter_child_nodes(n))


def bind_stmt(st, out):
    if isinstance(st, FUNC + (ast.ClassDef,)):
        out.setdefault(st.name, []).append(st)
        return
    if isinstance(st, (ast.Import, ast.ImportFrom)):
        for a in st.names:
            if a.name == "*":
                out.setdefault("*", []).append(st)
            else:
                out.setdefault(a.asname or a.name.split(".")[0], []).append((st, a))
        return
    if isinstance(st, ast.Assign):
        for t in st.targets:
            bind_target(t, out, st)
    elif isinstance(st, (ast.AugAssign, ast.AnnAssign)):
        if not (isinstance(st, ast.AnnAssign) and st.value is None):
            bind_target(st.target, out, st if isinstance(st, ast.AnnAssign) else None)
    elif isinstance(st, (ast.For, ast.AsyncFor)):
        bind_target(st.target, out, None)
        collect(st.body + st.orelse, out)
    elif isinstance(st, (ast.While, ast.If)):
        collect(st.body + st.orelse, out)
    elif isinstance(st, (ast.With, ast.AsyncWith)):
        for i in st.items:
            if i.optional_vars is not None:
                bind_target(i.optional_vars, out, None)
        collect(st.body, out)
    elif isinstance(st, ast.Try):
        collect(st.body + st.orelse + st.finalbody, out)
        for h in st.handlers:
            if h.name:
                out.setdefault(h.name, []).append(None)
            collect(h.body, out)
    elif st.__class__.__name__ == "Match":
        for c in st.cases:
            for n in ast.walk(c.pattern):
                for f in ("name", "rest"):
                    if isinstance(getattr(n, f, None), str):
                        out.setdefault(getattr(n, f), []).append(None)
            collect(c.body, out)
    for e in ast.iter_child_nodes(st):
        if isinstance(e, ast.expr):
            walrus(e, out)
        elif isinstance(e, (ast.withitem, ast.keyword)):
            walrus(e, out)


class Signature:
    def __init__(self, f, drop=0):
        a = f.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        self.posonly = set(x.arg for x in a.posonlyargs)
        n = len(a.defaults)
        self.required = set(pos[: len(pos) - n]) - set(pos[:drop])
        self.pos = pos[drop:]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.required |= set(k for k, d in zip(self.kwonly, a.kw_defaults) if d is None)
        self.varargs, self.kwargs = a.vararg is not None, a.kwarg is not None

    def misfit(self, call):
        """why the call cannot bind, or None"""
        star = any(isinstance(x, ast.Starred) for x in call.args)
        named = [k.arg for k in call.keywords if k.arg is not None]
        for k in call.keywords:  # ** of a dictionary display
            if k.arg is None and isinstance(k.value, ast.Dict):
                named += [x.value for x in k.value.keys if isinstance(x, ast.Constant) and isinstance(x.value, str)]
        double = any(k.arg is None for k in call.keywords)
        given = [x for x in call.args if not isinstance(x, ast.Starred)]
        if not self.varargs and len(given) > len(self.pos):
            return "takes %d positional arguments, %d given" % (len(self.pos), len(given))
        filled = set() if star else set(self.pos[: len(given)])
        for k in named:
            if k in filled and k not in self.posonly:
                return "argument %s given twice" % k
            if k not in self.pos + self.kwonly and not self.kwargs:
                return "unexpected keyword argument %s" % k
        if not star and not double:
            missing = [x for x in self.pos + self.kwonly if x in self.required and x not in filled and x not in named]
            if missing:
                return "missing argument %s" % ", ".join(missing)
        return None


class Program:
    def __init__(self, src, package="mud"):
        self.mods, self.problems = {}, []
        self.counts = {}
        for root, dirs, files in os.walk(src):
            dirs.sort()
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                rel = os.path.relpath(os.path.join(root, f), src)[:-3].replace(os.sep, ".")
                pk = rel == "__init__" or rel.endswith(".__init__")
                name = package if rel == "__init__" else package + "." + (rel[: -len(".__init__")] if pk else rel)
                self.mods[name] = Module(name, os.path.join(root, f), pk)
        self.classes = {}

    def bad(self, mod, where, node, rule, what):
        self.problems.append((rule, mod, where, getattr(node, "lineno", 0), what))

    def count(self, kind, mod):
        self.counts[kind, mod.name] = self.counts.get((kind, mod.name), 0) + 1

    # -- resolution ---------------------------------------------------------

    def absolute(self, mod, st):
        """the module an ImportFrom names"""
        if not st.level:
            return st.module
        base = mod.name.split(".")
        if not mod.is_package:
            base = base[:-1]
        base = base[: len(base) - (st.level - 1)]
        return ".".join(base + ([st.module] if st.module else []))

    def ours(self, name):
        return name is not None and (name == "mud" or name.startswith("mud."))

    def resolve_binding(self, mod, b, seen=()):
        """definition behind a binding: ('def', module, node) | ('mod', name) | None"""
        if isinstance(b, FUNC + (ast.ClassDef,)):
            return ("def", mod, b)
        if isinstance(b, tuple):
            st, a = b
            if isinstance(st, ast.Import):
                if self.ours(a.name) and a.asname:
                    return ("mod", a.name)
                return ("mod", a.name.split(".")[0]) if self.ours(a.name) else None
            target = self.absolute(mod, st)
            if not self.ours(target) or target not in self.mods:
                return None
            if target + "." + a.name in self.mods and a.name not in self.mods[target].binds:
                return ("mod", target + "." + a.name)
            return self.global_def(self.mods[target], a.name, seen + ((mod.name, a.name),))
        if isinstance(b, ast.Assign) and isinstance(b.value, ast.Name):
            return self.global_def(mod, b.value.id, seen + ((mod.name, b.value.id),))
        return None

    def global_def(self, mod, name, seen=()):
        if (mod.name, name) in seen[:-1]:
            return None
        bs = mod.binds.get(name, [])
        if len(bs) != 1:
            return None
        return self.resolve_binding(mod, bs[0], seen + ((mod.name, name),))

    def klass(self, mod, node):
        """attributes and methods of a class along its bases; None when a base is not ours"""
        key = (mod.name, node.name, node.lineno)
        if key in self.classes:
            return self.classes[key]
        self.classes[key] = None
        info = {"attrs": set(), "methods": {}, "open": bool(node.decorator_list), "name": node.name, "bases": []}
        for b in node.bases:
            if isinstance(b, ast.Name) and b.id == "object":
                continue
            d = self.expr_def(mod, None, b)
            base = self.klass(d[1], d[2]) if d and d[0] == "def" and isinstance(d[2], ast.ClassDef) else None
            if base is None:
                info["open"] = True
            else:
                info["bases"].append(base)
        own = {}
        collect(node.body, own)
        for st in node.body:
            if isinstance(st, FUNC):
                info["methods"].setdefault(st.name, []).append((mod, st))
        info["attrs"] |= set(own)
        for st in node.body:
            if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                info["attrs"].add(st.target.id)
        for f in node.body:
            if not isinstance(f, FUNC) or not (f.args.posonlyargs + f.args.args):
                continue
            me = (f.args.posonlyargs + f.args.args)[0].arg
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me and isinstance(n.ctx, ast.Store):
                    info["attrs"].add(n.attr)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" or (
                    isinstance(n, ast.Attribute) and n.attr in ("__setattr__", "__dict__") and isinstance(n.value, ast.Name) and n.value.id == me
                ):
                    info["dynamic"] = True
            if f.name in ("__getattr__", "__getattribute__"):
                info["open"] = True
        for b in info["bases"]:
            info["attrs"] |= b["attrs"]
            info["open"] = info["open"] or b["open"]
            for k, v in b["methods"].items():
                info["methods"].setdefault(k, v)
        info["subs"] = set()
        self.classes[key] = info
        return info

    def expr_def(self, mod, env, e):
        """definition a callee or base expression names"""
        if isinstance(e, ast.Name):
            if env is not None and env.local(e.id):
                return env.local_def(e.id)
            return self.global_def(mod, e.id)
        if isinstance(e, ast.Attribute):
            path = []
            x = e
            while isinstance(x, ast.Attribute):
                path.append(x.attr)
                x = x.value
            if isinstance(x, ast.Name) and not (env is not None and env.local(x.id)):
                d = self.global_def(mod, x.id)
                for a in reversed(path):
                    if d is None or d[0] != "mod":
                        return None
                    full = d[1] + "." + a
                    m = self.mods.get(d[1])
                    if m is not None and a in m.binds:
                        d = self.global_def(m, a)
                    elif full in self.mods:
                        d = ("mod", full)
                    elif m is not None and "*" not in m.binds:
                        return ("missing", d[1], a)
                    else:
                        return None
                return d
        return None


class Env:
    """a function scope chain (None as parent: the module)"""

    def __init__(self, prog, mod, binds, parent=None):
        self.prog, self.mod, self.binds, self.parent = prog, mod, binds, parent

    def local(self, name):
        e = self
        while e is not None:
            if name in e.binds:
                return True
            e = e.parent
        return False

    def local_def(self, name):
        e = self
        while e is not None:
            if name in e.binds:
                bs = e.binds[name]
                return self.prog.resolve_binding(self.mod, bs[0]) if len(bs) == 1 and bs[0] is not None and not isinstance(bs[0], ast.Assign) else None
            e = e.parent
        return None

    def value_of(self, name):
        """the only expression assigned to a local name"""
        e = self
        while e is not None:
            if name in e.binds:
                bs = e.binds[name]
                if len(bs) == 1 and isinstance(bs[0], (ast.Assign, ast.AnnAssign)):
                    return bs[0].value
                return None
            e = e.parent
        bs = self.mod.binds.get(name, [])
        if len(bs) == 1 and isinstance(bs[0], (ast.Assign, ast.AnnAssign)):
            return bs[0].value
        return None


class Walker:
    def __init__(self, prog, mod):
        self.p, self.mod = prog, mod

    def module(self):
        self.body(self.mod.tree.body, None, None, "<module>")
        for st in ast.walk(self.mod.tree):
            if isinstance(st, ast.ImportFrom):
                self.importfrom(st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if self.p.ours(a.name):
                        self.p.count("import", self.mod)
                        if a.name not in self.p.mods:
                            self.p.bad(self.mod, "<module>", st, "import", "no module %s" % a.name)

    def importfrom(self, st):
        t = self.p.absolute(self.mod, st)
        if not self.p.ours(t):
            return
        if t not in self.p.mods:
            self.p.count("import", self.mod)
            self.p.bad(self.mod, "<module>", st, "import", "no module %s" % t)
            return
        m = self.p.mods[t]
        for a in st.names:
            self.p.count("import", self.mod)
            if a.name == "*" or "*" in m.binds or a.name in m.binds or t + "." + a.name in self.p.mods or a.name in BUILTIN:
                continue
            self.p.bad(self.mod, "<module>", st, "import", "%s has no %s" % (t, a.name))

    def globals_of(self, node):
        out = set()
        for n in scope_walk(node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                out |= set(n.names)
        return out

    def body(self, stmts, env, cls, where):
        for st in stmts:
            self.visit(st, env, cls, where)

    def visit(self, n, env, cls, where, around=None):
        if isinstance(n, FUNC + (ast.Lambda,)):
            a = n.args
            for d in a.defaults + [x for x in a.kw_defaults if x is not None] + getattr(n, "decorator_list", []):
                self.visit(d, around or env, None, where)
            binds = {}
            for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
                binds.setdefault(x.arg, []).append(None)
            if isinstance(n, ast.Lambda):
                walrus(n.body, binds)
                self.visit(n.body, Env(self.p, self.mod, binds, env), cls, where)
                return
            collect(n.body, binds)
            for g in self.globals_of(n):
                binds.pop(g, None)
            inner = Env(self.p, self.mod, binds, env)
            deco = [d.id for d in n.decorator_list if isinstance(d, ast.Name)]
            inner.me = (a.posonlyargs + a.args)[0].arg if cls is not None and (a.posonlyargs + a.args) and "staticmethod" not in deco and "classmethod" not in deco else None
            if inner.me and len(binds.get(inner.me, [])) > 1:
                inner.me = None
            inner.cls = cls
            self.body(n.body, inner, None, (where + "." if where != "<module>" else "") + n.name)
            return
        if isinstance(n, ast.ClassDef):
            for d in n.decorator_list + n.bases + [k.value for k in n.keywords]:
                self.visit(d, env, cls, where)
            info = self.p.klass(self.mod, n)
            binds = {}
            collect(n.body, binds)
            for st in n.body:
                inner = Env(self.p, self.mod, binds, env)
                if isinstance(st, FUNC):
                    self.visit(st, env, info, n.name, inner)
                else:
                    self.visit(st, inner, None, n.name)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            binds = {}
            for g in n.generators:
                bind_target(g.target, binds, None)
            binds = {k: [None] for k in binds}
            inner = Env(self.p, self.mod, binds, env)
            self.visit(n.generators[0].iter, env, cls, where)
            for i, g in enumerate(n.generators):
                if i:
                    self.visit(g.iter, inner, cls, where)
                for c in g.ifs:
                    self.visit(c, inner, cls, where)
            for e in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                self.visit(e, inner, cls, where)
            return
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load):
                self.p.count("name", self.mod)
                if not (env is not None and env.local(n.id)) and n.id not in self.mod.binds and n.id not in BUILTIN and "*" not in self.mod.binds:
                    if not self.declared_global(n.id):
                        self.p.bad(self.mod, where, n, "name", "undefined name %s" % n.id)
            return
        if isinstance(n, ast.AnnAssign):  # annotations are not evaluated in functions
            if n.value is not None:
                self.visit(n.value, env, cls, where)
            self.visit(n.target, env, cls, where)
            return
        if isinstance(n, ast.arg):
            return
        if isinstance(n, ast.Call):
            self.call(n, env, where)
        if isinstance(n, ast.Attribute):
            self.attribute(n, env, where)
        for c in ast.iter_child_nodes(n):
            self.visit(c, env, cls, where)

    def declared_global(self, name):
        return any(isinstance(x, ast.Global) and name in x.names for x in ast.walk(self.mod.tree))

    # -- rules --------------------------------------------------------------

    def owner(self, env):
        """(name of self, class) of the method around"""
        e = env
        hidden = set()
        while e is not None:
            me = getattr(e, "me", None)
            if me is not None and me not in hidden:
                return me, e.cls
            hidden |= set(e.binds)
            e = e.parent
        return None, None

    def instance(self, e, env):
        """the class an expression is certainly an instance of"""
        if isinstance(e, ast.Name):
            me, cls = self.owner(env)
            if me is not None and e.id == me:
                return cls, True
            if env is None:
                return None, False
            v = env.value_of(e.id)
            if isinstance(v, ast.Call):
                return self.instance(v, env)
        if isinstance(e, ast.Call):
            d = self.p.expr_def(self.mod, env, e.func)
            if d and d[0] == "def" and isinstance(d[2], ast.ClassDef):
                return self.p.klass(d[1], d[2]), False
            if d and d[0] == "def" and isinstance(d[2], FUNC) and not d[2].decorator_list:
                return self.returned(d[1], d[2]), False
        return None, False

    def returned(self, mod, f, depth=0):
        """the class all returns of a function construct"""
        if depth > 4:
            return None
        binds = {}
        for x in f.args.posonlyargs + f.args.args + f.args.kwonlyargs:
            binds.setdefault(x.arg, []).append(None)
        collect(f.body, binds)
        env = Env(self.p, mod, binds)
        env.me, env.cls = None, None
        got = set()
        w = Walker(self.p, mod)
        for n in scope_walk(f):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                return None
            if isinstance(n, ast.Return):
                e = n.value
                if isinstance(e, ast.Name):
                    e = env.value_of(e.id)
                k = None
                if isinstance(e, ast.Call):
                    d = self.p.expr_def(mod, env, e.func)
                    if d and d[0] == "def" and isinstance(d[2], ast.ClassDef):
                        k = self.p.klass(d[1], d[2])
                    elif d and d[0] == "def" and isinstance(d[2], FUNC) and not d[2].decorator_list:
                        k = w.returned(d[1], d[2], depth + 1)
                if k is None:
                    return None
                got.add(id(k))
                last = k
        return last if len(got) == 1 else None

    def call(self, n, env, where):
        f = n.func
        # ctx.invoke(command, ...)
        if isinstance(f, ast.Attribute) and f.attr == "invoke" and n.args:
            d = self.p.expr_def(self.mod, env, n.args[0])
            if d and d[0] == "def" and isinstance(d[2], FUNC):
                self.bind(n, d[2], where, given=ast.Call(f, n.args[1:], n.keywords), context=True)
            return
        if isinstance(f, ast.Attribute):
            c, own = self.instance(f.value, env)
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == "super" and not f.value.args:
                me, cls = self.owner(env)
                if cls is not None and not cls["open"]:
                    ms = [b["methods"].get(f.attr) for b in cls["bases"]]
                    ms = [m for m in ms if m]
                    if ms and len(ms[0]) == 1 and not ms[0][0][1].decorator_list:
                        self.bind(n, ms[0][0][1], where, drop=1)
                    elif not ms and cls["bases"] and not hasattr(object, f.attr):
                        self.p.count("call", self.mod)
                        self.p.bad(self.mod, where, n, "call", "no base of %s has %s" % (cls["name"], f.attr))
                return
            if c is not None:
                m = c["methods"].get(f.attr)
                if m and len(m) == 1 and not c["open"]:
                    g = m[0][1]
                    deco = [d.id if isinstance(d, ast.Name) else None for d in g.decorator_list]
                    if not deco or deco == ["classmethod"]:
                        self.bind(n, g, where, drop=1)
                    elif deco == ["staticmethod"]:
                        self.bind(n, g, where)
                return
        d = self.p.expr_def(self.mod, env, f)
        if d is None:
            return
        if d[0] == "missing":
            self.p.bad(self.mod, where, n, "call", "%s has no %s" % (d[1], d[2]))
            return
        if d[0] != "def":
            return
        g = d[2]
        if isinstance(g, FUNC):
            if not g.decorator_list:
                self.bind(n, g, where)
            return
        c = self.p.klass(d[1], g)
        if c is None or c["open"]:
            return
        m = c["methods"].get("__init__")
        if m and len(m) == 1 and not m[0][1].decorator_list:
            self.bind(n, m[0][1], where, drop=1, name=g.name)
        elif not m and (n.args or n.keywords) and "__new__" not in c["methods"]:
            self.p.count("call", self.mod)
            self.p.bad(self.mod, where, n, "call", "%s takes no arguments" % g.name)

    def bind(self, n, g, where, drop=0, given=None, name=None, context=False):
        self.p.count("call", self.mod)
        s = Signature(g, drop)
        if context:
            passed = any((d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", "")) in ("pass_context", "pass_obj") for d in g.decorator_list)
            if passed:
                s.required -= set(s.pos[:1])
                s.pos = s.pos[1:]
            s.required = set()  # click fills in declared defaults
        why = s.misfit(given or n)
        if why:
            self.p.bad(self.mod, where, n, "call", "%s: %s" % (name or g.name, why))

    def attribute(self, n, env, where):
        if not isinstance(n.ctx, ast.Load):
            return
        c, own = self.instance(n.value, env)
        if c is not None:
            self.p.count("attr", self.mod)
            if c["open"] or n.attr in c["attrs"] or hasattr(object, n.attr) or n.attr in ("__dict__", "__module__"):
                return
            if n.attr in self.given():  # a subclass of ours, or an assignment from outside, may give it
                return
            if self.set_by_name(c) and n.attr in self.strings():
                return
            self.p.bad(self.mod, where, n, "attr", "%s has no attribute %s" % (c["name"], n.attr))
            return
        d = self.p.expr_def(self.mod, env, n) if isinstance(n.value, (ast.Name, ast.Attribute)) else None
        if d is not None and d[0] == "missing":
            self.p.count("attr", self.mod)
            self.p.bad(self.mod, where, n, "attr", "%s has no %s" % (d[1], d[2]))

    def set_by_name(self, c):
        return c.get("dynamic") or any(self.set_by_name(b) for b in c["bases"])

    def strings(self):
        """string constants of the package: names an attribute may be set under"""
        if not hasattr(self.p, "_strings"):
            self.p._strings = set(x.value for m in self.p.mods.values() for x in ast.walk(m.tree) if isinstance(x, ast.Constant) and isinstance(x.value, str))
        return self.p._strings

    def given(self):
        """attribute names assigned on anything anywhere, or defined by any class"""
        if not hasattr(self.p, "_given"):
            out = set()
            for m in self.p.mods.values():
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and not (isinstance(x.value, ast.Name) and x.value.id == "self"):
                        out.add(x.attr)
                    if isinstance(x, ast.Call) and isinstance(x.func, (ast.Name, ast.Attribute)) and (getattr(x.func, "id", None) == "setattr" or getattr(x.func, "attr", None) == "__setattr__"):
                        for y in x.args:
                            if isinstance(y, ast.Constant) and isinstance(y.value, str):
                                out.add(y.value)
            # a base class may read what each of its subclasses defines
            for m in self.p.mods.values():
                for x in ast.walk(m.tree):
                    if isinstance(x, ast.ClassDef) and x.bases:
                        k = self.p.klass(m, x)
                        if k and any(b for b in k["bases"]):
                            own = {}
                            collect(x.body, own)
                            out |= set(own)
            self.p._given = out
        return self.p._given


def check(src):
    p = Program(src)
    for m in p.mods.values():
        Walker(p, m).module()
    return p


if __name__ == "__main__":
    import sys

    p = check(sys.argv[1] if len(sys.argv) > 1 else "/repo/src/mud")
    for rule, m, where, line, what in p.problems:
        print("%s %s:%d (%s) %s" % (rule, m.name, line, where, what))
    print(p.counts)
