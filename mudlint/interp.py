"""Abstract interpreter: AST -> gated value graph.

Every expression of the analysed source is mapped to a canonical term
(``sym.Node``), an abstract array (index function) or a reference to an abstract
heap object.  Branches are joined by gating conditions; nothing is executed and
no path is handed to a solver.
"""
import ast
import os

from . import folds
from . import sym as S
from .sym import Arr, Node, ShapeError, ZERO, ONE, TRUE, FALSE, NONE


class Unknown(Exception):
    """the analysis has no model for a construct: the obligation is undecided"""


class Dead(Exception):
    """the current path has left the statement (exception raised)"""


class NeedSplit(Exception):
    def __init__(self, c):
        self.c = c


class Missing(Exception):
    """an anchor (module, function, attribute of the library) does not exist"""


# ------------------------------------------------------------------ values
class A:
    """reference to an abstract array"""

    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc


class Ref:
    """reference to list / dict / instance / generator object"""

    __slots__ = ("loc",)

    def __init__(self, loc):
        self.loc = loc


class PhiV:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class FuncV:
    __slots__ = ("node", "name", "mod", "env", "defaults", "kwdefaults", "cls", "deco", "ctx")

    def __init__(self, node, name, mod, env, defaults, kwdefaults, cls=None):
        self.node, self.name, self.mod, self.env = node, name, mod, env
        self.defaults, self.kwdefaults, self.cls = defaults, kwdefaults, cls
        self.deco = None
        self.ctx = False


class PropV:
    __slots__ = ("get", "set", "cached")

    def __init__(self, get, set=None):
        self.get, self.set = get, set
        self.cached = False


class StaticV:
    __slots__ = ("f", "kind")

    def __init__(self, f, kind):
        self.f, self.kind = f, kind


class BoundV:
    __slots__ = ("obj", "f")

    def __init__(self, obj, f):
        self.obj, self.f = obj, f


class XBound:
    """method of an array, list, dict, string or external object"""

    __slots__ = ("obj", "name")

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class ClassV:
    __slots__ = ("name", "bases", "members", "mod", "node")

    def __init__(self, name, bases, members, mod, node):
        self.name, self.bases, self.members, self.mod, self.node = name, bases, members, mod, node

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassV):
                for c in b.mro():
                    if c not in out:
                        out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.members:
                return c.members[name]
        return None

    def extbase(self):
        for c in self.mro():
            for b in c.bases:
                if isinstance(b, Ext) and b.name != "builtins.object":
                    return b
        return None


class ModV:
    __slots__ = ("name", "env", "tree", "path")

    def __init__(self, name, env, tree, path):
        self.name, self.env, self.tree, self.path = name, env, tree, path


class Ext:
    """name in an external (or builtin) module"""

    __slots__ = ("name",)
    _cache = {}

    def __new__(cls, name):
        e = cls._cache.get(name)
        if e is None:
            e = object.__new__(cls)
            e.name = name
            cls._cache[name] = e
        return e


class X:
    """external object, identified by a term"""

    __slots__ = ("kind", "node", "extra")

    def __init__(self, kind, node, extra=None):
        self.kind, self.node, self.extra = kind, node, extra


class RangeV:
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class IterV:
    """lazy zip / enumerate / map / reversed: (kind, args)"""

    __slots__ = ("kind", "args", "loc")

    def __init__(self, kind, *args):
        self.kind, self.args, self.loc = kind, args, None


class PartialV:
    __slots__ = ("f", "args", "kw")

    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class SuperV:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class _Missing:
    def __repr__(self):
        return "<unbound>"


MISSING = _Missing()
POISON = _Missing()  # value of the previous iteration, not represented


# ------------------------------------------------------------------ heap objects
class HArr:
    """dt: None, or the names of the inputs whose entries' type it has (it is an integer array where those are)"""

    __slots__ = ("arr", "dt")

    def __init__(self, arr, dt=None):
        self.arr = arr
        self.dt = dt


class HView:
    __slots__ = ("root", "dims", "g", "inv")

    def __init__(self, root, dims, g, inv):
        self.root, self.dims, self.g, self.inv = root, dims, g, inv


class HList:
    __slots__ = ("items", "cls")

    def __init__(self, items, cls="list"):
        self.items, self.cls = tuple(items), cls


class HSeq:
    """list of symbolic length: items[k] = inst(tmpl, i -> k)"""

    __slots__ = ("n", "i", "tmpl")

    def __init__(self, n, i, tmpl):
        self.n, self.i, self.tmpl = n, i, tmpl


class HGrow:
    """list inside a symbolic loop: only what one iteration appends is known"""

    __slots__ = ("added",)

    def __init__(self, added=()):
        self.added = added


class HDict:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items


class HObj:
    __slots__ = ("cls", "attrs")

    def __init__(self, cls, attrs):
        self.cls, self.attrs = cls, attrs


class HEnv:
    __slots__ = ("vars", "parent")

    def __init__(self, vars, parent):
        self.vars, self.parent = vars, parent


class HPhi:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class HCell:
    """state of an external object (random generator, fitted estimator...)"""

    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


class TArr:
    __slots__ = ("arr",)

    def __init__(self, arr):
        self.arr = arr


class TList:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items


# ------------------------------------------------------------------ state
class TSeq:
    __slots__ = ("n", "i", "tmpl")

    def __init__(self, n, i, tmpl):
        self.n, self.i, self.tmpl = n, i, tmpl


class St:
    __slots__ = ("heap", "path", "facts", "events", "rng")

    def __init__(self):
        self.heap = {}
        self.path = ()
        self.facts = {}
        self.events = ()
        self.rng = S.sym("rng0")

    def copy(self):
        s = St.__new__(St)
        s.heap = dict(self.heap)
        s.path = self.path
        s.facts = self.facts
        s.events = self.events
        s.rng = self.rng
        return s


class Fr:
    __slots__ = ("env", "mod", "exits", "func", "cls", "selfv", "line", "yields", "glob", "nonl", "at_yield")

    def __init__(self, env, mod, func=None, cls=None, selfv=None):
        self.env, self.mod, self.func, self.cls, self.selfv = env, mod, func, cls, selfv
        self.exits = []
        self.line = 0
        self.yields = None
        self.at_yield = None
        self.glob = set()
        self.nonl = set()


class Exit:
    __slots__ = ("kind", "val", "st", "site")

    def __init__(self, kind, val, st, site=None):
        self.kind, self.val, self.st, self.site = kind, val, st, site


EXC_TREE = {
    "BaseException": None, "Exception": "BaseException", "ValueError": "Exception", "TypeError": "Exception",
    "AttributeError": "Exception", "KeyError": "LookupError", "IndexError": "LookupError", "LookupError": "Exception",
    "AssertionError": "Exception", "NameError": "Exception", "UnboundLocalError": "NameError",
    "NotImplementedError": "RuntimeError", "RuntimeError": "Exception", "ZeroDivisionError": "ArithmeticError",
    "ArithmeticError": "Exception", "FloatingPointError": "ArithmeticError", "OverflowError": "ArithmeticError",
    "OSError": "Exception", "FileNotFoundError": "OSError", "IOError": "Exception", "ImportError": "Exception",
    "ModuleNotFoundError": "ImportError", "StopIteration": "Exception", "LinAlgError": "ValueError",
    "UserWarning": "Warning", "Warning": "Exception", "RuntimeWarning": "Warning", "DeprecationWarning": "Warning",
    "PermissionError": "OSError", "FutureWarning": "Warning", "UnicodeDecodeError": "ValueError", "EOFError": "Exception",
    "RecursionError": "RuntimeError", "SystemExit": "BaseException", "KeyboardInterrupt": "BaseException",
}


def exc_isa(name, target):
    if target == "IOError":
        target = "OSError"
    while name is not None:
        if name == target:
            return True
        name = EXC_TREE.get(name)
    return False


BUILTINS = set(
    """len range enumerate zip map filter min max sum any all abs float int str list tuple dict set bool isinstance
    issubclass hasattr getattr setattr type print super property staticmethod classmethod round sorted reversed open
    divmod pow iter next callable id vars repr format object frozenset complex bytes slice hash input ord chr
    delattr dir locals globals bin hex oct ascii memoryview bytearray __import__ exec eval compile NotImplemented
    Ellipsis __name__ __file__ __doc__""".split()
) | set(EXC_TREE)

BINOPS = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.Pow: "**", ast.MatMult: "@", ast.FloorDiv: "//",
    ast.Mod: "%", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>",
}
CMPOPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}

MAXDEPTH = 60


class Interp:
    def __init__(self, srcroot, package="mud"):
        self.srcroot = srcroot
        self.package = package
        self.st = St()
        self.nloc = 0
        self.depth = 0
        self.modules = {}
        self.calls = 0  # analysed call sites
        self.stmts = 0
        self.ints = frozenset()  # names of the inputs that are integer arrays
        self.relied_ints = set()
        self.truncated = set()  # functions during whose calls an integer array cut off what was stored in it
        self.exempt = frozenset()  # known findings of that kind
        self.relied = set()  # differences of sizes a comparison in the package took to be nonzero
        self.tried = False
        self.funcs = set()  # functions of the package analysed
        self.importing = []
        self.ctr = 0
        self.budget = 400000
        self.lines = set()
        self.opaque = set()
        self.models = {}
        self.callstack = []
        from . import lib

        self.lib = lib
        self.extra_names = {}

    # ---------------------------------------------------------------- heap
    def alloc(self, o):
        self.nloc += 1
        self.st.heap[self.nloc] = o
        return self.nloc

    def obj(self, loc):
        o = self.st.heap[loc]
        if isinstance(o, HPhi):
            return self.pick_phi(loc, o)
        if isinstance(o, HGrow):
            raise Unknown("list read while a loop fills it")
        return o

    def pick_phi(self, loc, o):
        c = self.simp(o.c)
        if c is TRUE:
            r = o.a
        elif c is FALSE:
            r = o.b
        else:
            raise NeedSplit(c)
        self.st.heap[loc] = r
        return self.obj(loc)

    def put(self, loc, o):
        self.st.heap[loc] = o

    def new(self, arr):
        """new array value (0-d results become scalars)"""
        if not arr.dims:
            return arr.body
        return A(self.alloc(HArr(arr)))

    def newlist(self, items):
        return Ref(self.alloc(HList(tuple(items))))

    def newdict(self, d):
        return Ref(self.alloc(HDict(dict(d))))

    def uid(self):
        self.ctr += 1
        return self.ctr

    def readarr(self, v):
        o = self.obj(v.loc)
        if isinstance(o, HArr):
            return o.arr
        base = self.obj(o.root).arr
        return S.build(o.dims, lambda *i: base.at(o.g(i)))

    def dims(self, v):
        o = self.obj(v.loc)
        return o.arr.dims if isinstance(o, HArr) else o.dims

    def view(self, v, dims, g, inv):
        """view of v: element i of the view is element g(i) of v; inv(j)->(cond,i)"""
        o = self.obj(v.loc)
        if isinstance(o, HArr):
            root, gg, iv = v.loc, g, inv
        else:
            root = o.root
            og, oi = o.g, o.inv

            def gg(i):
                return og(g(i))

            def iv(j):
                c, k = oi(j)
                c2, m = inv(k)
                return S.and_(c, c2), m

        if not dims:
            return self.obj(root).arr.at(gg(()))
        return A(self.alloc(HView(root, tuple(dims), gg, iv)))

    def writearr(self, v, arr):
        """overwrite the whole content of v by arr (same dims)"""
        o = self.obj(v.loc)
        if isinstance(o, HArr):
            self.put(v.loc, HArr(self.stored(arr, o.dt), o.dt))
            return
        base = self.obj(o.root).arr
        dt = self.obj(o.root).dt

        def f(*j):
            c, i = o.inv(j)
            if c is FALSE:
                return base.at(j)
            return S.ite(c, arr.at(i), base.at(j))

        self.put(o.root, HArr(self.stored(S.build(base.dims, f), dt), dt))

    # ---------------------------------------------------------------- integer arrays
    def dtof(self, v):
        o = self.obj(v.loc)
        return o.dt if isinstance(o, HArr) else self.obj(o.root).dt

    def isintdt(self, dt):
        """are the entries integers?  the package relied on the answer"""
        if dt is None:
            return False
        if not dt <= self.ints and self.callstack[-1].mod is not None and self.callstack[-1].mod.path:
            self.relied_ints.add(frozenset(dt - self.ints))
        return dt <= self.ints

    def stored(self, arr, dt):
        if dt is None or arr.body.isint or S.isbool(arr.body) or not self.isintdt(dt):
            return arr
        sites = {"%s:%s" % (os.path.relpath(fr.mod.path, os.path.dirname(self.srcroot)), fr.func) for fr in self.callstack if fr.mod is not None and fr.mod.path}
        self.truncated |= sites
        if sites & self.exempt:
            return arr
        return S.Arr(arr.dims, arr.idx, S.truncate(arr.body), arr.kind)

    def typed(self, r, dt):
        """the fresh array r has entries of that type"""
        if dt is not None and isinstance(r, A):
            o = self.st.heap.get(r.loc)
            if isinstance(o, HArr) and o.dt is None and not S.isbool(o.arr.body):
                self.st.heap[r.loc] = HArr(o.arr, dt)
        return r

    def commondt(self, vs):
        """the type of a result computed from all of vs without division; None: not known to be integer"""
        dt = frozenset()
        n = 0
        for v in vs:
            v = self.res(v)
            if isinstance(v, Ref) and isinstance(self.obj(v.loc), HList):
                v = tuple(self.obj(v.loc).items)
            if isinstance(v, tuple):
                v = [self.res(x) for x in v]
                if not v or not all(isinstance(x, A) for x in v):
                    return None
                d = self.commondt(v)
            elif isinstance(v, A):
                d = self.dtof(v)
            else:
                return None
            if d is None:
                return None
            dt |= d
            n += 1
        return dt if n else None

    # ---------------------------------------------------------------- conditions
    def simp(self, c):
        if c in (TRUE, FALSE) or isinstance(c, bool):
            return c
        f = self.st.facts
        if f:
            m = {k: f[k] for k in c.mk if k in f}
            if m:
                c = S.subst(c, m)
                if c in (TRUE, FALSE):
                    return c
        base = c.args[0] if c.op == "not" else c
        if base.cond and f:
            cf = {k: v for k, v in f.items() if k.cond}
            for v in (TRUE, FALSE):
                if S.contradictory({**cf, base: v}):
                    r = FALSE if v is TRUE else TRUE
                    return S.not_(r) if c.op == "not" else r
        return c

    def assume(self, st, c):
        """add literal(s) of c to state st"""
        if c is TRUE:
            return
        st.path = st.path + (c,)
        facts = dict(st.facts)

        def lit(x, v):
            if x.op == "not":
                lit(x.args[0], FALSE if v is TRUE else TRUE)
            elif x.op == "and":
                if v is TRUE:
                    for y in x.args:
                        lit(y, TRUE)
                else:
                    facts[x] = v
            else:
                facts[x] = v
                if x.cond:
                    for k, w in S.implied({}, x, v).items():
                        facts[k] = w

        lit(c, TRUE)
        st.facts = facts

    def truth(self, v):
        """bool or condition node"""
        v = self.res(v)
        if v is None or v is False or v is True:
            return bool(v)
        if isinstance(v, (int, str, bytes)):
            return bool(v)
        if isinstance(v, Node):
            if v.op in ("true", "false"):
                return v is TRUE
            if S.isbool(v):
                c = self.simp(v)
            elif v.op == "ite":
                c = S.ite(v.args[0], *[self._tn(x) for x in v.args[1:]])
                c = self.simp(c)
            elif v.op in ("str",):
                return bool(v.args[0])
            elif v.op == "strcat" and any(isinstance(x, Node) and x.op == "str" and x.args[0] for x in v.args):
                return True
            elif v.op == "fmt" and len(v.args) == 2 and isinstance(v.args[0], Node) and not self.lib.isstr(v.args[0]):
                return True
            elif v is NONE:
                return False
            elif v in self.lib.STRSYMS:
                return True
            else:
                c = self.simp(S.not_(S.eq0(v)))
            if c is TRUE:
                return True
            if c is FALSE:
                return False
            return c
        if isinstance(v, tuple):
            return len(v) > 0
        if isinstance(v, A):
            a = self.readarr(v)
            if all(d is ONE for d in a.dims):
                return self.truth(a.at([ZERO] * a.ndim))
            self.throw("ValueError", "truth value of an array is ambiguous")
        if isinstance(v, Ref):
            o = self.obj(v.loc)
            if isinstance(o, HList):
                return len(o.items) > 0
            if isinstance(o, HDict):
                if any(isinstance(x, PhiV) and (x.a is MISSING or x.b is MISSING) for x in o.items.values()):
                    for x in o.items.values():
                        self.res(x)
                return len([1 for x in o.items.values() if x is not MISSING]) > 0
            if isinstance(o, HObj):
                f = o.cls.find("__bool__")
                if f is not None:
                    return self.truth(self.call(BoundV(v, f), [], {}))
                f = o.cls.find("__len__")
                if f is not None:
                    return self.truth(self.call(BoundV(v, f), [], {}))
            return True
        if isinstance(v, RangeV):
            return self.truth(self.lib.length(self, v))
        if isinstance(v, X) and v.kind == "opq":
            return S.cnd("truth", v.node, opq=True)
        return True

    def _tn(self, x):
        if x is NONE:
            return FALSE
        if S.isbool(x):
            return x
        if x.op == "str":
            return TRUE if x.args[0] else FALSE
        return S.not_(S.eq0(x))

    def res(self, v):
        """resolve phi values by known facts, or ask for a split"""
        while isinstance(v, PhiV):
            c = self.simp(v.c)
            if c is TRUE:
                v = v.a
            elif c is FALSE:
                v = v.b
            else:
                raise NeedSplit(c)
        return v

    # ---------------------------------------------------------------- joining
    def phi(self, c, a, b):
        if a is b:
            return a
        if c is TRUE:
            return a
        if c is FALSE:
            return b
        if isinstance(a, (int, bool, str, type(None))) and type(a) is type(b) and a == b:
            return a
        na, nb = self.scal(a), self.scal(b)
        if na is not None and nb is not None:
            if na is nb:
                return a
            return S.ite(c, na, nb)
        if isinstance(a, Ref) and isinstance(b, Ref) and a.loc == b.loc:
            return a
        if isinstance(a, A) and isinstance(b, A) and a.loc == b.loc:
            return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.phi(c, x, y) for x, y in zip(a, b))
        if isinstance(a, BoundV) and isinstance(b, BoundV) and a.f is b.f and self.same(a.obj, b.obj):
            return a
        if isinstance(a, X) and isinstance(b, X) and a.kind == b.kind and a.node is b.node:
            return a
        return PhiV(c, a, b)

    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, (A, Ref)) and type(a) is type(b):
            return a.loc == b.loc
        return False

    def scal(self, v):
        """Node of a scalar number / boolean value, else None"""
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, int):
            return S.num(v)
        if isinstance(v, Node) and v.op not in ("str", "none") and v not in self.lib.STRSYMS:
            return v
        return None

    def phi_obj(self, c, a, b):
        if a is b:
            return a
        if isinstance(a, HEnv) and isinstance(b, HEnv):
            return HEnv(self.phi_map(c, a.vars, b.vars), a.parent)
        if isinstance(a, HObj) and isinstance(b, HObj) and a.cls is b.cls:
            return HObj(a.cls, self.phi_map(c, a.attrs, b.attrs))
        if isinstance(a, HDict) and isinstance(b, HDict):
            return HDict(self.phi_map(c, a.items, b.items))
        if isinstance(a, HList) and isinstance(b, HList) and len(a.items) == len(b.items):
            return HList([self.phi(c, x, y) for x, y in zip(a.items, b.items)], a.cls)
        if isinstance(a, HArr) and isinstance(b, HArr) and a.arr.dims == b.arr.dims:
            x, y = a.arr, b.arr
            return HArr(S.build(x.dims, lambda *i: S.ite(c, x.at(i), y.at(i))), a.dt if a.dt == b.dt else None)
        if isinstance(a, HCell) and isinstance(b, HCell):
            return HCell(self.phi(c, a.v, b.v))
        if isinstance(a, HPhi) and a.c is c:
            a = a.a
        if isinstance(b, HPhi) and b.c is c:
            b = b.b
        return HPhi(c, a, b)

    def phi_map(self, c, a, b):
        if a is b:
            return a
        out = {}
        for k in a:
            x = a[k]
            y = b.get(k, MISSING)
            out[k] = x if x is y else self.phi(c, x, y)
        for k in b:
            if k not in a:
                out[k] = self.phi(c, MISSING, b[k])
        return out

    def join(self, c, s1, s2, pre):
        """state equal to s1 where c holds and s2 elsewhere; both start from pre"""
        s = St()
        s.path, s.facts = pre.path, pre.facts
        h = {}
        h1, h2 = s1.heap, s2.heap
        for k, o in h1.items():
            p = h2.get(k)
            if p is o or p is None:
                h[k] = o
            else:
                h[k] = self.phi_obj(c, o, p)
        for k, o in h2.items():
            if k not in h1:
                h[k] = o
        s.heap = h
        s.rng = s1.rng if s1.rng is s2.rng else S.ite(c, s1.rng, s2.rng)
        s.events = self.join_events(s1.events, s2.events, pre.events)
        return s

    def join_events(self, e1, e2, pre):
        if e1 is e2:
            return e1
        n = len(pre)
        return e1 + e2[n:]

    def rel(self, path, pre):
        return S.and_(*path[len(pre.path):])

    def join_many(self, items, pre):
        """items: [(St, value)] with exclusive paths extending pre"""
        items = list(items)
        st, v = items[-1]
        if len(items) == 1:
            return st, v
        acc = st.copy()
        val = v
        for s, w in reversed(items[:-1]):
            c = S.and_(*s.path[len(pre.path):])
            val = self.phi(c, w, val)
            acc = self.join(c, s, acc, pre)
        acc.path, acc.facts = pre.path, pre.facts
        return acc, val

    # ---------------------------------------------------------------- exceptions
    def throw(self, name, msg=None, fr=None):
        """the analysed program raises an exception here"""
        raise_exit = Exit("raise", X("exc", S.mk("exc", name), (name, msg)), self.st, self.site())
        self.frame().exits.append(raise_exit)
        self.st = self.st.copy()
        raise Dead()

    def throw_if(self, c, name, msg=None):
        """raise when condition c holds; continue otherwise"""
        c = self.simp(c)
        if c is FALSE:
            return
        if c is TRUE:
            self.throw(name, msg)
        pre = self.st
        bad = pre.copy()
        self.assume(bad, c)
        self.frame().exits.append(Exit("raise", X("exc", S.mk("exc", name), (name, msg)), bad, self.site()))
        self.st = pre.copy()
        self.assume(self.st, S.not_(c))

    def frame(self):
        return self.callstack[-1]

    def site(self):
        for fr in reversed(self.callstack):
            if fr.mod is not None and fr.mod.path:
                return (os.path.relpath(fr.mod.path, os.path.dirname(self.srcroot)), fr.func or "<module>", fr.line)
        return None

    # ---------------------------------------------------------------- statements
    def block(self, stmts, fr):
        """True if control reaches the end"""
        for s in stmts:
            if not self.stmt(s, fr):
                return False
        return True

    def stmt(self, s, fr):
        snap = self.st.copy()
        nex = len(fr.exits)
        try:
            fr.line = getattr(s, "lineno", fr.line)
            self.stmts += 1
            if self.stmts > self.budget:
                raise Unknown("analysis budget exhausted")
            return self.stmt1(s, fr)
        except Dead:
            return False
        except NeedSplit as e:
            del fr.exits[nex:]
            del self.callstack[self.callstack.index(fr) + 1:]
            return self.split_stmt(s, fr, snap, e.c)

    def split_stmt(self, s, fr, pre, c):
        k = c.args[0] if c.op == "not" else c
        if k.op == "and":
            k = k.args[0]
            if k.op == "not":
                k = k.args[0]
        return self.fork(fr, pre, k, lambda: self.stmt(s, fr), lambda: self.stmt(s, fr))

    def fork(self, fr, pre, c, f, g):
        """run f where c holds, g elsewhere, from state pre, and join"""
        nex = len(fr.exits)
        s1, s2 = pre.copy(), pre.copy()
        self.assume(s1, c)
        self.assume(s2, S.not_(c))
        self.st = s1
        try:
            l1 = f()
        except Dead:
            l1 = False
        s1 = self.st
        self.st = s2
        try:
            l2 = g()
        except Dead:
            l2 = False
        s2 = self.st
        if l1 and l2:
            self.st = self.join(c, s1, s2, pre)
            for e in fr.exits[nex:]:
                r = self.simp(S.not_(self.rel(e.st.path, pre)))
                if r is not TRUE:
                    self.assume(self.st, r)
            return True
        if l1:
            self.st = s1
            return True
        if l2:
            self.st = s2
            return True
        return False

    def stmt1(self, s, fr):
        t = type(s)
        if t is ast.Expr:
            if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
                self.do_yield(s.value, fr)
                return True
            if not isinstance(s.value, ast.Constant):
                self.ev(s.value, fr)
            return True
        if t is ast.Assign:
            v = self.ev(s.value, fr)
            for tg in s.targets:
                self.assign(tg, v, fr)
            return True
        if t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, fr), fr)
            return True
        if t is ast.AugAssign:
            self.augassign(s, fr)
            return True
        if t is ast.Return:
            v = None if s.value is None else self.ev(s.value, fr)
            fr.exits.append(Exit("return", v, self.st))
            return False
        if t is ast.If:
            c = self.truth(self.ev(s.test, fr))
            if c is True:
                return self.block(s.body, fr)
            if c is False:
                return self.block(s.orelse, fr)
            return self.fork(fr, self.st, c, lambda: self.block(s.body, fr), lambda: self.block(s.orelse, fr))
        if t is ast.For:
            return self.for_stmt(s, fr)
        if t is ast.While:
            return self.while_stmt(s, fr)
        if t in (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal):
            if t is ast.Import:
                for al in s.names:
                    self.do_import(al, fr)
            elif t is ast.ImportFrom:
                self.do_importfrom(s, fr)
            elif t is ast.Global:
                fr.glob |= set(s.names)
            elif t is ast.Nonlocal:
                fr.nonl |= set(s.names)
            return True
        if t in (ast.FunctionDef,):
            f = self.make_func(s, fr)
            for d in reversed(s.decorator_list):
                f = self.decorate(d, f, fr)
            self.setvar(fr, s.name, f)
            return True
        if t is ast.ClassDef:
            c = self.make_class(s, fr)
            for d in reversed(s.decorator_list):
                c = self.class_decorator(d, c, fr)
            self.setvar(fr, s.name, c)
            return True
        if t is ast.Raise:
            return self.raise_stmt(s, fr)
        if t is ast.Assert:
            c = self.truth(self.ev(s.test, fr))
            if c is True:
                return True
            if c is False:
                self.throw("AssertionError")
            self.throw_if(S.not_(c), "AssertionError")
            return True
        if t is ast.Try:
            if not (fr.mod is not None and fr.mod.path):
                self.tried = True
            return self.try_stmt(s, fr)
        if t is ast.With:
            return self.with_stmt(s, fr)
        if t is ast.Break:
            fr.exits.append(Exit("break", None, self.st))
            return False
        if t is ast.Continue:
            fr.exits.append(Exit("continue", None, self.st))
            return False
        if t is ast.Delete:
            for tg in s.targets:
                self.delete(tg, fr)
            return True
        if t is ast.Match:
            return self.match_stmt(s, fr)
        raise Unknown("statement " + t.__name__)

    def match_stmt(self, s, fr):
        v = self.ev(s.subject, fr)

        def case(k):
            if k >= len(s.cases):
                return True
            cs = s.cases[k]
            c = self.pattern(cs.pattern, v, fr)
            if cs.guard is not None and c is not False:
                g = self.truth(self.ev(cs.guard, fr))
                c = g if c is True else (c if g is True else (False if g is False else S.and_(c, g)))
            if c is True:
                return self.block(cs.body, fr)
            if c is False:
                return case(k + 1)
            return self.fork(fr, self.st, c, lambda: self.block(cs.body, fr), lambda: case(k + 1))

        return case(0)

    def pattern(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.lib.cmp(self, "==", v, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.is_(v, p.value))
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None:
                c = self.pattern(p.pattern, v, fr)
            else:
                c = True
            if p.name and c is not False:
                self.setvar(fr, p.name, v)
            return c
        if isinstance(p, ast.MatchOr):
            r = False
            for q in p.patterns:
                c = self.pattern(q, v, fr)
                if c is True:
                    return True
                if c is not False:
                    r = c if r is False else S.or_(r, c)
            return r
        raise Unknown("match pattern")

    def raise_stmt(self, s, fr):
        if s.exc is None:
            cur = self.getvar_opt(fr, "$exc")
            if cur is None:
                self.throw("RuntimeError")
            fr.exits.append(Exit("raise", cur, self.st, self.site()))
            return False
        v = self.ev(s.exc, fr)
        v = self.res(v)
        if isinstance(v, Ext):
            v = self.call(v, [], {})
        if isinstance(v, ClassV):
            v = self.call(v, [], {})
        if isinstance(v, Ref):
            o = self.obj(v.loc)
            b = o.cls.extbase()
            name = o.cls.name
            if b is not None:
                EXC_TREE.setdefault(name, b.name.split(".")[-1])
            v = X("exc", S.mk("exc", name), (name, None))
        if not (isinstance(v, X) and v.kind == "exc"):
            if isinstance(v, (str, int, tuple, A)) or isinstance(v, Node) and not v.opq:
                self.throw("TypeError", "exceptions must derive from BaseException")
            raise Unknown("raise of a non-exception value")
        fr.exits.append(Exit("raise", v, self.st, self.site()))
        return False

    def try_stmt(self, s, fr):
        pre = self.st.copy()
        saved = fr.exits
        fr.exits = []
        lives = []
        try:
            ok = self.block(s.body, fr)
            if ok and s.orelse:
                body_exits = fr.exits
                fr.exits = []
                ok = self.block(s.orelse, fr)
                else_exits = fr.exits
                fr.exits = body_exits
            else:
                else_exits = []
            if ok:
                lives.append(self.st)
            pend = []
            for e in fr.exits:
                if e.kind != "raise":
                    pend.append(e)
                    continue
                h = self.find_handler(s.handlers, e, fr)
                if h is None:
                    pend.append(e)
                    continue
                fr.exits = []
                self.st = e.st.copy()
                old = self.getvar_opt(fr, "$exc")
                self.setvar(fr, "$exc", e.val)
                if h.name:
                    self.setvar(fr, h.name, e.val)
                ok = self.block(h.body, fr)
                self.setvar(fr, "$exc", old)
                if ok:
                    lives.append(self.st)
                pend += fr.exits
            pend += else_exits
        finally:
            fr.exits = saved
        if s.finalbody:
            outs = []
            for e in pend:
                self.st = e.st.copy()
                fr.exits = []
                if self.block(s.finalbody, fr):
                    outs.append(Exit(e.kind, e.val, self.st, e.site))
                outs += fr.exits
            nl = []
            for st in lives:
                self.st = st
                fr.exits = []
                if self.block(s.finalbody, fr):
                    nl.append(self.st)
                outs += fr.exits
            lives, pend = nl, outs
            fr.exits = saved
        fr.exits += pend
        if not lives:
            return False
        st, _ = self.join_many([(x, None) for x in lives], pre)
        self.st = st
        if len(lives) > 1:
            for e in pend:
                r = self.simp(S.not_(self.rel(e.st.path, pre)))
                if r is not TRUE:
                    self.assume(self.st, r)
        return True

    def find_handler(self, handlers, e, fr):
        name = e.val.extra[0]
        for h in handlers:
            if h.type is None:
                return h
            ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
            vs = []
            for t in ts:
                v = self.res(self.ev(t, fr))
                vs += list(v) if isinstance(v, tuple) else [v]
            for v in vs:
                tn = v.name.split(".")[-1] if isinstance(v, (Ext, ClassV)) else None
                if tn and exc_isa(name, tn):
                    return h
        return None

    def with_stmt(self, s, fr):
        return self.with_items(s, 0, fr)

    def with_items(self, s, k, fr):
        if k == len(s.items):
            return self.block(s.body, fr)
        it = s.items[k]
        v = self.res(self.ev(it.context_expr, fr))

        def body(w):
            if it.optional_vars is not None:
                self.assign(it.optional_vars, w, fr)
            return self.with_items(s, k + 1, fr)

        if isinstance(v, X) and v.kind == "genctx":
            return self.with_gen(v, body, fr)
        if isinstance(v, X) and v.kind == "suppress":
            names = v.extra

            def leave(e):
                if e is None or e.kind != "raise":
                    return False
                return any(exc_isa(e.val.extra[0], n) for n in names)

            return self.with_exit(v, body, leave, fr)
        if isinstance(v, Ref) and isinstance(self.obj(v.loc), HObj):
            cls = self.obj(v.loc).cls
            f, g = cls.find("__enter__"), cls.find("__exit__")
            w = v if f is None else self.call(BoundV(v, f), [], {})
            if g is None:
                return body(w)

            def leave(e):
                args = [None, None, None]
                if e is not None and e.kind == "raise":
                    args = [X("exctype", S.mk("exctype", e.val.extra[0])), e.val, X("traceback", S.mk("traceback"))]
                return self.call(BoundV(v, g), args, {})

            return self.with_exit(w, body, leave, fr)
        return body(v)

    def with_exit(self, v, body, leave, fr):
        """run body; on every way out call leave(exit); a true result swallows an exception"""
        pre = self.st.copy()
        saved = fr.exits
        fr.exits = []
        lives, pend = [], []
        try:
            if body(v):
                lives.append((self.st, None))
            outs = fr.exits
            for e in outs:
                lives.append((e.st, e))
            todo, lives = lives, []
            for st, e in todo:
                self.st = st.copy()
                fr.exits = []
                try:
                    r = leave(e)
                    r = self.truth(r)
                except Dead:
                    pend += fr.exits
                    continue
                pend += fr.exits
                if e is None:
                    lives.append(self.st)
                elif e.kind != "raise" or r is False:
                    pend.append(Exit(e.kind, e.val, self.st, e.site))
                elif r is True:
                    lives.append(self.st)
                else:
                    bad = self.st.copy()
                    self.assume(bad, S.not_(r))
                    pend.append(Exit(e.kind, e.val, bad, e.site))
                    self.assume(self.st, r)
                    lives.append(self.st)
        finally:
            fr.exits = saved
        fr.exits += pend
        return self.go_on(lives, pend, pre)

    def go_on(self, lives, pend, pre):
        if not lives:
            return False
        st, _ = self.join_many([(x, None) for x in lives], pre)
        self.st = st
        if len(lives) > 1 or pend:
            for e in pend:
                r = self.simp(S.not_(self.rel(e.st.path, pre)))
                if r is not TRUE:
                    self.assume(self.st, r)
        return True

    def with_gen(self, v, body, fr):
        """with over a generator-based context manager: the body runs at its yield"""
        f, args, kw = v.extra
        pre = self.st.copy()
        gen = {}

        def at_yield(w, gfr, y):
            gen["n"] = gen.get("n", 0) + 1
            if gen["n"] > 1 and False:
                raise Unknown("context manager with several yields")
            saved = fr.exits
            fr.exits = []
            self.callstack.append(fr)
            try:
                ok = body(w)
                outs = fr.exits
            except Dead:
                ok, outs = False, fr.exits
            finally:
                fr.exits = saved
                while self.callstack[-1] is not gfr:
                    self.callstack.pop()
            for e in outs:
                if e.kind == "raise":
                    gfr.exits.append(e)
                else:
                    if not tail_yield(f.node.body, y):
                        raise Unknown("with body left early inside a generator context manager")
                    gfr.exits.append(Exit("wbody", e, e.st, e.site))
            if not ok:
                raise Dead()

        self.call_func(f, args, kw, at_yield, fr)
        return True

    # -- loops
    def for_stmt(self, s, fr):
        it = self.iterate(self.ev(s.iter, fr))
        if not isinstance(it, list):
            return self.sym_for(s, fr, it)
        pre = self.st.copy()
        saved = fr.exits
        breaks = []
        out = []
        alive = True
        for v in it:
            fr.exits = []
            start = self.st.copy()
            try:
                self.assign(s.target, v, fr)
                ok = self.block(s.body, fr)
            except Dead:
                ok = False
            except BaseException:
                fr.exits = saved
                raise
            conts = []
            for e in fr.exits:
                if e.kind == "continue":
                    conts.append(e.st)
                elif e.kind == "break":
                    breaks.append(e.st)
                else:
                    out.append(e)
            if ok:
                conts.append(self.st)
            if not conts:
                alive = False
                break
            if len(conts) > 1:
                st, _ = self.join_many([(x, None) for x in conts], start)
                gone = [e for e in fr.exits if e.kind != "continue"]
                self.st = st
                for e in gone:
                    r = self.simp(S.not_(self.rel(e.st.path, start)))
                    if r is not TRUE:
                        self.assume(self.st, r)
            else:
                self.st = conts[0]
        fr.exits = saved + out
        if alive and s.orelse:
            alive = self.block(s.orelse, fr)
        lives = ([self.st] if alive else []) + breaks
        if not lives:
            return False
        if len(lives) > 1:
            lives = breaks + ([self.st] if alive else [])
            st, _ = self.join_many([(x, None) for x in lives], pre)
            self.st = st
            for e in out:
                r = self.simp(S.not_(self.rel(e.st.path, pre)))
                if r is not TRUE:
                    self.assume(self.st, r)
        else:
            self.st = lives[0]
        return True

    def while_stmt(self, s, fr):
        pre = self.st.copy()
        saved = fr.exits
        breaks, out = [], []
        n = 0
        alive = True
        while True:
            n += 1
            if n > 80:
                fr.exits = saved
                raise Unknown("while loop bound")
            try:
                c = self.truth(self.ev(s.test, fr))
            except NeedSplit:
                fr.exits = saved
                raise
            if c is False:
                break
            if c is not True:
                fr.exits = saved
                cv = self.while_as_for(s, fr, pre)
                if cv is not None:
                    return cv
                raise Unknown("while loop with symbolic condition")
            fr.exits = []
            ok = self.block(s.body, fr)
            conts = []
            for e in fr.exits:
                if e.kind == "continue":
                    conts.append(e.st)
                elif e.kind == "break":
                    breaks.append(e.st)
                else:
                    out.append(e)
            if ok:
                conts.append(self.st)
            if not conts:
                alive = False
                break
            if len(conts) > 1:
                raise Unknown("while loop with continue")
            self.st = conts[0]
        fr.exits = saved + out
        lives = breaks + ([self.st] if alive else [])
        if not lives:
            return False
        if len(lives) > 1:
            st, _ = self.join_many([(x, None) for x in lives], pre)
            self.st = st
        else:
            self.st = lives[0]
        return True

    def while_as_for(self, s, fr, pre):
        """while i < n: ...; i += 1   ->   for i in range(i0, n)"""
        t = s.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt)
                and isinstance(t.left, ast.Name)):
            return None
        nm = t.left.id
        last = s.body[-1]
        if not (isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name)
                and last.target.id == nm and isinstance(last.value, ast.Constant) and last.value.value == 1):
            return None
        if any(isinstance(x, (ast.Continue, ast.Break)) for b in s.body for x in ast.walk(b)):
            return None
        self.st = pre
        start = self.getvar(fr, nm)
        stop = self.ev(t.comparators[0], fr)
        it = self.iterate(RangeV(start, stop, 1))
        if isinstance(it, list):
            return None
        body = s.body[:-1] or [ast.Pass()]
        f = ast.For(target=ast.Name(id=nm, ctx=ast.Store()), iter=s.test, body=body, orelse=[])
        ast.copy_location(f, s)
        ok = self.sym_for(f, fr, it)
        if ok:
            self.setvar(fr, nm, stop)
        return ok

    def sym_for(self, s, fr, it):
        """for loop over a sequence of symbolic length"""
        n, getter = it
        i = S.fresh(n)
        pre = self.st.copy()
        tg = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}

        def run(place, cells):
            self.st = pre.copy()
            for cell, k in place.items():
                self.set_cell(cell, k[0])
                if isinstance(k[0], A):
                    self.st.heap[k[0].loc] = k[2]
            for cell in cells:
                if cell not in place and cell[0] != "obj" and not (cell[0] == "var" and cell[2] in tg):
                    self.set_cell(cell, POISON)
                elif cell not in place and cell[0] == "obj" and isinstance(pre.heap[cell[1]], (HList, HSeq)):
                    self.st.heap[cell[1]] = HGrow()
            start = self.st.copy()
            self.assign(s.target, getter(i), fr)
            base = self.st.copy()
            saved = fr.exits
            fr.exits = []
            try:
                ok = self.block(s.body, fr)
            finally:
                ex = fr.exits
                fr.exits = saved
            conts = [e.st for e in ex if e.kind == "continue"] + ([self.st] if ok else [])
            ex = [e for e in ex if e.kind != "continue"]
            if not conts:
                return None, ex, base, start
            if len(conts) > 1:
                st, _ = self.join_many([(x, None) for x in conts], base)
                st.path, st.facts = base.path, base.facts
            else:
                st = conts[0]
            return st, ex, base, start

        cells, place = {}, {}
        for rounds in range(7):
            post, ex, base, start = run(place, cells)
            if post is None and all(e.kind == "raise" for e in ex):
                # raises on every iteration
                for e in ex:
                    fr.exits.append(e)
                return False
            seen = {}
            for st in [post] + [e.st for e in ex if e.kind in ("break", "return")]:
                if st is not None:
                    for cell, _, v in self.changed(start, st):
                        seen.setdefault(cell, v)
            more = {c: v for c, v in seen.items() if c not in cells}
            for c, v in more.items():
                cells[c] = self.get_cell(pre, c)
                if not (c[0] == "var" and c[2] in tg):
                    k = self.placeholder(c, cells[c], v, pre)
                    if k is not None:
                        place[c] = k
            # an integer that becomes a general number
            redo = False
            for c, k in place.items():
                if k[1].op == "sym" and k[1].isint and c in seen:
                    v = self.scal(seen[c]) if not isinstance(seen[c], (A, Ref)) else None
                    if v is None or not v.isint:
                        q = S.sym("carry%d" % self.uid())
                        place[c] = (q, q, None)
                        redo = True
            if not more and not redo:
                break
        else:
            raise Unknown("loop with too many carried values")
        ks = set()
        for k in place.values():
            ks |= {k[1]} if k[1].op != "cnd" else set(k[1].mk)
        if post is None:
            post = base
        evs = post.events[len(pre.events):]
        for ev in evs:
            if ev.node().mk & ks:
                raise Unknown("loop-carried value in an effect")
        early = [e for e in ex if e.kind in ("break", "return")]
        if early and (evs or post.rng is not pre.rng):
            raise Unknown("early exit from a loop with effects")
        if early and any(e.st.events is not pre.events and len(e.st.events) > len(pre.events) or e.st.rng is not pre.rng for e in early):
            raise Unknown("early exit from a loop with effects")
        conds = []
        for e in ex:
            c = S.and_(*e.st.path[len(pre.path):])
            if c.mk & ks:
                raise Unknown("loop-carried exit condition")
            conds.append(c)
        # values after the loop
        self.st = pre.copy()
        carried = []
        save = self.st
        self.st = post
        try:
            for c, k in place.items():
                if k[1].op == "sym":
                    v = self.merge(self.get_cell(post, c))
                    v = self.scal(v) if not isinstance(v, (A, Ref)) else None
                    if v is not None:
                        carried.append((k[1], self.scal(cells[c]), v))
        finally:
            self.st = save
        brk = []
        if early or len(ex) > 1 and early:
            anyc = S.any_([i], S.or_(*conds))
            F = S.red("argmax", [i], S.b2n(S.or_(*conds)))
        for e, c in zip(ex, conds):
            bad = pre.copy()
            if not early:
                cc = S.any_([i], c)
                self.assume(bad, cc)
                fr.exits.append(Exit("raise", e.val, bad, e.site))
                self.assume(self.st, S.not_(cc))
                continue
            self.assume(bad, anyc)
            if len(ex) > 1:
                self.assume(bad, S.subst(c, {i: F}))
            if e.kind == "raise":
                fr.exits.append(Exit("raise", e.val, bad, e.site))
                continue
            for cell, old in cells.items():
                v = self.get_cell(e.st, cell)
                self.set_cell_in(bad, cell, self.at_exit(cell, v, old, i, F, place, ks, e.st, post, bad))
            if e.kind == "break":
                brk.append(bad)
                continue
            save = self.st
            self.st = e.st
            try:
                t = self.tmpl(self.merge(e.val))
            finally:
                self.st = save
            if self.tmpl_keys(t) & ks or self.has_ref(t):
                raise Unknown("loop-carried value returned")
            save, self.st = self.st, bad
            try:
                val = self.inst(t, {i: F})
            finally:
                self.st = save
            fr.exits.append(Exit("return", val, bad, e.site))
        if early:
            self.assume(self.st, S.not_(anyc))
        for ev in evs:
            self.st.events = self.st.events + (ev.loop(i),)
        if post.rng is not pre.rng:
            if post.rng.mk & ks:
                raise Unknown("loop-carried value in a random draw")
            # one draw per iteration: indexed family of draws
            self.st.rng = S.mk("rngloop", pre.rng, S.close_map("maplist", i, S.subst(post.rng, {pre.rng: S.sym("rng_in")})))
        for cell, old in cells.items():
            newv = self.get_cell(post, cell)
            if cell[0] == "var" and cell[2] in tg:
                self.set_cell(cell, self.close_last(newv, i, n, ks, post))
                continue
            self.set_cell(cell, self.close_cell(cell, old, newv, i, n, ks, place, carried, post))
        alive = True
        if s.orelse:
            alive = self.block(s.orelse, fr)
        lives = brk + ([self.st] if alive else [])
        if not lives:
            return False
        if len(lives) > 1:
            st, _ = self.join_many([(x, None) for x in lives], pre)
            self.st = st
            for e in fr.exits:
                if e.kind != "continue" and len(e.st.path) > len(pre.path) and e.st.path[:len(pre.path)] == pre.path:
                    r = self.simp(S.not_(self.rel(e.st.path, pre)))
                    if r is not TRUE:
                        self.assume(self.st, r)
        else:
            self.st = lives[0]
        return True

    def at_exit(self, cell, v, old, i, F, place, ks, est, post, target):
        """value of a cell when the loop is left in iteration F"""
        k = place.get(cell)
        mine = v is POISON or isinstance(v, HGrow) and not v.added
        if k is not None:
            mine = v is k[0]
        if mine:
            w = self.get_cell(post, cell)
            if w is v or isinstance(w, HGrow) and not w.added:
                return old
            raise Unknown("loop-carried value after an early exit")
        if cell[0] == "obj":
            raise Unknown("object changed before an early exit")
        save, self.st = self.st, est
        try:
            t = self.tmpl(self.merge(v))
        finally:
            self.st = save
        if self.tmpl_keys(t) & ks or self.has_ref(t) or t is POISON or isinstance(t, PhiV):
            return POISON
        save, self.st = self.st, target
        try:
            return self.inst(t, {i: F})
        finally:
            self.st = save

    def changed(self, pre, post):
        out = []
        for loc, o in post.heap.items():
            p = pre.heap.get(loc)
            if p is None or p is o:
                continue
            if isinstance(o, HEnv):
                for k, v in o.vars.items():
                    if p.vars.get(k, MISSING) is not v:
                        out.append((("var", loc, k), p.vars.get(k, MISSING), v))
            elif isinstance(o, HObj):
                for k, v in o.attrs.items():
                    if p.attrs.get(k, MISSING) is not v:
                        out.append((("attr", loc, k), p.attrs.get(k, MISSING), v))
            else:
                out.append((("obj", loc, None), p, o))
        return out

    def get_cell(self, st, cell):
        o = st.heap[cell[1]]
        if cell[0] == "var":
            return o.vars.get(cell[2], MISSING)
        if cell[0] == "attr":
            return o.attrs.get(cell[2], MISSING)
        return o

    def set_cell_in(self, st, cell, v):
        save, self.st = self.st, st
        self.set_cell(cell, v)
        self.st = save

    def set_cell(self, cell, v):
        o = self.st.heap[cell[1]]
        if cell[0] == "var":
            d = dict(o.vars)
            d[cell[2]] = v
            self.st.heap[cell[1]] = HEnv(d, o.parent)
        elif cell[0] == "attr":
            d = dict(o.attrs)
            d[cell[2]] = v
            self.st.heap[cell[1]] = HObj(o.cls, d)
        else:
            self.st.heap[cell[1]] = v

    def placeholder(self, cell, old, new, pre):
        """(value, key, heap object) standing for the value at the start of an iteration"""
        if cell[0] in ("var", "attr"):
            if isinstance(old, bool) or isinstance(old, Node) and (S.isbool(old) or old is TRUE or old is FALSE):
                k = S.cnd("carry", S.sym("carry%d" % self.uid()))
                return (k, k, None)
            if isinstance(old, (Node, int)) and self.scal(old) is not None:
                k = S.sym("carry%d" % self.uid(), isint=isinstance(old, int) or old.isint)
                return (k, k, None)
            if isinstance(old, A):
                save, self.st = self.st, pre
                try:
                    o = self.readarr(old)
                finally:
                    self.st = save
                return self.placearr(o, True)
            return None
        if isinstance(old, HArr):
            r = self.placearr(old.arr, False)
            r[0].dt = old.dt
            return r
        return None

    def placearr(self, o, boxed):
        if o.kind == "bool" or S.isbool(o.body):
            k = S.cnd("carry", S.sym("carry%d" % self.uid()))
            h = HArr(S.build(o.dims, lambda *j: S.cnd("carry", k.args[1], *j), "bool"))
        else:
            k = S.asym("carry%d" % self.uid(), o.dims)
            h = HArr(S.arr_of(k, o.dims))
        if boxed:
            self.nloc += 1
            return (A(self.nloc), k, h)
        return (h, k, h)

    def merge(self, v):
        """one value for a choice between numbers, or between arrays of one shape"""
        if isinstance(v, PhiV):
            a, b = self.merge(v.a), self.merge(v.b)
            x, y = self.scal(a), self.scal(b)
            if x is not None and y is not None:
                return S.ite(v.c, x, y)
            if isinstance(a, A) and isinstance(b, A):
                p, q = self.readarr(a), self.readarr(b)
                if len(p.dims) == len(q.dims) and all(s is t for s, t in zip(p.dims, q.dims)):
                    return self.new(S.build(p.dims, lambda *j: S.ite(v.c, p.at(j), q.at(j)), p.kind))
        return v

    def has_ref(self, t):
        """refers to an object that exists only inside the loop body"""
        if isinstance(t, (Ref, A, PhiV)) or t is POISON:
            return True
        if isinstance(t, tuple):
            return any(self.has_ref(x) for x in t)
        if isinstance(t, TList):
            return any(self.has_ref(x) for x in t.items)
        if isinstance(t, TSeq):
            return self.has_ref(t.tmpl)
        return False

    def close_last(self, v, i, n, ks, post):
        last = S.sub(n, ONE)
        save, self.st = self.st, post
        try:
            t = self.tmpl(self.merge(v))
        finally:
            self.st = save
        if self.tmpl_keys(t) & ks or isinstance(t, PhiV) or self.has_ref(t) and not self.known(t):
            return X("opq", S.mk("loopvar", self.uid(), opq=True))
        return self.inst(t, {i: last})

    def known(self, t):
        return isinstance(t, Ref) and t.loc in self.st.heap

    def close_cell(self, cell, old, new, i, n, ks, place, carried, post):
        own = place.get(cell)
        save = self.st
        self.st = post
        try:
            return self._close_cell(cell, old, new, i, n, ks, own, carried, save)
        finally:
            self.st = save

    def _close_cell(self, cell, old, new, i, n, ks, own, carried, target):
        opq = X("opq", S.mk("loopval", self.uid(), opq=True))
        if new is POISON or own is not None and new is own[0]:
            return old
        if cell[0] in ("var", "attr"):
            new = self.merge(new)
            nn = self.scal(new) if not isinstance(new, (A, Ref)) else None
            if nn is not None:
                if own is not None and self.scal(old) is not None:
                    r = folds.scalar(self.scal(old), nn, own[1], i, ks, carried)
                    if r is not None:
                        return self.lib.pyint(r) if isinstance(old, int) and not isinstance(old, bool) and nn.isint else r
                elif not (nn.mk & ks):
                    return S.subst(nn, {i: S.sub(n, ONE)})
                return S.mk("loopval", self.uid(), opq=True)
            if isinstance(new, A):
                arr = self.readarr(new)
                if isinstance(old, A) and own is not None:
                    self.st = target
                    oldarr = self.readarr(old)
                    r = self.fold_arr(own, arr, oldarr, i, ks, carried)
                    if r is not None:
                        return self._alloc_in(target, r)
                    return self._alloc_in(target, S.build(arr.dims, lambda *j: S.mk("loopval", self.uid(), *j, opq=True)))
                if not (arr.body.mk & ks):
                    r = Arr(arr.dims, arr.idx, S.subst(arr.body, {i: S.sub(n, ONE)}))
                    return self._alloc_in(target, r)
                return self._alloc_in(target, S.build(arr.dims, lambda *j: S.mk("loopval", self.uid(), *j, opq=True)))
            t = self.tmpl(new)
            if self.has_ref(t) and not (isinstance(t, Ref) and t.loc in target.heap):
                return opq
            if not (self.tmpl_keys(t) & (ks | {i})):
                self.st = target
                return self.inst(t, {}) if isinstance(t, (TList, TSeq, TArr, tuple)) else new
            if not (self.tmpl_keys(t) & ks):
                self.st = target
                return self.inst(t, {i: S.sub(n, ONE)})
            return opq
        # heap objects
        if isinstance(old, HArr) and isinstance(new, HArr) and own is not None:
            r = self.fold_arr(own, new.arr, old.arr, i, ks, carried)
            if r is not None:
                return HArr(r, old.dt)
            return HArr(S.build(old.arr.dims, lambda *j: S.mk("loopval", self.uid(), *j, opq=True)), old.dt)
        if isinstance(old, (HList, HSeq)) and isinstance(new, HGrow):
            if not new.added:
                return old
            if len(new.added) == 1:
                t = self.tmpl(self.merge(new.added[0]))
                if not (self.tmpl_keys(t) & ks) and (not self.has_ref(t) or isinstance(t, Ref) and t.loc in target.heap):
                    self.st = target
                    r = self.grown(old, n, i, t)
                    if r is not None:
                        return r
        raise Unknown("loop over symbolic sequence changes an object in an unmodelled way")

    def fold_arr(self, own, new, old, i, ks, carried):
        k = own[1]
        if k.op == "cnd":
            at = lambda ix: S.cnd("carry", k.args[1], *[ZERO if d is ONE else x for d, x in zip(old.dims, ix)])
        else:
            at = lambda ix: S.elem(k, *[ZERO if d is ONE else x for d, x in zip(old.dims, ix)])
        return folds.array(old, new, at, i, ks, carried)

    def grown(self, old, n, i, t):
        """list `old` followed by the items t(0) .. t(n-1)"""
        if isinstance(old, HList):
            if old.cls != "list":
                return None
            if not old.items:
                return HSeq(n, i, t)
            ts = [self.tmpl(self.merge(x)) for x in old.items]
            head, gets = S.num(len(ts)), None
        else:
            j = S.fresh(old.n)
            ts, head = None, old.n
        if not isinstance(t, (Node, TArr)):
            return None
        m = S.fresh(S.add(head, n))
        x = self.tmpl_at(t, {i: S.sub(m, head)})
        if ts is not None:
            for k in reversed(range(len(ts))):
                x = self.tmpl_ite(S.eq0(S.sub(m, S.num(k))), ts[k], x)
        else:
            x = self.tmpl_ite(S.compare("<", m, head), self.tmpl_at(old.tmpl, {old.i: m}), x)
        return None if x is None else HSeq(m.args[-1], m, x)

    def tmpl_at(self, t, m):
        if isinstance(t, TArr):
            a = t.arr
            return TArr(Arr([S.subst(d, m) for d in a.dims], a.idx, S.subst(a.body, m), a.kind))
        return S.subst(t, m) if isinstance(t, Node) else None

    def tmpl_ite(self, c, a, b):
        if isinstance(a, TArr) and isinstance(b, TArr):
            p, q = a.arr, b.arr
            if len(p.dims) == len(q.dims) and all(x is y for x, y in zip(p.dims, q.dims)):
                return TArr(S.build(p.dims, lambda *j: S.ite(c, p.at(j), q.at(j)), p.kind))
            return None
        x = self.scal(a) if not isinstance(a, TArr) else None
        y = self.scal(b) if not isinstance(b, TArr) else None
        return None if x is None or y is None else S.ite(c, x, y)

    def _alloc_in(self, st, arr):
        self.nloc += 1
        st.heap[self.nloc] = HArr(arr)
        return A(self.nloc)

    # -- templates (values depending on an index)
    def tmpl(self, v):
        v = self.res(v) if isinstance(v, PhiV) else v
        if isinstance(v, A):
            return TArr(self.readarr(v))
        if isinstance(v, tuple):
            return tuple(self.tmpl(x) for x in v)
        if isinstance(v, Ref):
            o = self.obj(v.loc)
            if isinstance(o, HList) and o.cls == "list":
                return TList([self.tmpl(self.merge(x)) for x in o.items])
            if isinstance(o, HSeq):
                return TSeq(o.n, o.i, o.tmpl)
        return v

    def tmpl_keys(self, t):
        if isinstance(t, Node):
            return t.mk
        if isinstance(t, TArr):
            k = set(t.arr.body.mk) - set(t.arr.idx)
            for d in t.arr.dims:
                k |= d.mk
            return k
        if isinstance(t, tuple):
            return set().union(*[self.tmpl_keys(x) for x in t]) if t else set()
        if isinstance(t, TList):
            return set().union(*[self.tmpl_keys(x) for x in t.items]) if t.items else set()
        if isinstance(t, TSeq):
            return (self.tmpl_keys(t.tmpl) - {t.i}) | t.n.mk
        if isinstance(t, X):
            return t.node.mk
        if isinstance(t, RangeV):
            return set().union(*[x.mk for x in (t.start, t.stop, t.step) if isinstance(x, Node)])
        return set()

    def inst(self, t, m):
        if isinstance(t, Node):
            return S.subst(t, m)
        if isinstance(t, TArr):
            a = t.arr
            dims = [S.subst(d, m) for d in a.dims]
            body = S.subst(a.body, m)
            if all(x is y for x, y in zip(dims, a.dims)):
                return self.new(Arr(a.dims, a.idx, body))
            return self.new(S.build(dims, lambda *i: S.subst(body, dict(zip(a.idx, i)))))
        if isinstance(t, tuple):
            return tuple(self.inst(x, m) for x in t)
        if isinstance(t, TList):
            return self.newlist([self.inst(x, m) for x in t.items])
        if isinstance(t, TSeq):
            j = S.fresh(S.subst(t.n, m))
            return Ref(self.alloc(HSeq(j.args[-1], j, self.tmpl_sub(t.tmpl, {**m, t.i: j}))))
        if isinstance(t, X):
            return X(t.kind, S.subst(t.node, m), t.extra)
        if isinstance(t, RangeV):
            return RangeV(*[S.subst(x, m) if isinstance(x, Node) else x for x in (t.start, t.stop, t.step)])
        return t

    def tmpl_sub(self, t, m):
        if isinstance(t, TArr):
            a = t.arr
            return TArr(Arr([S.subst(d, m) for d in a.dims], a.idx, S.subst(a.body, m), a.kind))
        if isinstance(t, tuple):
            return tuple(self.tmpl_sub(x, m) for x in t)
        if isinstance(t, TList):
            return TList([self.tmpl_sub(x, m) for x in t.items])
        if isinstance(t, TSeq):
            j = S.fresh(S.subst(t.n, m))
            return TSeq(j.args[-1], j, self.tmpl_sub(t.tmpl, {**m, t.i: j}))
        if isinstance(t, (Node, X)):
            return self.inst(t, m)
        return t

    # ---------------------------------------------------------------- iteration
    def iterate(self, v):
        """list of values, or (n, getter) for symbolic length"""
        v = self.res(v)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Ref):
            o = self.obj(v.loc)
            if isinstance(o, HList):
                return list(o.items)
            if isinstance(o, HSeq):
                return (o.n, lambda k: self.inst(o.tmpl, {o.i: k}))
            if isinstance(o, HDict):
                return self.dict_keys(o)
            if isinstance(o, HObj):
                f = o.cls.find("__iter__")
                if f is not None:
                    return self.iterate(self.call(BoundV(v, f), [], {}))
                self.throw("TypeError", "object is not iterable")
        if isinstance(v, X) and v.kind == "objdict":
            return self.lib.on_objdict(self, v, self.iterate)
        if isinstance(v, RangeV):
            n = self.lib.length(self, v)
            if isinstance(n, int):
                if n > 100:
                    raise Unknown("long concrete loop")
                st, sp = self.lib.N(self, v.start), self.lib.N(self, v.step)
                return [self.lib.pyint(S.add(st, S.mulc(sp, k))) for k in range(n)]
            st, sp = self.lib.N(self, v.start), self.lib.N(self, v.step)
            return (n, lambda k: self.lib.pyint(S.add(st, S.mul(sp, k))))
        if isinstance(v, A):
            d = self.dims(v)
            if d[0].op == "num":
                n = int(S.val(d[0]))
                if n > 100:
                    raise Unknown("long concrete loop")
                return [self.lib.getitem(self, v, k) for k in range(n)]
            return (d[0], lambda k: self.lib.getitem(self, v, k))
        if isinstance(v, IterV):
            if v.loc is not None:
                # an iterator is used up by the first pass over it
                at = self.obj(v.loc).v
                if at is None:
                    return []
                self.st.heap[v.loc] = HCell(None)
                w = IterV(v.kind, *v.args)
                it = self.iterate(w)
                if not at:
                    return it
                return it[at:] if isinstance(it, list) else (S.sub(it[0], S.num(at)), lambda k: it[1](S.add(k, S.num(at))))
            if v.kind == "iter":
                return self.iterate(v.args[0])
            if v.kind == "zip":
                its = [self.iterate(x) for x in v.args]
                if all(isinstance(x, list) for x in its):
                    return [tuple(t) for t in zip(*its)]
                ns = [S.num(len(x)) if isinstance(x, list) else x[0] for x in its]
                n = next((n for n in ns if all(n is m or self.simp(S.compare("<=", n, m)) is S.TRUE for m in ns)), None)
                if n is None:
                    raise Unknown("zip of sequences of different symbolic lengths")
                if S.isnum(n):
                    k = int(S.val(n))
                    if k > 100:
                        raise Unknown("long concrete loop")
                    return [tuple(x[j] if isinstance(x, list) else x[1](S.num(j)) for x in its) for j in range(k)]
                return (n, lambda k: tuple(x[1](k) for x in its))
            if v.kind == "enumerate":
                it = self.iterate(v.args[0])
                s0 = self.lib.N(self, v.args[1])
                if isinstance(it, list):
                    return [(self.lib.pyint(S.add(s0, S.num(k))), x) for k, x in enumerate(it)]
                return (it[0], lambda k: (self.lib.pyint(S.add(s0, k)), it[1](k)))
            if v.kind == "reversed":
                it = self.iterate(v.args[0])
                if isinstance(it, list):
                    return it[::-1]
                last = S.sub(it[0], ONE)
                return (it[0], lambda k: it[1](S.sub(last, k)))
            if v.kind == "map":
                f = v.args[0]
                it = self.iterate(v.args[1] if len(v.args) == 2 else IterV("zip", *v.args[1:]))
                multi = len(v.args) > 2
                ap = lambda x: self.call(f, list(x) if multi else [x], {})
                if isinstance(it, list):
                    return [ap(x) for x in it]
                return (it[0], lambda k: ap(it[1](k)))
            if v.kind == "list":
                return list(v.args[0])
        if isinstance(v, X) and v.kind == "axarr":
            return [self.lib.axarr_item(self, v, k) for k in range(v.extra[0])]
        if isinstance(v, X) and v.kind == "opq":
            n = S.mk("lenof", v.node, opq=True)
            return (n, lambda k: S.mk("item", v.node, k, opq=True))
        if v is None or isinstance(v, (int, Node)):
            if isinstance(v, Node) and v.opq:
                n = S.mk("lenof", v, opq=True)
                return (n, lambda k: S.mk("item", v, k, opq=True))
            self.throw("TypeError", "object is not iterable")
        raise Unknown("iteration over %r" % type(v).__name__)

    def iterator(self, kind, *args):
        it = IterV(kind, *args)
        it.loc = self.alloc(HCell(0))
        return it

    def next_of(self, v):
        """(True, item) or (False, None): the next item of an iterator"""
        at = self.obj(v.loc).v
        if at is None:
            return False, None
        it = self.iterate(IterV(v.kind, *v.args))
        if isinstance(it, list):
            if at >= len(it):
                return False, None
            x = it[at]
        else:
            x = it[1](S.num(at))  # sizes are at least one
            if at:
                raise Unknown("next")
        self.st.heap[v.loc] = HCell(at + 1)
        return True, x

    def dict_keys(self, o):
        out = []
        for k, x in o.items.items():
            while isinstance(x, PhiV) and (x.a is MISSING or x.b is MISSING or isinstance(x.a, PhiV) or isinstance(x.b, PhiV)):
                x = self.res(x)
            if x is not MISSING:
                out.append(k)
        return out

    # ---------------------------------------------------------------- variables
    def getvar_opt(self, fr, name):
        env = fr.env
        while env is not None:
            o = self.st.heap[env]
            if name in o.vars:
                return o.vars[name]
            env = o.parent
        return None

    def getvar(self, fr, name):
        env = fr.env
        if name in fr.glob:
            env = fr.mod.env
        while env is not None:
            o = self.st.heap[env]
            if name in o.vars:
                v = o.vars[name]
                while isinstance(v, PhiV) and (v.a is MISSING or v.b is MISSING or v.a is POISON or v.b is POISON):
                    v = self.res(v)
                if v is POISON:
                    raise Unknown("value of %r carried by a loop" % name)
                if v is MISSING:
                    self.throw("UnboundLocalError", name)
                return v
            env = o.parent
        if fr.mod is not None and fr.mod.path is None and name in self.extra_names:
            return self.extra_names[name]
        if name in BUILTINS:
            if name == "__name__":
                return fr.mod.name if fr.mod else "__main__"
            return Ext("builtins." + name)
        self.throw("NameError", name)

    def setvar(self, fr, name, v):
        env = fr.env
        if name in fr.glob:
            env = fr.mod.env
        elif name in fr.nonl:
            env = self.st.heap[env].parent
            while env is not None and name not in self.st.heap[env].vars:
                env = self.st.heap[env].parent
        o = self.st.heap[env]
        d = dict(o.vars)
        d[name] = v
        self.st.heap[env] = HEnv(d, o.parent)

    def assign(self, tg, v, fr):
        if isinstance(tg, ast.Name):
            self.setvar(fr, tg.id, v)
        elif isinstance(tg, ast.Attribute):
            o = self.ev(tg.value, fr)
            self.setattr(o, tg.attr, v)
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value, fr)
            k = self.ev_index(tg.slice, fr)
            self.lib.setitem(self, self.res(o), k, v)
        elif isinstance(tg, (ast.Tuple, ast.List)):
            v = self.res(v)
            if isinstance(v, X) and v.kind == "opq":
                vals = [X("opq", S.mk("unpack", v.node, k, opq=True)) for k in range(len(tg.elts))]
            else:
                vals = self.iterate(v)
                if not isinstance(vals, list):
                    n, g = vals
                    star = [k for k, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
                    if star or n.op == "sym" and n in S.DIMS:
                        self.throw("ValueError", "unpacking")
                    vals = [g(S.num(k)) for k in range(len(tg.elts))]
            star = [k for k, e in enumerate(tg.elts) if isinstance(e, ast.Starred)]
            if star:
                k = star[0]
                rest = len(tg.elts) - k - 1
                mid = vals[k: len(vals) - rest]
                vals = vals[:k] + [self.newlist(mid)] + vals[len(vals) - rest:]
            if len(vals) != len(tg.elts):
                self.throw("ValueError", "unpacking")
            for e, x in zip(tg.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, fr)
        elif isinstance(tg, ast.Starred):
            self.assign(tg.value, v, fr)
        else:
            raise Unknown("assignment target")

    def augassign(self, s, fr):
        op = BINOPS[type(s.op)]
        tg = s.target
        if isinstance(tg, ast.Name):
            old = self.getvar(fr, tg.id)
            new = self.lib.inplace(self, op, self.res(old), self.res(self.ev(s.value, fr)))
            self.setvar(fr, tg.id, new)
        elif isinstance(tg, ast.Attribute):
            o = self.res(self.ev(tg.value, fr))
            old = self.getattr(o, tg.attr)
            new = self.lib.inplace(self, op, self.res(old), self.res(self.ev(s.value, fr)))
            self.setattr(o, tg.attr, new)
        else:
            o = self.res(self.ev(tg.value, fr))
            k = self.ev_index(tg.slice, fr)
            old = self.lib.getitem(self, o, k)
            new = self.lib.inplace(self, op, self.res(old), self.res(self.ev(s.value, fr)))
            self.lib.setitem(self, o, k, new)

    def delete(self, tg, fr):
        if isinstance(tg, ast.Name):
            o = self.st.heap[fr.env]
            d = dict(o.vars)
            d.pop(tg.id, None)
            self.st.heap[fr.env] = HEnv(d, o.parent)
        elif isinstance(tg, ast.Attribute):
            o = self.res(self.ev(tg.value, fr))
            h = self.obj(o.loc)
            d = dict(h.attrs)
            d.pop(tg.attr, None)
            self.put(o.loc, HObj(h.cls, d))
        elif isinstance(tg, ast.Subscript):
            o = self.res(self.ev(tg.value, fr))
            k = self.res(self.ev_index(tg.slice, fr))
            if isinstance(o, X) and o.kind == "objdict":
                self.lib.on_objdict(self, o, lambda d: self.lib.dict_method(self, d, self.obj(d.loc), "pop", [k], {}))
                return
            h = self.obj(o.loc)
            if isinstance(h, HDict):
                d = dict(h.items)
                if k not in d:
                    self.throw("KeyError")
                d.pop(k)
                self.put(o.loc, HDict(d))
            elif isinstance(h, HList) and isinstance(k, int):
                l = list(h.items)
                if not -len(l) <= k < len(l):
                    self.throw("IndexError", "list assignment index out of range")
                del l[k]
                self.put(o.loc, HList(l, h.cls))
            elif isinstance(h, HList) and isinstance(k, slice) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                l = list(h.items)
                del l[k]
                self.put(o.loc, HList(l, h.cls))
            else:
                raise Unknown("del of item")
        else:
            raise Unknown("del")

    # ---------------------------------------------------------------- functions & classes
    def make_func(self, s, fr, name=None):
        a = s.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = [None if d is None else (self.ev(d, fr),) for d in a.kw_defaults]
        return FuncV(s, name or getattr(s, "name", "<lambda>"), fr.mod, fr.env, defaults, kwd, fr.cls)

    def decorate(self, d, f, fr):
        if isinstance(d, ast.Name):
            if d.id == "property":
                return PropV(f)
            if d.id in ("staticmethod", "classmethod"):
                return StaticV(f, d.id)
        if isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"):
            base = self.ev(d.value, fr)
            if isinstance(base, PropV):
                if d.attr == "setter":
                    return PropV(base.get, f)
                if d.attr == "getter":
                    return PropV(f, base.set)
                return base
        dv = self.res(self.ev(d, fr))
        if isinstance(dv, FuncV):
            return self.call(dv, [f], {})
        if isinstance(dv, X) and dv.kind in ("clickdeco",) or isinstance(dv, Ext) and dv.name.startswith("click"):
            return f if isinstance(f, FuncV) else f
        if isinstance(dv, Ext) and dv.name == "contextlib.contextmanager" and isinstance(f, FuncV):
            g = FuncV(f.node, f.name, f.mod, f.env, f.defaults, f.kwdefaults, f.cls)
            g.ctx = True
            return g
        if isinstance(dv, Ext) and dv.name == "functools.cached_property":
            p = PropV(f)
            p.cached = True
            return p
        if isinstance(dv, Ext) and dv.name in ("abc.abstractmethod", "typing.final", "typing.overload", "typing.no_type_check", "atexit.register"):
            return f
        if isinstance(dv, Ext) and dv.name in self.models:
            return self.call(dv, [f], {})
        if isinstance(dv, ClassV):
            return self.call(dv, [f], {})
        if isinstance(dv, X) and dv.kind == "wraps":
            return f
        if isinstance(dv, PartialV) or isinstance(dv, BoundV):
            return self.call(dv, [f], {})
        if isinstance(dv, X):
            return f
        return X("opq", S.mk("decorated", getattr(f, "name", "?"), self.uid(), opq=True))

    def class_decorator(self, d, c, fr):
        name, opts = None, {}
        dv = self.res(self.ev(d.func if isinstance(d, ast.Call) else d, fr))
        if isinstance(dv, Ext):
            name = dv.name
        if name == "dataclasses.dataclass":
            return self.dataclass(c, fr)
        if name in ("typing.final", "functools.total_ordering", "typing.runtime_checkable"):
            return c
        dv = self.res(self.ev(d, fr))
        if isinstance(dv, (FuncV, PartialV, BoundV)):
            return self.call(dv, [c], {})
        raise Unknown("class decorator")

    def namedtuple(self, c, fields, defaults, fr):
        """members of a tuple subclass with named fields"""
        tup = "(%s)" % "".join("self.%s, " % n for n in fields)
        src = "def __init__(self%s):\n%s\n" % ("".join(", " + n for n in fields), "\n".join("    self.%s = %s" % (n, n) for n in fields) or "    pass")
        src += "def __iter__(self):\n    return %s\ndef __getitem__(self, k):\n    return %s[k]\ndef __len__(self):\n    return %d\n" % (tup, tup, len(fields))
        src += "def _asdict(self):\n    return dict(%s)\n" % ", ".join("%s=self.%s" % (n, n) for n in fields)
        for node in ast.parse(src).body:
            c.members[node.name] = FuncV(node, node.name, c.mod, fr.env, list(defaults) if node.name == "__init__" else [], [], c)
        c.members["_fields"] = tuple(fields)
        return c

    def dataclass(self, c, fr):
        fields = {}
        for b in reversed(c.mro()):
            if b.node is None:
                continue
            for s in b.node.body:
                if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and "ClassVar" not in ast.dump(s.annotation):
                    fields[s.target.id] = b.members.get(s.target.id, MISSING)
        params, defaults, lines = [], [], []
        for n, v in fields.items():
            if isinstance(v, X) and v.kind == "field":
                init, dflt, fac = v.extra
            else:
                init, dflt, fac = True, v, MISSING
            if init is False:
                if fac is not MISSING or dflt is not MISSING:
                    lines.append("    self.%s = $_%s%s" % (n, n, "()" if fac is not MISSING else ""))
                    c.members["$_" + n] = fac if fac is not MISSING else dflt
                continue
            params.append(n)
            if fac is not MISSING:
                c.members.pop(n, None)
                defaults.append(MISSING)
                c.members["_dc_" + n] = StaticV(fac, "staticmethod")
                lines.append("    self.%s = self._dc_%s() if %s is _dc_missing else %s" % (n, n, n, n))
            else:
                if dflt is not MISSING:
                    defaults.append(dflt)
                    c.members[n] = dflt
                lines.append("    self.%s = %s" % (n, n))
        if any("$" in x for x in lines):
            raise Unknown("dataclass field without init")
        if c.find("__post_init__") is not None:
            lines.append("    self.__post_init__()")
        if "__init__" not in c.members:
            src = "def __init__(self%s):\n%s" % ("".join(", " + p for p in params), "\n".join(lines or ["    pass"]))
            node = ast.parse(src).body[0]
            env = self.alloc(HEnv({"_dc_missing": Ext("dataclasses.MISSING")}, fr.env))
            c.members["__init__"] = FuncV(node, "__init__", c.mod, env, [Ext("dataclasses.MISSING") if d is MISSING else d for d in defaults], [], c)
        return c

    def make_class(self, s, fr):
        bases = [self.res(self.ev(b, fr)) for b in s.bases]
        env = self.alloc(HEnv({}, fr.env))
        cf = Fr(env, fr.mod, s.name)
        cv = ClassV(s.name, bases, {}, fr.mod, s)
        cf.cls = cv
        self.callstack.append(cf)
        try:
            self.block(s.body, cf)
        finally:
            self.callstack.pop()
        for k, v in self.st.heap[env].vars.items():
            if isinstance(v, FuncV) and v.env is env:
                v.env = fr.env
            for w in (v.get, v.set) if isinstance(v, PropV) else ((v.f,) if isinstance(v, StaticV) else ()):
                if isinstance(w, FuncV) and w.env is env:
                    w.env = fr.env
            cv.members[k] = v
        if any(isinstance(b, Ext) and b.name == "typing.NamedTuple" for b in bases):
            cv.bases = [b for b in bases if not isinstance(b, Ext)]
            fields = [x.target.id for x in s.body if isinstance(x, ast.AnnAssign)]
            self.namedtuple(cv, fields, [cv.members.pop(n) for n in fields if n in cv.members], fr)
        return cv

    def call(self, f, args, kw):
        f = self.res(f)
        self.calls += 1
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, BoundV):
            return self.call(f.f, [f.obj] + list(args), kw)
        if isinstance(f, StaticV):
            return self.call(f.f, args, kw)
        if isinstance(f, PartialV):
            return self.call(f.f, list(f.args) + list(args), {**f.kw, **kw})
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, Ext):
            return self.lib.call_ext(self, f.name, args, kw)
        if isinstance(f, XBound):
            return self.lib.call_method(self, f.obj, f.name, args, kw)
        if isinstance(f, X):
            return self.lib.call_x(self, f, args, kw)
        if isinstance(f, Ref):
            o = self.obj(f.loc)
            if isinstance(o, HObj):
                m = o.cls.find("__call__")
                if m is not None:
                    return self.call(BoundV(f, m), args, kw)
        if isinstance(f, Node) and f.opq:
            return X("opq", S.mk("call", f, self.uid(), opq=True))
        if f is None or isinstance(f, (int, str, tuple, A, Ref, Node)):
            self.throw("TypeError", "object is not callable")
        raise Unknown("call of %r" % type(f).__name__)

    def instantiate(self, c, args, kw):
        base = c.extbase()
        if base is not None and base.name.split(".")[-1] in EXC_TREE:
            EXC_TREE.setdefault(c.name, base.name.split(".")[-1])
            return X("exc", S.mk("exc", c.name), (c.name, None))
        ref = Ref(self.alloc(HObj(c, {})))
        init = c.find("__init__")
        if init is not None:
            self.call(BoundV(ref, init), args, kw)
        elif base is not None:
            raise Unknown("subclass of external class %s" % base.name)
        elif args or kw:
            self.throw("TypeError", "%s() takes no arguments" % c.name)
        return ref

    def bind(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        npo = len(a.posonlyargs)
        out = {}
        args = list(args)
        kw = dict(kw)
        if len(args) > len(pos):
            if a.vararg is None:
                self.throw("TypeError", "%s() takes %d positional arguments but %d were given" % (f.name, len(pos), len(args)))
            out[a.vararg.arg] = tuple(args[len(pos):])
            args = args[: len(pos)]
        elif a.vararg is not None:
            out[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            out[n] = v
        for k in list(kw):
            if k in pos[npo:]:
                if k in out:
                    self.throw("TypeError", "%s() got multiple values for argument %r" % (f.name, k))
                out[k] = kw.pop(k)
        nd = len(f.defaults)
        for k, n in enumerate(pos):
            if n not in out:
                d = k - (len(pos) - nd)
                if d < 0:
                    self.throw("TypeError", "%s() missing required argument %r" % (f.name, n))
                out[n] = f.defaults[d]
        for k, x in enumerate(a.kwonlyargs):
            if x.arg in kw:
                out[x.arg] = kw.pop(x.arg)
            elif f.kwdefaults[k] is not None:
                out[x.arg] = f.kwdefaults[k][0]
            else:
                self.throw("TypeError", "%s() missing keyword argument %r" % (f.name, x.arg))
        if a.kwarg is not None:
            out[a.kwarg.arg] = self.newdict(kw)
        elif kw:
            self.throw("TypeError", "%s() got an unexpected keyword argument %r" % (f.name, sorted(map(str, kw))[0]))
        return out

    def call_func(self, f, args, kw, at_yield=None, into=None):
        if f.ctx and at_yield is None:
            return X("genctx", S.mk("genctx", self.uid(), opq=True), (f, args, kw))
        if self.depth > MAXDEPTH:
            raise Unknown("call depth")
        vals = self.bind(f, args, kw)
        env = self.alloc(HEnv(vals, f.env))
        fr = Fr(env, f.mod, (f.cls.name + "." if f.cls else "") + f.name, f.cls)
        if f.node.args.args if not isinstance(f.node, ast.Lambda) else False:
            fr.selfv = vals.get(f.node.args.args[0].arg)
        if f.mod is not None and f.mod.path:
            self.funcs.add((f.mod.name, fr.func))
        pre = self.st
        self.depth += 1
        self.callstack.append(fr)
        caller = None
        try:
            fr.line = getattr(f.node, "lineno", 0)
            if isinstance(f.node, ast.Lambda):
                ret = ast.Return(value=f.node.body)
                ast.copy_location(ret, f.node.body)
                alive = self.stmt(ret, fr)
            else:
                gen = is_gen(f.node)
                fr.at_yield = at_yield
                if gen:
                    fr.yields = self.newlist([])
                alive = self.block(f.node.body, fr)
                if gen and at_yield is None:
                    for e in fr.exits:
                        if e.kind == "return":
                            e.val = fr.yields
                    if alive:
                        fr.exits.append(Exit("return", fr.yields, self.st))
                        alive = False
        finally:
            self.depth -= 1
            while self.callstack and self.callstack[-1] is not fr:
                self.callstack.pop()
            if self.callstack:
                self.callstack.pop()
        rets = [(e.st, e.val) for e in fr.exits if e.kind == "return"]
        raises = [e for e in fr.exits if e.kind == "raise"]
        if alive:
            rets.append((self.st, None))
        caller = into or self.callstack[-1]
        caller.exits += raises
        if at_yield is not None:
            for e in fr.exits:
                if e.kind == "wbody":
                    w = e.val
                    caller.exits.append(Exit(w.kind, w.val, e.st, w.site))
                    raises.append(e)
        if not rets:
            raise Dead()
        if len(rets) == 1:
            st, v = rets[0]
            if not raises:
                st = st.copy() if st is pre else st
                st.path, st.facts = pre.path, st.facts
            self.st = st
        else:
            st, v = self.join_many(rets, pre)
            self.st = st
            for e in raises:
                r = self.simp(S.not_(self.rel(e.st.path, pre)))
                if r is not TRUE:
                    self.assume(self.st, r)
        # drop the frame's environment unless captured
        return v

    def do_yield(self, y, fr):
        v = None if y.value is None else self.ev(y.value, fr)
        if fr.at_yield is not None:
            return fr.at_yield(v, fr, y)
        self.call(self.getattr(fr.yields, "extend" if isinstance(y, ast.YieldFrom) else "append"), [v], {})

    # ---------------------------------------------------------------- attributes
    def getattr(self, o, name, default=MISSING):
        o = self.res(o)
        if isinstance(o, Ref):
            if name == "append" and isinstance(self.st.heap[o.loc], HGrow):
                return XBound(o, name)
            h = self.obj(o.loc)
            if isinstance(h, HObj):
                if name == "__class__":
                    return h.cls
                if name == "__dict__":
                    return X("objdict", S.mk("objdict", o.loc), o)
                m = h.cls.find(name)
                if isinstance(m, PropV) and m.cached:
                    v = self.res(h.attrs.get(name, MISSING))
                    if v is not MISSING:
                        return v
                    v = self.call(m.get, [o], {})
                    h = self.obj(o.loc)
                    self.put(o.loc, HObj(h.cls, {**h.attrs, name: v}))
                    return v
                if isinstance(m, PropV):
                    return self.call(m.get, [o], {})
                if name in h.attrs:
                    v = h.attrs[name]
                    while isinstance(v, PhiV) and (v.a is MISSING or v.b is MISSING or v.a is POISON or v.b is POISON):
                        v = self.res(v)
                    if v is POISON:
                        raise Unknown("value of attribute %r carried by a loop" % name)
                    if v is not MISSING:
                        return v
                if m is not None:
                    if isinstance(m, FuncV):
                        return BoundV(o, m)
                    if isinstance(m, StaticV):
                        return m.f if m.kind == "staticmethod" else BoundV(h.cls, m.f)
                    return m
                if name in ("__getattribute__", "__setattr__", "__getattr__"):
                    return XBound(o, name)
                g = h.cls.find("__getattr__")
                if g is not None:
                    return self.call(BoundV(o, g), [name], {})
                if default is not MISSING:
                    return default
                self.throw("AttributeError", "%r object has no attribute %r" % (h.cls.name, name))
            return self.lib.container_attr(self, o, h, name, default)
        if isinstance(o, ModV):
            v = self.st.heap[o.env].vars.get(name, MISSING)
            if v is MISSING:
                sub = o.name + "." + name
                if self.modpath(sub):
                    return self.load(sub)
                if default is not MISSING:
                    return default
                self.throw("AttributeError", "module %s has no attribute %s" % (o.name, name))
            return v
        if isinstance(o, ClassV):
            m = o.find(name)
            if m is None:
                if name == "__name__":
                    return o.name
                if default is not MISSING:
                    return default
                self.throw("AttributeError", name)
            if isinstance(m, StaticV):
                return m.f if m.kind == "staticmethod" else BoundV(o, m.f)
            return m
        if isinstance(o, SuperV):
            mro = self.obj(o.obj.loc).cls.mro()
            k = mro.index(o.cls)
            for c in mro[k + 1:]:
                if name in c.members:
                    m = c.members[name]
                    if isinstance(m, FuncV):
                        return BoundV(o.obj, m)
                    if isinstance(m, PropV):
                        return self.call(m.get, [o.obj], {})
                    return m
            if name == "__init__":
                return Ext("builtins.noop")
            if name in ("__setattr__", "__getattribute__"):
                return XBound(o.obj, name)
            self.throw("AttributeError", name)
        if isinstance(o, FuncV):
            if name == "__name__":
                return o.name
            if name == "__doc__":
                return None
            return X("opq", S.mk("fattr", o.name, name, opq=True))
        if isinstance(o, BoundV) and name == "__name__":
            return o.f.name
        return self.lib.ext_attr(self, o, name, default)

    def setattr(self, o, name, v):
        o = self.res(o)
        if isinstance(o, Ref):
            h = self.obj(o.loc)
            if isinstance(h, HObj):
                m = h.cls.find(name)
                if isinstance(m, PropV) and not m.cached:
                    if m.set is None:
                        self.throw("AttributeError", "can't set attribute " + name)
                    self.call(m.set, [o, v], {})
                    return
                d = dict(h.attrs)
                d[name] = v
                self.put(o.loc, HObj(h.cls, d))
                return
        if isinstance(o, A) and name == "shape":
            r = self.lib.call_method(self, o, "reshape", [v], {})
            self.put(o.loc, self.st.heap[r.loc]) if not isinstance(self.obj(o.loc), HArr) else self.put(o.loc, HArr(self.readarr(r)))
            return
        if isinstance(o, ModV):
            e = self.st.heap[o.env]
            d = dict(e.vars)
            d[name] = v
            self.st.heap[o.env] = HEnv(d, e.parent)
            return
        if isinstance(o, X):
            self.event("setattr", o.node, name, v)
            return
        if isinstance(o, (FuncV, Ext)):
            return
        if o is None:
            self.throw("AttributeError", name)
        raise Unknown("attribute assignment on %s" % type(o).__name__)

    # ---------------------------------------------------------------- events
    def event(self, kind, *payload):
        fz = tuple(self.freeze(p) if not isinstance(p, (str, Node)) else p for p in payload)
        self.st.events = self.st.events + (Event(kind, fz, self.st.path, self.site()),)

    # ---------------------------------------------------------------- imports
    def modpath(self, name):
        if name != self.package and not name.startswith(self.package + "."):
            return None
        rel = name.split(".")
        p = os.path.join(self.srcroot, *rel[1:]) if len(rel) > 1 else self.srcroot
        if os.path.isfile(p + ".py"):
            return p + ".py"
        if os.path.isfile(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        return None

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = self.modpath(name)
        if path is None:
            raise Missing("module %s not found" % name)
        with open(path, encoding="utf-8") as fp:
            src = fp.read()
        tree = ast.parse(src, path)
        env = self.alloc(HEnv({}, None))
        m = ModV(name, env, tree, path)
        self.modules[name] = m
        fr = Fr(env, m)
        self.callstack.append(fr)
        try:
            ok = self.block(tree.body, fr)
        finally:
            while self.callstack.pop() is not fr:
                pass
        if not ok:
            e = [x for x in fr.exits if x.kind == "raise"]
            raise Missing("module %s does not import (%s)" % (name, e[0].val.extra if e else "?"))
        return m

    def import_name(self, name):
        if name == self.package or name.startswith(self.package + "."):
            return self.load(name)
        return Ext(name)

    def do_import(self, al, fr):
        if al.asname:
            self.setvar(fr, al.asname, self.import_name(al.name))
        else:
            top = al.name.split(".")[0]
            self.import_name(al.name)
            self.setvar(fr, top, self.import_name(top))

    def do_importfrom(self, s, fr):
        mod = s.module or ""
        if s.level:
            base = fr.mod.name.split(".")
            if not fr.mod.path.endswith("__init__.py"):
                base = base[:-1]
            base = base[: len(base) - (s.level - 1)]
            mod = ".".join(base + ([mod] if mod else []))
        m = self.import_name(mod)
        for al in s.names:
            if al.name == "*":
                if isinstance(m, ModV):
                    for k, v in self.st.heap[m.env].vars.items():
                        if not k.startswith("_"):
                            self.setvar(fr, k, v)
                    continue
                raise Unknown("star import")
            if isinstance(m, ModV):
                v = self.st.heap[m.env].vars.get(al.name, MISSING)
                if v is MISSING:
                    if self.modpath(mod + "." + al.name):
                        v = self.load(mod + "." + al.name)
                    else:
                        self.throw("ImportError", "cannot import %s from %s" % (al.name, mod))
            else:
                v = Ext(mod + "." + al.name)
            self.setvar(fr, al.asname or al.name, v)

    # ---------------------------------------------------------------- expressions
    def is_(self, a, b):
        if a is b:
            return True
        if isinstance(a, PhiV) or isinstance(b, PhiV):
            return self.is_(self.res(a), self.res(b))
        if isinstance(b, Node) and b is NONE:
            b = None
        if isinstance(a, Node) and a is NONE:
            a = None
        if a is None or b is None:
            o = b if a is None else a
            if o is None:
                return True
            if isinstance(o, Node):
                if o in self.lib.MAYBE_NONE or o.op == "ite":
                    return self.simp(S.isnone(o))
                if o.opq:
                    return S.cnd("isnone", o, opq=True)
                return False
            if isinstance(o, X) and o.kind == "opq":
                return S.cnd("isnone", o.node, opq=True)
            return False
        if isinstance(a, bool) or isinstance(b, bool):
            if isinstance(a, Node) and S.isbool(a) or isinstance(b, Node) and S.isbool(b):
                return self.lib.cmp(self, "==", a, b)
            return a is b
        if isinstance(a, (int, str)) and isinstance(b, (int, str)):
            return a == b and type(a) is type(b)
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.name == b.name
        if isinstance(a, X) and isinstance(b, X):
            return a.node is b.node
        return self.same(a, b)

    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unknown("expression " + type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float):
            return S.num(v)
        if isinstance(v, complex):
            raise Unknown("complex constant")
        return v

    def e_Name(self, e, fr):
        return self.getvar(fr, e.id)

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.ev(x.value, fr))
                if not isinstance(it, list):
                    raise Unknown("star over symbolic sequence")
                out += it
            else:
                out.append(self.ev(x, fr))
        return out

    def e_List(self, e, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            # [a, *b, c] is [a] + list(b) + [c]
            r = None
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    y = self.call(Ext("builtins.list"), [self.ev(x.value, fr)], {})
                else:
                    y = self.newlist([self.ev(x, fr)])
                r = y if r is None else L.binop(self, "+", r, y)
            return r
        return self.newlist(self.elts(e.elts, fr))

    def e_Set(self, e, fr):
        return Ref(self.alloc(HList(self.elts(e.elts, fr), "set")))

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.res(self.ev(v, fr))
                for kk, vv in self.dict_items(o):
                    d[kk] = vv
            else:
                kk = self.hashable(self.ev(k, fr))
                d[kk] = self.ev(v, fr)
        return self.newdict(d)

    def hashable(self, k):
        k = self.res(k)
        if isinstance(k, (str, int, bool, type(None), Node, Ext)):
            return k
        if isinstance(k, tuple):
            return tuple(self.hashable(x) for x in k)
        if isinstance(k, (FuncV, ClassV)):
            return k
        if isinstance(k, A):
            if not self.lib.ndim0(self, k):
                self.throw("TypeError", "unhashable type: 'numpy.ndarray'")
            return self.readarr(k).at(())
        if isinstance(k, Ref):
            h = self.obj(k.loc)
            if isinstance(h, (HList, HSeq, HDict)):
                self.throw("TypeError", "unhashable type")
            if isinstance(h, HObj) and h.cls.find("__hash__") is None and h.cls.find("__eq__") is None:
                return S.mk("objid", k.loc)
        if isinstance(k, BoundV) and isinstance(k.f, FuncV):
            return (k.f, self.hashable(k.obj))
        if isinstance(k, X) and k.kind in ("opq", "dtype"):
            return k.node
        raise Unknown("dictionary key")

    def dict_items(self, o):
        o = self.res(o)
        if isinstance(o, Ref):
            h = self.obj(o.loc)
            if isinstance(h, HDict):
                return [(k, self.res_missing(h.items[k])) for k in self.dict_keys(h)]
        if o is None:
            self.throw("TypeError", "argument must be a mapping")
        if isinstance(o, X) and o.kind == "objdict":
            return self.lib.on_objdict(self, o, self.dict_items)
        raise Unknown("mapping")

    def res_missing(self, v):
        while isinstance(v, PhiV) and (v.a is MISSING or v.b is MISSING):
            v = self.res(v)
        return v

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.lib.binop(self, BINOPS[type(e.op)], self.res(a), self.res(b))

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            c = self.truth(v)
            if isinstance(c, bool):
                return not c
            return S.not_(c)
        v = self.res(v)
        if isinstance(e.op, ast.USub):
            return self.lib.unary(self, "-", v)
        if isinstance(e.op, ast.UAdd):
            return v
        return self.lib.unary(self, "~", v)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)

        def go(k):
            v = self.ev(e.values[k], fr)
            if k == len(e.values) - 1:
                return v
            c = self.truth(v)
            if c is True:
                return go(k + 1) if isand else v
            if c is False:
                return v if isand else go(k + 1)
            return self.branch_val(fr, c, (lambda: go(k + 1)) if isand else (lambda: v), (lambda: v) if isand else (lambda: go(k + 1)), boolish=isand)

        return go(0)

    def branch_val(self, fr, c, f, g, boolish=None):
        pre = self.st
        out = {}

        def a():
            out["a"] = f()
            return True

        def b():
            out["b"] = g()
            return True

        if not self.fork(fr, pre, c, a, b):
            raise Dead()
        if "a" not in out:
            return out["b"]
        if "b" not in out:
            return out["a"]
        x, y = out["a"], out["b"]
        return self.phi(c, x, y)

    def e_IfExp(self, e, fr):
        c = self.truth(self.ev(e.test, fr))
        if c is True:
            return self.ev(e.body, fr)
        if c is False:
            return self.ev(e.orelse, fr)
        return self.branch_val(fr, c, lambda: self.ev(e.body, fr), lambda: self.ev(e.orelse, fr))

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            x = self.compare1(op, left, right)
            if res is None:
                res = x
            else:
                a, b = self.truth(res), self.truth(x)
                if a is False or b is False:
                    res = False
                elif a is True:
                    res = x
                elif b is True:
                    pass
                else:
                    res = S.and_(a, b)
            if res is False:
                return False
            left = right
        return res

    def compare1(self, op, a, b):
        if isinstance(op, (ast.Eq, ast.NotEq, ast.In, ast.NotIn)) and self.callstack[-1].mod is not None and self.callstack[-1].mod.path:
            S.RELIED = self.relied
            try:
                return self.compare2(op, a, b)
            finally:
                S.RELIED = None
        return self.compare2(op, a, b)

    def compare2(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(a, b)
            if isinstance(op, ast.IsNot):
                return (not r) if isinstance(r, bool) else S.not_(r)
            return r
        a, b = self.res(a), self.res(b)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.lib.contains(self, b, a)
            if isinstance(op, ast.NotIn):
                return (not r) if isinstance(r, bool) else S.not_(r)
            return r
        return self.lib.cmp(self, CMPOPS[type(op)], a, b)

    def e_Subscript(self, e, fr):
        o = self.res(self.ev(e.value, fr))
        k = self.ev_index(e.slice, fr)
        return self.lib.getitem(self, o, k)

    def ev_index(self, s, fr):
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_index(x, fr) if not isinstance(x, ast.Starred) else x for x in s.elts)
        if isinstance(s, ast.Slice):
            f = lambda x: None if x is None else self.res(self.ev(x, fr))
            return slice(f(s.lower), f(s.upper), f(s.step))
        return self.res(self.ev(s, fr))

    def e_Slice(self, s, fr):
        return self.ev_index(s, fr)

    def e_Lambda(self, e, fr):
        return self.make_func(e, fr, "<lambda>")

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.assign(e.target, v, fr)
        return v

    def e_JoinedStr(self, e, fr):
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(x.value)
            else:
                v = self.res(self.ev(x.value, fr))
                spec = ""
                if x.format_spec is not None:
                    spec = self.e_JoinedStr(x.format_spec, fr)
                try:
                    parts.append(self.lib.format_value(self, v, spec))
                except Unknown:
                    parts.append(S.mk("fmt", S.sym("?"), ""))
        return self.lib.joinstr(parts)

    def e_FormattedValue(self, e, fr):
        return self.e_JoinedStr(ast.JoinedStr(values=[e]), fr)

    def e_Starred(self, e, fr):
        raise Unknown("starred expression")

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and self.getvar_opt(fr, "super") is None:
            if e.args:
                c = self.ev(e.args[0], fr)
                o = self.ev(e.args[1], fr)
                return SuperV(c, o)
            f = fr
            return SuperV(f.cls, f.selfv)
        f = self.ev(e.func, fr)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.ev(x.value, fr))
                if not isinstance(it, list):
                    args.append(self.lib.StarSeq(it))
                else:
                    args += it
            else:
                args.append(self.ev(x, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                for kk, vv in self.dict_items(self.ev(k.value, fr)):
                    if not isinstance(kk, str):
                        self.throw("TypeError", "keywords must be strings")
                    if kk in kw:
                        self.throw("TypeError", "got multiple values for keyword argument %r" % kk)
                    kw[kk] = vv
            else:
                if k.arg in kw:
                    self.throw("TypeError", "got multiple values for keyword argument %r" % k.arg)
                kw[k.arg] = self.ev(k.value, fr)
        fr.line = e.lineno
        return self.call(f, args, kw)

    # -- comprehensions
    def comp(self, e, fr, item):
        env = self.alloc(HEnv({}, fr.env))
        cf = Fr(env, fr.mod, fr.func, fr.cls, fr.selfv)
        cf.exits = fr.exits
        cf.line = fr.line
        self.callstack.append(cf)
        try:
            return self.comp_gen(e.generators, 0, cf, item)
        finally:
            while self.callstack.pop() is not cf:
                pass

    def comp_gen(self, gens, k, cf, item):
        """list of item values, or HSeq"""
        if k == len(gens):
            return [item(cf)]
        g = gens[k]
        it = self.iterate(self.ev(g.iter, cf))
        if isinstance(it, list):
            out = []
            for v in it:
                self.assign(g.target, v, cf)
                ok = True
                for c in g.ifs:
                    t = self.truth(self.ev(c, cf))
                    if t is False:
                        ok = False
                        break
                    if t is not True:
                        raise NeedSplit(t)
                if ok:
                    r = self.comp_gen(gens, k + 1, cf, item)
                    if isinstance(r, HSeq):
                        raise Unknown("nested symbolic comprehension")
                    out += r
            return out
        if g.ifs:
            raise Unknown("filtered symbolic comprehension")
        n, get = it
        i = S.fresh(n)
        pre = self.st.copy()
        nex = len(cf.exits)
        self.assign(g.target, get(i), cf)
        try:
            r = self.comp_gen(gens, k + 1, cf, item)
        except Dead:
            for e in cf.exits[nex:]:
                c = S.any_([i], S.and_(*e.st.path[len(pre.path):]))
                if c is not TRUE:
                    raise Unknown("conditional exception in symbolic comprehension")
            raise
        ex = cf.exits[nex:]
        if isinstance(r, HSeq) or len(r) != 1:
            raise Unknown("nested symbolic comprehension")
        t = self.tmpl(r[0])
        # the loop body must not change anything but fresh objects
        ch = [c for c in self.changed(pre, self.st) if not (c[0][0] == "var" and c[0][1] == cf.env)]
        if ch or self.st.rng is not pre.rng:
            if self.st.rng is not pre.rng and not ch:
                self.st.rng = S.mk("rngloop", pre.rng, S.close_map("maplist", i, S.subst(self.st.rng, {pre.rng: S.sym("rng_in")})))
            else:
                raise Unknown("side effects in symbolic comprehension")
        if ex:
            for e in ex:
                c = S.any_([i], S.and_(*e.st.path[len(pre.path):]))
                bad = pre.copy()
                self.assume(bad, c)
                e.st = bad
                keep = self.st.copy()
                keep.path, keep.facts = pre.path, pre.facts
                self.assume(keep, S.not_(c))
                self.st = keep
        return HSeq(n, i, t)

    def e_ListComp(self, e, fr):
        r = self.comp(e, fr, lambda cf: self.ev(e.elt, cf))
        if isinstance(r, HSeq):
            return Ref(self.alloc(r))
        return self.newlist(r)

    def e_GeneratorExp(self, e, fr):
        return self.e_ListComp(e, fr)

    def e_SetComp(self, e, fr):
        r = self.comp(e, fr, lambda cf: self.ev(e.elt, cf))
        if isinstance(r, HSeq):
            raise Unknown("symbolic set")
        return Ref(self.alloc(HList(r, "set")))

    def e_DictComp(self, e, fr):
        r = self.comp(e, fr, lambda cf: (self.hashable(self.ev(e.key, cf)), self.ev(e.value, cf)))
        if isinstance(r, HSeq):
            raise Unknown("symbolic dict")
        return self.newdict(dict(r))

    # ---------------------------------------------------------------- freezing
    def freeze(self, v, depth=0):
        """term describing a value (content, not identity)"""
        if depth > 12:
            raise Unknown("deep value")
        f = lambda x: self.freeze(x, depth + 1)
        if isinstance(v, Node):
            return v
        if v is None:
            return NONE
        if v is True:
            return TRUE
        if v is False:
            return FALSE
        if isinstance(v, int):
            return S.num(v)
        if isinstance(v, (str, bytes)):
            return S.string(v)
        if isinstance(v, PhiV):
            c = self.simp(v.c)
            if c is TRUE:
                return f(v.a)
            if c is FALSE:
                return f(v.b)
            return S.ite(c, f(v.a), f(v.b))
        if isinstance(v, A):
            o = self.st.heap[v.loc]
            if isinstance(o, HPhi):
                return S.ite(o.c, self._fz_obj(v, o.a, depth), self._fz_obj(v, o.b, depth))
            a = self.readarr(v)
            return S.mk("arr", tuple(a.dims), S.lam(a))
        if isinstance(v, tuple):
            return S.mk("tuple", *[f(x) for x in v])
        if isinstance(v, Ref):
            o = self.st.heap[v.loc]
            return self._fz_obj(v, o, depth)
        if isinstance(v, X):
            return v.node
        if isinstance(v, Ext):
            return S.mk("ext", v.name)
        if isinstance(v, FuncV):
            return S.mk("func", (v.mod.name if v.mod else "") + ":" + v.name + ":%d" % getattr(v.node, "lineno", 0))
        if isinstance(v, ClassV):
            return S.mk("class", v.name)
        if isinstance(v, BoundV):
            return S.mk("bound", f(v.f), f(v.obj))
        if isinstance(v, RangeV):
            return S.mk("range", f(v.start), f(v.stop), f(v.step))
        if isinstance(v, slice):
            return S.mk("slice", f(v.start), f(v.stop), f(v.step))
        if v is MISSING:
            return S.sym("<unbound>")
        if isinstance(v, IterV):
            return S.mk("iter", v.kind, *[f(x) for x in v.args])
        if isinstance(v, ModV):
            return S.mk("module", v.name)
        if isinstance(v, XBound):
            return S.mk("xbound", f(v.obj), v.name)
        if isinstance(v, PartialV):
            return S.mk("partial", f(v.f), *[f(x) for x in v.args])
        if v is Ellipsis:
            return S.sym("...")
        raise Unknown("value %s" % type(v).__name__)

    def _fz_obj(self, v, o, depth):
        f = lambda x: self.freeze(x, depth + 1)
        if isinstance(o, HPhi):
            c = self.simp(o.c)
            if c is TRUE:
                return self._fz_obj(v, o.a, depth)
            if c is FALSE:
                return self._fz_obj(v, o.b, depth)
            return S.ite(c, self._fz_obj(v, o.a, depth), self._fz_obj(v, o.b, depth))
        if isinstance(o, HList):
            if o.cls == "set":
                return S.mk("set", *sorted([f(x) for x in o.items], key=lambda n: n.key))
            return S.mk("list", *[f(x) for x in o.items])
        if isinstance(o, HSeq):
            t = self.inst(o.tmpl, {})
            return S.mk("seq", o.n, S.close_map("maplist", o.i, f(t)))
        if isinstance(o, HDict):
            items = []
            for k in sorted(o.items, key=lambda k: (str(type(k)), str(k) if not isinstance(k, Node) else k.key.hex())):
                items.append(S.mk("item", f(k), f(o.items[k])))
            return S.mk("dict", *items)
        if isinstance(o, HObj) and "_fields" in o.cls.members:
            return S.mk("tuple", *[f(o.attrs[k]) for k in o.cls.members["_fields"]])
        if isinstance(o, HObj):
            return S.mk("obj", o.cls.name, *[S.mk("item", S.string(k), f(o.attrs[k])) for k in sorted(o.attrs)])
        if isinstance(o, HArr):
            return S.mk("arr", tuple(o.arr.dims), S.lam(o.arr))
        if isinstance(o, HView):
            a = self.readarr(A(v.loc))
            return S.mk("arr", tuple(a.dims), S.lam(a))
        if isinstance(o, HCell):
            return f(o.v)
        raise Unknown("heap object")


class Event:
    __slots__ = ("kind", "args", "path", "site", "loops", "data")

    def __init__(self, kind, args, path, site, loops=()):
        self.data = None
        self.kind, self.args, self.path, self.site, self.loops = kind, args, path, site, loops

    def loop(self, i):
        return Event(self.kind, self.args, self.path, self.site, self.loops + (i,))

    def node(self):
        n = S.mk("event", self.kind, *self.args)
        for i in self.loops:
            n = S.close_map("loopev", i, n)
        return n


def tail_yield(body, y):
    """nothing but clean-up (finally) runs after the yield"""
    if not body:
        return False
    s = body[-1]
    if not any(x is y for x in ast.walk(s)):
        return False
    if isinstance(s, ast.Expr):
        return s.value is y
    if isinstance(s, ast.Try):
        return not s.orelse and tail_yield(s.body, y)
    if isinstance(s, ast.With):
        return tail_yield(s.body, y)
    return False


_GEN = {}


def is_gen(node):
    r = _GEN.get(node)
    if r is None:
        r = False
        stack = list(node.body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack += list(ast.iter_child_nodes(x))
        _GEN[node] = r
    return r
