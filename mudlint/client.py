"""Clients: short programs, written next to the properties, that use the analysed library.

A client is interpreted together with the library's source by the same abstract interpreter;
nothing of it is executed.  Its helper names create unknown arrays, numbers, distributions and axes.
"""
import ast
import os

from . import sym as S
from .sym import Node
from . import lib as L
from .canvas import Canvas
from .interp import Interp, A, Ref, Ext, X, HArr, HCell, HEnv, Fr, ModV, FuncV, ClassV, PropV, HDict, HList, Unknown, Dead, NeedSplit, Missing, MISSING

SRC = "/repo/src/mud"
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "pymodels.py")) as _fp:
    MODELS = ast.parse(_fp.read())


def _dim(I, v):
    v = I.res(v)
    if isinstance(v, bool):
        raise Unknown("dim")
    return S.num(v) if isinstance(v, int) else v


def mkarr(I, name, dims, flags=()):
    dims = tuple(_dim(I, d) for d in dims)
    if name in I.ints:
        flags += ("integer",)
    b = S.asym(name, dims, flags) if flags else S.sym(name)
    if not flags:
        S.SIZES[b] = dims
    return A(I.alloc(HArr(S.build(dims, lambda *i: S.elem(b, *i)), frozenset((name,)))))


class Client(Canvas):
    def __init__(self, srcroot=SRC, budget=400000):
        self.I = Interp(srcroot)
        self.I.budget = budget
        self.probes = []
        self.problems = []
        self.undecided = []
        self.passed = 0
        self.ctx = ''
        self.st0 = None
        self.syms = {}

        I = self.I
        I.curax = I.alloc(HCell(X("axes", S.sym("curax"))))
        self.load_models()
        env = I.alloc(HEnv({}, None))
        self.mod = ModV("client", env, None, None)
        self.fr = Fr(env, self.mod)
        self.fr.func = "<client>"
        I.callstack.append(self.fr)
        for n in dir(self):
            if n.startswith("h_"):
                I.extra_names[n[2:]] = X("func", S.mk("helper", n[2:]), getattr(self, n))

    def load_models(self):
        """models of external functions written in the analysed language"""
        I = self.I
        env = I.alloc(HEnv({}, None))
        fr = Fr(env, ModV("models", env, None, None))
        I.callstack.append(fr)
        I.block(MODELS.body, fr)
        I.callstack.pop()
        for k, v in I.st.heap[env].vars.items():
            if "__" in k:
                I.models[k.replace("__", ".")] = v

    # ---- helpers visible to clients (called as f(I, args, kw))
    sizes = {}

    def size(self, a):
        a = self.sizes.get(a, a)
        return a if isinstance(a, int) else S.dim(a)

    def h_dims(self, I, args, kw):
        r = tuple(self.size(a) for a in args[0].split())
        return r if len(r) > 1 else r[0]

    def h_arr(self, I, args, kw):
        return mkarr(I, args[0], args[1:])

    def h_posarr(self, I, args, kw):
        return mkarr(I, args[0], args[1:], ("pos",))

    def h_indices(self, I, args, kw):
        """unknown valid positions along an axis of the given size"""
        n = _dim(I, args[1])
        b = S.asym(args[0], (n,), ("int",))
        return A(I.alloc(HArr(S.build((n,), lambda i: S.elem(b, i)))))

    def h_shuffle(self, I, args, kw):
        """unknown reordering of the positions along an axis"""
        n = _dim(I, args[1])
        b = S.asym(args[0], (n,), ("int", "perm"))
        S.PERMS.add(b)
        return A(I.alloc(HArr(S.build((n,), lambda i: S.elem(b, i)))))

    def h_rowfun(self, I, args, kw):
        """one value per row, an unknown function of that row"""
        a = L.asarr(I, args[1])
        extra = [S.mk("item", k, I.freeze(v)) for k, v in sorted(kw.items())]
        return I.new(S.build(a.dims[:1], lambda i: S.mk("rowfun", args[0], S.lam(S.build(a.dims[1:], lambda *j: a.at((i,) + j))), *extra)))

    def h_real(self, I, args, kw):
        return S.sym(args[0])

    def h_positive(self, I, args, kw):
        return S.sym(args[0], pos=True)

    def h_boolean(self, I, args, kw):
        return S.cnd("flag", S.sym(args[0]))

    def h_text(self, I, args, kw):
        n = S.sym("str:" + args[0])
        L.STRSYMS.add(n)
        return n

    def h_Dist(self, I, args, kw):
        nm = args[0]
        return X("dist", S.sym("dist:" + nm), ("user", S.sym("dist:" + nm)))

    def h_Axes(self, I, args, kw):
        return X("axes", S.sym("axes:" + args[0]))

    def h_exists(self, I, args, kw):
        return S.cnd("exists", I.freeze(args[0]))

    def h_file_content(self, I, args, kw):
        """declares what a file of that name contains"""
        if not hasattr(I, "file_contents"):
            I.file_contents = {}
        I.file_contents[I.freeze(args[0])] = args[1]
        return None

    def h_defaults(self, I, args, kw):
        """content of every mutable default value in the library"""
        out = []

        def fun(f):
            for nm, v in [(str(k), v) for k, v in enumerate(f.defaults or ())] + sorted((f.kwdefaults or {}).items()):
                if isinstance(v, (A, Ref)):
                    out.append(S.mk("item", "%s:%s:%s" % (f.mod.name if f.mod else "", f.name, nm), I.freeze(v)))

        def walk(v, mod):
            if isinstance(v, FuncV) and v.mod is mod:
                fun(v)
            elif isinstance(v, ClassV) and v.mod is mod:
                for k in sorted(v.members):
                    walk(v.members[k], mod)
            elif isinstance(v, PropV):
                for g in (v.get, v.set):
                    if isinstance(g, FuncV):
                        fun(g)

        for name in sorted(I.modules):
            m = I.modules[name]
            if isinstance(m, ModV) and m.env is not None:
                vs = I.st.heap[m.env].vars
                for k in sorted(vs):
                    walk(vs[k], m)
        return X("term", S.mk("tuple", *out))

    def h_frozen(self, I, args, kw):
        """term of the current content"""
        n = I.freeze(args[0])
        return X("term", n)

    def h_note(self, I, args, kw):
        self.ctx = " ".join(str(a) for a in args)
        return None

    def h_assume(self, I, args, kw):
        c = I.truth(args[0])
        c = S.TRUE if c is True else S.FALSE if c is False else c
        if c is S.FALSE:
            raise Dead()
        I.assume(I.st, c)
        return None

    def h_check(self, I, args, kw):
        self.probes.append((args[0] + (" [%s]" % self.ctx if self.ctx else ""), I.freeze(args[1]), I.freeze(args[2]), I.st, I.freeze(kw["known"]) if "known" in kw else None))
        return None

    def run(self, text):
        tree = ast.parse(text)
        I = self.I
        return I.block(tree.body, self.fr)

    def start(self):
        """the analysed requests begin here"""
        self.fr.exits = []
        self.I.st = self.I.st.copy()
        self.st0 = self.I.st.copy()

    def var(self, name):
        return self.I.st.heap[self.mod.env].vars[name]
