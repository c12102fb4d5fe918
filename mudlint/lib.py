"""Summaries of builtins, numpy, scipy, sklearn and matplotlib used by the analysis."""
import itertools
from fractions import Fraction

from . import sym as S
from .sym import Arr, Node, ShapeError, ZERO, ONE, TRUE, FALSE, NONE
from .interp import (
    A, Ref, PhiV, FuncV, PropV, StaticV, BoundV, XBound, ClassV, ModV, Ext, X, RangeV, IterV, PartialV, SuperV,
    HArr, HView, HList, HSeq, HGrow, HDict, HObj, HEnv, HPhi, HCell, TArr, TSeq, MISSING, Unknown, Dead, NeedSplit, Missing,
    EXC_TREE, exc_isa,
)

STRSYMS = set()  # symbolic strings
MAYBE_NONE = set()  # symbols that may stand for None


class StarSeq:
    """*args over a sequence of symbolic length"""

    def __init__(self, it):
        self.it = it


# ------------------------------------------------------------------ scalars
def N(I, v):
    v = I.res(v)
    if isinstance(v, bool):
        return ONE if v else ZERO
    if isinstance(v, int):
        return S.num(v)
    if isinstance(v, Node):
        if v.op in ("true", "false") or S.isbool(v):
            return S.b2n(v)
        if v.op in ("str", "none"):
            I.throw("TypeError", "unsupported operand")
        return v
    if isinstance(v, A):
        a = I.readarr(v)
        if all(d is ONE for d in a.dims):
            return N(I, a.at([ZERO] * a.ndim))
        I.throw("TypeError", "only length-1 arrays can be converted to scalars")
    if isinstance(v, X):
        if v.kind in ("opq", "rng"):
            return v.node
        raise Unknown("number from %s" % v.kind)
    if v is None or isinstance(v, (str, tuple)):
        I.throw("TypeError", "unsupported operand type")
    if isinstance(v, Ref):
        o = I.obj(v.loc)
        I.throw("TypeError", "unsupported operand type")
    raise Unknown("number from %s" % type(v).__name__)


def num_(b):
    if b is S.NONE:
        raise Unknown("arithmetic on an array of None")
    return S.b2n(b) if S.isbool(b) else b


def pyint(n):
    if isinstance(n, Node) and n.op == "num" and n.args[0].denominator == 1:
        return int(n.args[0])
    return n


def isscalar(v):
    return isinstance(v, (int, bool)) or (isinstance(v, Node) and v.op not in ("str", "none") and v not in STRSYMS)


def isstr(v):
    return isinstance(v, str) or (isinstance(v, Node) and (v.op in ("str", "strcat", "fmt") or v in STRSYMS))


def format_value(I, v, spec):
    """text of a value (concrete when the value is); a whole number counts as an integer"""
    v = I.res(v)
    if isinstance(v, Node) and v.op == "str":
        v = v.args[0]
    if isinstance(v, A):
        a = I.readarr(v)
        if a.ndim == 0:
            v = a.at(())
    if isinstance(v, Node) and v.op == "num" and v.args[0].denominator == 1 and spec in ("", "d"):
        v = int(v.args[0])
    if isinstance(v, (str, int)) and not isinstance(v, bool) and isinstance(spec, str):
        try:
            return format(v, spec)
        except ValueError:
            pass
    if v is None or isinstance(v, bool):
        return str(v)
    if isstr(v) and spec == "":
        return v
    if isinstance(v, tuple) and all(isinstance(q, int) for q in v):
        return str(v)
    if isinstance(v, Node) and v.isint and spec == "d":
        spec = ""
    return S.mk("fmt", I.freeze(v), spec if isinstance(spec, str) else I.freeze(spec))


def str_format(I, o, args, kw):
    import string as _string

    parts, auto = [], 0
    try:
        for lit, field, spec, conv in _string.Formatter().parse(o):
            parts.append(lit)
            if field is None:
                continue
            if conv or "{" in (spec or ""):
                return None
            if field == "":
                field, auto = str(auto), auto + 1
            if field.isdigit():
                if int(field) >= len(args):
                    I.throw("IndexError", "replacement index out of range")
                v = args[int(field)]
            elif field.isidentifier():
                if field not in kw:
                    I.throw("KeyError", field)
                v = kw[field]
            else:
                return None
            parts.append(format_value(I, v, spec or ""))
    except ValueError:
        I.throw("ValueError", "format string")
    return joinstr(parts)


def percent_format(I, a, b):
    import re

    b = I.res(b)
    vals = list(b) if isinstance(b, tuple) else [b]
    toks = re.split(r"(%%|%[a-zA-Z])", a)
    if any("%" in t for t in toks if not re.fullmatch(r"%%|%[a-zA-Z]", t)):
        return None
    parts = []
    for t in toks:
        if t == "%%":
            parts.append("%")
        elif t in ("%d", "%i", "%s"):
            if not vals:
                I.throw("TypeError", "not enough arguments for format string")
            parts.append(format_value(I, vals.pop(0), "" if t == "%s" else "d"))
        elif re.fullmatch(r"%[a-zA-Z]", t):
            return None
        else:
            parts.append(t)
    return joinstr(parts)


def joinstr(parts):
    out = []
    for p in parts:
        if isinstance(p, Node) and p.op == "str":
            p = p.args[0]
        if isinstance(p, Node) and p.op == "strcat":
            sub = [x if isinstance(x, Node) else x for x in p.args]
            for x in sub:
                x = x.args[0] if x.op == "str" else x
                if isinstance(x, str) and out and isinstance(out[-1], str):
                    out[-1] += x
                else:
                    out.append(x)
            continue
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    out = [x for x in out if x != ""]
    if not out:
        return ""
    if len(out) == 1:
        return out[0]
    return S.mk("strcat", *[S.string(x) if isinstance(x, str) else x for x in out])


# ------------------------------------------------------------------ shapes
def _generic(d):
    """size made of declared dimensions and constants only"""
    return all(k in S.DIMS for k in d.mk) and not d.bv and (d.op in ("num", "sym", "poly"))


def deq(a, b):
    """dimension equality: True / False (decided) or Unknown"""
    if a is b:
        return True
    d = S.sub(a, b)
    if S.isnum(d):
        return S.val(d) == 0
    if _generic(a) and _generic(b):
        return False
    raise Unknown("undecided size comparison %r / %r" % (a, b))


def bdims(I, *ds):
    n = max(len(d) for d in ds)
    out = []
    for k in range(n):
        r = ONE
        for d in ds:
            j = k - (n - len(d))
            if j < 0:
                continue
            x = d[j]
            if x is ONE:
                continue
            if r is ONE:
                r = x
            elif not deq(r, x):
                raise ShapeError("operands could not be broadcast together: %s" % (", ".join(map(shp, ds))))
        out.append(r)
    return tuple(out)


def shp(d):
    return "(" + ",".join(S.show(x) for x in d) + ")"


def bidx(a, idx, n=None):
    """index of operand a for a broadcast index"""
    k = len(idx) - a.ndim
    return tuple(ZERO if a.dims[j] is ONE else idx[k + j] for j in range(a.ndim))


def sc(node):
    return Arr((), (), node)


def asarr(I, v):
    """abstract array of any array-like value"""
    v = I.res(v)
    if isinstance(v, A):
        return I.readarr(v)
    if isinstance(v, bool):
        return sc(TRUE if v else FALSE)
    if isinstance(v, int):
        return sc(S.num(v))
    if isinstance(v, Node):
        if v.op == "none":
            I.throw("TypeError", "unsupported operand type: 'NoneType'")
        return sc(v)
    if isinstance(v, Ref):
        o = I.obj(v.loc)
        if isinstance(o, HList):
            return stack(I, list(o.items))
        if isinstance(o, HSeq):
            return seqarr(I, o)
        if isinstance(o, HDict):
            raise Unknown("array of dict")
    if isinstance(v, tuple):
        return stack(I, list(v))
    if isinstance(v, (RangeV, IterV)):
        it = I.iterate(v)
        if isinstance(it, list):
            return stack(I, it)
        n, g = it
        i = S.fresh(n)
        return Arr((n,), (i,), N(I, g(i)))
    if isinstance(v, str):
        return sc(S.string(v))
    if v is None:
        I.throw("TypeError", "unsupported operand type: 'NoneType'")
    if isinstance(v, X):
        if v.kind == "opq":
            raise Unknown("array of unknown value")
    raise Unknown("array from %s" % type(v).__name__)


def stack(I, items):
    if not items:
        return Arr((ZERO,), (S.fresh(ZERO),), ZERO)
    if any(I.res(x) is None for x in items):
        raise Unknown("array of None")
    arrs = [asarr(I, x) for x in items]
    d0 = arrs[0].dims
    for a in arrs[1:]:
        if len(a.dims) != len(d0) or not all(deq(x, y) for x, y in zip(a.dims, d0)):
            raise ShapeError("inhomogeneous array")
    k = len(items)
    return S.build((S.num(k),) + d0, lambda i, *r: sel(i, [a.at(r) for a in arrs]))


def sel(i, opts):
    if len(opts) == 1:
        return opts[0]
    return S.select(i, opts)


def seqarr(I, o):
    t = o.tmpl
    if isinstance(t, TArr):
        a = t.arr
        if any(o.i in d.mk for d in a.dims):
            raise ShapeError("inhomogeneous array")
        return S.build((o.n,) + a.dims, lambda k, *r: S.subst(a.at(r), {o.i: k}))
    if hasattr(t, "items") and not isinstance(t, dict) or isinstance(t, tuple):
        its = t if isinstance(t, tuple) else t.items
        subs = [seqarr(I, HSeq(o.n, o.i, x)) for x in its]
        d0 = subs[0].dims[1:]
        for s in subs[1:]:
            if len(s.dims) != len(subs[0].dims) or not all(deq(x, y) for x, y in zip(s.dims[1:], d0)):
                raise ShapeError("inhomogeneous array")
        return S.build((o.n, S.num(len(subs))) + d0, lambda k, q, *r: sel(q, [s.at((k,) + tuple(r)) for s in subs]))
    if isinstance(t, bool):
        t = TRUE if t else FALSE
    if isinstance(t, int):
        t = S.num(t)
    if isinstance(t, Node):
        return S.build((o.n,), lambda k: S.subst(t, {o.i: k}))
    if isinstance(t, TSeq):
        if o.i in t.n.mk:
            raise ShapeError("inhomogeneous array")
        a = seqarr(I, HSeq(t.n, t.i, t.tmpl))
        return S.build((o.n,) + a.dims, lambda k, *r: S.subst(a.at(r), {o.i: k}))
    raise Unknown("array of objects")


def isarrlike(I, v):
    return isinstance(v, A)


def ew(I, f, *vs, raw=False):
    arrs = [v if isinstance(v, Arr) else asarr(I, v) for v in vs]
    try:
        d = bdims(I, *[a.dims for a in arrs])
    except ShapeError as e:
        I.throw("ValueError", str(e))
    r = S.build(d, lambda *i: f(*[(a.at(bidx(a, i)) if raw else num_(a.at(bidx(a, i)))) for a in arrs]))
    return I.new(r)


# ------------------------------------------------------------------ operators
def _pow(a, b):
    if S.isnum(b):
        return S.power(a, S.val(b))
    if a.op == "num" and a.args[0] == 1:
        return ONE
    return S.mk("fn", "power", a, b, pos=a.pos)


OPS = {
    "+": S.add,
    "-": S.sub,
    "*": S.mul,
    "/": S.div,
    "**": _pow,
    "//": lambda a, b: S.fn("floordiv", a, b),
    "%": lambda a, b: S.fn("mod", a, b),
}


def _logic(op):
    def f(a, b):
        if S.isbool(a) and S.isbool(b):
            if op == "&":
                return S.and_(a, b)
            if op == "|":
                return S.or_(a, b)
            return S.or_(S.and_(a, S.not_(b)), S.and_(b, S.not_(a)))
        return S.mk("fn", "bit" + op, num_(a), num_(b), opq=True)

    return f


def ctype(I, v):
    """container kind of v: 'list','tuple','set','dict','seq' or None"""
    if isinstance(v, tuple):
        return "tuple"
    if isinstance(v, Ref):
        o = I.obj(v.loc)
        if isinstance(o, HList):
            return o.cls
        if isinstance(o, HSeq):
            return "seq"
        if isinstance(o, HDict):
            return "dict"
    return None


def binop(I, op, a, b):
    r = binop0(I, op, a, b)
    if isinstance(r, A) and isinstance(a, A) and isinstance(b, A) and op in ("+", "-", "*", "@"):
        return I.typed(r, I.commondt((a, b)))
    return r


def binop0(I, op, a, b):
    if isinstance(a, X) and a.kind == "path" and op == "/":
        return path_join(I, a, b)
    if isinstance(a, Ref) and isinstance(I.obj(a.loc), HObj):
        nm = {"+": "__add__", "-": "__sub__", "*": "__mul__", "/": "__truediv__", "@": "__matmul__", "**": "__pow__"}.get(op)
        f = I.obj(a.loc).cls.find(nm) if nm else None
        if f is not None:
            return I.call(BoundV(a, f), [b], {})
        if not isinstance(b, A):
            I.throw("TypeError", "unsupported operand types")
    if isstr(a) or isstr(b):
        if op == "+" and isstr(a) and isstr(b):
            return joinstr([a, b])
        if op == "%" and isinstance(a, str):
            if isinstance(b, (int, str)) and not isinstance(b, bool):
                try:
                    return a % b
                except (TypeError, ValueError):
                    I.throw("TypeError", "string formatting")
            if isinstance(b, tuple) and all(isinstance(x, (int, str)) for x in b):
                try:
                    return a % b
                except (TypeError, ValueError):
                    I.throw("TypeError", "string formatting")
            r = percent_format(I, a, b)
            return r if r is not None else joinstr([S.mk("fmt", S.string(a), I.freeze(b))])
        if op == "*" and isinstance(a, str) and isinstance(b, int):
            return a * b
        if isinstance(a, A) or isinstance(b, A):
            raise Unknown("string array")
        I.throw("TypeError", "unsupported operand types for %s" % op)
    ca, cb = ctype(I, a), ctype(I, b)
    anyarr = isinstance(a, A) or isinstance(b, A)
    if (ca or cb) and not anyarr:
        if op == "+" and ca == cb and ca in ("list", "tuple"):
            if ca == "tuple":
                return a + b
            return I.newlist(I.obj(a.loc).items + I.obj(b.loc).items)
        if op == "*" and (ca in ("list", "tuple", "seq") or cb in ("list", "tuple", "seq")):
            l, k = (a, b) if ca else (b, a)
            if ctype(I, k):
                I.throw("TypeError", "can't multiply sequence by sequence")
            return repeat_list(I, l, k)
        if op == "|" and ca == cb == "dict":
            d = dict(I.dict_items(a))
            d.update(dict(I.dict_items(b)))
            return I.newdict(d)
        if op in ("|", "&", "-") and ca == cb == "set":
            x, y = I.obj(a.loc).items, I.obj(b.loc).items
            r = {"|": lambda: x + tuple(z for z in y if z not in x), "&": lambda: tuple(z for z in x if z in y), "-": lambda: tuple(z for z in x if z not in y)}[op]()
            return Ref(I.alloc(HList(r, "set")))
        other = b if ca else a
        if isinstance(other, Node) and op != "+" or isinstance(other, Node):
            # numpy scalar with a list behaves as an array; python float raises
            if not (ca and cb):
                I.throw("TypeError", "unsupported operand types for %s: list" % op)
        I.throw("TypeError", "unsupported operand types for %s" % op)
    if a is None or b is None:
        I.throw("TypeError", "unsupported operand type(s) for %s: None" % op)
    for v in (a, b):
        if isinstance(v, (FuncV, BoundV, ClassV, ModV, slice)):
            I.throw("TypeError", "unsupported operand types for %s" % op)
        if isinstance(v, X) and v.kind not in ("opq",):
            if v.kind in ("axes", "figure", "dist", "kde", "artist", "file"):
                I.throw("TypeError", "unsupported operand types for %s" % op)
            raise Unknown("operator on %s" % v.kind)
        if isinstance(v, Ext):
            if v.name in ("numpy.pi", "math.pi"):
                continue
            raise Unknown("operator on %s" % v.name)
    if op == "@":
        return matmul(I, a, b)
    if op in ("&", "|", "^"):
        if isinstance(a, (bool, Node)) and isinstance(b, (bool, Node)) and not anyarr:
            ta = a if isinstance(a, Node) else (TRUE if a else FALSE)
            tb = b if isinstance(b, Node) else (TRUE if b else FALSE)
            return unbool(_logic(op)(ta, tb))
        if isinstance(a, int) and isinstance(b, int):
            return {"&": a & b, "|": a | b, "^": a ^ b}[op]
        return ew(I, _logic(op), a, b, raw=True)
    if op in ("<<", ">>"):
        if isinstance(a, int) and isinstance(b, int):
            return a << b if op == "<<" else a >> b
        raise Unknown("shift")
    if not anyarr:
        x, y = N(I, a), N(I, b)
        if op in ("/", "//", "%") and y is ZERO:
            if isinstance(b, int) or (isinstance(b, Node)):
                I.throw("ZeroDivisionError")
        r = OPS[op](x, y)
        if isinstance(a, int) and isinstance(b, int) and op in ("+", "-", "*", "//", "%", "**"):
            return pyint(r)
        if r.isint and op in ("+", "-", "*", "//", "%"):
            ia = isinstance(a, int) or (isinstance(a, Node) and a.isint and a.op != "num")
            ib = isinstance(b, int) or (isinstance(b, Node) and b.isint and b.op != "num")
            if ia and ib:
                return pyint(r)
        return r
    return ew(I, OPS[op], a, b)


def unbool(c):
    return True if c is TRUE else False if c is FALSE else c


def repeat_list(I, l, k):
    items = list(l) if isinstance(l, tuple) else None
    if items is None:
        o = I.obj(l.loc)
        if isinstance(o, HSeq):
            raise Unknown("repetition of a symbolic list")
        items = list(o.items)
    kk = pyint(N(I, k))
    if isinstance(kk, int):
        return tuple(items * kk) if isinstance(l, tuple) else I.newlist(items * kk)
    if len(items) == 1:
        return Ref(I.alloc(HSeq(kk, S.fresh(kk), I.tmpl(items[0]))))
    raise Unknown("symbolic repetition")


def unary(I, op, v):
    if op == "-":
        if isinstance(v, int):
            return -v
        if isinstance(v, A):
            return ew(I, S.neg, v)
        r = S.neg(N(I, v))
        return r
    if isinstance(v, A):
        return ew(I, S.not_, v, raw=True)
    if isinstance(v, bool):
        return ~v
    if isinstance(v, int):
        return ~v
    if isinstance(v, Node) and S.isbool(v):
        return S.not_(v)
    raise Unknown("unary ~")


def into_int(I, a, r, division=False):
    """a result that is not an integer array cannot be put into an integer array in place"""
    dt = I.dtof(a)
    if dt is None or not isinstance(I.res(r), (A, Node)):
        return
    body = asarr(I, r).body
    if (division or not body.isint and not S.isbool(body)) and I.isintdt(dt):
        I.throw("TypeError", "Cannot cast ufunc output to an integer array")


def inplace(I, op, a, b):
    if isinstance(a, A):
        r = binop(I, op, a, b)
        d = I.dims(a)
        into_int(I, a, r, op == "/")
        if not isinstance(r, A) or len(I.dims(r)) != len(d) or not all(deq(x, y) for x, y in zip(I.dims(r), d)):
            I.throw("ValueError", "non-broadcastable output operand")
        I.writearr(a, I.readarr(r))
        return a
    if isinstance(a, Ref):
        g = I.st.heap[a.loc]
        if isinstance(g, HGrow) and op == "+":
            it = I.iterate(b)
            if not isinstance(it, list):
                raise Unknown("extend by symbolic sequence")
            I.put(a.loc, HGrow(g.added + tuple(it)))
            return a
        o = I.obj(a.loc)
        if isinstance(o, HList) and op == "+" and o.cls == "list":
            it = I.iterate(b)
            if not isinstance(it, list):
                raise Unknown("extend by symbolic sequence")
            I.put(a.loc, HList(o.items + tuple(it)))
            return a
        if isinstance(o, HDict) and op == "|":
            d = dict(o.items)
            d.update(dict(I.dict_items(b)))
            I.put(a.loc, HDict(d))
            return a
    return binop(I, op, a, b)


def cmp(I, op, a, b):
    a, b = I.res(a), I.res(b)
    if op in ("==", "!=") and (isinstance(a, X) and a.kind == "dtype" or isinstance(b, X) and b.kind == "dtype"):
        p, q = dtcode(I, a), dtcode(I, b)
        if p in ("int", "float", "bool") and q in ("int", "float", "bool"):
            return (p == q) == (op == "==")
    if isinstance(a, A) or isinstance(b, A):
        o = b if isinstance(a, A) else a
        if o is None or isstr(o) or isinstance(o, X) and o.kind != "opq":
            return op == "!="
        def f(x, y):
            if S.isbool(x) and S.isbool(y) and op in ("==", "!="):
                r = S.ite(x, y, S.not_(y))
                return r if op == "==" else S.not_(r)
            return S.compare(op, num_(x), num_(y))
        return ew(I, f, a, b, raw=True)
    if isscalar(a) and isscalar(b):
        ba = isinstance(a, bool) or isinstance(a, Node) and S.isbool(a)
        bb = isinstance(b, bool) or isinstance(b, Node) and S.isbool(b)
        if ba and bb and op in ("==", "!="):
            x = a if isinstance(a, Node) else (TRUE if a else FALSE)
            y = b if isinstance(b, Node) else (TRUE if b else FALSE)
            r = S.ite(x, y, S.not_(y))
            return unbool(r if op == "==" else S.not_(r))
        return unbool(I.simp(S.compare(op, N(I, a), N(I, b))))
    if isinstance(a, X) and a.kind == "opq" or isinstance(b, X) and b.kind == "opq":
        return S.cnd("cmp" + op, I.freeze(a), I.freeze(b), opq=True)
    if op in ("==", "!="):
        r = valeq(I, a, b)
        if isinstance(r, bool):
            return r if op == "==" else not r
        r = I.simp(r)
        return unbool(r if op == "==" else S.not_(r))
    if isinstance(a, str) and isinstance(b, str):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
    if isinstance(a, tuple) and isinstance(b, tuple):
        if all(isinstance(x, int) for x in a + b):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
    if a is None or b is None or isstr(a) or isstr(b):
        I.throw("TypeError", "comparison not supported")
    raise Unknown("comparison of %s and %s" % (type(a).__name__, type(b).__name__))


def valeq(I, a, b):
    """== on general values"""
    a, b = I.res(a), I.res(b)
    if a is None or b is None:
        return I.is_(a, b)
    if isstr(a) or isstr(b):
        if isstr(a) and isstr(b):
            if isinstance(a, str) and isinstance(b, str):
                return a == b
            return S.eqv(I.freeze(a), I.freeze(b))
        return False
    if isscalar(a) and isscalar(b):
        return cmp(I, "==", a, b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return _seqeq(I, a, b)
    if isinstance(a, Ref) and isinstance(b, Ref):
        if a.loc == b.loc:
            return True
        x, y = I.obj(a.loc), I.obj(b.loc)
        if isinstance(x, HList) and isinstance(y, HList) and x.cls == y.cls:
            if x.cls == "set":
                if all(isinstance(q, (str, int)) for q in x.items + y.items):
                    return set(x.items) == set(y.items)
                raise Unknown("set comparison")
            return _seqeq(I, x.items, y.items)
        if isinstance(x, HDict) and isinstance(y, HDict):
            dx, dy = dict(I.dict_items(a)), dict(I.dict_items(b))
            if set(dx) != set(dy):
                return False
            return _seqeq(I, [dx[k] for k in dx], [dy[k] for k in dx])
        if isinstance(x, HObj) and isinstance(y, HObj):
            f = x.cls.find("__eq__")
            if f is not None:
                return I.truth(I.call(BoundV(a, f), [b], {}))
            return False
        if type(x) is not type(y):
            if isinstance(x, HSeq) or isinstance(y, HSeq):
                raise Unknown("list comparison")
            return False
    if isinstance(a, (Ext, ClassV, FuncV, X)) or isinstance(b, (Ext, ClassV, FuncV, X)):
        if isinstance(a, X) and isinstance(b, X):
            return a.node is b.node
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a.name == b.name
        return a is b
    if ctype(I, a) != ctype(I, b):
        return False
    raise Unknown("equality")


def _seqeq(I, a, b):
    if len(a) != len(b):
        return False
    r = []
    for x, y in zip(a, b):
        if isinstance(x, A) or isinstance(y, A):
            raise Unknown("equality of sequences of arrays")
        c = valeq(I, x, y)
        if c is False:
            return False
        if c is not True:
            r.append(c)
    return S.and_(*r) if r else True


def contains(I, c, x):
    c = I.res(c)
    if isinstance(c, Node) and isstr(c):
        if c.op == "str":
            c = c.args[0]
        else:
            return S.cnd("in", I.freeze(x), c, opq=True)
    if isinstance(c, str):
        if isinstance(x, str):
            return x in c
        return S.cnd("in", I.freeze(x), S.string(c))
    if isinstance(c, A):
        a = I.readarr(c)
        xn = N(I, x)
        idx = [S.fresh(d) for d in a.dims]
        return unbool(I.simp(S.any_(idx, S.compare("==", num_(a.at(idx)), xn))))
    if isinstance(c, Ref):
        o = I.obj(c.loc)
        if isinstance(o, HDict):
            k = I.hashable(x)
            if isinstance(k, Node) and k.op == "str":
                k = k.args[0]
            if isinstance(k, Node) and k in STRSYMS:
                r = [S.eqv(k, S.string(s)) for s in I.dict_keys(o) if isinstance(s, str)]
                return unbool(I.simp(S.or_(*r))) if r else False
            if k not in o.items:
                return False
            v = o.items[k]
            while isinstance(v, PhiV) and (v.a is MISSING or v.b is MISSING):
                v = I.res(v)
            return v is not MISSING
        if isinstance(o, HObj):
            f = o.cls.find("__contains__")
            if f is not None:
                return I.call(BoundV(c, f), [x], {})
    if isinstance(c, X):
        if c.kind == "objdict":
            return on_objdict(I, c, lambda d: contains(I, d, x))
        if c.kind == "dictview":
            if c.extra[1] == "keys":
                return contains(I, c.extra[0], x)
        if c.kind == "rcparams":
            return S.cnd("in", I.freeze(x), c.node)
        if c.kind == "opq":
            return S.cnd("in", I.freeze(x), c.node, opq=True)
    if isinstance(c, RangeV):
        n = length(I, c)
        xn = N(I, x)
        if c.step in (1, None):
            return unbool(I.simp(S.and_(S.compare(">=", xn, N(I, c.start)), S.compare("<", xn, N(I, c.stop)))))
    it = I.iterate(c)
    if not isinstance(it, list):
        n, g = it
        i = S.fresh(n)
        r = valeq(I, g(i), x)
        if isinstance(r, bool):
            return r
        return unbool(S.any_([i], r))
    rs = []
    for y in it:
        if I.is_(x, y) is True:
            return True
        r = valeq(I, x, y)
        if r is True:
            return True
        if r is not False:
            rs.append(r)
    if not rs:
        return False
    return unbool(I.simp(S.or_(*rs)))


# ------------------------------------------------------------------ lengths
def length(I, v):
    v = I.res(v)
    if isinstance(v, (tuple, str)):
        return len(v)
    if isinstance(v, A):
        d = I.dims(v)
        return pyint(d[0])
    if isinstance(v, Ref):
        o = I.obj(v.loc)
        if isinstance(o, HList):
            return len(o.items)
        if isinstance(o, HSeq):
            return pyint(o.n)
        if isinstance(o, HDict):
            return len(I.dict_keys(o))
        if isinstance(o, HObj):
            f = o.cls.find("__len__")
            if f is not None:
                return I.call(BoundV(v, f), [], {})
            I.throw("TypeError", "object has no len()")
    if isinstance(v, RangeV):
        a, b, st = N(I, v.start), N(I, v.stop), pyint(N(I, v.step))
        d = S.sub(b, a)
        if st == 1:
            if S.isnum(d):
                return max(0, int(S.val(d)))
            if S.lt0(d) is FALSE:
                return pyint(d)
            if _generic(d) or True:
                # symbolic range: non-negative sizes
                c = I.simp(S.lt0(d))
                if c is FALSE:
                    return pyint(d)
                if c is TRUE:
                    return 0
                return S.fn("max2", d, ZERO)
        if S.isnum(d) and isinstance(st, int):
            return len(range(0, int(S.val(d)), st))
        if st == -1:
            return pyint(S.neg(d))
        raise Unknown("range length")
    if isinstance(v, IterV):
        I.throw("TypeError", "object of type '%s' has no len()" % v.kind)
    if isinstance(v, X):
        if v.kind == "dictview":
            return length(I, v.extra[0])
        if v.kind == "opq":
            return S.mk("lenof", v.node, opq=True)
    if isinstance(v, Node) and (v.opq or v in STRSYMS):
        return S.mk("lenof", v, opq=True)
    if v is None or isscalar(v):
        I.throw("TypeError", "object has no len()")
    if isinstance(v, X) and v.kind == "objdict":
        return on_objdict(I, v, lambda d: length(I, d))
    raise Unknown("len of %s" % type(v).__name__)


# ------------------------------------------------------------------ indexing
def clampslice(I, s, d):
    """slice -> (start Node, length Node, step int)"""
    step = 1 if s.step is None else pyint(N(I, s.step))
    if not isinstance(step, int):
        raise Unknown("symbolic slice step")
    if step == -1 and s.start is None and s.stop is None:
        return S.sub(d, ONE), d, -1
    if step < 0:
        if S.isnum(d):
            f = lambda x: None if x is None else pyint(N(I, x))
            a, b = f(s.start), f(s.stop)
            if (a is None or isinstance(a, int)) and (b is None or isinstance(b, int)):
                r = range(int(S.val(d)))[slice(a, b, step)]
                return S.num(r.start), S.num(len(r)), step
        raise Unknown("negative slice step")

    def norm(x, dflt):
        if x is None:
            return dflt
        n = N(I, x)
        neg = I.simp(S.lt0(n))
        if neg is TRUE:
            n = S.add(n, d)
            c = I.simp(S.lt0(n))
            if c is TRUE:
                return ZERO
            return n
        if neg is not FALSE and not n.isint:
            pass
        c = I.simp(S.compare("<=", n, d))
        if c is TRUE:
            return n
        if c is FALSE:
            return d
        return S.fn("min2", n, d)

    a = norm(s.start, ZERO)
    b = norm(s.stop, d)
    ln = S.sub(b, a)
    c = I.simp(S.lt0(ln))
    if c is TRUE:
        ln = ZERO
    if step > 1:
        if S.isnum(ln):
            ln = S.num(-(-int(S.val(ln)) // step))
        else:
            ln = S.fn("floordiv", S.add(ln, S.num(step - 1)), S.num(step))
    return a, ln, step


def normidx(I, k, d):
    """integer index"""
    n = N(I, k)
    if S.isnum(n):
        if S.val(n) < 0:
            n = S.add(d, n)
            if I.simp(S.lt0(n)) is TRUE:
                I.throw("IndexError", "index out of bounds")
            return n
        if I.simp(S.compare(">=", n, d)) is TRUE:
            I.throw("IndexError", "index out of bounds")
        return n
    c = I.simp(S.compare(">=", n, d))
    if c is TRUE:
        I.throw("IndexError", "index out of bounds")
    if S.lt0(n) is TRUE:
        n = S.add(n, d)
    return n


def toidx(I, k):
    """Arr index of a list / array / range key"""
    a = asarr(I, k)
    return a


def isboolarr(a):
    return S.isbool(a.body)


def nonzero(I, mask):
    """positions where a 1-d boolean array holds: (count, Arr)"""
    L = S.lam(mask)
    d = mask.dims[0]
    if S.isnum(d) and all(S.isbool(mask.at((S.num(k),))) and mask.at((S.num(k),)) in (TRUE, FALSE) for k in range(int(S.val(d)))):
        pos = [S.num(k) for k in range(int(S.val(d))) if mask.at((S.num(k),)) is TRUE]
        return S.num(len(pos)), S.build((S.num(len(pos)),), lambda i: sel(i, pos) if pos else ZERO)
    if mask.body is TRUE:
        return d, S.build((d,), lambda i: i)
    cnt = S.mk("count", L, isint=True)
    base = S.mk("nonzero", L)
    return cnt, S.build((cnt,), lambda i: S.mk("elem", base, i, isint=True))


S.REBUILD["count"] = lambda L: _count(L)


def _count(L):
    return S.mk("count", L, isint=True)


def getitem(I, o, k):
    o = I.res(o)
    k = I.res(k)
    if isinstance(o, A):
        return arr_getitem(I, o, k)
    if isinstance(o, tuple) or isinstance(o, str):
        if isinstance(k, slice):
            f = lambda x: None if x is None else pyint(N(I, x))
            a, b, c = f(k.start), f(k.stop), f(k.step)
            if all(x is None or isinstance(x, int) for x in (a, b, c)):
                return o[a:b:c]
            raise Unknown("symbolic slice of a tuple")
        kk = pyint(N(I, k))
        if isinstance(kk, int):
            if not -len(o) <= kk < len(o):
                I.throw("IndexError", "tuple index out of range")
            return o[kk]
        return pick(I, list(o), kk)
    if isinstance(o, Ref):
        h = I.obj(o.loc)
        if isinstance(h, HList):
            if isinstance(k, slice):
                f = lambda x: None if x is None else pyint(N(I, x))
                a, b, c = f(k.start), f(k.stop), f(k.step)
                if all(x is None or isinstance(x, int) for x in (a, b, c)):
                    return I.newlist(h.items[a:b:c])
                raise Unknown("symbolic slice of a list")
            if isstr(k) or k is None or isinstance(k, (tuple, A, Ref)):
                if isinstance(k, A) and not I.dims(k):
                    pass
                else:
                    I.throw("TypeError", "list indices must be integers")
            kk = pyint(N(I, k))
            if isinstance(kk, int):
                if not -len(h.items) <= kk < len(h.items):
                    I.throw("IndexError", "list index out of range")
                return h.items[kk]
            return pick(I, list(h.items), kk)
        if isinstance(h, HSeq):
            if isinstance(k, slice):
                a, ln, st = clampslice(I, k, h.n)
                i = S.fresh(ln)
                t = I.tmpl(I.inst(h.tmpl, {h.i: S.add(a, S.mulc(i, st))}))
                return Ref(I.alloc(HSeq(ln, i, t)))
            return I.inst(h.tmpl, {h.i: normidx(I, k, h.n)})
        if isinstance(h, HDict):
            kk = I.hashable(k)
            if isinstance(kk, Node) and kk.op == "str":
                kk = kk.args[0]
            v = h.items.get(kk, MISSING)
            while isinstance(v, PhiV) and (v.a is MISSING or v.b is MISSING):
                v = I.res(v)
            if v is MISSING:
                I.throw("KeyError", str(kk))
            return v
        if isinstance(h, HObj):
            f = h.cls.find("__getitem__")
            if f is not None:
                return I.call(BoundV(o, f), [k], {})
            I.throw("TypeError", "object is not subscriptable")
    if isinstance(o, RangeV):
        if isinstance(k, slice):
            raise Unknown("range slice")
        n = length(I, o)
        kk = normidx(I, k, N(I, n))
        return pyint(S.add(N(I, o.start), S.mul(N(I, o.step), kk)))
    if isinstance(o, X):
        if o.kind == "axarr":
            return axarr_item(I, o, k)
        if o.kind == "rcparams":
            return X("opq", S.mk("rc", I.freeze(k), opq=True))
        if o.kind == "objdict":
            return on_objdict(I, o, lambda d: getitem(I, d, k))
        if o.kind == "opq":
            return X("opq", S.mk("item", o.node, fz(I, k), opq=True))
        if o.kind == "ndsfile" or o.kind == "npz":
            return X("opq", S.mk("item", o.node, fz(I, k), opq=True))
        raise Unknown("subscript of %s" % o.kind)
    if isinstance(o, Ext):
        n = canon(o.name)
        if n in ("numpy.s_", "numpy.index_exp"):
            return k if isinstance(k, tuple) or n == "numpy.s_" else (k,)
        if n in ("numpy.c_", "numpy.r_"):
            parts = list(k) if isinstance(k, tuple) else [k]
            if any(isinstance(x, str) for x in parts):
                raise Unknown("%s with a directive" % n)
            parts = [x if not isinstance(x, slice) else CALLS["numpy.arange"][0](I, *[0 if x.start is None else x.start, x.stop, 1 if x.step is None else x.step, None]) for x in parts]
            return I.call(I.models[n[:-1] + ".call"], parts, {})
        return X("opq", S.mk("item", S.mk("ext", o.name), S.sym("k"), opq=True))
    if isinstance(o, Node):
        if o.opq:
            return S.mk("item", o, fz(I, k), opq=True)
        if k == ():
            return o
        I.throw("IndexError", "invalid index to scalar variable")
    if o is None or isinstance(o, int):
        I.throw("TypeError", "object is not subscriptable")
    raise Unknown("subscript of %s" % type(o).__name__)


def fz(I, k):
    if isinstance(k, tuple):
        return S.mk("tuple", *[fz(I, x) for x in k])
    return I.freeze(k)


def pick(I, items, kk):
    """items[kk] with a symbolic index"""
    if not items:
        I.throw("IndexError", "list index out of range")
    vals = [I.scal(x) for x in items]
    if all(v is not None for v in vals):
        return S.select(kk, vals)
    r = items[-1]
    for q in range(len(items) - 2, -1, -1):
        r = I.phi(S.eq0(S.sub(kk, S.num(q))), items[q], r)
    return r


def expand_key(I, k, nd):
    ks = list(k) if isinstance(k, tuple) else [k]
    out = []
    ell = None
    for x in ks:
        x = I.res(x)
        if x is Ellipsis or isinstance(x, Ext) and x.name == "builtins.Ellipsis":
            ell = len(out)
            out.append(Ellipsis)
        elif isinstance(x, Ext) and x.name == "numpy.newaxis":
            out.append(None)
        else:
            out.append(x)
    cnt = 0
    for x in out:
        if x is None or x is Ellipsis:
            continue
        if isinstance(x, A) and isboolarr(I.readarr(x)):
            cnt += len(I.dims(x))
        else:
            cnt += 1
    if cnt > nd:
        I.throw("IndexError", "too many indices for array")
    fill = [slice(None)] * (nd - cnt)
    if ell is None:
        out += fill
    else:
        out[ell: ell + 1] = fill
    return out


def isadv(I, x):
    return isinstance(x, (A, Ref, RangeV, tuple)) or (isinstance(x, IterV))


def _ixprog(I, v, k):
    """(dims, g, inv or None, copy?) of a subscript"""
    d = I.dims(v)
    ks = expand_key(I, k, len(d))
    adv = [x for x in ks if isadv(I, x)]
    if not adv:
        dims = []
        prog = []  # per source axis
        ax = 0
        newaxes = []
        for x in ks:
            if x is None:
                newaxes.append(len(dims))
                dims.append(ONE)
                continue
            if isinstance(x, slice):
                a, ln, st = clampslice(I, x, d[ax])
                prog.append(("s", a, st, len(dims), ln))
                dims.append(ln)
            elif isinstance(x, bool) or isinstance(x, Node) and S.isbool(x):
                raise Unknown("boolean scalar index")
            else:
                if isstr(x) or isinstance(x, X) and x.kind != "opq":
                    I.throw("IndexError", "only integers, slices are valid indices")
                n = normidx(I, x, d[ax])
                prog.append(("i", n))
            ax += 1

        def g(i):
            out = []
            for p in prog:
                if p[0] == "i":
                    out.append(p[1])
                else:
                    q = i[p[3]]
                    out.append(S.add(p[1], S.mulc(q, p[2])))
            return tuple(out)

        def inv(j):
            c = []
            out = [ZERO] * len(dims)
            for p, jj, dd in zip(prog, j, d):
                if p[0] == "i":
                    c.append(S.eq0(S.sub(jj, p[1])))
                else:
                    q = S.sub(jj, p[1])
                    if p[2] != 1:
                        if p[2] == -1:
                            q = S.neg(q)
                        else:
                            c.append(S.eq0(S.fn("mod", q, S.num(p[2]))))
                            q = S.fn("floordiv", q, S.num(p[2]))
                    if not (p[1] is ZERO and p[4] is dd):
                        c.append(S.compare(">=", q, ZERO))
                        c.append(S.compare("<", q, p[4]))
                    out[p[3]] = q
            return S.and_(*c), tuple(out)

        return tuple(dims), g, inv, False
    # advanced indexing
    items = []
    ax = 0
    advpos = []
    for x in ks:
        if x is None:
            items.append(("n",))
            continue
        if isinstance(x, slice):
            items.append(("s", ax) + clampslice(I, x, d[ax]))
            ax += 1
        elif isadv(I, x):
            a = toidx(I, x)
            if a.ndim and isboolarr(a):
                if a.ndim != 1:
                    if a.ndim == len(d) and len(ks) == 1:
                        raise Unknown("full boolean mask")
                    raise Unknown("2-d boolean mask")
                if not deq(a.dims[0], d[ax]):
                    I.throw("IndexError", "boolean index did not match indexed array")
                cnt, a = nonzero(I, a)
            elif any(not num_(a.body).isint for _ in (0,)) and not _intbody(a):
                I.throw("IndexError", "arrays used as indices must be of integer type")
            _inbounds(I, a, d[ax])
            advpos.append(len(items))
            items.append(("a", ax, _negfix(a, d[ax])))
            ax += 1
        else:
            n = normidx(I, x, d[ax])
            advpos.append(len(items))
            items.append(("a", ax, sc(n)))
            ax += 1
    arrs = [t[2] for t in items if t[0] == "a"]
    bd = bdims(I, *[a.dims for a in arrs])
    contiguous = advpos == list(range(advpos[0], advpos[-1] + 1))
    dims = []
    plan = []
    placed = False
    if not contiguous:
        dims += list(bd)
        placed = True
        apos = 0
    for q, t in enumerate(items):
        if t[0] == "n":
            dims.append(ONE)
        elif t[0] == "s":
            plan.append((t, len(dims)))
            dims.append(t[3])
        else:
            if not placed:
                apos = len(dims)
                dims += list(bd)
                placed = True
            plan.append((t, None))

    def g(i):
        bi = i[apos: apos + len(bd)]
        out = [None] * len(d)
        for t, pos in plan:
            if t[0] == "s":
                out[t[1]] = S.add(t[2], S.mulc(i[pos], t[4]))
            else:
                a = t[2]
                out[t[1]] = a.at(bidx(a, bi))
        return tuple(out)

    return tuple(dims), g, None, True


def _inbounds(I, a, d):
    """positions certain to lie outside the axis are refused"""
    if all(S.isnum(x) for x in a.dims):
        size = 1
        for x in a.dims:
            size *= int(S.val(x))
        if size > 64:
            return
        cells = [a.at(tuple(S.num(k) for k in c)) for c in itertools.product(*[range(int(S.val(x))) for x in a.dims])]
    else:
        cells = [a.body]
    for n in cells:
        if S.isnum(n) and S.val(n) < 0:
            if I.simp(S.lt0(S.add(d, n))) is TRUE:
                I.throw("IndexError", "index out of bounds")
        elif n.isint and I.simp(S.compare(">=", n, d)) is TRUE:
            I.throw("IndexError", "index out of bounds")


def _intbody(a):
    """integer-valued entries: all cells are integers"""
    if a.body.isint:
        return True
    L = S.lam(a)
    if L.op == "alist":
        return all(x.isint or x.opq for x in L.args[1])
    return a.body.op in ("ite", "elem") and not any(True for _ in ()) and _ib(a.body)


def _ib(n):
    if n.isint:
        return True
    if n.op == "ite":
        return _ib(n.args[1]) and _ib(n.args[2])
    return n.opq


def _negfix(a, d):
    """negative constants count from the end"""
    L = S.lam(a)
    if L.op == "alist" and any(S.isnum(x) and S.val(x) < 0 for x in L.args[1]):
        return S.build(a.dims, lambda *i: (lambda v: S.add(v, d) if S.isnum(v) and S.val(v) < 0 else v)(a.at(i)))
    if S.lt0(a.body) is TRUE and not a.body.bv:
        return S.build(a.dims, lambda *i: S.add(a.at(i), d))
    return a


def arr_getitem(I, v, k):
    r = arr_getitem0(I, v, k)
    if isinstance(r, A) and isinstance(I.obj(r.loc), HArr):
        return I.typed(r, I.dtof(v))
    return r


def arr_getitem0(I, v, k):
    if isinstance(k, A):
        a = I.readarr(k)
        if a.ndim > 1 and isboolarr(a):
            d = I.dims(v)
            if len(d) == a.ndim:
                flat = flatten_arr(I, a)
                cnt, nz = nonzero(I, flat)
                src = flatten_arr(I, I.readarr(v))
                return I.new(S.build((cnt,), lambda i: src.at((nz.at((i,)),))))
    dims, g, inv, copy = _ixprog(I, v, k)
    if copy:
        src = I.readarr(v)
        return I.new(S.build(dims, lambda *i: src.at(g(i))))
    return I.view(v, dims, g, inv)


def flatten_arr(I, a):
    n = ONE
    for d in a.dims:
        n = S.mul(n, d)
    return S.build((n,), lambda i: a.at(unravel(i, a.dims)))


def setitem(I, o, k, val):
    o = I.res(o)
    val = I.res(val)
    if isinstance(o, A):
        if isinstance(k, A):
            m = I.readarr(k)
            if isboolarr(m) and m.ndim == len(I.dims(o)):
                if not all(deq(x, y) for x, y in zip(m.dims, I.dims(o))):
                    I.throw("IndexError", "boolean index did not match")
                x = asarr(I, val)
                if x.ndim:
                    raise Unknown("masked assignment of an array")
                base = I.readarr(o)
                I.writearr(o, S.build(base.dims, lambda *i: S.ite(m.at(i), num_(x.body), base.at(i))))
                return
        dims, g, inv, copy = _ixprog(I, o, k)
        x = asarr(I, val)
        if copy:
            return fancy_set(I, o, k, dims, g, x)
        if len(x.dims) > len(dims):
            x = squeeze_lead(x, len(dims))
        try:
            bd = bdims(I, x.dims, dims)
        except ShapeError as e:
            I.throw("ValueError", str(e))
        if len(bd) != len(dims) or not all(deq(p, q) for p, q in zip(bd, dims)):
            I.throw("ValueError", "could not broadcast input array into shape")
        base = I.readarr(o)

        def f(*j):
            c, i = inv(j)
            if c is FALSE:
                return base.at(j)
            return S.ite(c, x.at(bidx(x, i)), base.at(j))

        I.writearr(o, S.build(base.dims, f))
        return
    if isinstance(o, Ref):
        h = I.obj(o.loc)
        if isinstance(h, HDict):
            d = dict(h.items)
            d[I.hashable(k)] = val
            I.put(o.loc, HDict(d))
            return
        if isinstance(h, HList) and h.cls == "list":
            if isinstance(k, slice):
                f = lambda x: None if x is None else pyint(N(I, x))
                k = slice(f(k.start), f(k.stop), f(k.step))
                it = I.iterate(val)
                if isinstance(it, list) and all(x is None or isinstance(x, int) for x in (k.start, k.stop, k.step)):
                    l = list(h.items)
                    try:
                        l[k] = it
                    except ValueError:
                        I.throw("ValueError", "attempt to assign sequence to extended slice")
                    I.put(o.loc, HList(l))
                    return
                raise Unknown("slice assignment to a list")
            kk = pyint(N(I, k))
            if isinstance(kk, int):
                if not -len(h.items) <= kk < len(h.items):
                    I.throw("IndexError", "list assignment index out of range")
                l = list(h.items)
                l[kk] = val
                I.put(o.loc, HList(l))
                return
            raise Unknown("list assignment with symbolic index")
        if isinstance(h, HObj):
            f = h.cls.find("__setitem__")
            if f is not None:
                I.call(BoundV(o, f), [k, val], {})
                return
            I.throw("TypeError", "object does not support item assignment")
    if isinstance(o, X):
        if o.kind == "objdict":
            on_objdict(I, o, lambda d: setitem(I, d, k, val))
            return
        if o.kind == "rcparams":
            I.event("rcset", I.freeze(k))
            return
        if o.kind == "opq":
            return
    if isinstance(o, (tuple, str, int)) or o is None:
        I.throw("TypeError", "object does not support item assignment")
    raise Unknown("item assignment on %s" % type(o).__name__)


def fancy_set(I, o, k, dims, g, x):
    """one value at the positions named by an index array over the first axis"""
    base = I.readarr(o)
    if isinstance(k, Ref):
        k = asarr(I, k)
        k = A(I.alloc(HArr(k)))
    if isinstance(k, A) and not x.dims:
        ix = I.readarr(k)
        if ix.ndim == 1 and not isboolarr(ix):
            i = S.fresh(ix.dims[0])
            at = num_(ix.at((i,)))
            at = S.ite(S.lt0(at), S.add(at, base.dims[0]), at)
            I.writearr(o, S.build(base.dims, lambda *j: S.ite(S.any_([i], S.compare("==", at, j[0])), num_(x.body), base.at(j))))
            return
    raise Unknown("assignment through an index array")


def squeeze_lead(x, n):
    while len(x.dims) > n and x.dims[0] is ONE:
        y = x
        x = S.build(y.dims[1:], lambda *i: y.at((ZERO,) + i))
    return x


# ------------------------------------------------------------------ reshape
def ravel_index(idx, dims):
    r = ZERO
    for i, d in zip(idx, dims):
        r = S.add(S.mul(r, d), i)
    return r


def unravel(i, dims):
    out = []
    for d in reversed(dims[1:]):
        q, r = S.divmod_(i, d)
        out.append(r)
        i = q
    if dims:
        out.append(ZERO if dims[0] is ONE else i)
    return tuple(reversed(out))


def shape_arg(I, v):
    """tuple of dims Nodes (or -1)"""
    v = I.res(v)
    if isinstance(v, (tuple,)) or isinstance(v, Ref) or isinstance(v, A):
        its = I.iterate(v)
        if not isinstance(its, list):
            raise Unknown("symbolic shape")
        its = [x for x in its]
    else:
        its = [v]
    return [N(I, x) for x in its]


def reshape_dims(I, old, want):
    size = ONE
    for d in old:
        size = S.mul(size, d)
    neg = [k for k, d in enumerate(want) if S.isnum(d) and S.val(d) == -1]
    if len(neg) > 1:
        I.throw("ValueError", "can only specify one unknown dimension")
    rest = ONE
    for k, d in enumerate(want):
        if k not in neg:
            rest = S.mul(rest, d)
    if neg:
        q = S.div(size, rest)
        ok = q.isint or _divides(q, size, rest)
        if not ok:
            p = S.exact_div(size, rest)
            if p is not None:
                q, ok = p, True
        if not ok:
            if not (_generic(size) and _generic(rest)):
                raise Unknown("undecided reshape")
            I.throw("ValueError", "cannot reshape array of size %s into shape with %s" % (S.show(size), S.show(rest)))
        want = list(want)
        want[neg[0]] = q
        return tuple(want)
    if rest is not size:
        d = S.sub(size, rest)
        if S.isnum(d) or (_generic(size) and _generic(rest)):
            I.throw("ValueError", "cannot reshape array of size %s into %s" % (S.show(size), S.show(rest)))
        raise Unknown("undecided reshape")
    return tuple(want)


def _divides(q, size, rest):
    for m, c in S.terms(q).items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if e < 0 or e.denominator != 1:
                return False
    return True


def reshape(I, v, dims):
    """view of v with new dims"""
    old = I.dims(v)
    dims = reshape_dims(I, old, dims)
    # same non-unit dims in the same order: only unit axes differ
    o2 = [k for k, d in enumerate(old) if d is not ONE]
    n2 = [k for k, d in enumerate(dims) if d is not ONE]
    if [old[k] for k in o2] == [dims[k] for k in n2]:
        def g(i):
            out = [ZERO] * len(old)
            for a, b in zip(o2, n2):
                out[a] = i[b]
            return tuple(out)

        def inv(j):
            out = [ZERO] * len(dims)
            for a, b in zip(o2, n2):
                out[b] = j[a]
            return TRUE, tuple(out)

        return I.view(v, dims, g, inv) if dims else I.readarr(v).at([ZERO] * len(old))
    g = lambda i: unravel(ravel_index(i, dims), old)
    inv = lambda j: (TRUE, unravel(ravel_index(j, old), dims))
    return I.view(v, dims, g, inv)


def transpose(I, v, axes=None):
    d = I.dims(v)
    n = len(d)
    if axes is None:
        axes = tuple(range(n))[::-1]
    if n < 2 and axes == tuple(range(n)):
        return v
    dims = tuple(d[a] for a in axes)

    def g(i):
        out = [None] * n
        for p, a in enumerate(axes):
            out[a] = i[p]
        return tuple(out)

    def inv(j):
        return TRUE, tuple(j[a] for a in axes)

    return I.view(v, dims, g, inv)


def ensure(I, v):
    """array value (A) of an array-like; A itself is returned as is"""
    v = I.res(v)
    if isinstance(v, A):
        return v
    a = asarr(I, v)
    return A(I.alloc(HArr(a)))


# ------------------------------------------------------------------ linear algebra
def matmul(I, a, b):
    x, y = asarr(I, a), asarr(I, b)
    if x.ndim == 0 or y.ndim == 0:
        I.throw("ValueError", "matmul: operand does not have enough dimensions")
    if x.ndim > 2 or y.ndim > 2:
        raise Unknown("stacked matmul")
    kd = x.dims[-1]
    ld = y.dims[0]
    if kd is not ld and not deq(kd, ld):
        I.throw("ValueError", "matmul: mismatch %s @ %s" % (shp(x.dims), shp(y.dims)))
    dims = x.dims[:-1] + y.dims[1:]

    def f(*i):
        k = S.fresh(kd) if kd is not ONE else ZERO
        l = k
        xi = i[: x.ndim - 1] + (k,)
        yi = (l,) + i[x.ndim - 1:]
        t = S.mul(num_(x.at(xi)), num_(y.at(yi)))
        return t if kd is ONE else S.sum_([k], t)

    return I.new(S.build(dims, f))


def inverse(I, kind, v):
    a = asarr(I, v)
    if a.ndim != 2:
        I.throw("LinAlgError", "array must be 2-dimensional")
    if kind == "inv" and a.dims[0] is not a.dims[1]:
        if not deq(a.dims[0], a.dims[1]):
            I.throw("LinAlgError", "last 2 dimensions of the array must be square")
    return I.new(S.matinv(kind, a))


# ------------------------------------------------------------------ reductions
def axes_of(I, axis, nd):
    axis = I.res(axis)
    if axis is None:
        return list(range(nd))
    if isinstance(axis, tuple):
        ax = [pyint(N(I, x)) for x in axis]
    else:
        ax = [pyint(N(I, axis))]
    out = []
    for a in ax:
        if not isinstance(a, int):
            raise Unknown("symbolic axis")
        if a < -nd or a >= nd:
            I.throw("AxisError" if False else "ValueError", "axis out of bounds")
        out.append(a % nd)
    return out


def reduce_(I, f, v, axis=None, keepdims=False, raw=False):
    """f(idxs, body) over the axes"""
    a = v if isinstance(v, Arr) else asarr(I, v)
    ax = axes_of(I, axis, a.ndim)
    keep = I.truth(keepdims)
    rd = [S.fresh(a.dims[k]) for k in ax]
    dims = [ONE if k in ax else d for k, d in enumerate(a.dims)] if keep else [d for k, d in enumerate(a.dims) if k not in ax]

    def g(*i):
        it = list(i)
        full = []
        p = 0
        for k in range(a.ndim):
            if k in ax:
                full.append(ZERO if a.dims[k] is ONE else rd[ax.index(k)])
                if keep:
                    p += 1
            else:
                full.append(it[p])
                p += 1
        b = a.at(full)
        if not raw:
            b = num_(b)
        live = [r for r, k in zip(rd, ax) if a.dims[k] is not ONE]
        return f(live, b) if live else f([], b)

    return I.new(S.build(dims, g))


def r_sum(ids, b):
    return S.sum_(ids, b) if ids else b


def r_red(kind):
    def f(ids, b):
        if not ids:
            return b
        return S.red(kind, ids, b)

    return f


def r_any(ids, b):
    return S.any_(ids, tobool(b)) if ids else tobool(b)


def r_all(ids, b):
    return S.not_(S.any_(ids, S.not_(tobool(b)))) if ids else tobool(b)


def tobool(b):
    return b if S.isbool(b) else S.not_(S.eq0(b))


def r_arg(kind):
    def f(ids, b):
        if not ids:
            return ZERO
        if len(ids) > 1:
            # flattened index
            dims = [i.args[-1] for i in ids]
            n = ONE
            for d in dims:
                n = S.mul(n, d)
            k = S.fresh(n)
            u = unravel(k, dims)
            return S.red(kind, [k], S.subst(b, dict(zip(ids, u))))
        return S.red(kind, ids, b)

    return f


def count_of(I, a, axis):
    ax = axes_of(I, axis, a.ndim)
    n = ONE
    for k in ax:
        n = S.mul(n, a.dims[k])
    return n


def out_arg(I, r, out):
    out = I.res(out)
    if out is None:
        return r
    if isinstance(out, tuple):
        out = out[0]
    if isinstance(out, A):
        into_int(I, out, r)
        I.writearr(out, asarr(I, r))
        return out
    raise Unknown("out argument")


# ------------------------------------------------------------------ registry of external callables
CALLS = {}
SIGS = {}


def reg(names, sig):
    """register f(I, **bound args); sig 'a b=None *args **kw'"""
    params = []
    for p in sig.split():
        if p.startswith("**"):
            params.append((p[2:], "kw", None))
        elif p.startswith("*"):
            params.append((p[1:], "var", None))
        elif "=" in p:
            n, d = p.split("=")
            params.append((n, "opt", DEFAULTS[d] if d in DEFAULTS else int(d) if d.lstrip("-").isdigit() else d))
        else:
            params.append((p, "req", None))

    def deco(f):
        for n in names.split():
            CALLS[n] = (f, params)
        return f

    return deco


DEFAULTS = {"None": None, "True": True, "False": False, "NOARG": MISSING}


def bind_ext(I, name, params, args, kw):
    vals = {}
    kw = dict(kw)
    i = 0
    for n, kind, d in params:
        if kind == "var":
            vals[n] = list(args[i:])
            i = len(args)
        elif kind == "kw":
            vals[n] = kw
            kw = {}
        else:
            if i < len(args) and not any(k == "var" and q == n for q, k, _ in params):
                vals[n] = args[i]
                i += 1
                if n in kw:
                    I.throw("TypeError", "%s() got multiple values for argument %r" % (name, n))
            elif n in kw:
                vals[n] = kw.pop(n)
            elif kind == "opt":
                vals[n] = d
            else:
                I.throw("TypeError", "%s() missing argument %r" % (name, n))
    if i < len(args):
        I.throw("TypeError", "%s() takes fewer positional arguments" % name)
    if kw:
        raise Unknown("%s: unmodelled keyword %s" % (name, sorted(kw)))
    return vals


ALIASES = [
    ("scipy.stats.distributions.", "scipy.stats."),
    ("scipy.stats._continuous_distns.", "scipy.stats."),
    ("numpy.core.", "numpy."),
    ("scipy.linalg.inv", "numpy.linalg.inv"),
    ("scipy.linalg.pinv", "numpy.linalg.pinv"),
    ("scipy.linalg.svd", "numpy.linalg.svd"),
    ("scipy.linalg.norm", "numpy.linalg.norm"),
    ("scipy.linalg.solve", "numpy.linalg.solve"),
    ("scipy.linalg.eigh", "numpy.linalg.eigh"),
    ("scipy.linalg.det", "numpy.linalg.det"),
    ("scipy.linalg.lstsq", "numpy.linalg.lstsq"),
    ("matplotlib.pylab.", "matplotlib.pyplot."),
    ("pylab.", "matplotlib.pyplot."),
]


def canon(name):
    for a, b in ALIASES:
        if name.startswith(a):
            name = b + name[len(a):]
    return name


# results of these are integer arrays when all the arrays given (first arguments) are
INT_KEPT = {n: k for k, ns in (
    (1, "array asarray asanyarray ascontiguousarray copy atleast_1d atleast_2d atleast_3d ravel flatten reshape transpose squeeze swapaxes concatenate stack vstack hstack column_stack row_stack repeat tile take sum cumsum prod abs absolute negative max min amax amin diag sort unique zeros_like ones_like empty_like flip roll expand_dims square diff"),
    (2, "dot matmul add subtract multiply maximum minimum outer inner"))
    for n in ns.split()}


def dtcode(I, d):
    """of a dtype argument: 'int', 'float', 'bool', None when not given, '?' otherwise"""
    d = I.res(d)
    if d is None:
        return None
    if isinstance(d, str):
        k = d
    elif isinstance(d, Ext):
        k = d.name.split(".")[-1]
    elif isinstance(d, X) and d.kind == "dtype":
        k = {"num": "float", "int": "int", "bool": "bool"}.get(d.node.args[0], "?")
    else:
        return "?"
    if k in ("int", "int64", "int32", "int16", "int8", "intp", "integer", "int_", "i", "i8", "i4", "uint", "uint64"):
        return "int"
    if k in ("float", "float64", "float32", "double", "float_", "f", "f8", "d", "floating", "number", "inexact"):
        return "float"
    if k in ("bool", "bool_", "?"):
        return "bool"
    return "?"


def whole(I, v):
    """Python integers, or lists of them"""
    v = I.res(v)
    if isinstance(v, Ref) and isinstance(I.st.heap.get(v.loc), HList):
        v = tuple(I.obj(v.loc).items)
    if isinstance(v, (tuple, list)):
        return len(v) > 0 and all(whole(I, x) for x in v)
    return isinstance(v, int) and not isinstance(v, bool)


def typed_call(I, name, vals, r):
    if not isinstance(r, A):
        return r
    short = name.split(".")[-1]
    d = dtcode(I, vals.get("dtype"))
    if d == "int" and short in ("zeros", "ones", "empty", "full", "array", "asarray", "astype", "zeros_like", "ones_like", "empty_like", "full_like", "arange"):
        return I.typed(r, frozenset())
    if d is not None:
        return r
    if short in ("array", "asarray", "atleast_1d", "atleast_2d") and whole(I, vals.get("x")):
        return I.typed(r, frozenset())
    if short == "full" and whole(I, vals.get("v")):
        return I.typed(r, frozenset())
    if short == "full_like":
        return I.typed(r, I.commondt(list(vals.values())[:1]))
    k = INT_KEPT.get(short)
    if k:
        return I.typed(r, I.commondt(list(vals.values())[:k]))
    return r


def call_ext(I, name, args, kw):
    name = canon(name)
    if any(isinstance(a, StarSeq) for a in args):
        args = [x for a in args for x in ([a] if not isinstance(a, StarSeq) else [a])]
        if name not in ("numpy.meshgrid",):
            raise Unknown("star call with symbolic sequence")
    e = CALLS.get(name)
    if e is not None:
        f, params = e
        vals = bind_ext(I, name, params, args, kw)
        try:
            return typed_call(I, name, vals, f(I, **vals))
        except ShapeError as ex:
            I.throw("ValueError", str(ex))
    m = I.models.get(name)
    if m is not None:
        return I.call(m, args, kw)
    short = name.split(".")[-1]
    if short in EXC_TREE and (name.startswith("builtins.") or name.startswith("numpy.")):
        return X("exc", S.mk("exc", short), (short, args[0] if args else None))
    if name.startswith("matplotlib.pyplot.") and short in canvas.ON_AXES:
        return nplib.ax_method(I, canvas.cur(I), canvas.ON_AXES[short], list(args), dict(kw))
    if name.startswith("matplotlib.pyplot."):
        I.event("plt", short, tuple(args), I.newdict(kw))
        return X("artist", S.mk("artist", "plt." + short, I.uid()))
    if name.startswith("logging.") or name.startswith("warnings."):
        return X("opq", S.mk("log", name, opq=True)) if name == "logging.getLogger" else None
    if name.startswith("click.") or name.startswith("typing.") or name.startswith("numpy.typing"):
        return X("clickdeco", S.mk("ext", name))
    for pre in ("scipy.stats.",):
        if name.startswith(pre):
            return stats_call(I, name[len(pre):], args, kw)
    I.opaque.add(name)
    I.event("extcall", name)
    try:
        fa = [I.freeze(a) for a in args] + [S.mk("item", k, I.freeze(v)) for k, v in sorted(kw.items())]
        node = S.mk("call", name, *fa, opq=True)
    except Unknown:
        node = S.mk("call", name, I.uid(), opq=True)
    return X("opq", node)


# ------------------------------------------------------------------ attributes
ARR_ATTRS = {"shape", "ndim", "T", "size", "dtype", "real", "flat", "base", "nbytes", "strides", "itemsize"}
ARR_METHODS = set(
    """reshape ravel flatten transpose sum prod mean std var min max argmin argmax any all dot copy astype squeeze
    tolist tobytes item fill sort argsort cumsum cumprod conj conjugate round clip repeat take nonzero trace diagonal swapaxes
    ptp view __len__ __getitem__ __matmul__ compress searchsorted put partition resize __add__ __mul__ __array__""".split()
)
LIST_METHODS = set("append extend insert pop remove clear index count sort reverse copy __len__ __getitem__ __contains__".split())
DICT_METHODS = set("keys values items get update setdefault pop popitem clear copy __len__ __getitem__ __contains__ fromkeys".split())
SET_METHODS = set("add discard remove update union intersection difference copy pop issubset issuperset clear symmetric_difference".split())
STR_METHODS = set(dir(str))
TUPLE_METHODS = set("index count".split())


def container_attr(I, o, h, name, default):
    ms = LIST_METHODS if isinstance(h, (HList, HSeq)) else DICT_METHODS
    if isinstance(h, HList) and h.cls == "set":
        ms = SET_METHODS
    if isinstance(h, HCell):
        if isinstance(h.v, X) and h.v.kind == "pcaobj" and name not in ("fit", "fit_transform", "transform"):
            return pca_attr(I, o, h.v, name, default)
        return XBound(o, name)
    if name in ms:
        return XBound(o, name)
    if default is not MISSING:
        return default
    I.throw("AttributeError", "no attribute %r" % name)


def ext_attr(I, o, name, default=MISSING):
    if isinstance(o, A):
        d = I.dims(o)
        if name == "shape":
            return tuple(pyint(x) for x in d)
        if name == "ndim":
            return len(d)
        if name == "T":
            return transpose(I, o)
        if name == "size":
            n = ONE
            for x in d:
                n = S.mul(n, x)
            return pyint(n)
        if name == "dtype":
            a = I.readarr(o)
            return X("dtype", S.mk("dtype", "bool" if S.isbool(a.body) else "int" if I.isintdt(I.dtof(o)) else "num"))
        if name == "real":
            return o
        if name == "flat":
            return CALLS["ndarray.ravel"][0](I, o, None)
        if name in ARR_METHODS:
            return XBound(o, name)
        if default is not MISSING:
            return default
        if name in ARR_ATTRS:
            raise Unknown("array attribute %s" % name)
        I.throw("AttributeError", "'numpy.ndarray' object has no attribute %r" % name)
    if isinstance(o, Ext):
        n = canon(o.name + "." + name)
        if n in CONSTS:
            return CONSTS[n](I) if callable(CONSTS[n]) else CONSTS[n]
        if o.name.startswith("builtins.") and name in ("__name__",):
            return o.name.split(".")[-1]
        if n in ("matplotlib.pyplot.rcParams",):
            return X("rcparams", S.sym("rcParams"))
        return Ext(n)
    if isinstance(o, str):
        if name in STR_METHODS:
            return XBound(o, name)
        if default is not MISSING:
            return default
        I.throw("AttributeError", "'str' object has no attribute %r" % name)
    if isinstance(o, tuple):
        if name in TUPLE_METHODS:
            return XBound(o, name)
        if default is not MISSING:
            return default
        I.throw("AttributeError", "'tuple' object has no attribute %r" % name)
    if isinstance(o, Node):
        if isstr(o):
            return XBound(o, name)
        if o.opq:
            return X("opq", S.mk("attr", o, name, opq=True))
        # numpy scalar
        if name in ("shape",):
            if _pyfloatlike(o):
                pass
            else:
                return ()
        if name == "ndim":
            return 0
        if name == "size":
            return 1
        if name in ("T", "real"):
            return o
        if name in ARR_METHODS or name == "is_integer":
            return XBound(o, name)
        if name == "dtype":
            return X("dtype", S.mk("dtype", "num"))
        if default is not MISSING:
            return default
        I.throw("AttributeError", "number has no attribute %r" % name)
    if isinstance(o, X):
        return x_attr(I, o, name, default)
    if isinstance(o, (RangeV,)):
        if name in ("start", "stop", "step"):
            return getattr(o, name)
        return XBound(o, name)
    if o is None or isinstance(o, (int, bool)):
        if isinstance(o, int) and name in ("bit_length", "real", "conjugate"):
            return XBound(o, name)
        if default is not MISSING:
            return default
        I.throw("AttributeError", "%r object has no attribute %r" % (type(o).__name__, name))
    if isinstance(o, IterV):
        return XBound(o, name)
    if isinstance(o, XBound):
        if name == "__name__":
            return o.name
    if default is not MISSING:
        return default
    raise Unknown("attribute %s of %s" % (name, type(o).__name__))


def _pyfloatlike(o):
    return False


def x_attr(I, o, name, default):
    k = o.kind
    if k == "axes":
        if name == "figure":
            return X("figure", figof(o.node))
        return XBound(o, name)
    if k == "figure":
        if name == "axes":
            return X("opq", S.mk("figaxes", o.node, opq=True))
        return XBound(o, name)
    if k == "kde":
        if name == "dataset":
            return I.new(o.extra[1])
        if name == "weights":
            w = o.extra[2]
            i = S.fresh(w.dims[0])
            tot = S.sum_([i], w.at((i,)))
            return I.new(S.build(w.dims, lambda j: S.div(w.at((j,)), tot)))
        if name == "n":
            return pyint(o.extra[1].dims[1])
        if name == "d":
            return pyint(o.extra[1].dims[0])
        if name in ("factor", "covariance", "inv_cov", "neff", "covariance_factor"):
            return X("opq", S.mk("kdeattr", o.node, name, opq=True))
        if name in ("pdf", "evaluate", "__call__", "logpdf", "resample", "set_bandwidth", "integrate_box_1d"):
            return XBound(o, name)
        if default is not MISSING:
            return default
        I.throw("AttributeError", "gaussian_kde has no attribute %s" % name)
    if k == "dist":
        if name in ("pdf", "logpdf", "cdf", "rvs", "mean", "std", "var", "ppf", "interval", "support", "median", "sf", "logcdf", "isf"):
            return XBound(o, name)
        if name == "args":
            return ()
        if name in ("kwds", "kwargs"):
            return X("opq", S.mk("dattr", o.node, name, opq=True))
        if default is not MISSING:
            return default
        I.throw("AttributeError", "distribution has no attribute %s" % name)
    if k == "dtype":
        t = {"num": "float", "int": "int", "bool": "bool"}.get(o.node.args[0])
        if t and name in ("kind", "name", "char", "itemsize", "str"):
            return {"kind": {"float": "f", "int": "i", "bool": "b"}, "name": {"float": "float64", "int": "int64", "bool": "bool"}, "char": {"float": "d", "int": "l", "bool": "?"}, "itemsize": {"float": 8, "int": 8, "bool": 1}, "str": {"float": "<f8", "int": "<i8", "bool": "|b1"}}[name][t]
        if t and name == "type":
            return Ext("numpy." + {"float": "float64", "int": "int64", "bool": "bool_"}[t])
    if k == "finfo":
        if name == "eps":
            return S.num(Fraction(1, 2**52))
        if name == "tiny":
            return S.sym("float_tiny", pos=True)
        if name == "max":
            return S.sym("float_max", pos=True)
        return X("opq", S.mk("finfo", name, opq=True))
    if k == "exc":
        if name == "args":
            return (S.sym("excmsg"),)
        return XBound(o, name)
    if k == "path":
        if o.node.op == "str" and name in ("name", "stem", "suffix", "parent", "parts", "anchor", "root"):
            import pathlib

            r = getattr(pathlib.PurePosixPath(o.node.args[0]), name)
            return r if isinstance(r, (str, tuple)) else X("path", S.string(str(r)))
        if name in ("name", "stem", "suffix"):
            return S.mk("pathattr", o.node, name, opq=True)
        if name == "parent":
            return X("path", S.mk("parent", o.node))
        return XBound(o, name)
    if k == "opq":
        return X("opq", S.mk("attr", o.node, name, opq=True))
    if k == "svdres":
        t = dict(zip(("U", "S", "Vh"), o.extra))
        return t[name]
    return XBound(o, name)


def figof(n):
    if n.op == "axof":
        return n.args[0]
    return S.mk("figof", n)


def call_method(I, o, name, args, kw):
    o = I.res(o)
    if isinstance(o, Node) and not isstr(o):
        o = A(I.alloc(HArr(sc(o))))
    if isinstance(o, int) and not isinstance(o, bool):
        o = A(I.alloc(HArr(sc(S.num(o)))))
    if isinstance(o, A):
        key = "ndarray." + name
        e = CALLS.get(key)
        if e is None:
            e = CALLS.get("numpy." + name)
        if e is None:
            raise Unknown("ndarray.%s" % name)
        f, params = e
        vals = bind_ext(I, key, params, [o] + list(args), kw)
        try:
            return typed_call(I, key, vals, f(I, **vals))
        except ShapeError as ex:
            I.throw("ValueError", str(ex))
    if isinstance(o, Ref):
        g = I.st.heap[o.loc]
        if isinstance(g, HGrow) and name == "append":
            I.put(o.loc, HGrow(g.added + (args[0],)))
            return None
        h = I.obj(o.loc)
        if isinstance(h, HObj):
            if name in ("__getattribute__", "__getattr__"):
                return I.getattr(o, args[0])
            if name == "__setattr__":
                if not isinstance(args[0], str):
                    raise Unknown("setattr with symbolic name")
                I.setattr(o, args[0], args[1])
                return None
        if isinstance(h, HDict):
            return dict_method(I, o, h, name, args, kw)
        if isinstance(h, HList):
            return list_method(I, o, h, name, args, kw)
        if isinstance(h, HSeq):
            if name == "append":
                raise Unknown("append to symbolic list")
            if name == "copy":
                return Ref(I.alloc(h))
            raise Unknown("method %s of symbolic list" % name)
        if isinstance(h, HCell):
            return cell_method(I, o, h, name, args, kw)
    if isinstance(o, (str,)) or isstr(o):
        return str_method(I, o, name, args, kw)
    if isinstance(o, tuple):
        if name == "index":
            for k, x in enumerate(o):
                if valeq(I, x, args[0]) is True:
                    return k
            I.throw("ValueError", "not in tuple")
        if name == "count":
            return sum(1 for x in o if valeq(I, x, args[0]) is True)
    if isinstance(o, X) and o.kind == "objdict":
        return on_objdict(I, o, lambda d: dict_method(I, d, I.obj(d.loc), name, args, kw))
    if isinstance(o, X):
        return x_method(I, o, name, args, kw)
    raise Unknown("method %s of %s" % (name, type(o).__name__))


def on_objdict(I, o, f):
    """an operation on the attribute dictionary of an object"""
    h = I.obj(o.extra.loc)
    d = Ref(I.alloc(HDict(dict(h.attrs))))
    r = f(d)
    after = I.obj(d.loc).items
    if after != h.attrs:
        I.put(o.extra.loc, HObj(h.cls, dict(after)))
    return r


def ndim0(I, a):
    return not I.dims(a)


def dict_method(I, o, h, name, args, kw):
    if name in ("keys", "values", "items"):
        keys = I.dict_keys(h)
        if name == "keys":
            return X("dictview", S.mk("dictview", o.loc), (o, "keys")) if False else KeysView(I, o, keys)
        vals = [I.res_missing(h.items[k]) for k in keys]
        if name == "values":
            return I.newlist(vals)
        return I.newlist([(k, v) for k, v in zip(keys, vals)])
    if name in ("get", "pop", "setdefault"):
        k = I.hashable(args[0])
        if isinstance(k, Node) and k.op == "str":
            k = k.args[0]
        if isinstance(k, Node) and k in STRSYMS:
            for s in I.dict_keys(h):
                if isinstance(s, str):
                    c = I.truth(S.eqv(k, S.string(s)))
                    if c is True:
                        k = s
                        break
                    if c is not False:
                        raise NeedSplit(c)
        v = h.items.get(k, MISSING)
        while isinstance(v, PhiV) and (v.a is MISSING or v.b is MISSING):
            v = I.res(v)
        if v is MISSING:
            if name == "get":
                return args[1] if len(args) > 1 else kw.get("default")
            if name == "setdefault":
                d = dict(h.items)
                d[k] = args[1] if len(args) > 1 else None
                I.put(o.loc, HDict(d))
                return d[k]
            if len(args) > 1:
                return args[1]
            I.throw("KeyError", str(k))
        if name == "pop":
            d = dict(h.items)
            d.pop(k)
            I.put(o.loc, HDict(d))
        return v
    if name == "update":
        d = dict(h.items)
        for a in args:
            a = I.res(a)
            if isinstance(a, Ref) and isinstance(I.obj(a.loc), HDict) or isinstance(a, X) and a.kind == "objdict":
                for k, v in I.dict_items(a):
                    d[k] = v
            elif a is None:
                I.throw("TypeError", "'NoneType' object is not iterable")
            else:
                for kv in I.iterate(a):
                    kk, vv = I.iterate(kv)
                    d[I.hashable(kk)] = vv
        d.update(kw)
        I.put(o.loc, HDict(d))
        return None
    if name == "copy":
        return Ref(I.alloc(HDict(dict(h.items))))
    if name == "clear":
        I.put(o.loc, HDict({}))
        return None
    if name == "__contains__":
        return contains(I, o, args[0])
    if name == "__getitem__":
        return getitem(I, o, args[0])
    raise Unknown("dict.%s" % name)


def KeysView(I, o, keys):
    return I.newlist(keys)


def list_method(I, o, h, name, args, kw):
    items = h.items
    if h.cls == "set":
        if name == "add":
            if contains(I, o, args[0]) is not True:
                I.put(o.loc, HList(items + (args[0],), "set"))
            return None
        if name in ("discard", "remove"):
            rest = tuple(x for x in items if x != I.hashable(args[0]))
            if name == "remove" and len(rest) == len(items):
                I.throw("KeyError", "not in set")
            I.put(o.loc, HList(rest, "set"))
            return None
        if name in ("update", "union", "difference", "intersection", "issubset", "issuperset", "isdisjoint", "difference_update", "symmetric_difference"):
            others = []
            for a in args:
                it = I.iterate(a)
                if not isinstance(it, list):
                    raise Unknown("set of symbolic sequence")
                others.append([I.hashable(x) for x in it])
            flat = [x for l in others for x in l]
            if name in ("issubset", "issuperset", "isdisjoint"):
                return {"issubset": lambda: all(x in flat for x in items), "issuperset": lambda: all(x in items for x in flat), "isdisjoint": lambda: not any(x in flat for x in items)}[name]()
            if name in ("update", "union"):
                out = list(items)
                for x in flat:
                    if x not in out:
                        out.append(x)
            elif name in ("difference", "difference_update"):
                out = [x for x in items if x not in flat]
            elif name == "intersection":
                out = [x for x in items if all(x in l for l in others)]
            else:
                out = [x for x in items if x not in flat] + [x for x in flat if x not in items]
            if name.endswith("update"):
                I.put(o.loc, HList(tuple(out), "set"))
                return None
            return Ref(I.alloc(HList(out, "set")))
        if name == "copy":
            return Ref(I.alloc(HList(items, "set")))
        if name == "clear":
            I.put(o.loc, HList((), "set"))
            return None
        if name == "pop" and len(items) == 1:
            I.put(o.loc, HList((), "set"))
            return items[0]
        raise Unknown("set.%s" % name)
    if name == "append":
        I.put(o.loc, HList(items + (args[0],)))
        return None
    if name == "extend":
        it = I.iterate(args[0])
        if not isinstance(it, list):
            raise Unknown("extend by symbolic sequence")
        I.put(o.loc, HList(items + tuple(it)))
        return None
    if name == "insert":
        k = pyint(N(I, args[0]))
        l = list(items)
        l.insert(k, args[1])
        I.put(o.loc, HList(l))
        return None
    if name == "pop":
        if not items:
            I.throw("IndexError", "pop from empty list")
        k = pyint(N(I, args[0])) if args else -1
        l = list(items)
        v = l.pop(k)
        I.put(o.loc, HList(l))
        return v
    if name == "clear":
        I.put(o.loc, HList(()))
        return None
    if name == "copy":
        return I.newlist(items)
    if name == "reverse":
        I.put(o.loc, HList(items[::-1]))
        return None
    if name == "index":
        for k, x in enumerate(items):
            r = valeq(I, x, args[0])
            if r is True:
                return k
            if r is not False:
                raise Unknown("list.index")
        I.throw("ValueError", "not in list")
    if name == "count":
        return sum(1 for x in items if valeq(I, x, args[0]) is True)
    if name == "sort":
        if all(isinstance(x, int) for x in items) and not kw:
            I.put(o.loc, HList(sorted(items)))
            return None
        if all(isinstance(x, str) for x in items) and not kw:
            I.put(o.loc, HList(sorted(items)))
            return None
        I.put(o.loc, HList([S.mk("sorted", I.freeze(o), k, opq=True) for k in range(len(items))]))
        return None
    if name == "remove":
        l = list(items)
        for k, x in enumerate(l):
            if valeq(I, x, args[0]) is True:
                del l[k]
                I.put(o.loc, HList(l))
                return None
        I.throw("ValueError", "not in list")
    if name == "__len__":
        return len(items)
    if name == "__getitem__":
        return getitem(I, o, args[0])
    raise Unknown("list.%s" % name)


def str_method(I, o, name, args, kw):
    args = [a.args[0] if isinstance(a, Node) and a.op == "str" else a for a in args]
    if isinstance(o, Node) and o.op == "str":
        o = o.args[0]
    if isinstance(o, str):
        if name == "join":
            it = I.iterate(args[0])
            if isinstance(it, list):
                parts = []
                for k, x in enumerate(it):
                    if k:
                        parts.append(o)
                    parts.append(x)
                return joinstr(parts)
            raise Unknown("join")
        nat = lambda v: isinstance(v, (str, int, type(None))) or isinstance(v, tuple) and all(nat(x) for x in v)
        if all(nat(a) for a in args) and all(nat(v) for v in kw.values()):
            try:
                r = getattr(o, name)(*args, **kw)
            except (KeyError, IndexError, ValueError, TypeError) as e:
                I.throw(type(e).__name__, str(e))
            if isinstance(r, list):
                return I.newlist(r)
            return r
        if name == "format":
            r = str_format(I, o, args, kw)
            if r is not None:
                return r
            return joinstr([S.mk("fmt", S.string(o), *([I.freeze(a) for a in args] + [S.mk("item", k, I.freeze(v)) for k, v in sorted(kw.items())]))])
    if name in ("endswith", "startswith"):
        return S.cnd(name, I.freeze(o), I.freeze(args[0]))
    r = S.mk("strm", I.freeze(o), name, *[I.freeze(a) for a in args])
    STRSYMS.add(r)
    return r


def cell_method(I, o, h, name, args, kw):
    v = h.v
    if isinstance(v, X) and v.kind == "rngstate":
        return rng_method(I, o, h, name, args, kw)
    if isinstance(v, X) and v.kind == "pcaobj":
        return pca_method(I, o, h, name, args, kw)
    if isinstance(v, X) and v.kind == "scaler":
        return scaler_method(I, o, h, name, args, kw)
    raise Unknown("method of external object")


# ------------------------------------------------------------------ builtins
def B(names, sig):
    return reg(" ".join("builtins." + n for n in names.split()), sig)


@B("len", "x")
def _len(I, x):
    return length(I, x)


@B("range", "*a")
def _range(I, a):
    a = [pyint(N(I, x)) for x in a]
    if len(a) == 1:
        return RangeV(0, a[0], 1)
    if len(a) == 2:
        return RangeV(a[0], a[1], 1)
    return RangeV(*a)


@B("enumerate", "x start=0")
def _enumerate(I, x, start):
    return I.iterator("enumerate", x, start)


@B("zip", "*a **kw")
def _zip(I, a, kw):
    return I.iterator("zip", *a)


@B("map", "f *a")
def _map(I, f, a):
    r = I.iterate(IterV("map", f, *a))
    if isinstance(r, list):
        return I.newlist(r)
    n, g = r
    i = S.fresh(n)
    return Ref(I.alloc(HSeq(n, i, I.tmpl(g(i)))))


@B("filter", "f x")
def _filter(I, f, x):
    it = I.iterate(x)
    if not isinstance(it, list):
        raise Unknown("filter")
    out = []
    for v in it:
        c = I.truth(v if f is None else I.call(f, [v], {}))
        if c is True:
            out.append(v)
        elif c is not False:
            raise NeedSplit(c)
    return I.newlist(out)


@B("reversed", "x")
def _reversed(I, x):
    return I.iterator("reversed", x)


@B("list", "x=None")
def _list(I, x):
    if x is None:
        return I.newlist([])
    it = I.iterate(x)
    if isinstance(it, list):
        return I.newlist(it)
    n, g = it
    i = S.fresh(n)
    return Ref(I.alloc(HSeq(n, i, I.tmpl(g(i)))))


@B("tuple", "x=None")
def _tuple(I, x):
    if x is None:
        return ()
    it = I.iterate(x)
    if isinstance(it, list):
        return tuple(it)
    return _list(I, x)


@B("set frozenset", "x=None")
def _set(I, x):
    it = [] if x is None else I.iterate(x)
    if not isinstance(it, list):
        raise Unknown("set of symbolic sequence")
    out = []
    for v in it:
        h = I.hashable(v)
        if h not in out:
            out.append(h)
    return Ref(I.alloc(HList(out, "set")))


@B("dict", "x=None **kw")
def _dict(I, x, kw):
    d = {}
    if x is not None:
        x = I.res(x)
        if isinstance(x, Ref) and isinstance(I.obj(x.loc), HDict) or isinstance(x, X) and x.kind == "objdict":
            d.update(I.dict_items(x))
        elif isinstance(x, X) and x.kind == "opq":
            raise Unknown("dict of unknown")
        else:
            it = I.iterate(x)
            if not isinstance(it, list):
                raise Unknown("dict of symbolic sequence")
            for kv in it:
                k, v = I.iterate(kv)
                d[I.hashable(k)] = v
    d.update(kw)
    return I.newdict(d)


@B("min", "*a **kw")
def _bmin(I, a, kw):
    return minmax(I, "min", a, kw)


@B("max", "*a **kw")
def _bmax(I, a, kw):
    return minmax(I, "max", a, kw)


def minmax(I, kind, a, kw):
    if "key" in kw:
        return I.call(I.models["builtins.%skey" % kind], [a[0] if len(a) == 1 else tuple(a), kw["key"]], {})
    if len(a) == 1:
        it = I.iterate(a[0])
        if not isinstance(it, list):
            n, g = it
            i = S.fresh(n)
            return S.red(kind, [i], N(I, g(i)))
        a = it
        if not a:
            if "default" in kw:
                return kw["default"]
            I.throw("ValueError", "empty sequence")
    if any(isinstance(x, A) and I.dims(x) for x in a):
        I.throw("ValueError", "truth value of an array is ambiguous")
    r = N(I, a[0])
    for x in a[1:]:
        x = N(I, x)
        lt = I.simp(S.lt0(S.sub(r, x)))
        ge = I.simp(S.lt0(S.sub(x, r)))
        if lt is TRUE or ge is FALSE:
            r = r if kind == "min" else x
        elif ge is TRUE or lt is FALSE:
            r = x if kind == "min" else r
        else:
            r = S.fn(kind + "2", r, x)
    a = [N(I, x) for x in a]
    return pyint(r) if all(isinstance(x, int) or isinstance(x, Node) and x.isint for x in a) else r


@B("sum", "x start=0")
def _bsum(I, x, start):
    it = I.iterate(x)
    if isinstance(it, list):
        r = start
        for v in it:
            r = binop(I, "+", I.res(r), I.res(v))
        return r
    n, g = it
    i = S.fresh(n)
    t = I.tmpl(g(i))
    if isinstance(t, TArr):
        r = I.new(S.build(t.arr.dims, lambda *j: S.sum_([i], num_(t.arr.at(j)))))
    elif isinstance(t, (Node, int)):
        t = N(I, t)
        r = S.sum_([i], t)
    else:
        raise Unknown("sum of objects")
    return binop(I, "+", start, r) if start != 0 or not isinstance(start, int) else r


@B("any", "x")
def _bany(I, x):
    return anyall(I, x, True)


@B("all", "x")
def _ball(I, x):
    return anyall(I, x, False)


def anyall(I, x, isany):
    it = I.iterate(x)
    if isinstance(it, list):
        cs = []
        for v in it:
            c = I.truth(v)
            if c is isany:
                return isany
            if c is not (not isany):
                cs.append(c)
        if not cs:
            return not isany
        return unbool(I.simp(S.or_(*cs) if isany else S.and_(*cs)))
    n, g = it
    i = S.fresh(n)
    c = I.truth(g(i))
    if isinstance(c, bool):
        return c
    return unbool(I.simp(S.any_([i], c) if isany else S.not_(S.any_([i], S.not_(c)))))


@B("abs", "x")
def _babs(I, x):
    x = I.res(x)
    if isinstance(x, int):
        return abs(x)
    return ew(I, S.absval, x) if isinstance(x, A) else S.absval(N(I, x))


@B("float", "x=0")
def _bfloat(I, x):
    x = I.res(x)
    if isinstance(x, str):
        if x in ("inf", "-inf", "nan"):
            return S.num(float(x))
        try:
            return S.num(Fraction(x))
        except ValueError:
            I.throw("ValueError", "could not convert string to float")
    return N(I, x)


@B("int", "x=0 base=None")
def _bint(I, x, base):
    x = I.res(x)
    if isinstance(x, str):
        try:
            return int(x)
        except ValueError:
            I.throw("ValueError", "invalid literal for int()")
    n = N(I, x)
    return trunc(n)


def trunc(n):
    if S.isnum(n):
        v = S.val(n)
        return int(v)
    if n.isint:
        return n
    return S.mk("fn", "trunc", n, isint=True)


@B("bool", "x=False")
def _bbool(I, x):
    return I.truth(x)


@B("str", "x= *a")
def _bstr(I, x, a):
    x = I.res(x)
    if isinstance(x, (str, int)) and not isinstance(x, bool):
        return str(x)
    if x is None or isinstance(x, bool):
        return str(x)
    if isinstance(x, X) and x.kind == "path":
        return x.node if x.node.op != "str" else x.node.args[0]
    if isinstance(x, X) and x.kind == "exc" and x.extra[1] is not None and isstr(I.res(x.extra[1])):
        return x.extra[1]
    if isstr(x):
        return x
    return format_value(I, x, "")


@B("repr", "x")
def _brepr(I, x):
    return _bstr(I, x, [])


@B("format", "x spec=")
def _bformat(I, x, spec):
    return S.mk("fmt", I.freeze(x), str(spec))


@B("print", "*a **kw")
def _bprint(I, a, kw):
    return None


@B("noop", "*a **kw")
def _noop(I, a, kw):
    return None


@B("object", "*a")
def _object(I, a):
    return X("object", S.mk("object", I.uid()))


@B("isinstance", "x t")
def _isinstance(I, x, t):
    return isinst(I, x, t)


def isinst(I, x, t):
    x, t = I.res(x), I.res(t)
    if isinstance(t, tuple):
        rs = [isinst(I, x, y) for y in t]
        if any(r is True for r in rs):
            return True
        rs = [r for r in rs if r is not False]
        return S.or_(*rs) if rs else False
    if isinstance(x, X) and x.kind == "opq" or isinstance(x, Node) and x.opq and not S.isbool(x):
        return S.cnd("isinstance", I.freeze(x), I.freeze(t), opq=True)
    if isinstance(t, ClassV):
        if isinstance(x, Ref):
            h = I.obj(x.loc)
            return isinstance(h, HObj) and t in h.cls.mro()
        return False
    if not isinstance(t, Ext):
        raise Unknown("isinstance target")
    n = canon(t.name)
    if n == "builtins.tuple" and isinstance(x, Ref) and isinstance(I.obj(x.loc), HObj):
        return "_fields" in I.obj(x.loc).cls.members
    s = n.split(".")[-1]
    isb = isinstance(x, bool) or isinstance(x, Node) and S.isbool(x)
    isint = isinstance(x, int) or isinstance(x, Node) and x.isint and not isstr(x)
    isnumv = isscalar(x) and not isb
    if s == "ndarray":
        return isinstance(x, A)
    if n in ("builtins.float",):
        return isnumv and not isinstance(x, int) and not (isinstance(x, Node) and x.isint and x.op != "num")
    if n == "builtins.int":
        return isb or isinstance(x, int) or (isinstance(x, Node) and x.isint and x.op != "num" and isscalar(x))
    if n == "builtins.bool":
        return isb
    if s in ("Number", "Real", "number", "floating", "float64", "generic", "integer", "Integral", "float32", "int64"):
        if s in ("Integral",):
            return isint
        if s in ("Number", "Real"):
            return isnumv or isb
        if s in ("integer", "int64", "float32"):
            return False
        return isnumv and not isinstance(x, int)
    if n == "builtins.str":
        return isstr(x)
    if n == "builtins.list":
        return ctype(I, x) in ("list", "seq")
    if n == "builtins.tuple":
        return isinstance(x, tuple)
    if n == "builtins.dict":
        return ctype(I, x) == "dict"
    if n in ("builtins.set", "builtins.frozenset"):
        return ctype(I, x) == "set"
    if n == "builtins.range":
        return isinstance(x, RangeV)
    if s in ("Sequence", "Iterable", "Collection"):
        return ctype(I, x) in ("list", "tuple", "seq") or isinstance(x, RangeV) or isstr(x) or (s != "Sequence" and isinstance(x, A))
    if s in ("Mapping", "MutableMapping"):
        return ctype(I, x) == "dict"
    if s in ("Callable",):
        return isinstance(x, (FuncV, BoundV, PartialV, ClassV, Ext))
    if s == "gaussian_kde":
        return isinstance(x, X) and x.kind == "kde"
    if s in ("rv_frozen", "rv_continuous_frozen", "rv_continuous", "rv_generic"):
        return isinstance(x, X) and x.kind == "dist"
    if s == "Axes":
        return isinstance(x, X) and x.kind == "axes"
    if s == "Figure":
        return isinstance(x, X) and x.kind == "figure"
    if s in ("Path", "PurePath", "PosixPath"):
        return isinstance(x, X) and x.kind == "path"
    if s == "object":
        return True
    if s == "slice":
        return isinstance(x, slice)
    if s in EXC_TREE:
        return isinstance(x, X) and x.kind == "exc" and exc_isa(x.extra[0], s)
    if s == "NoneType":
        return x is None
    if s in ("RandomState", "Generator"):
        return isinstance(x, Ref) and isinstance(I.obj(x.loc), HCell)
    if s in ("Dataset", "DataFrame", "DataArray"):
        return isinstance(x, X) and x.kind == "dataset"
    raise Unknown("isinstance of %s" % n)


@B("issubclass", "a b")
def _issub(I, a, b):
    if isinstance(a, ClassV) and isinstance(b, ClassV):
        return b in a.mro()
    if isinstance(b, tuple):
        rs = [_issub(I, a, x) for x in b]
        return any(rs)
    if isinstance(a, (ClassV, Ext)) and isinstance(b, Ext):
        an = a.name if isinstance(a, Ext) else ""
        if an == b.name or b.name == "builtins.object":
            return True
        if isinstance(a, ClassV) and a.extbase() is None:
            return False
        x = (an or a.extbase().name).split(".")[-1]
        from .interp import exc_isa

        if x in EXC_TREE:
            return bool(exc_isa(x, b.name.split(".")[-1]))
    if isinstance(b, ClassV) and isinstance(a, Ext):
        return False
    raise Unknown("issubclass")


@B("type", "x *a")
def _type(I, x, a):
    x = I.res(x)
    if isinstance(x, Ref) and isinstance(I.obj(x.loc), HObj):
        return I.obj(x.loc).cls
    if isinstance(x, A):
        return Ext("numpy.ndarray")
    if isinstance(x, bool):
        return Ext("builtins.bool")
    if isinstance(x, int):
        return Ext("builtins.int")
    if isstr(x):
        return Ext("builtins.str")
    if isinstance(x, tuple):
        return Ext("builtins.tuple")
    if x is None:
        return Ext("builtins.NoneType")
    if isinstance(x, X) and x.kind == "dist":
        return Ext("scipy.stats._distn_infrastructure.rv_continuous_frozen")
    if isinstance(x, X) and x.kind == "kde":
        return Ext("scipy.stats.gaussian_kde")
    if isinstance(x, Ref):
        return Ext("builtins." + {"seq": "list"}.get(ctype(I, x), ctype(I, x)))
    if isinstance(x, X) and x.kind == "exc":
        return Ext("builtins." + x.extra[0])
    if isscalar(x):
        return Ext("builtins.float")
    return X("opq", S.mk("typeof", I.freeze(x), opq=True))


@B("hasattr", "o name")
def _hasattr(I, o, name):
    o = I.res(o)
    if isinstance(name, Node) and name.op == "str":
        name = name.args[0]
    if not isinstance(name, str):
        raise Unknown("hasattr with symbolic name")
    mark = object()
    if isinstance(o, X) and o.kind == "opq":
        return S.cnd("hasattr", o.node, name, opq=True)
    if isinstance(o, Ref) and isinstance(I.obj(o.loc), HObj):
        h = I.obj(o.loc)
        if name in h.attrs:
            v = I.res_missing(h.attrs[name])
            return v is not MISSING
        return h.cls.find(name) is not None
    r = I.getattr(o, name, mark)
    return r is not mark


@B("getattr", "o name default=NOARG")
def _getattr(I, o, name, default):
    if isinstance(name, Node) and name.op == "str":
        name = name.args[0]
    if isinstance(name, str):
        return I.getattr(o, name, default)
    raise Unknown("getattr with symbolic name")


@B("setattr", "o name v")
def _setattr(I, o, name, v):
    if isinstance(name, Node) and name.op == "str":
        name = name.args[0]
    if isinstance(name, str):
        I.setattr(o, name, v)
        return None
    raise Unknown("setattr with symbolic name")


@B("callable", "x")
def _callable(I, x):
    x = I.res(x)
    if isinstance(x, (FuncV, BoundV, ClassV, Ext, XBound, PartialV)):
        return True
    if isinstance(x, X):
        return x.kind == "kde"
    return False


@B("id", "x")
def _id(I, x):
    x = I.res(x)
    if isinstance(x, (A, Ref)):
        return S.mk("id", x.loc, isint=True)
    return S.mk("id", I.freeze(x), opq=True)


@B("hash", "x")
def _hash(I, x):
    x = I.res(x)
    I.hashable(x)
    return S.mk("hash", I.freeze(x), isint=True)


@B("vars", "o")
def _vars(I, o):
    return I.getattr(o, "__dict__")


@B("round", "x n=None")
def _bround(I, x, n):
    x = I.res(x)
    if isinstance(x, A):
        return CALLS["numpy.round"][0](I, x, n if n is not None else 0, None)
    return S.mk("fn", "round", N(I, x), N(I, n if n is not None else 0), isint=n is None)


@B("sorted", "x **kw")
def _sorted(I, x, kw):
    it = I.iterate(x)
    if isinstance(it, list):
        if not kw and (all(isinstance(v, int) for v in it) or all(isinstance(v, str) for v in it)):
            return I.newlist(sorted(it))
        if set(kw) == {"reverse"} and kw["reverse"] is True and all(isinstance(v, (int)) for v in it):
            return I.newlist(sorted(it, reverse=True))
        return I.newlist([S.mk("sorted", S.mk("list", *[I.freeze(v) for v in it]), k, opq=True) for k in range(len(it))])
    if not kw and isinstance(I.res(x), A) and I.readarr(I.res(x)).ndim == 1:
        return _list(I, CALLS["numpy.sort"][0](I, x, -1, None))
    raise Unknown("sorted of symbolic sequence")


@B("divmod", "a b")
def _divmod(I, a, b):
    return (binop(I, "//", a, b), binop(I, "%", a, b))


@B("pow", "a b")
def _bpow(I, a, b):
    return binop(I, "**", I.res(a), I.res(b))


@B("iter", "x")
def _iter(I, x):
    return x if isinstance(x, IterV) else I.iterator("iter", x)


@B("next", "x d=NOARG")
def _next(I, x, d):
    if isinstance(x, IterV) and x.loc is not None:
        ok, v = I.next_of(x)
        if ok:
            return v
        if d is not MISSING:
            return d
        I.throw("StopIteration")
    it = I.iterate(x)
    if isinstance(it, list):
        if it:
            return it[0]
        if d is not MISSING:
            return d
        I.throw("StopIteration")
    return it[1](ZERO)


@B("slice", "*a")
def _slice(I, a):
    a = list(a)
    if len(a) == 1:
        return slice(None, a[0], None)
    return slice(*(a + [None] * (3 - len(a))))


@B("open", "f mode=r *a **kw")
def _open(I, f, mode, a, kw):
    if isinstance(mode, str) and "r" in mode and "+" not in mode:
        c = S.cnd("exists", I.freeze(f))
        I.throw_if(S.not_(c), "FileNotFoundError", "no such file")
        I.event("openread", I.freeze(f))
    else:
        I.event("openwrite", I.freeze(f))
    return X("file", S.mk("file", I.freeze(f)))


@B("super", "*a")
def _super(I, a):
    return SuperV(a[0], a[1])


@B("property", "*a")
def _prop(I, a):
    return PropV(*a[:2])


@B("staticmethod", "f")
def _sm(I, f):
    return StaticV(f, "staticmethod")


@B("delattr", "o n")
def _delattr(I, o, n):
    h = I.obj(o.loc)
    d = dict(h.attrs)
    if n not in d:
        I.throw("AttributeError", n)
    d.pop(n)
    I.put(o.loc, HObj(h.cls, d))


@reg("functools.partial", "f *a **kw")
def _partial(I, f, a, kw):
    return PartialV(f, list(a), kw)


@reg("functools.wraps", "f")
def _wraps(I, f):
    return X("wraps", S.sym("wraps"))


@reg("itertools.chain", "*a")
def _chain(I, a):
    out = []
    for x in a:
        it = I.iterate(x)
        if not isinstance(it, list):
            raise Unknown("chain")
        out += it
    return I.newlist(out)


@reg("itertools.product", "*a **kw")
def _product(I, a, kw):
    import itertools

    its = [I.iterate(x) for x in a]
    if not all(isinstance(x, list) for x in its) or kw:
        raise Unknown("product")
    return I.newlist([tuple(t) for t in itertools.product(*its)])


@reg("itertools.accumulate", "x f=None")
def _accumulate(I, x, f):
    it = I.iterate(x)
    if not isinstance(it, list):
        raise Unknown("accumulate")
    out = []
    for v in it:
        out.append(v if not out else (binop(I, "+", I.res(out[-1]), I.res(v)) if f is None else I.call(f, [out[-1], v], {})))
    return I.newlist(out)


@reg("copy.copy", "x")
def _copy1(I, x):
    x = I.res(x)
    if isinstance(x, A):
        return I.new(I.readarr(x))
    if isinstance(x, Ref):
        return Ref(I.alloc(I.obj(x.loc)))
    return x


@reg("copy.deepcopy", "x memo=None")
def _deepcopy(I, x, memo):
    x = I.res(x)
    if isinstance(x, A):
        return I.new(I.readarr(x))
    if isinstance(x, tuple):
        return tuple(_deepcopy(I, y, None) for y in x)
    if isinstance(x, Ref):
        o = I.obj(x.loc)
        if isinstance(o, HList):
            return Ref(I.alloc(HList([_deepcopy(I, y, None) for y in o.items], o.cls)))
        if isinstance(o, HDict):
            return Ref(I.alloc(HDict({k: _deepcopy(I, v, None) for k, v in I.dict_items(x)})))
        if isinstance(o, HObj):
            return Ref(I.alloc(HObj(o.cls, {k: _deepcopy(I, v, None) if v is not MISSING else v for k, v in o.attrs.items()})))
        return Ref(I.alloc(o))
    return x


@reg("pathlib.Path pathlib.PurePath os.fspath", "*a")
def _path(I, a):
    ps = [x.node if isinstance(x, X) and x.kind == "path" else I.freeze(x) for x in a]
    if not ps:
        return X("path", S.string("."))
    r = ps[0]
    for p in ps[1:]:
        r = pjoin(r, p)
    return X("path", r)


def pjoin(a, b):
    if a.op == "str" and b.op == "str":
        import posixpath

        return S.string(posixpath.join(a.args[0], b.args[0]))
    return S.mk("pathjoin", a, b)


def path_join(I, a, b):
    bn = b.node if isinstance(b, X) and b.kind == "path" else I.freeze(b)
    return X("path", pjoin(a.node, bn))


@reg("collections.namedtuple", "name fields rename=False defaults=None module=None")
def _namedtuple(I, name, fields, rename, defaults, module):
    fields = fields.replace(",", " ").split() if isinstance(fields, str) else I.iterate(fields)
    c = ClassV(name, [], {}, I.frame().mod, None)
    return I.namedtuple(c, fields, [] if defaults is None else I.iterate(defaults), I.frame())


@reg("contextlib.suppress", "*a")
def _suppress(I, a):
    return X("suppress", S.mk("suppress", I.uid(), opq=True), tuple(x.name.split(".")[-1] for x in a))


@reg("dataclasses.field", "default=NOARG default_factory=NOARG init=True repr=True hash=None compare=True metadata=None kw_only=None")
def _dcfield(I, default, default_factory, init, **kw):
    return X("field", S.mk("dcfield", I.uid(), opq=True), (init, default, default_factory))


@reg("pathlib.Path.cwd", "*a")
def _pcwd(I, a):
    return X("path", S.string("."))


@reg("os.getcwd", "*a")
def _cwd(I, a):
    return "."


@reg("os.path.join", "*a")
def _osjoin(I, a):
    r = _path(I, a).node
    return r.args[0] if r.op == "str" else r


def _purepath(fn):
    import posixpath

    def f(I, p):
        n = p.node if isinstance(p, X) and p.kind == "path" else I.freeze(p)
        if n.op == "str":
            r = getattr(posixpath, fn)(n.args[0])
            return tuple(S.string(x) for x in r) if isinstance(r, tuple) else r if isinstance(r, bool) else S.string(r)
        if fn == "normpath":
            return n
        if fn in ("split", "splitext"):
            return S.mk("os." + fn + "0", n), S.mk("os." + fn + "1", n)
        if fn == "isabs":
            return S.cnd("isabs", n)
        return S.mk("os." + fn, n)

    return f


for _fn in ("normpath", "basename", "dirname", "split", "splitext", "isabs"):
    reg("os.path." + _fn, "p")(_purepath(_fn))


@reg("os.path.exists os.path.isfile os.path.isdir", "p")
def _exists(I, p):
    return S.cnd("exists", p.node if isinstance(p, X) else I.freeze(p))


@reg("pickle.load", "fp *a **kw")
def _pickle(I, fp, a, kw):
    h = getattr(I, "file_contents", {})
    if fp.node.op == "file" and fp.node.args[0] in h:
        return h[fp.node.args[0]]
    return X("opq", S.mk("pickle", fp.node, opq=True))


@reg("xarray.load_dataset xarray.open_dataset", "f *a **kw")
def _xrload(I, f, a, kw):
    c = S.cnd("exists", I.freeze(f))
    I.throw_if(S.not_(c), "FileNotFoundError", "no such file")
    I.event("openread", I.freeze(f))
    h = getattr(I, "file_contents", {})
    if I.freeze(f) in h:
        return h[I.freeze(f)]
    return X("opq", S.mk("xrds", I.freeze(f), opq=True))


@reg("io.BytesIO io.StringIO", "*a")
def _bytesio(I, a):
    return X("buffer", S.sym("buffer"))


from . import canvas  # noqa: E402,F401
from . import nplib  # noqa: E402  (registers numpy & co.)
from .nplib import CONSTS, stats_call, axarr_item, x_method, call_x, pca_attr, rng_method, pca_method, scaler_method  # noqa: E402,F401
