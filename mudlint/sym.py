"""Hash-consed terms in canonical (normal) form.

Scalars form a commutative ring with rational exponents; arrays are closed
functions of index variables (``lam``); sums, products and extrema are binders
over index ranges.  Equality of normal forms is node identity.
"""
from fractions import Fraction
from hashlib import blake2b
from itertools import permutations, product
import sys

sys.setrecursionlimit(20000)


class ShapeError(Exception):
    pass


class TooBig(Exception):
    pass


class Node:
    __slots__ = ("op", "args", "key", "skey", "mk", "bv", "h", "opq", "pos", "size", "isint", "cond")

    def __repr__(self):
        return show(self)

    # nodes are interned: identity equality
    __hash__ = object.__hash__


_TABLE = {}
EMPTY = frozenset()
COND_OPS = frozenset(["lt0", "eq0", "eqv", "isnone", "cnd", "any"])
BINDERS = frozenset(["sum", "red", "lam", "any", "maplist", "loopev"])


def _ser(a, out):
    if isinstance(a, Node):
        out.append(a.key)
    elif isinstance(a, tuple):
        out.append(b"(")
        for x in a:
            _ser(x, out)
        out.append(b")")
    else:
        out.append(type(a).__name__.encode() + b":" + repr(a).encode() + b";")


def _sser(a, out):
    if isinstance(a, Node):
        out.append(a.skey)
    elif isinstance(a, tuple):
        out.append(b"(")
        for x in a:
            _sser(x, out)
        out.append(b")")
    else:
        out.append(type(a).__name__.encode() + b":" + repr(a).encode() + b";")


def _children(args):
    for a in args:
        if isinstance(a, Node):
            yield a
        elif isinstance(a, tuple):
            for x in _children(a):
                yield x


def mk(op, *args, opq=False, pos=False, isint=False):
    t = (op, args)
    n = _TABLE.get(t)
    if n is not None:
        return n
    n = Node()
    n.op, n.args = op, args
    out = [op.encode(), b"["]
    for a in args:
        _ser(a, out)
    n.key = blake2b(b"".join(out), digest_size=12).digest()
    # skey ignores the identity of index variables, so choices made with it
    # survive the renaming of bound variables
    if op == "idx":
        n.skey = b"i" + args[-1].skey
    else:
        out = [op.encode(), b"["]
        if op == "poly":
            items = []
            for m, c in args:
                fs = sorted(a.skey + repr(e).encode() for a, e in m)
                items.append(b"".join(fs) + b"*" + repr(c).encode())
            out += sorted(items)
        elif op == "and" or op == "fn" and args[0] in ("max2", "min2"):
            parts = []
            for a in args:
                o1 = []
                _sser(a, o1)
                parts.append(b"".join(o1))
            out += sorted(parts)
        elif op == "elem" and len(args) == 3 and _symmetric(args[0]):
            out += [args[0].skey] + sorted(a.skey for a in args[1:])
        else:
            for a in args:
                _sser(a, out)
        n.skey = blake2b(b"".join(out), digest_size=12).digest()
    keys = set()
    bv = set()
    h = 0
    o = opq
    size = 1
    for c in _children(args):
        keys |= c.mk
        bv |= c.bv
        h = max(h, c.h)
        o = o or c.opq
        size += c.size
    if op in ("sym", "asym") or op == "fn" and args[0] == "trunc":
        keys.add(n)
    elif op == "idx":
        if args[0] == "f":
            keys.add(n)
        else:
            bv.add(n)
    if op in BINDERS:
        bound, hh = _bound_of(n)
        bv -= set(bound)
        h = max(h, hh)
    n.cond = op in COND_OPS
    if n.cond and not bv and not any(k.op == "idx" for k in keys):
        keys.add(n)
    n.mk = frozenset(keys)
    n.bv = frozenset(bv)
    n.h = h
    n.opq = o
    n.pos = pos
    n.size = min(size, 10**7)
    n.isint = isint
    _TABLE[t] = n
    return n


def _bound_of(n):
    """bound index nodes of a binder node, and its height"""
    idxs = n.args[1] if n.op == "red" else n.args[0]
    return idxs, (idxs[0].args[1] if idxs else 0)


# ------------------------------------------------------------------ leaves
def num(x):
    if isinstance(x, Fraction):
        f = x
    elif isinstance(x, bool):
        f = Fraction(int(x))
    elif isinstance(x, int):
        f = Fraction(x)
    elif isinstance(x, float):
        if x != x:
            return mk("sym", "nan")
        if x == float("inf"):
            return mk("sym", "inf", pos=True)
        if x == float("-inf"):
            return neg(mk("sym", "inf", pos=True))
        f = Fraction(repr(x))
    else:
        raise TypeError(x)
    return mk("num", f, pos=f > 0, isint=f.denominator == 1)


ZERO, ONE = num(0), num(1)
TRUE, FALSE = mk("true"), mk("false")
NONE = mk("none")
DIMS = set()


def sym(name, pos=False, isint=False):
    return mk("sym", name, *(["pos"] if pos else []), *(["int"] if isint else []), pos=pos, isint=isint)


def dim(name):
    d = mk("sym", name, "dim", pos=True, isint=True)
    DIMS.add(d)
    return d


def isnum(n):
    return n.op == "num"


def val(n):
    return n.args[0]


_ctr = [0]


def fresh(d):
    _ctr[0] += 1
    return mk("idx", "f", _ctr[0], d, isint=True)


def string(s):
    return mk("str", s)


# ------------------------------------------------------------------ ring
def terms(n):
    if n.op == "poly":
        return dict(n.args)
    if n.op == "num":
        return {(): n.args[0]} if n.args[0] != 0 else {}
    return {((n, Fraction(1)),): Fraction(1)}


def exact_div(a, b):
    """quotient of two polynomials when the division leaves nothing, else None"""
    A, B = terms(a), terms(b)
    atoms = sorted({x for t in (A, B) for m in t for x, e in m}, key=lambda x: x.key)
    if any(e < 0 or e.denominator != 1 for t in (A, B) for m in t for x, e in m):
        return None

    def vec(m):
        d = dict(m)
        return tuple(d.get(x, Fraction(0)) for x in atoms)

    R = {vec(m): c for m, c in A.items()}
    D = {vec(m): c for m, c in B.items()}
    if not D:
        return None
    lead = max(D)
    out = ZERO
    for _ in range(200):
        if not R:
            return out
        m = max(R)
        q = tuple(x - y for x, y in zip(m, lead))
        if any(x < 0 for x in q):
            return None
        c = R[m] / D[lead]
        if c.denominator != 1:
            return None
        for k, v in D.items():
            k2 = tuple(x + y for x, y in zip(k, q))
            R[k2] = R.get(k2, Fraction(0)) - c * v
            if R[k2] == 0:
                del R[k2]
        t = num(c)
        for x, e in zip(atoms, q):
            if e:
                t = mul(t, powern(x, num(e)))
        out = add(out, t)
    return None


def _mkey(m):
    return tuple((a.key, e) for a, e in m)


def _smkey(m):
    return tuple(sorted((a.skey, e) for a, e in m))


def leadneg(a):
    """whether the leading coefficient is negative (stable under renaming)"""
    t = terms(a)
    if not t:
        return False
    m = min(t, key=lambda m: (_smkey(m), _mkey(m)))
    return t[m] < 0


HASMOD = []


def _unmod(t):
    """b * floordiv(x, b) + mod(x, b) is x"""
    for m, c in t.items():
        for k, (a, e) in enumerate(m):
            if a.op == "fn" and a.args[0] == "mod" and e == 1:
                x, b = a.args[1], a.args[2]
                rest = m[:k] + m[k + 1 :]
                q = from_terms({rest: c})
                w = mul(q, mul(b, mk("fn", "floordiv", x, b, isint=True)))
                tw = terms(w)
                if len(tw) != 1:
                    continue
                (wm, wc), = tw.items()
                if t.get(wm) == wc:
                    n = dict(t)
                    del n[m]
                    del n[wm]
                    for xm, xc in terms(mul(q, x)).items():
                        n[xm] = n.get(xm, 0) + xc
                    return n
    return None


def from_terms(t):
    items = [(m, c) for m, c in t.items() if c != 0]
    if not items:
        return ZERO
    if HASMOD and len(items) > 1:
        u = _unmod(dict(items))
        if u is not None:
            return from_terms(u)
    if len(items) > 600:
        raise TooBig()
    if len(items) == 1:
        m, c = items[0]
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda x: _mkey(x[0]))
    pos = all(c > 0 and all(a.pos or e % 2 == 0 for a, e in m) for m, c in items) and any(
        all(a.pos for a, e in m) for m, c in items
    )
    isint = all(
        c.denominator == 1 and all(a.isint and e.denominator == 1 and e > 0 for a, e in m)
        for m, c in items
    )
    return mk("poly", *items, pos=pos, isint=isint)


def add(*xs):
    t = {}
    for x in xs:
        for m, c in terms(x).items():
            t[m] = t.get(m, 0) + c
    return from_terms(t)


def neg(a):
    return mulc(a, Fraction(-1))


def mulc(a, c):
    return from_terms({m: k * c for m, k in terms(a).items()})


def sub(a, b):
    return add(a, neg(b))


def _mono_mul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    coef = Fraction(1)
    out = []
    for a, e in d.items():
        if e == 0:
            continue
        if a.op == "num":
            fl = e.numerator // e.denominator
            coef *= Fraction(a.args[0]) ** fl
            e = e - fl
            if e == 0:
                continue
        if a.op == "delta" and e > 1:
            e = Fraction(1)
        if a.op == "b2n" and e > 1 and e.denominator == 1:
            e = Fraction(1)
        out.append((a, e))
    out.sort(key=lambda x: x[0].key)
    return tuple(out), coef


def mul(*xs):
    r = {(): Fraction(1)}
    for x in xs:
        t = terms(x)
        if len(r) * len(t) > 3000:
            raise TooBig()
        n = {}
        for m1, c1 in r.items():
            for m2, c2 in t.items():
                m, k = _mono_mul(m1, m2)
                n[m] = n.get(m, 0) + c1 * c2 * k
        r = n
        # positive integer powers of parenthesised sums expand
        if any(a.op == "par" and e >= 1 for m in r for a, e in m):
            r = _expand_par(r)
    return from_terms(r)


def _expand_par(r):
    out = {}
    for m, c in r.items():
        ps = [(a, e) for a, e in m if a.op == "par" and e >= 1]
        if not ps:
            out[m] = out.get(m, 0) + c
            continue
        a, e = ps[0]
        k = e.numerator // e.denominator
        rest = tuple((b, f) for b, f in m if b is not a)
        if e - k:
            rest = tuple(sorted(rest + ((a, e - k),), key=lambda x: x[0].key))
        x = from_terms({rest: c})
        for _ in range(k):
            x = mul(x, a.args[0])
        for mm, cc in terms(x).items():
            out[mm] = out.get(mm, 0) + cc
    return out


def _root(f, q):
    """exact q-th root of a positive Fraction or None"""

    def ir(n):
        r = round(n ** (1.0 / q))
        for k in (r - 1, r, r + 1):
            if k >= 0 and k**q == n:
                return k
        return None

    a, b = ir(f.numerator), ir(f.denominator)
    return Fraction(a, b) if a is not None and b is not None else None


def power(a, e):
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return a
    t = terms(a)
    if not t:
        return ZERO if e > 0 else mk("sym", "inf", pos=True)
    if e.denominator == 1 and e > 0 and len(t) > 1:
        r = ONE
        for _ in range(int(e)):
            r = mul(r, a)
        return r
    if len(t) == 1:
        (m, c), = t.items()
        if e.denominator == 1:
            mm = tuple((x, k * e) for x, k in m)
            mm, k = _mono_mul(mm, ())
            x = from_terms({mm: k * Fraction(c) ** int(e)})
            if any(q.op == "par" and w >= 1 for q, w in mm):
                x = mul(x, ONE)
            return x
        # fractional exponent
        out = ONE
        rest = {}
        for x, k in m:
            if x.pos:
                if x.op == "par" or True:
                    mm, kk = _mono_mul(((x, k * e),), ())
                    out = mul(out, from_terms({mm: kk}))
            elif k.denominator == 1 and k % 2 == 0:
                ab = absval(x)
                mm, kk = _mono_mul(((ab, k * e),), ())
                out = mul(out, from_terms({mm: kk}))
            else:
                rest[x] = k
        if c < 0:
            inner = -1
        else:
            inner = 1
        c = abs(c)
        if c != 1:
            r = _root(Fraction(c), e.denominator)
            if r is not None:
                out = mulc(out, r ** e.numerator)
            else:
                # sqrt(p/q) = sqrt(p q)/q
                base = c
                den = Fraction(1)
                mm, kk = _mono_mul(((num(Fraction(base.numerator * base.denominator)), e),), ())
                if e.denominator == 2:
                    out = mul(out, from_terms({mm: kk}), num(Fraction(1, base.denominator) ** e.numerator))
                else:
                    mm, kk = _mono_mul(((num(base), e),), ())
                    out = mul(out, from_terms({mm: kk}))
        if not rest and inner == 1:
            return out
        core = from_terms({tuple(sorted(rest.items(), key=lambda x: x[0].key)): Fraction(inner)})
        if core.op not in ("poly", "num"):
            return mul(out, from_terms({((core, e),): Fraction(1)}))
        return mul(out, from_terms({((par(core), e),): Fraction(1)}))
    # several terms, negative or fractional exponent
    cm, prim = content(t)
    pw = mk_mono_power(cm, e)
    if pw is None:
        cc = abs(cm[1])
        pw = power(num(cc), e)
        prim = from_terms({m: c / cc for m, c in t.items()})
    return mul(pw, from_terms({((par(prim), e),): Fraction(1)}))


def mk_mono_power(cm, e):
    m, c = cm
    if e.denominator != 1:
        if c < 0 or not all(a.pos for a, _ in m):
            return None
    r = power(num(c), e)
    for a, k in m:
        mm, kk = _mono_mul(((a, k * e),), ())
        r = mul(r, from_terms({mm: kk}))
    return r


def par(p):
    return mk("par", p, pos=p.pos)


def content(t, ok=lambda a: True):
    """((monomial, coef) common factor, primitive part)"""
    items = list(t.items())
    common = None
    for m, c in items:
        d = {a: e for a, e in m if ok(a)}
        if common is None:
            common = d
        else:
            common = {a: min(e, d[a]) for a, e in common.items() if a in d}
    common = {a: e for a, e in (common or {}).items() if e != 0 and a.op != "num"}
    from math import gcd

    g = 0
    l = 1
    for m, c in items:
        g = gcd(g, abs(c.numerator))
        l = l * c.denominator // gcd(l, c.denominator)
    cf = Fraction(g, l) if g else Fraction(1)
    lead = min(items, key=lambda x: (_smkey(x[0]), _mkey(x[0])))
    if lead[1] < 0:
        cf = -cf
    inv = tuple((a, -e) for a, e in common.items())
    prim = {}
    for m, c in items:
        mm, k = _mono_mul(m, inv)
        prim[mm] = prim.get(mm, 0) + c * k / cf
    cm = tuple(sorted(common.items(), key=lambda x: x[0].key))
    return (cm, cf), from_terms(prim)


def div(a, b):
    return mul(a, power(b, -1))


def sqrt(a):
    return power(a, Fraction(1, 2))


def absval(a):
    if a.op == "num":
        return num(abs(a.args[0]))
    if a.pos:
        return a
    t = terms(a)
    if len(t) == 1:
        (m, c), = t.items()
        if abs(c) != 1 or len(m) > 1:
            r = num(abs(c))
            for x, e in m:
                if x.pos:
                    r = mul(r, from_terms({((x, e),): Fraction(1)}))
                elif e.denominator == 1:
                    r = mul(r, from_terms({((mk("fn", "abs", x), e),): Fraction(1)}))
                else:
                    r = mul(r, mk("fn", "abs", from_terms({((x, e),): Fraction(1)})))
            return r
    if leadneg(a):
        a = neg(a)
    return mk("fn", "abs", a)


# ------------------------------------------------------------------ functions
ODD = {"sin", "tan", "arctan", "sinh", "tanh", "erf", "erfinv"}
EVEN = {"cos", "cosh", "pdf_norm", "pdf_laplace", "pdf_t", "pdf_logistic", "pdf_cauchy"}


def powern(base, n):
    """base to a symbolic integer power"""
    if isnum(n) and val(n).denominator == 1:
        return power(base, val(n))
    if base is ONE:
        return ONE
    t = terms(base)
    if len(t) == 1:
        (m, c), = t.items()
        if m and (c != 1 or len(m) > 1 or m[0][1] != 1):
            out = powern(num(c), n)
            for a, e in m:
                out = mul(out, power(mk("fn", "power", a, n, pos=a.pos), e))
            return out
    return mk("fn", "power", base, n, pos=base.pos)


def fn(name, *args):
    if name == "power" and args[1].isint:
        return powern(*args)
    if name == "abs":
        return absval(args[0])
    if name == "sqrt":
        return sqrt(args[0])
    if name == "exp" and args[0] is ZERO:
        return ONE
    if name == "exp" and args[0].op == "fn" and args[0].args[0] == "log":
        return args[0].args[1]
    if name == "pdf_uniform" and isnum(args[0]):
        return ONE if 0 <= val(args[0]) <= 1 else ZERO
    if name == "log":
        a = args[0]
        if a is ZERO:
            return num(float("-inf"))
        if a is ONE:
            return ZERO
        if a.op == "fn" and a.args[0] == "exp":
            return a.args[1]
        if a.op == "fn" and a.args[0] == "power":
            return mul(a.args[2], fn("log", a.args[1]))
        t = terms(a)
        if len(t) == 1:
            (m, c), = t.items()
            if len(m) > 1 or (m and (m[0][1] != 1)):
                # log of a product of densities: split (positive arguments assumed
                # wherever a logarithm is taken)
                r = fn("log", num(c)) if c != 1 else ZERO
                for x, e in m:
                    r = add(r, mulc(fn("log", x), e))
                return r
            if len(m) == 1 and m[0][0].op == "red" and m[0][0].args[0] == "prod" and c == 1 and m[0][1] == 1:
                return _red_open(m[0][0], lambda idx, b: sum_(idx, fn("log", b)))
    if name in ("sin", "arctan", "erf", "erfinv", "tanh", "sinh", "tan"):
        if args[0] is ZERO:
            return ZERO
        if leadneg(args[0]):
            return neg(mk("fn", name, neg(args[0])))
    if name in EVEN:
        if leadneg(args[0]):
            return mk("fn", name, neg(args[0]), *args[1:])
    if name in ("max2", "min2"):
        a, b = args
        if a is b:
            return a
        if isnum(a) and isnum(b):
            return (a if val(a) >= val(b) else b) if name == "max2" else (a if val(a) <= val(b) else b)
        r = compare("<", a, b)
        if r is TRUE:
            return b if name == "max2" else a
        r2 = compare("<", b, a)
        if r2 is TRUE:
            return a if name == "max2" else b
        if b.key < a.key:
            a, b = b, a
        return mk("fn", name, a, b, isint=a.isint and b.isint)
    if name == "floordiv":
        return divmod_(*args)[0]
    if name == "mod":
        return divmod_(*args)[1]
    if name == "conj":
        return args[0]
    return mk("fn", name, *args, pos=name in ("exp",))


def _top(a):
    """largest value of an index-like non-negative integer, or None"""
    if a.op == "idx":
        return sub(a.args[-1], ONE)
    if a.op == "fn" and a.args[0] == "mod" and a.isint and _low(a.args[1]):
        return sub(a.args[2], ONE)
    if a.op == "fn" and a.args[0] == "floordiv" and a.args[2].isint and _low(a.args[1]):
        hi = _bound(a.args[1], True)
        if hi is not None:
            q = div(add(hi, ONE), a.args[2])
            if q.isint:
                return sub(q, ONE)
    return None


def _low(x):
    lo = _bound(x, False)
    return lo is not None and lt0(lo) is FALSE


def _bound(p, hi):
    """largest (hi) / smallest value of a polynomial in non-negative index
    variables and sizes, or None"""
    out = ZERO
    for m, c in terms(p).items():
        tops = {}
        for a, e in m:
            if not (e.denominator == 1 and e > 0):
                return None
            if a in DIMS:
                continue
            tops[a] = _top(a)
            if tops[a] is None:
                return None
        x = num(c)
        if tops and (c > 0) != hi:
            continue
        for a, e in m:
            x = mul(x, power(tops.get(a, a), e))
        out = add(out, x)
    return out


def divmod_(a, b):
    """floor division and remainder"""
    if isnum(a) and isnum(b) and val(b) != 0:
        return num(Fraction(val(a) // val(b))), num(val(a) % val(b))
    if b is ONE and a.isint:
        return a, ZERO
    if a.isint and b.isint:
        q, r = ZERO, ZERO
        for m, c in terms(a).items():
            t = from_terms({m: c})
            d = div(t, b)
            if d.isint:
                q = add(q, d)
            else:
                r = add(r, t)
        if r is ZERO:
            return q, ZERO
        lo, hi = _bound(r, False), _bound(r, True)
        if lo is not None and hi is not None and lt0(lo) is FALSE and lt0(sub(hi, b)) is TRUE:
            return q, r
        if not HASMOD:
            HASMOD.append(True)
        return add(q, mk("fn", "floordiv", r, b, isint=True)), mk("fn", "mod", r, b, isint=True)
    return mk("fn", "floordiv", a, b, isint=True), mk("fn", "mod", a, b, isint=a.isint and b.isint)


def delta(a, b):
    if a is b:
        return ONE
    d = sub(a, b)
    if isnum(d):
        return ONE if val(d) == 0 else ZERO
    if b.key < a.key:
        a, b = b, a
    return mk("delta", a, b)


def b2n(c):
    """0/1 value of a condition"""
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    if c.op == "not":
        return sub(ONE, b2n(c.args[0]))
    return mk("b2n", c)


# ------------------------------------------------------------------ booleans
def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    return mk("not", c)


def and_(*cs):
    s = {}
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        for x in c.args if c.op == "and" else (c,):
            s[x] = 1
    for x in list(s):
        if not_(x) in s:
            return FALSE
    # unit propagation inside conjunctions
    lits = [x for x in s if x.op != "not" or x.args[0].op != "and"]
    m = {}
    for x in lits:
        if x.op == "not":
            m[x.args[0]] = FALSE
        else:
            m[x] = TRUE
    for x in list(s):
        if x.op == "not" and x.args[0].op == "and":
            ys = [y for y in x.args[0].args if not (y in s)]
            if any(not_(y) in s for y in ys):
                del s[x]
                continue
            if len(ys) < len(x.args[0].args):
                del s[x]
                return and_(*(list(s) + [not_(and_(*ys))]))
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s))
    return mk("and", *sorted(s, key=lambda x: x.key))


def or_(*cs):
    return not_(and_(*[not_(c) for c in cs]))


def isbool(n):
    return n.op in ("true", "false", "not", "and") or n.op in COND_OPS


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if isbool(a) and isbool(b):
        return or_(and_(c, a), and_(not_(c), b))
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if c.op == "eq0":
        for u in sorted(_fidx(c), key=lambda k: k.key):
            v = solve(c.args[0], u)
            if v is not None:
                if subst(b, {u: v}) is subst(a, {u: v}):
                    return b
                break
    return mk("ite", c, a, b, isint=a.isint and b.isint, pos=a.pos and b.pos)


def _posnorm(p):
    """divide by positive content (keeps sign of p)"""
    t = terms(p)
    if not t:
        return p
    (m, c), _ = content(t, ok=lambda a: a.pos)
    if not m and abs(c) == 1:
        return p
    inv = tuple((a, -e) for a, e in m)
    out = {}
    for mm, k in t.items():
        q, w = _mono_mul(mm, inv)
        out[q] = out.get(q, 0) + k * w / abs(c)
    return from_terms(out)


BOUNDS = {}  # sym -> lower bound assumptions are encoded by dims > 1


def _linear_dims(p):
    """p = c + sum c_d d over dims only, or None"""
    t = terms(p)
    c0 = Fraction(0)
    ds = {}
    for m, c in t.items():
        if not m:
            c0 = c
        elif all(a in DIMS and e.denominator == 1 and e > 0 for a, e in m):
            ds[m] = c
        else:
            return None
    return c0, ds


def lt0(p):
    """p < 0"""
    if isnum(p):
        return TRUE if val(p) < 0 else FALSE
    if p.pos:
        return FALSE
    if neg(p).pos:
        return TRUE
    sg = _atleast(p)
    if sg is not None:
        return sg
    ld = _linear_dims(p)
    if ld is not None:
        c0, ds = ld
        if all(c > 0 for c in ds.values()):
            # every dimension is at least two
            lo = c0 + sum(c * 2 ** sum(e for _, e in m) for m, c in ds.items())
            if lo >= 0:
                return FALSE
        if all(c < 0 for c in ds.values()):
            hi = c0 + sum(c * 2 ** sum(e for _, e in m) for m, c in ds.items())
            if hi < 0:
                return TRUE
    r = _idx_sign(p)
    if r is not None:
        return r
    p = _posnorm(p)
    if p.isint:
        # p < 0  <=>  not (-p-1 < 0)
        q = sub(neg(p), ONE)
        if q.key < p.key:
            return not_(mk("lt0", q))
    return mk("lt0", p)


def _atleast(p):
    """a constant plus squares, magnitudes and positive terms, or the negative of that"""
    t = terms(p)
    if len(t) < 2 or not t.get(()):
        return None
    up = t[()] > 0
    for m, c in t.items():
        if m and ((c > 0) != up or not all(a.pos or e.denominator == 1 and e % 2 == 0 or a.op == "fn" and a.args[0] == "abs" for a, e in m)):
            return None
    return FALSE if up else TRUE


def _isperm(a):
    """entry of a reordering of 0 .. n-1"""
    return a.op == "elem" and a.args[0].op == "asym" and "perm" in a.args[0].args[2]


def _idx_sign(p):
    """sign of p when it is an index variable plus simple bounds: 0 <= idx < dim"""
    t = terms(p)
    lo = Fraction(0)
    idxs = [m for m in t if len(m) == 1 and (m[0][0].op == "idx" or _isperm(m[0][0])) and m[0][1] == 1]
    if not idxs:
        return None
    # lower bound: replace +c*idx by 0 and -c*idx by -(dim-1)
    low, high = p, p
    for m in idxs:
        i = m[0][0]
        c = t[m]
        d1 = sub(i.args[0].args[1][0] if i.op == "elem" else i.args[-1], ONE)
        if c > 0:
            low = sub(low, mulc(i, c))
            high = add(sub(high, mulc(i, c)), mulc(d1, c))
        else:
            low = add(sub(low, mulc(i, c)), mulc(d1, c))
            high = sub(high, mulc(i, c))
    if not any(k.op == "idx" for k in low.mk) and not low.bv:
        if low is not p and (isnum(low) or _linear_dims(low) is not None):
            if lt0(low) is FALSE:
                return FALSE
    if not any(k.op == "idx" for k in high.mk) and not high.bv:
        if high is not p and (isnum(high) or _linear_dims(high) is not None):
            if lt0(high) is TRUE:
                return TRUE
    return None


RELIED = None  # differences of sizes taken to be nonzero, while a comparison of the analysed code is decided


def eq0(p):
    if isnum(p):
        return TRUE if val(p) == 0 else FALSE
    if p.pos or neg(p).pos:
        return FALSE
    ld = _linear_dims(p)
    if ld is not None:
        if RELIED is not None:
            RELIED.add(p)
        return FALSE  # symbolic sizes are generic: different from each other and constants
    t = terms(p)
    if p.isint:
        r = lt0(p)
        if r is TRUE:
            return FALSE
        r = lt0(neg(p))
        if r is TRUE:
            return FALSE
    (m, c), prim = content(t, ok=lambda a: a.pos)
    return mk("eq0", prim)


def ninf(x):
    """x is minus infinity: logarithms of zero among the summands; every other value is finite"""
    if x.op == "sym":
        return FALSE
    if x.op == "ite":
        return or_(and_(x.args[0], ninf(x.args[1])), and_(not_(x.args[0]), ninf(x.args[2])))
    out = []
    for m, c in terms(x).items():
        if len(m) != 1 or m[0][1] != 1:
            if any(_haslog(a) and not (a.op == "fn" and a.args[0] == "log" and eq0(a.args[1]) is FALSE) for a, e in m):
                return cnd("ninf", x)
            continue
        a = m[0][0]
        if a.op == "sym" and a.args[0] == "inf":
            if c > 0:
                return cnd("ninf", x)
            out.append(TRUE)
        elif a.op == "fn" and a.args[0] == "log":
            r = eq0(a.args[1])
            if c < 0 and r is not FALSE:
                return cnd("ninf", x)
            out.append(r)
        elif a.op == "red" and a.args[0] in ("sum", "max", "min"):
            idx, b = open_binder(a)
            r = ninf(b)
            if r is not FALSE:
                if c < 0 or r.op == "cnd":
                    return cnd("ninf", x)
                out.append(not_(any_(idx, not_(r))) if a.args[0] == "max" else any_(idx, r))
        elif a.op in ("ite", "par"):
            if c < 0 and _haslog(a):
                return cnd("ninf", x)
            out.append(ninf(a.args[0] if a.op == "par" else a))
        elif _haslog(a) and a.op == "sum":
            idx, b = open_binder(a)
            r = ninf(b)
            if c < 0 or r.op == "cnd":
                return cnd("ninf", x)
            out.append(any_(idx, r))
    return or_(*out) if out else FALSE


def _haslog(n, seen=None):
    seen = {} if seen is None else seen
    if n in seen:
        return seen[n]
    seen[n] = False
    r = n.op == "fn" and n.args[0] == "log" and not isnum(n.args[1])
    if not r:
        def kids(xs):
            for y in xs:
                if isinstance(y, Node):
                    yield y
                elif isinstance(y, tuple):
                    yield from kids(y)
        r = any(_haslog(y, seen) for y in kids(n.args))
    seen[n] = r
    return r


NINF = []


def compare(op, a, b):
    if not NINF:
        NINF.append(num(float("-inf")))
    if a is NINF[0] or b is NINF[0]:
        if a is not NINF[0]:
            r = ninf(a)
            return {"==": r, "<=": r, "!=": not_(r), ">": not_(r), "<": FALSE, ">=": TRUE}[op]
        if b is not NINF[0]:
            return compare({"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op), b, a)
    d = sub(a, b)
    if op == "<":
        return lt0(d)
    if op == ">":
        return lt0(neg(d))
    if op == "<=":
        return not_(lt0(neg(d)))
    if op == ">=":
        return not_(lt0(d))
    if op == "==":
        return eq0(d)
    if op == "!=":
        return not_(eq0(d))
    raise ValueError(op)


def eqv(a, b):
    """equality of non-numeric values"""
    if a is b:
        return TRUE
    if a.op == "str" and b.op == "str":
        return FALSE
    if {a.op, b.op} <= {"str", "none", "num", "true", "false"}:
        return FALSE
    if b.key < a.key:
        a, b = b, a
    return mk("eqv", a, b)


def cnd(name, *args, opq=False):
    return mk("cnd", name, *args, opq=opq)


# ------------------------------------------------------------------ binders
def _num_dims(d):
    return d.op == "num" and val(d).denominator == 1 and 0 <= val(d) <= 6


def sum_(idxs, body):
    """sum over fresh index variables"""
    todo = []
    for i in idxs:
        d = i.args[-1]
        if _num_dims(d):
            body = add(*[subst(body, {i: num(k)}) for k in range(int(val(d)))])
        else:
            todo.append(i)
    if not todo:
        return body
    out = ZERO
    for m, c in terms(masked(body, frozenset(todo))).items():
        out = add(out, mulc(_sum_mono(tuple(todo), m), c))
    return out


def _total(n):
    """defined everywhere: safe to multiply by zero"""
    if n.op == "poly":
        return all(e > 0 and _total(a) for m, _ in n.args for a, e in m)
    if n.op == "par":
        return _total(n.args[0])
    return n.op in ("num", "sym", "elem", "idx", "delta", "b2n", "sum")


def masked(n, todo, depth=0):
    """choices made index by index written as products with 0/1 factors"""
    if n.op == "ite" and depth < 6 and n.args[0].mk & todo:
        a, b = masked(n.args[1], todo, depth + 1), masked(n.args[2], todo, depth + 1)
        if _total(a) and _total(b):
            return add(b, mul(b2n(n.args[0]), sub(a, b)))
        return n
    if n.op == "poly" and any(a.op == "ite" and e == 1 and a.args[0].mk & todo for m, _ in n.args for a, e in m):
        out = ZERO
        for m, c in n.args:
            t = num(c)
            for a, e in m:
                t = mul(t, masked(a, todo, depth + 1) if e == 1 else _pw(a, e))
            out = add(out, t)
        return out
    return n


def solve(p, i):
    """value of i making p zero, for p linear in i with coefficient one or minus one"""
    if i not in p.mk:
        return None
    t = terms(p)
    c = None
    for mm, v in t.items():
        if len(mm) == 1 and mm[0][0] is i and mm[0][1] == 1:
            c = v
        elif any(i in x.mk for x, _ in mm):
            return None
    if c is None or abs(c) != 1:
        return None
    return mulc(sub(p, mulc(i, c)), -1 / c)


def _fidx(n):
    return {k for k in n.mk if k.op == "idx"}


def _sum_mono(idxs, m):
    idxs = list(idxs)
    factors = []  # (node, exp)
    changed = True
    factors = list(m)
    # flatten nested sums and remove deltas
    while changed:
        changed = False
        S = set(idxs)
        for n, (a, e) in enumerate(factors):
            fi = _fidx(a)
            if a.op == "delta" and fi & S:
                x, y = a.args
                for u, v in ((x, y), (y, x)):
                    if u in S and u not in v.mk:
                        rest = factors[:n] + factors[n + 1 :]
                        body = ONE
                        for b, f in rest:
                            body = mul(body, _pw(b, f))
                        body = subst(body, {u: v})
                        idxs.remove(u)
                        if v.op != "idx":
                            body = mul(body, b2n(and_(not_(lt0(v)), compare("<", v, u.args[-1]))))
                        return sum_(idxs, body)
            if a.op == "b2n" and fi & S and e.denominator == 1 and e > 0:
                cs = a.args[0].args if a.args[0].op == "and" else (a.args[0],)
                for c in cs:
                    if c.op != "eq0":
                        continue
                    for u in idxs:
                        v = solve(c.args[0], u)
                        if v is None:
                            continue
                        body = b2n(and_(*[x for x in cs if x is not c]))
                        for b, f in factors[:n] + factors[n + 1 :]:
                            body = mul(body, _pw(b, f))
                        body = subst(body, {u: v})
                        idxs.remove(u)
                        body = mul(body, b2n(and_(not_(lt0(v)), compare("<", v, u.args[-1]))))
                        return sum_(idxs, body)
            if a.op == "sum" and fi & S and e.denominator == 1 and e > 0:
                fs, ids = [], []
                for _ in range(int(e)):
                    di, b = open_binder(a)
                    ids += di
                    (mm, cc), = terms(b).items()
                    fs.append((mm, cc))
                coef = Fraction(1)
                new = factors[:n] + factors[n + 1 :]
                mono = tuple(new)
                for mm, cc in fs:
                    mono, k = _mono_mul(mono, mm)
                    coef *= cc * k
                return mulc(_sum_mono(tuple(idxs) + tuple(ids), mono), coef)
    S = set(idxs)
    dep = [(a, e) for a, e in factors if _fidx(a) & S]
    ind = [(a, e) for a, e in factors if not (_fidx(a) & S)]
    out = ONE
    for a, e in ind:
        out = mul(out, _pw(a, e))
    used = set()
    for a, _ in dep:
        used |= _fidx(a) & S
    for i in idxs:
        if i not in used:
            out = mul(out, i.args[-1])
    # connected components
    comps = []
    for a, e in dep:
        s = _fidx(a) & S
        hit = [c for c in comps if c[0] & s]
        for c in hit:
            comps.remove(c)
        ns = set(s)
        fs = [(a, e)]
        for c in hit:
            ns |= c[0]
            fs += c[1]
        comps.append((ns, fs))
    for s, fs in comps:
        out = mul(out, _close_sum(s, fs))
    return out


def _pw(a, e):
    return from_terms({((a, e),): Fraction(1)}) if e != 1 else a


def unshuffle(idxs, body):
    """an order-insensitive reduction over all reordered positions is one over all positions"""
    idxs = list(idxs)
    for k in range(len(idxs)):
        while True:
            i = idxs[k]
            seen = {}

            def find(x):
                if i not in x.mk or x in seen:
                    return
                seen[x] = 1
                for y in _children(x.args):
                    find(y)

            find(body)
            for q in [x for x in seen if _isperm(x) and x.args[1] is i and x.args[0].args[1][0] is i.args[-1]]:
                j = fresh(i.args[-1])
                b = replace(body, q, j)
                if i not in b.mk:
                    body = b
                    idxs[k] = j
                    break
            else:
                break
    return idxs, body


def replace(n, a, b):
    """replace the exact subterm a (not under binders that capture)"""
    memo = {}

    def go(x):
        if x is a:
            return b
        r = memo.get(x)
        if r is not None:
            return r
        if not (a.mk <= x.mk):
            return x
        if x.op == "poly":
            r = ZERO
            for mono, c in x.args:
                y = num(c)
                for f, e in mono:
                    z = go(f)
                    y = mul(y, power(z, e) if z is not f else _pw(f, e))
                r = add(r, y)
        elif x.op in ("sym", "asym", "idx"):
            r = x
        elif x.op in BINDERS:
            if x.op == "lam":
                bs, body = x.args
                fr = [fresh(i.args[-1]) for i in bs]
                mm = dict(zip(bs, fr))
                if body.op == "cells":
                    r = _lam_cells(body.args[0], fr, [go(subst(c, mm)) for c in body.args[1:]])
                else:
                    r = lam(Arr([f.args[-1] for f in fr], fr, go(subst(body, mm))))
            else:
                ii, bb = open_binder(x)
                nb = go(bb)
                if nb is bb:
                    r = x
                elif x.op == "sum":
                    r = sum_(ii, nb)
                elif x.op == "red":
                    r = red(x.args[0], ii, nb)
                elif x.op == "any":
                    r = any_(ii, nb)
                else:
                    r = close_map(x.op, ii[0], nb)
        else:
            args = tuple(_go(y) for y in x.args)
            r = rebuild(x.op, args, x) if args != x.args else x
        memo[x] = r
        return r

    def _go(y):
        return go(y) if isinstance(y, Node) else tuple(_go(z) for z in y) if isinstance(y, tuple) else y

    return go(n)


PERMS = set()
SIZES = {}  # sizes of the arrays a client makes


def _close_sum(s, fs):
    body = ONE
    for a, e in fs:
        body = mul(body, _pw(a, e))
    if PERMS and body.mk & PERMS:
        s2, b2 = unshuffle(sorted(s, key=lambda i: i.key), body)
        if b2 is not body:
            return sum_(s2, b2)
    # linear index sums have a closed form: sum_k k = n(n-1)/2
    if len(s) == 1 and len(fs) == 1 and fs[0][0] in s and fs[0][1] == 1:
        d = fs[0][0].args[-1]
        return mulc(mul(d, sub(d, ONE)), Fraction(1, 2))
    tt = terms(body)
    if len(tt) != 1:
        return sum_(sorted(s, key=lambda i: i.key), body)
    idx, nb = canon_bound(list(s), body)
    return mk("sum", idx, nb, pos=body.pos)


_MARK = {}


def _marker(k, d):
    return mk("idx", "m", k, d, isint=True)


def canon_bound(idxs, body):
    """rename fresh idxs in body to canonical bound names; order chosen canonically"""
    h = body.h + 1
    if len(idxs) == 1:
        b = mk("idx", "b", h, 0, idxs[0].args[-1], isint=True)
        return (b,), subst(body, {idxs[0]: b})
    # colour refinement
    cols = {}
    for i in idxs:
        m = {j: _marker(0, j.args[-1]) for j in idxs}
        m[i] = _marker(1, i.args[-1])
        cols[i] = subst(body, m).key + i.args[-1].key
    for _ in range(2):
        groups = sorted(set(cols.values()))
        if len(groups) == len(idxs):
            break
        rank = {c: n for n, c in enumerate(groups)}
        new = {}
        for i in idxs:
            m = {j: _marker(2 + rank[cols[j]], j.args[-1]) for j in idxs}
            m[i] = _marker(1, i.args[-1])
            new[i] = cols[i] + subst(body, m).key
        cols = new
    classes = {}
    for i in idxs:
        classes.setdefault(cols[i], []).append(i)
    order = sorted(classes)
    best = None
    perms = 1
    for c in order:
        for k in range(2, len(classes[c]) + 1):
            perms *= k
    gens = [list(permutations(classes[c])) if perms <= 720 else [tuple(classes[c])] for c in order]
    for combo in product(*gens):
        seq = [i for grp in combo for i in grp]
        bs = tuple(mk("idx", "b", h, n, i.args[-1], isint=True) for n, i in enumerate(seq))
        nb = subst(body, dict(zip(seq, bs)))
        if best is None or nb.key < best[1].key:
            best = (bs, nb)
    return best


def open_binder(n):
    """fresh indices and body of a sum/red/lam/any node"""
    if n.op == "red":
        idx, body = n.args[1], n.args[2]
    else:
        idx, body = n.args[0], n.args[1]
    fr = []
    m = {}
    for i in idx:
        d = subst(i.args[-1], m) if m else i.args[-1]
        f = fresh(d)
        m[i] = f
        fr.append(f)
    return fr, subst(body, m)


def _red_open(n, f):
    idx, b = open_binder(n)
    return f(idx, b)


def red(kind, idxs, body):
    """prod / max / min / any / all / argmax / argmin / other reductions"""
    if kind == "sum":
        return sum_(idxs, body)
    if kind == "all":
        return not_(red("any", idxs, not_(body)))
    if kind == "any":
        return any_(idxs, body)
    if kind == "prod":
        todo = []
        for i in idxs:
            d = i.args[-1]
            if _num_dims(d):
                body = mul(*[subst(body, {i: num(k)}) for k in range(int(val(d)))]) if val(d) else ONE
            else:
                todo.append(i)
        if not todo:
            return body
        idxs = todo
        t = terms(body)
        if len(t) == 1:
            (m, c), = t.items()
            cnt = ONE
            for i in idxs:
                cnt = mul(cnt, i.args[-1])
            if not m:
                return ONE if c == 1 else powern(num(c), cnt)
            out = ONE
            if c != 1:
                out = powern(num(c), cnt)
            S = set(idxs)
            for a, e in m:
                if not (_fidx(a) & S):
                    out = mul(out, powern(_pw(a, e), cnt))
                elif a.op == "red" and a.args[0] == "prod" and e == 1:
                    ii, bb = open_binder(a)
                    out = mul(out, _close_red("prod", list(idxs) + ii, bb))
                else:
                    out = mul(out, _close_red("prod", idxs, _pw(a, e)))
            return out
        return _close_red("prod", idxs, body)
    if kind in ("max", "min"):
        todo = []
        for i in idxs:
            d = i.args[-1]
            if _num_dims(d) and val(d) > 0:
                vs = [subst(body, {i: num(k)}) for k in range(int(val(d)))]
                r = vs[0]
                for v in vs[1:]:
                    r = fn(kind + "2", r, v)
                body = r
            else:
                todo.append(i)
        if not todo:
            return body
        if not (_fidx(body) & set(todo)):
            return body
        todo = [i for i in todo if i in body.mk]
        return _close_red(kind, todo, body)
    if kind == "argmin":
        return red("argmax", idxs, neg(body))
    if kind == "argmax":
        if len(idxs) == 1 and idxs[0].args[-1] is ONE:
            return ZERO
        # positive factors common to all entries do not matter
        t = terms(body)
        S = set(idxs)
        if t:
            (m, c), prim = content(t, ok=lambda a: a.pos and not (_fidx(a) & S))
            body = prim if c > 0 else neg(prim)
        # increasing functions of the entries do not matter either
        down = False
        while True:
            if body.op == "poly" and len(body.args) == 1:
                (m, c) = body.args[0]
                if c < 0:
                    down = not down
                    body = neg(body)
                    continue
                if len(m) == 1 and m[0][1] > 0 and m[0][1].denominator != 1 and m[0][1].denominator % 2 == 0:
                    body = m[0][0].args[0] if m[0][0].op == "par" else m[0][0]
                    continue
            if body.op == "fn" and body.args[0] == "exp":
                body = body.args[1]
                continue
            break
        if down:
            body = neg(body)
        return _close_red(kind, idxs, body, ordered=True)
    return _close_red(kind, idxs, body, ordered=True)


def _close_red(kind, idxs, body, ordered=False):
    if PERMS and not ordered and body.mk & PERMS:
        s2, b2 = unshuffle(idxs, body)
        if b2 is not body:
            return red(kind, s2, b2)
    if ordered:
        h = body.h + 1
        bs = tuple(mk("idx", "b", h, n, i.args[-1], isint=True) for n, i in enumerate(idxs))
        nb = subst(body, dict(zip(idxs, bs)))
    else:
        bs, nb = canon_bound(list(idxs), body)
    isint = kind in ("argmax", "argmin", "count") or (kind in ("max", "min", "prod") and body.isint)
    return mk("red", kind, bs, nb, pos=body.pos and kind in ("prod", "max", "min"), isint=isint)


def any_(idxs, body):
    todo = []
    for i in idxs:
        d = i.args[-1]
        if _num_dims(d):
            body = or_(*[subst(body, {i: num(k)}) for k in range(int(val(d)))])
        else:
            todo.append(i)
    todo = [i for i in todo if i in body.mk]
    if not todo:
        return body
    if body in (TRUE, FALSE):
        return body
    # any distributes over or; independent conjuncts move out
    if body.op == "not" and body.args[0].op == "and":
        return or_(*[any_(todo, not_(x)) for x in body.args[0].args])
    if body.op == "and":
        S = set(todo)
        ind = [x for x in body.args if not (_fidx(x) & S)]
        dep = [x for x in body.args if _fidx(x) & S]
        if ind:
            return and_(*(ind + [any_(todo, and_(*dep))]))
    if body.op == "any":
        ii, bb = open_binder(body)
        return any_(todo + ii, bb)
    if PERMS and body.mk & PERMS:
        s2, b2 = unshuffle(todo, body)
        if b2 is not body:
            return any_(s2, b2)
    bs, nb = canon_bound(todo, body)
    return mk("any", bs, nb)


# ------------------------------------------------------------------ arrays
class Arr:
    """dims (nodes), idx (fresh index nodes), body (node)"""

    __slots__ = ("dims", "idx", "body", "kind")

    def __init__(self, dims, idx, body, kind=None):
        self.dims = tuple(dims)
        self.idx = tuple(idx)
        self.body = body
        self.kind = kind  # 'bool' for boolean arrays

    @property
    def ndim(self):
        return len(self.dims)

    def at(self, ix):
        m = {}
        for i, x in zip(self.idx, ix):
            if i is not x:
                m[i] = x
        return subst(self.body, m) if m else self.body

    def __repr__(self):
        return "Arr%s" % show(lam(self))


def build(dims, f, kind=None):
    idx = [ZERO if d is ONE else fresh(d) for d in dims]
    body = f(*idx)
    idx2 = [fresh(d) if d is ONE else i for d, i in zip(dims, idx)]
    return Arr(dims, idx2, body, kind)


def scalar(n):
    return Arr((), (), n, "bool" if isbool(n) else None)


def truncate(v):
    """an integer array stores the integer part"""
    if v.isint or isbool(v):
        return v
    if isnum(v):
        return num(int(val(v)))
    if v.op == "ite":
        return ite(v.args[0], truncate(v.args[1]), truncate(v.args[2]))
    if v.op == "elem" and (v.args[0].op == "uninit" or v.args[0].op == "asym" and str(v.args[0].args[0]).startswith("carry")):
        return v
    return mk("fn", "trunc", v, isint=True, opq=v.opq)


def asym(name, dims, flags=()):
    return mk("asym", name, tuple(dims), tuple(flags))


def elem(base, *ix):
    """element of an array-valued term"""
    if base.op == "lam":
        return lam_at(base, ix)
    if base.op == "asym" and "symm" in base.args[2] and len(ix) == 2:
        ix = tuple(sorted(ix, key=lambda x: x.key))
    if base.op == "inv" or base.op == "pinv":
        return _inv_elem(base, ix)
    pos = base.op == "asym" and "pos" in base.args[2]
    isint = base.op == "asym" and ("int" in base.args[2] or "integer" in base.args[2])
    return mk("elem", base, *ix, pos=pos, isint=isint)


def _inv_elem(base, ix):
    m = base.args[0]
    if base.args[1] == "s":
        ix = tuple(sorted(ix, key=lambda x: x.key))
    return mk("elem", base, *ix)


def _symmetric(base):
    return (base.op in ("inv", "pinv") and base.args[1] == "s") or (base.op == "asym" and "symm" in base.args[2])


def arr_of(base, dims, kind=None):
    return build(dims, lambda *i: elem(base, *i), kind)


def lam(a):
    """closed canonical form of an array"""
    if not a.dims:
        return a.body
    numax = [k for k, d in enumerate(a.dims) if d.op == "num" and val(d).denominator == 1 and 0 <= val(d) <= 16]
    sizes = 1
    for k in numax:
        sizes *= int(val(a.dims[k]))
    if sizes > 64:
        numax = [k for k in numax if a.dims[k] is ONE]
    others = [k for k in range(len(a.dims)) if k not in numax]
    ranges = [range(int(val(a.dims[k]))) for k in numax]
    bodies = []
    for combo in product(*ranges):
        m = {a.idx[k]: num(v) for k, v in zip(numax, combo)}
        bodies.append(subst(a.body, m) if m else a.body)
    # eta: lam i j. base[i,j] == base
    if not numax and a.body.op == "elem" and a.body.args[1:] == a.idx and not any(
        i in a.body.args[0].mk for i in a.idx
    ):
        return a.body.args[0]
    if not numax and len(a.idx) == 2 and a.body.op == "elem" and a.body.args[1:] == a.idx[::-1] and _symmetric(a.body.args[0]) and not any(
        i in a.body.args[0].mk for i in a.idx
    ):
        return a.body.args[0]
    oi = [a.idx[k] for k in others]
    h = max([b.h for b in bodies] + [0]) + 1
    bs = tuple(mk("idx", "b", h, n, i.args[-1], isint=True) for n, i in enumerate(oi))
    m = dict(zip(oi, bs))
    nb = tuple(subst(b, m) if m else b for b in bodies)
    layout = tuple(int(val(a.dims[k])) if k in numax else -1 for k in range(len(a.dims)))
    if not bs:
        return mk("alist", layout, nb)
    return mk("lam", bs, mk("cells", layout, *nb) if numax else nb[0])


def lam_dims(n):
    if n.op == "alist":
        return tuple(num(k) for k in n.args[0])
    if n.op == "lam":
        bs, body = n.args
        if body.op == "cells":
            it = iter(bs)
            return tuple(next(it).args[-1] if k == -1 else num(k) for k in body.args[0])
        return tuple(b.args[-1] for b in bs)
    if n.op == "asym":
        return n.args[1]
    if n.op in ("inv", "pinv"):
        d = lam_dims(n.args[0])
        return (d[1], d[0]) if d else None
    if n.op == "acall":
        return n.args[1]
    return None


def lam_at(n, ix):
    if n.op == "alist":
        pos = 0
        for k, x in zip(n.args[0], ix):
            if not isnum(x):
                return _sel_chain(n, ix)
            v = int(val(x))
            if v < 0:
                v += k
            pos = pos * k + v
        return n.args[1][pos]
    bs, body = n.args
    if body.op == "cells":
        layout = body.args[0]
        cells = body.args[1:]
        it = iter(bs)
        m = {}
        nx = []
        for k, x in zip(layout, ix):
            if k == -1:
                m[next(it)] = x
            else:
                nx.append((k, x))
        return _pick(nx, [subst(c, m) for c in cells])
    return subst(body, dict(zip(bs, ix)))


def _pick(nx, cells):
    if not nx:
        return cells[0]
    k, x = nx[0]
    step = len(cells) // k if k else 1
    opts = [_pick(nx[1:], cells[q * step : (q + 1) * step]) for q in range(k)]
    return select(x, opts)


def select(x, opts):
    if isnum(x):
        v = int(val(x))
        return opts[v]
    r = opts[-1]
    for q in range(len(opts) - 2, -1, -1):
        r = ite(eq0(sub(x, num(q))), opts[q], r)
    return r


def _sel_chain(n, ix):
    return _pick(list(zip(n.args[0], ix)), list(n.args[1]))


def arr_from_node(n, dims=None, kind=None):
    d = lam_dims(n) if dims is None else dims
    if d is None:
        return None
    return build(d, lambda *i: elem(n, *i) if n.op not in ("alist", "lam") else lam_at(n, i), kind)


# matrix inverses -------------------------------------------------
def matinv(kind, A):
    """inverse / pseudo-inverse of a 2-d Arr"""
    d0, d1 = A.dims
    if kind == "inv":
        if d0 is not d1:
            raise ShapeError("inverse of a non-square matrix")
    if d0 is ONE and d1 is ONE:
        return build((ONE, ONE), lambda i, j: power(A.at((ZERO, ZERO)), -1))
    i, j = A.idx
    body = A.body
    t = terms(body)
    # diagonal matrices
    if d0 is d1 and t:
        if all(any(a.op == "delta" and set(a.args) == {i, j} for a, e in m) for m in t):
            dd = delta(i, j)
            core = from_terms({tuple((a, e) for a, e in m if a is not dd): c for m, c in t.items()})
            core = subst(core, {j: i})
            return build((d0, d1), lambda p, q: mul(delta(p, q), power(subst(core, {i: p}), -1)))
    S = {i, j}
    (m, c), prim = content(t, ok=lambda a: not (_fidx(a) & S)) if t else (((), Fraction(1)), body)
    c = abs(c)
    scale = power(from_terms({m: c}), -1)
    prim = mul(body, scale)
    P = Arr(A.dims, A.idx, prim)
    L = lam(P)
    T = lam(Arr((d1, d0), (j, i), prim))
    # inverse of an inverse
    for k in (L,):
        if k.op in ("inv", "pinv") and k.op == kind:
            inner = k.args[0]
            base = arr_from_node(inner)
            if base is not None:
                return build(base.dims, lambda p, q: mul(scale, base.at((p, q))))
    if L is T:
        n = mk(kind, L, "s")
        return build((d1, d0), lambda p, q: mul(scale, elem(n, p, q)))
    if T.key < L.key:
        n = mk(kind, T, "")
        return build((d1, d0), lambda p, q: mul(scale, elem(n, q, p)))
    n = mk(kind, L, "")
    return build((d1, d0), lambda p, q: mul(scale, elem(n, p, q)))


# ------------------------------------------------------------------ substitution
_INTCACHE = {}


def subst(n, m):
    if not m:
        return n
    keys = frozenset(m)
    return _subst(n, m, keys, {})


def _sub_arg(a, m, keys, memo):
    if isinstance(a, Node):
        return _subst(a, m, keys, memo)
    if isinstance(a, tuple):
        return tuple(_sub_arg(x, m, keys, memo) for x in a)
    return a


def _subst(n, m, keys, memo):
    r = m.get(n)
    if r is not None:
        return r
    if not (n.mk & keys) and not (n.bv & keys):
        return n
    r = memo.get(n)
    if r is not None:
        return r
    op = n.op
    if op in BINDERS:
        if op == "lam":
            r = _subst_lam(n, m, keys, memo)
        else:
            idx, body = open_binder(n)
            # substitute in dims too
            idx2 = []
            ex = {}
            for i in idx:
                d = _subst(i.args[-1], m, keys, memo)
                if d is not i.args[-1]:
                    f = fresh(d)
                    ex[i] = f
                    idx2.append(f)
                else:
                    idx2.append(i)
            body = subst(body, {**m, **ex})
            if op == "sum":
                r = sum_(idx2, body)
            elif op == "red":
                r = red(n.args[0], idx2, body)
            elif op == "any":
                r = any_(idx2, body)
            elif op in ("maplist", "loopev"):
                r = close_map(op, idx2[0], body)
    elif op == "poly":
        r = None
        ts = []
        for mono, c in n.args:
            x = num(c)
            for a, e in mono:
                y = _subst(a, m, keys, memo)
                x = mul(x, power(y, e) if y is not a else _pw(a, e))
            ts.append(x)
        r = add(*ts)
    else:
        args = tuple(_sub_arg(a, m, keys, memo) for a in n.args)
        r = rebuild(op, args, n)
    memo[n] = r
    return r


def _subst_lam(n, m, keys, memo):
    bs, body = n.args
    fr = []
    mm = {}
    for i in bs:
        d = _subst(i.args[-1], m, keys, memo)
        f = fresh(d)
        mm[i] = f
        fr.append(f)
    if body.op == "cells":
        return _lam_cells(body.args[0], fr, [subst(subst(c, mm), m) for c in body.args[1:]])
    nb = subst(subst(body, mm), m)
    return lam(Arr([f.args[-1] for f in fr], fr, nb))


def _lam_cells(layout, fr, cells):
    it = iter(fr)
    dims, idx = [], []
    for k in layout:
        if k == -1:
            f = next(it)
            dims.append(f.args[-1])
            idx.append(f)
        else:
            dims.append(num(k))
            idx.append(fresh(num(k)))
    nx = [(k, i) for k, i in zip(layout, idx) if k != -1]
    return lam(Arr(dims, idx, _pick(nx, cells)))


def close_map(op, i, body):
    h = body.h + 1
    b = mk("idx", "b", h, 0, i.args[-1], isint=True)
    return mk(op, (b,), subst(body, {i: b}))


def rebuild(op, args, old=None):
    if op == "par":
        return args[0]
    if op == "fn":
        return fn(*args)
    if op == "delta":
        return delta(*args)
    if op == "b2n":
        return b2n(args[0])
    if op == "not":
        return not_(args[0])
    if op == "and":
        return and_(*args)
    if op == "ite":
        return ite(*args)
    if op == "lt0":
        return lt0(args[0])
    if op == "eq0":
        return eq0(args[0])
    if op == "eqv":
        return eqv(*args)
    if op == "elem":
        if args[0].op in ("lam", "alist"):
            return lam_at(args[0], args[1:])
        if old is not None and args[0].op not in ELEM_OPS and args[0].op == old.args[0].op:
            return mk("elem", *args, opq=old.opq, pos=old.pos, isint=old.isint)
        return elem(*args)
    if op in ("inv", "pinv"):
        A = arr_from_node(args[0])
        return lam(matinv(op, A))
    if op == "isnone":
        return isnone(args[0])
    if op == "idx":
        return mk("idx", *args, isint=True)
    if op == "cells":
        return mk("cells", *args)
    if op in REBUILD:
        return REBUILD[op](*args)
    return mk(op, *args, opq=old.opq if old is not None else False, pos=old.pos if old is not None else False, isint=old.isint if old is not None else False)


REBUILD = {}
ELEM_OPS = ("asym", "inv", "pinv", "lam", "alist")


def isnone(x):
    if x is NONE:
        return TRUE
    if x.op in ("str", "num", "poly", "lam", "alist", "asym", "list", "tuple", "dict", "true", "false", "elem", "sum", "red", "acall"):
        return FALSE
    if x.op == "ite":
        return ite(x.args[0], isnone(x.args[1]), isnone(x.args[2]))
    return mk("isnone", x)


# ------------------------------------------------------------------ facts
def conds_of(n):
    return [k for k in n.mk if k.cond]


def _affine(p):
    """(c0, k, key of q) with p = c0 + k*q, q having leading coefficient 1"""
    t = terms(p)
    ms = sorted((m for m in t if m), key=_mkey)
    if not ms:
        return None
    k = t[ms[0]]
    return t.get((), Fraction(0)), k, tuple((m, t[m] / k) for m in ms)


def _bounds_clash(lts, eqs0):
    lo, hi = {}, {}

    def low(q, v, strict):
        if q not in lo or (v, strict) > lo[q]:
            lo[q] = (v, strict)

    def high(q, v, strict):
        if q not in hi or (v, not strict) < hi[q]:
            hi[q] = (v, not strict)

    for p, v in lts:
        a = _affine(p)
        if a is None:
            continue
        c0, k, q = a
        x = -c0 / k
        if v is TRUE:
            # c0 + k q < 0
            high(q, x, True) if k > 0 else low(q, x, True)
        else:
            low(q, x, False) if k > 0 else high(q, x, False)
    for p in eqs0:
        a = _affine(p)
        if a is None:
            continue
        c0, k, q = a
        low(q, -c0 / k, False)
        high(q, -c0 / k, False)
    for q in list(lo) + [q for q in hi if q not in lo]:
        if len(q) == 1:
            m = q[0][0]
            if all(b.pos for b, e in m):
                low(q, Fraction(0), True)
        if q in lo and q in hi:
            (l, ls), (h, nhs) = lo[q], hi[q]
            if l > h or (l == h and (ls or not nhs)):
                return True
    return False


def contradictory(facts):
    lts = []
    eqs = {}
    for c, v in facts.items():
        if c.op == "lt0":
            lts.append((c.args[0], v))
        elif c.op == "eq0":
            pass
        elif c.op == "eqv" and v is TRUE:
            a, b = c.args
            for x, y in ((a, b), (b, a)):
                if y.op in ("str", "none"):
                    if x in eqs and eqs[x] is not y:
                        return True
                    eqs[x] = y
    if _bounds_clash(lts, [c.args[0] for c, v in facts.items() if c.op == "eq0" and v is TRUE]):
        return True
    for i in range(len(lts)):
        p, pv = lts[i]
        for j in range(i + 1, len(lts)):
            q, qv = lts[j]
            if pv is TRUE and qv is TRUE:
                s = add(p, q)
                if isnum(s) and val(s) >= 0:
                    return True
            elif pv is FALSE and qv is FALSE:
                s = add(p, q)
                if isnum(s) and val(s) < 0:
                    return True
            else:
                a, b = (p, q) if pv is TRUE else (q, p)
                s = sub(a, b)  # a<0 and b>=0 -> a-b<0
                if isnum(s) and val(s) >= 0:
                    return True
    for c, v in facts.items():
        if c.op == "eq0" and v is TRUE:
            for p, pv in lts:
                for q in (p, neg(p)):
                    pass
                s = sub(p, c.args[0])
                s2 = add(p, c.args[0])
                for r in (s, s2):
                    if isnum(r):
                        if pv is TRUE and val(r) >= 0:
                            return True
                        if pv is FALSE and val(r) < 0:
                            return True
    return False


def implied(facts, c, v):
    """extra atoms decided by setting c to v"""
    m = {c: v}
    if c.op == "eqv" and v is TRUE:
        a, b = c.args
        for x, y in ((a, b), (b, a)):
            if x.op == "sym" and y.op in ("str", "none", "num"):
                m[x] = y
    if c.op == "isnone" and v is TRUE and c.args[0].op == "sym":
        m[c.args[0]] = NONE
    if c.op == "eq0" and v is TRUE:
        t = terms(c.args[0])
        # x - const = 0
        syms = [mm for mm in t if len(mm) == 1 and mm[0][1] == 1 and mm[0][0].op == "sym"]
        if len(syms) == 1 and len(t) <= 2:
            mm = syms[0]
            x = mm[0][0]
            rest = sub(mulc(x, t[mm]), c.args[0])
            rest = mulc(rest, 1 / t[mm])
            if isnum(rest):
                m[x] = rest
        for mm, k in t.items():
            # a whole number
            x = mm[0][0] if len(mm) == 1 and mm[0][1] == 1 else None
            if x is not None and x.op == "fn" and x.args[0] == "trunc" and mulc(sub(x, x.args[1]), k) is c.args[0]:
                m[x] = x.args[1]
    return m


def clear(d):
    """d times the denominators it contains"""
    for _ in range(12):
        low = {}
        for m in terms(d):
            for x, e in m:
                if e < 0 and e < low.get(x, 0):
                    low[x] = e
        if not low:
            return d
        x = min(low, key=lambda q: q.key)
        f = from_terms({((x, -low[x]),): Fraction(1)})
        if x.op == "par" and low[x].denominator == 1:
            # terms without the denominator are multiplied by its expansion
            t = {m: c for m, c in terms(d).items()}
            r = ZERO
            for m, c in t.items():
                e = dict(m).get(x, Fraction(0)) - low[x]
                rest = from_terms({tuple(q for q in m if q[0] is not x): c})
                fac = ONE
                k = int(e) if e.denominator == 1 else None
                if k is None:
                    r = add(r, mul(from_terms({m: c}), f))
                    continue
                for _ in range(k):
                    fac = mul(fac, x.args[0])
                r = add(r, mul(rest, fac))
            d = r
        else:
            d = mul(d, f)
    return d


def equal_rational(a, b, depth=0):
    """equal as rational functions of their atoms (also inside matching structures)"""
    if a is b:
        return True
    if depth > 40 or not (isinstance(a, Node) and isinstance(b, Node)):
        return a == b if not isinstance(a, (Node, tuple)) else (
            isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(equal_rational(x, y, depth + 1) for x, y in zip(a, b)))
    num_ = ("poly", "num")
    if a.op in num_ or b.op in num_:
        if a.cond or b.cond or a.op in ("str", "list", "tuple", "dict", "lam", "alist", "arr") or b.op in ("str", "list", "tuple", "dict", "lam", "alist", "arr"):
            return False
        try:
            d = sub(a, b)
            if len(terms(d)) > 80:
                return False
            return clear(d) is ZERO
        except TooBig:
            return False
    if a.op != b.op or len(a.args) != len(b.args):
        return False
    return all(equal_rational(x, y, depth + 1) for x, y in zip(a.args, b.args))


def split_equal(a, b, facts=None, limit=4096, stats=None, confirm=None):
    """[] if equal under every assignment of gate conditions, else list of
    (facts, a', b') counterexamples (first one only)."""
    facts = facts or {}
    if stats is None:
        stats = {"cases": 0}
    if a is b:
        stats["cases"] += 1
        return None
    cs = sorted(set(conds_of(a)) | set(conds_of(b)), key=lambda c: (c.size, c.key))
    cs = [c for c in cs if c not in facts]
    if not cs:
        stats["cases"] += 1
        if equal_rational(a, b):
            return None
        if confirm is not None and not confirm(facts, a, b):
            return None
        return (facts, a, b)
    # prefer conditions at the top of the terms
    top = [n.args[0] for n in (a, b) if n.op == "ite"]
    c = None
    for t in top:
        for k in ([t] if t.cond else conds_of(t)):
            if k in cs:
                c = k
                break
        if c is not None:
            break
    if c is None:
        c = cs[0]
    if stats["cases"] > limit:
        return (facts, a, b)
    for v in (TRUE, FALSE):
        nf = {**facts, c: v}
        if contradictory(nf):
            continue
        m = implied(facts, c, v)
        r = split_equal(subst(a, m), subst(b, m), nf, limit, stats, confirm)
        if r is not None:
            return r
    return None


def diff(a, b, depth=0):
    """smallest differing subterms"""
    if a is b:
        return None
    if a.op == b.op and a.op not in ("poly", "num", "str", "sym", "asym") and len(a.args) == len(b.args):
        ds = []
        for x, y in zip(a.args, b.args):
            if isinstance(x, Node) and isinstance(y, Node):
                if x is not y:
                    ds.append(diff(x, y, depth + 1))
            elif isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
                for p, q in zip(x, y):
                    if isinstance(p, Node) and isinstance(q, Node):
                        if p is not q:
                            ds.append(diff(p, q, depth + 1))
                    elif p != q:
                        return (a, b)
            elif x != y:
                return (a, b)
        ds = [d for d in ds if d]
        if len(ds) >= 1:
            return ds[0]
    return (a, b)


# ------------------------------------------------------------------ printing
def show(n, d=0):
    if d > 14:
        return "…"
    op, a = n.op, n.args
    s = lambda x: show(x, d + 1)
    if op == "num":
        f = a[0]
        return str(f) if f.denominator < 1000 else repr(float(f))
    if op == "sym":
        return a[0]
    if op == "str":
        return repr(a[0])
    if op == "asym":
        return a[0]
    if op == "idx":
        return ("i%d" % a[1]) if a[0] == "f" else "%s%s" % ("ijklmnpqrs"[a[2] % 10] if a[0] == "b" else "?", a[1])
    if op == "poly":
        out = []
        for m, c in a:
            fs = []
            if c != 1 or not m:
                fs.append(str(c))
            for x, e in m:
                t = s(x)
                if x.op == "par":
                    t = "(" + s(x.args[0]) + ")"
                fs.append(t if e == 1 else t + "^" + (str(e) if e.denominator == 1 and e > 0 else "(%s)" % e))
            out.append("*".join(fs))
        return " + ".join(out)
    if op == "elem":
        return s(a[0]) + "[" + ",".join(s(x) for x in a[1:]) + "]"
    if op in ("sum", "any"):
        return op + "{" + ",".join("%s<%s" % (s(i), s(i.args[-1])) for i in a[0]) + "}(" + s(a[1]) + ")"
    if op == "red":
        return a[0] + "{" + ",".join("%s<%s" % (s(i), s(i.args[-1])) for i in a[1]) + "}(" + s(a[2]) + ")"
    if op in ("lam", "maplist", "loopev"):
        return ("λ" if op == "lam" else op) + ",".join("%s<%s" % (s(i), s(i.args[-1])) for i in a[0]) + ".(" + s(a[1]) + ")"
    if op == "fn":
        return a[0] + "(" + ", ".join(s(x) for x in a[1:]) + ")"
    if op == "lt0":
        return "(" + s(a[0]) + " < 0)"
    if op == "eq0":
        return "(" + s(a[0]) + " == 0)"
    if op == "eqv":
        return "(" + s(a[0]) + " == " + s(a[1]) + ")"
    if op == "ite":
        return "[" + s(a[1]) + " if " + s(a[0]) + " else " + s(a[2]) + "]"

    def f(x):
        if isinstance(x, Node):
            return s(x)
        if isinstance(x, tuple):
            return "(" + ", ".join(f(y) for y in x) + ")"
        return repr(x) if not isinstance(x, str) else x

    return op + "(" + ", ".join(f(x) for x in a) + ")"
