"""Random interpretation of the value graph (Gulwani & Necula).

Two value numbers whose normal forms differ are compared once more by giving every leaf of the
value graph the same pseudo-random value on both sides and evaluating the *terms* (never the
analysed program): operations with a meaning are computed, operations without one are hashed
on their evaluated arguments.  Terms that agree under every such interpretation are equal with
overwhelming probability, so a difference of normal forms alone is not reported.
"""
from decimal import Decimal as Dc, getcontext, Overflow, DivisionByZero, InvalidOperation
from hashlib import blake2b
import itertools
import random
import time

from . import sym as S
from .sym import Node

getcontext().prec = 60
getcontext().Emax = 10**9
getcontext().Emin = -(10**9)
TOL = Dc(10) ** -28
ZERO, ONE = Dc(0), Dc(1)


class Skip(Exception):
    """no value under this interpretation"""


class Budget(Exception):
    pass


def isz(x):
    return abs(x) < TOL


def quant(v):
    """hashable form of a value, stable under rounding noise"""
    if isinstance(v, bool):
        return b"T" if v else b"F"
    if isinstance(v, Dc):
        if isz(v):
            return b"0"
        return ("%.22e" % v).encode()
    if isinstance(v, bytes):
        return v
    if isinstance(v, (tuple, list)):
        return b"(" + b",".join(quant(x) for x in v) + b")"
    return repr(v).encode()


def hsh(*parts):
    return blake2b(b"|".join(quant(p) if not isinstance(p, str) else p.encode() for p in parts), digest_size=16).digest()


class Ev:
    def __init__(self, seed, nodes, budget=400000, small=False):
        self.seed = (str(seed) + ("s" if small else "")).encode()
        self.small = small  # few distinct values: equalities and ties are frequent
        self.rnd = random.Random(seed)
        self.memo = {}
        self.leaf = {}
        self.left = budget
        self.facts = {}
        self.wide = seed % 3 == 2
        self.strs = sorted({n.args[0] for n in nodes if n.op == "str"}) + ["<other>"]
        self.nums = sorted({n.args[0] for n in nodes if n.op == "num"})[:40]
        self.nones = {n.args[0] for n in nodes if n.op == "isnone"}
        self.adims = {}
        for n in nodes:
            if n.op == "elem" and all(x.op == "idx" for x in n.args[1:]):
                b, d = n.args[0], [x.args[-1] for x in n.args[1:]]
                if b.op in ("inv", "pinv") and len(d) == 2:
                    b, d = b.args[0], d[::-1]
                if b.op == "sym":
                    self.adims.setdefault(b, d)
        for n in nodes:
            if n.op == "sym" and n in S.SIZES:
                self.adims.setdefault(n, S.SIZES[n])
        ds = sorted({n for n in nodes if n.op == "sym" and n in S.DIMS}, key=lambda n: n.key)
        pool = list(range(2, 3 + len(ds)))
        random.Random(seed // 2).shuffle(pool)
        if seed % 2:  # every pair of sizes occurs in both orders
            pool = [2 * 2 + len(ds) - v for v in pool]
        self.dimv = {d: Dc(v) for d, v in zip(ds, pool)}

    def number(self, key, pos, isint):
        r = random.Random(hsh(self.seed, key))
        if isint:
            v = Dc(r.choice([1, 2, 3, 4, 5, 6]))
        elif self.small:
            return Dc(r.choice([1, 2, 3]) if pos else r.choice([-1, 0, 1, 1, 2]))
        else:
            v = Dc(r.randrange(10**29, 3 * 10**30)) / Dc(10) ** 30
            if self.wide:
                v *= Dc(10) ** r.choice([-9, -4, -1, 0, 0, 1, 4, 9])
        if not pos and r.random() < 0.5:
            v = -v
        return v

    def hashed(self, n, *parts):
        k = hsh(*parts)
        if n.cond:
            return bool(k[0] & 1)
        v = self.number(k, n.pos, n.isint)
        if n.op in ("pdf", "kdepdf") or n.op == "fn" and n.args[0].startswith(("pdf_", "cdf_", "sf_")):
            return abs(v)
        return v

    def env_of(self, n, env):
        if not env:
            return ()
        return tuple((i, env[i]) for i in sorted((n.bv | {k for k in n.mk if k.op == "idx"}), key=lambda x: x.key) if i in env)

    def ev(self, n, env):
        if n.op == "num":
            f = n.args[0]
            return Dc(f.numerator) / Dc(f.denominator)
        if n.op == "idx":
            if n in env:
                return Dc(env[n])
            if n.args[0] == "f":
                k = ("f", n)
                if k not in self.leaf:
                    self.leaf[k] = Dc(self.rnd.randrange(0, max(1, int(self.ev(n.args[-1], env)))))
                return self.leaf[k]
            raise Skip("free index")
        key = (n, self.env_of(n, env))
        r = self.memo.get(key)
        if r is None:
            self.left -= 1
            if self.left < 0:
                raise Budget()
            if n in self.facts and n.op in ("cnd", "eqv", "isnone"):
                r = self.facts[n] is S.TRUE
            else:
                r = self.ev_(n, env)
            self.memo[key] = r
        return r

    def rng(self, idxs, env):
        """assignments of bound indices"""
        def go(k, e):
            if k == len(idxs):
                yield e
                return
            d = int(self.ev(idxs[k].args[-1], e))
            if d > 64:
                raise Budget()
            for v in range(d):
                yield from go(k + 1, {**e, idxs[k]: v})
        yield from go(0, env)

    def arg(self, a, env):
        if isinstance(a, Node):
            return self.ev(a, env)
        if isinstance(a, tuple):
            return tuple(self.arg(x, env) for x in a)
        return repr(a).encode()

    def ev_(self, n, env):
        op, a = n.op, n.args
        f = getattr(self, "o_" + op, None)
        if f is not None:
            return f(n, a, env)
        return self.hashed(n, op, *[self.arg(x, env) for x in a])

    # leaves
    def o_sym(self, n, a, env):
        if n in self.dimv:
            return self.dimv[n]
        if n in self.adims:
            return self.whole(n, env)
        nm = a[0]
        if nm == "inf":
            return Dc(10) ** 200
        if nm == "nan":
            raise Skip("nan")
        if n in self.nones and self.rnd.random() < 0.3:
            return b"none"
        if nm.startswith("str:"):
            return hsh("str", self.rnd.choice(self.strs))
        if self.rnd.random() < 0.1 and self.nums and not n.pos:
            f = self.rnd.choice(self.nums)
            if not n.isint or f.denominator == 1:
                return Dc(f.numerator) / Dc(f.denominator)
        return self.number(hsh("sym", n.key), n.pos, n.isint)

    def o_str(self, n, a, env):
        return hsh("str", a[0])

    def o_none(self, n, a, env):
        return b"none"

    def o_true(self, n, a, env):
        return True

    def o_false(self, n, a, env):
        return False

    def shape(self, n, env):
        d = self.adims.get(n) if n.op == "sym" else S.lam_dims(n)
        if d is None:
            return None
        return [int(self.ev(x, env)) for x in d]

    def o_asym(self, n, a, env):
        return self.whole(n, env)

    def whole(self, n, env):
        """content of an array term"""
        sh = self.shape(n, env)
        if sh is None:
            return self.hashed(n, n.op, *[self.arg(x, env) for x in n.args])

        def go(k, ix):
            if k == len(sh):
                return self.at(n, ix, env)
            return tuple(go(k + 1, ix + [i]) for i in range(sh[k]))

        return go(0, [])

    def o_lam(self, n, a, env):
        return self.whole(n, env)

    def o_alist(self, n, a, env):
        return self.whole(n, env)

    def at(self, n, ix, env):
        """entry of an array term at integer positions"""
        op = n.op
        if op == "alist":
            pos = 0
            for k, x in zip(n.args[0], ix):
                if not -k <= x < k:
                    raise Skip("position")
                pos = pos * k + x % k
            return self.ev(n.args[1][pos], env)
        if op == "lam":
            bs, body = n.args
            if body.op == "cells":
                e = dict(env)
                it = iter(bs)
                pos = 0
                for k, x in zip(body.args[0], ix):
                    if k == -1:
                        e[next(it)] = x
                    else:
                        if not -k <= x < k:
                            raise Skip("position")
                        pos = pos * k + x % k
                return self.ev(body.args[1 + pos], e)
            return self.ev(body, {**env, **dict(zip(bs, ix))})
        if op in ("inv", "pinv"):
            m = self.inverse(n, env)
            try:
                return m[ix[0]][ix[1]]
            except IndexError:
                raise Skip("position")
        if op in TABLES:
            t = self.table(n, env)
            for x in ix:
                if not isinstance(t, tuple) or not 0 <= x < len(t):
                    raise Skip("position")
                t = t[x]
            return t
        if op == "sym" and n in self.adims:
            return self.number(hsh("ent", n.key, repr(tuple(ix))), False, False)
        if op == "asym":
            if "symm" in n.args[2] and len(ix) == 2:
                ix = sorted(ix)
            if "perm" in n.args[2]:
                size = int(self.ev(n.args[1][0], env))
                if not 0 <= ix[0] < size:
                    raise Skip("position")
                return Dc((ix[0] + 1) % size)
            if "int" in n.args[2]:
                return Dc(hsh("ent", n.key, repr(tuple(ix)))[0] % 2)
            if "integer" in n.args[2]:
                k = hsh("ent", n.key, repr(tuple(ix)))[0]
                return Dc(1 + k % 6 if "pos" in n.args[2] else k % 9 - 4)
            return self.number(hsh("ent", n.key, repr(tuple(ix))), "pos" in n.args[2], False)
        if op == "ite":
            return self.at(n.args[1] if self.ev(n.args[0], env) else n.args[2], ix, env)
        return None

    def o_elem(self, n, a, env):
        ix = []
        for x in a[1:]:
            v = self.ev(x, env)
            if not isinstance(v, Dc) or v != v.to_integral_value():
                return self.hashed(n, "elem", self.ev(a[0], env), *[self.ev(x, env) for x in a[1:]])
            ix.append(int(v))
        base = a[0]
        r = self.at(base, ix, env)
        if r is not None:
            return r
        return self.hashed(n, "elem", *([base.op] + [self.arg(x, env) for x in base.args]), repr(tuple(ix)))

    def table(self, n, env):
        """content of a decomposition or of a sorted array"""
        key = ("table", n, self.env_of(n, env))
        r = self.memo.get(key)
        if r is None:
            M = self.ev(n.args[0], env)
            if not isinstance(M, tuple) or not M:
                raise Skip("matrix")
            r = self.memo[key] = TABLES[n.op](M, *n.args[1:])
        return r

    def inverse(self, n, env):
        key = ("inv", n, self.env_of(n, env))
        r = self.memo.get(key)
        if r is None:
            M = self.ev(n.args[0], env)
            if not isinstance(M, tuple) or not M or not isinstance(M[0], tuple):
                raise Skip("matrix")
            M = [list(x) for x in M]
            r = solve_inv(M) if n.op == "inv" else pinv(M)
            self.memo[key] = r
        return r

    def o_inv(self, n, a, env):
        return tuple(tuple(x) for x in self.inverse(n, env))

    o_pinv = o_inv

    def o_table(self, n, a, env):
        return self.table(n, env)

    o_svdU = o_svds = o_svdVh = o_chol = o_eighw = o_eighv = o_qrq = o_qrr = o_sorted = o_argsort = o_table

    def o_det(self, n, a, env):
        M = self.ev(a[0], env)
        if not isinstance(M, tuple):
            raise Skip("matrix")
        return det(M)

    # arithmetic
    def o_poly(self, n, a, env):
        t = ZERO
        for m, c in a:
            x = Dc(c.numerator) / Dc(c.denominator)
            for b, e in m:
                x *= self.pw(self.num(b, env), e)
            t += x
        return t

    def num(self, b, env):
        v = self.ev(b, env)
        if isinstance(v, bool):
            return Dc(int(v))
        if not isinstance(v, Dc):
            raise Skip("not a number")
        return v

    def pw(self, v, e):
        if e.denominator == 1:
            e = int(e)
            if e < 0 and isz(v):
                raise Skip("division by zero")
            try:
                return v**e
            except (Overflow, DivisionByZero, InvalidOperation):
                raise Skip("power")
        if v < 0 and not isz(v) or isz(v) and e < 0:
            raise Skip("root")
        if isz(v):
            return ZERO
        if e.denominator == 2:
            return self.pw(v.sqrt(), S.Fraction(e.numerator))
        try:
            return v ** (Dc(e.numerator) / Dc(e.denominator))
        except (Overflow, DivisionByZero, InvalidOperation):
            raise Skip("power")

    def o_par(self, n, a, env):
        return self.num(a[0], env)

    def o_delta(self, n, a, env):
        return ONE if isz(self.num(a[0], env) - self.num(a[1], env)) else ZERO

    def o_b2n(self, n, a, env):
        return ONE if self.ev(a[0], env) else ZERO

    def o_fn(self, n, a, env):
        name = a[0]
        v = [self.ev(x, env) for x in a[1:]]
        if not all(isinstance(x, (Dc, bool)) for x in v):
            return self.hashed(n, "fn", name, *v)
        v = [Dc(int(x)) if isinstance(x, bool) else x for x in v]
        try:
            if name == "abs":
                return abs(v[0])
            if name == "exp":
                if abs(v[0]) > 10**6:
                    raise Skip("overflow")
                return v[0].exp()
            if name == "log":
                if v[0] <= 0:
                    raise Skip("log")
                return v[0].ln()
            if name == "max2":
                return max(v)
            if name == "min2":
                return min(v)
            if name in ("floordiv", "mod"):
                if isz(v[1]):
                    raise Skip("zero")
                q = v[0] / v[1]
                k = q.to_integral_value(rounding="ROUND_FLOOR")
                if isz(q - k - 1):
                    k += 1
                return k if name == "floordiv" else v[0] - k * v[1]
            if name == "power":
                if v[1] == v[1].to_integral_value():
                    return self.pw(v[0], S.Fraction(int(v[1])))
                if v[0] <= 0:
                    raise Skip("power")
                return v[0] ** v[1]
        except (Overflow, DivisionByZero, InvalidOperation):
            raise Skip(name)
        if name in S.ODD:
            if isz(v[0]):
                return ZERO
            r = self.hashed(n, "fn", name, abs(v[0]), *v[1:])
            return r if v[0] > 0 else -r
        if name in S.EVEN:
            return self.hashed(n, "fn", name, abs(v[0]), *v[1:])
        return self.hashed(n, "fn", name, *v)

    # conditions
    def o_not(self, n, a, env):
        return not self.ev(a[0], env)

    def o_and(self, n, a, env):
        return all(self.ev(x, env) for x in a)

    def o_ite(self, n, a, env):
        return self.ev(a[1] if self.ev(a[0], env) else a[2], env)

    def o_lt0(self, n, a, env):
        v = self.num(a[0], env)
        return not isz(v) and v < 0

    def o_eq0(self, n, a, env):
        return isz(self.num(a[0], env))

    def o_eqv(self, n, a, env):
        return quant(self.ev(a[0], env)) == quant(self.ev(a[1], env))

    def o_isnone(self, n, a, env):
        return self.ev(a[0], env) == b"none"

    def o_any(self, n, a, env):
        return any([self.ev(a[1], e) for e in self.rng(a[0], env)])

    # binders
    def o_sum(self, n, a, env):
        t = ZERO
        for e in self.rng(a[0], env):
            t += self.num(a[1], e)
        return t

    def o_red(self, n, a, env):
        kind, idxs, body = a
        vs = [self.ev(body, e) for e in self.rng(idxs, env)]
        if all(isinstance(v, Dc) for v in vs) and vs:
            if kind == "prod":
                t = ONE
                for v in vs:
                    t *= v
                return t
            if kind == "max":
                return max(vs)
            if kind == "min":
                return min(vs)
            if kind in ("argmax", "argmin"):
                b = 0
                for k, v in enumerate(vs):
                    if not isz(v - vs[b]) and (v > vs[b]) == (kind == "argmax"):
                        b = k
                return Dc(b)
        return self.hashed(n, "red", kind, *vs)

    def o_maplist(self, n, a, env):
        return tuple(self.ev(a[1], e) for e in self.rng(a[0], env))

    o_loopev = o_maplist


def matmul(A, B):
    return [[sum((A[i][k] * B[k][j] for k in range(len(B))), ZERO) for j in range(len(B[0]))] for i in range(len(A))]


def tr(A):
    return [list(c) for c in zip(*A)]


def scale_of(M):
    return max([abs(x) for r in M for x in r] + [TOL])


def rref(M):
    M = [r[:] for r in M]
    eps = scale_of(M) * Dc(10) ** -30
    piv, r = [], 0
    for c in range(len(M[0])):
        if r == len(M):
            break
        k = max(range(r, len(M)), key=lambda i: abs(M[i][c]))
        if abs(M[k][c]) <= eps:
            continue
        M[r], M[k] = M[k], M[r]
        p = M[r][c]
        M[r] = [x / p for x in M[r]]
        for i in range(len(M)):
            if i != r and M[i][c] != 0:
                f = M[i][c]
                M[i] = [x - f * y for x, y in zip(M[i], M[r])]
        piv.append(c)
        r += 1
    return M[:r], piv


def solve_inv(M):
    n = len(M)
    if any(len(r) != n for r in M):
        raise Skip("square")
    R, piv = rref([r + [ONE if i == j else ZERO for j in range(n)] for i, r in enumerate(M)])
    if piv != list(range(n)):
        raise Skip("singular")
    return [r[n:] for r in R]


def pinv(M):
    if not M or not M[0]:
        raise Skip("empty")
    C, piv = rref(M)
    if not piv:
        return [[ZERO] * len(M) for _ in M[0]]
    B = [[r[c] for c in piv] for r in M]
    Ct, Bt = tr(C), tr(B)
    return matmul(matmul(Ct, solve_inv(matmul(C, Ct))), matmul(solve_inv(matmul(Bt, B)), Bt))


def dot(a, b):
    return sum((x * y for x, y in zip(a, b)), ZERO)


def complete(vs, n):
    """orthonormal vectors extended to a basis of n-space"""
    vs = list(vs)
    for k in range(n):
        if len(vs) == n:
            break
        w = [ONE if i == k else ZERO for i in range(n)]
        for _ in range(2):
            for v in vs:
                c = dot(v, w)
                w = [x - c * y for x, y in zip(w, v)]
        q = dot(w, w).sqrt()
        if q > Dc(10) ** -3:
            vs.append([x / q for x in w])
    return vs


def svd(M):
    """left vectors (as rows), singular values, right vectors (as rows): one-sided Jacobi rotations"""
    if any(not isinstance(r, tuple) and not isinstance(r, list) for r in M) or not M[0]:
        raise Skip("matrix")
    m, n = len(M), len(M[0])
    if m < n:
        V, s, U = svd(tr(M))
        return U, s, V
    A, V = tr(M), [[ONE if i == j else ZERO for j in range(n)] for i in range(n)]
    eps = Dc(10) ** -45
    for sweep in range(60):
        off = False
        for p in range(n):
            for q in range(p + 1, n):
                a, b, c = dot(A[p], A[p]), dot(A[q], A[q]), dot(A[p], A[q])
                if abs(c) <= eps * (a * b).sqrt() or c == 0:
                    continue
                off = True
                z = (b - a) / (2 * c)
                t = (ONE if z >= 0 else -ONE) / (abs(z) + (1 + z * z).sqrt())
                cs = 1 / (1 + t * t).sqrt()
                sn = cs * t
                for W in (A, V):
                    W[p], W[q] = [cs * x - sn * y for x, y in zip(W[p], W[q])], [sn * x + cs * y for x, y in zip(W[p], W[q])]
        if not off:
            break
    else:
        raise Skip("no convergence")
    s = [dot(a, a).sqrt() for a in A]
    order = sorted(range(n), key=lambda k: -s[k])
    tiny = max(s) * Dc(10) ** -30
    U = complete([[x / s[k] for x in A[k]] for k in order if s[k] > tiny], m)
    return U, [s[k] if s[k] > tiny else ZERO for k in order], [V[k] for k in order]


def square(M):
    if any(len(r) != len(M) for r in M):
        raise Skip("square")


def cholesky(M):
    square(M)
    n = len(M)
    L = [[ZERO] * n for _ in range(n)]
    for j in range(n):
        d = M[j][j] - dot(L[j][:j], L[j][:j])
        if d <= 0:
            raise Skip("not positive definite")
        L[j][j] = d.sqrt()
        for i in range(j + 1, n):
            L[i][j] = (M[i][j] - dot(L[i][:j], L[j][:j])) / L[j][j]
    return frozen(L)


def eigh(M):
    """eigenvalues (ascending) and vectors (as rows) of a symmetric matrix, from the singular vectors of a shifted one"""
    square(M)
    n = len(M)
    if any(not same(M[i][j], M[j][i]) for i in range(n) for j in range(i)):
        raise Skip("not symmetric")
    k = sum(abs(x) for r in M for x in r) + 1
    U, s, V = svd([[x + (k if i == j else ZERO) for j, x in enumerate(r)] for i, r in enumerate(M)])
    return [x - k for x in s][::-1], V[::-1]


def gram_schmidt(M):
    cols, Q = tr(M), []
    for c in cols[: len(M)]:
        w = list(c)
        for _ in range(2):
            for v in Q:
                a = dot(v, w)
                w = [x - a * y for x, y in zip(w, v)]
        q = dot(w, w).sqrt()
        if q <= Dc(10) ** -25:
            raise Skip("dependent columns")
        Q.append([x / q for x in w])
    return Q, [[dot(v, c) if i <= j else ZERO for j, c in enumerate(cols)] for i, v in enumerate(Q)]


def frozen(M):
    return tuple(frozen(x) for x in M) if isinstance(M, (list, tuple)) else M


def det(M):
    square(M)
    M, r = [list(x) for x in M], ONE
    for c in range(len(M)):
        k = max(range(c, len(M)), key=lambda i: abs(M[i][c]))
        if M[k][c] == 0:
            return ZERO
        if k != c:
            M[c], M[k], r = M[k], M[c], -r
        r *= M[c][c]
        for i in range(c + 1, len(M)):
            f = M[i][c] / M[c][c]
            M[i] = [x - f * y for x, y in zip(M[i], M[c])]
    return r


def order_of(xs):
    return sorted(range(len(xs)), key=lambda k: xs[k])


def along(f):
    """a function of a vector applied along an axis of nested tuples"""

    def go(M, ax=0):
        if not isinstance(M, tuple):
            raise Skip("array")
        if not isinstance(M[0], tuple):
            return frozen(f(M))
        if ax == 0:
            return tuple(zip(*[go(tuple(c), 0) for c in zip(*M)]))
        return tuple(go(r, ax - 1) for r in M)

    return go


TABLES = {
    "svdU": lambda M: frozen(tr(svd(M)[0])),
    "svds": lambda M: tuple(svd(M)[1]),
    "svdVh": lambda M: frozen(complete(svd(M)[2], len(M[0]))),
    "chol": cholesky,
    "eighw": lambda M: tuple(eigh(M)[0]),
    "eighv": lambda M: frozen(tr(eigh(M)[1])),
    "qrq": lambda M: frozen(tr(gram_schmidt(M)[0])),
    "qrr": lambda M: frozen(gram_schmidt(M)[1]),
    "sorted": along(sorted),
    "argsort": along(lambda xs: [Dc(k) for k in order_of(xs)]),
}


def nodes_of(*ns):
    seen = {}
    todo = list(ns)
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen[n] = 1
        todo.extend(S._children(n.args))
        if len(seen) > 60000:
            break
    return list(seen)


def same(x, y):
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(same(p, q) for p, q in zip(x, y))
    if isinstance(x, Dc) and isinstance(y, Dc):
        return abs(x - y) <= Dc(10) ** -20 * max(abs(x), abs(y), Dc(10) ** -6)
    if isinstance(x, bool) and isinstance(y, Dc) or isinstance(y, bool) and isinstance(x, Dc):
        return Dc(int(x)) == Dc(int(y))
    return quant(x) == quant(y)


def moderate(nodes):
    return all(abs(n.args[0]) == 0 or S.Fraction(1, 10**4) < abs(n.args[0]) < 10**5 for n in nodes if n.op == "num")


def holds(ev, facts):
    ev.facts = facts
    for c, v in facts.items():
        if c.op in ("cnd", "eqv", "isnone"):
            continue
        if ev.ev(c, {}) != (v is S.TRUE):
            return False
    return True


def faraway(nodes):
    """comparisons of a size with a number far beyond the sizes the interpretations use: each is possible both ways"""
    out = []
    for n in nodes:
        if n.op == "lt0":
            ld = S._linear_dims(n.args[0])
            if ld is not None and len(ld[1]) == 1 and abs(ld[0]) > 5 * max(abs(c) for c in ld[1].values()):
                out.append(n)
    return out


def agree(a, b, facts, want=6, tries=120):
    """True: equal in every interpretation tried; False: a difference was seen; None: no answer"""
    far = faraway(facts)
    if far:
        facts = {c: v for c, v in facts.items() if c not in far}
    fnodes = nodes_of(*facts) if facts else []
    nodes = nodes_of(a, b) + fnodes
    ok = met = 0
    t0 = time.time()
    for k in range(tries):
        if time.time() - t0 > 12:
            break
        e = Ev(k, nodes)
        try:
            if not holds(e, facts):
                continue
            met += 1
            if not same(e.ev(a, {}), e.ev(b, {})):
                return False
            ok += 1
            if ok >= want:
                break
        except Skip:
            continue
        except (Budget, RecursionError, ArithmeticError):
            return None
    if ok >= 2:
        return not ties_differ(a, b, facts, nodes)
    if not met and facts and ties_differ(a, b, facts, nodes, True):
        return False
    if not met and facts and not any(c.op == "eq0" and v is S.TRUE for c, v in facts.items()) and moderate(fnodes) and not any(c.opq for c in facts):
        return True  # the case cannot occur
    return None


def orders(n):
    return {x for x in nodes_of(n) if x.op in ("lt0", "eq0")}


def ties_differ(a, b, facts, nodes, always=False, tries=150):
    """terms with different comparisons may differ only where compared values are equal"""
    if not always and orders(a) == orders(b):
        return False
    t0 = time.time()
    for k in range(tries):
        if time.time() - t0 > 4:
            break
        e = Ev(k, nodes, small=True)
        try:
            if holds(e, facts) and not same(e.ev(a, {}), e.ev(b, {})):
                return True
        except Skip:
            continue
        except (Budget, RecursionError, ArithmeticError):
            break
    return False


def possible(p, facts=None, tries=300):
    """False: the condition holds in no interpretation tried; otherwise True or None"""
    facts = facts or {}
    facts = {c: v for c, v in facts.items() if c not in faraway(facts)}
    far = faraway(nodes_of(p))[:3]
    if far:
        for vs in itertools.product((S.TRUE, S.FALSE), repeat=len(far)):
            r = possible(S.subst(p, dict(zip(far, vs))), facts, tries)
            if r is not False:
                return r
        return False
    nodes = nodes_of(p, *facts)
    atoms = [n for n in nodes if n.cond]
    seen = 0
    t0 = time.time()
    for k in range(tries):
        if time.time() - t0 > 12:
            break
        e = Ev(k, nodes)
        try:
            if not holds(e, facts):
                continue
            seen += 1
            if e.ev(p, {}):
                return True
        except Skip:
            continue
        except (Budget, RecursionError, ArithmeticError):
            return None
    if not seen and facts:
        # decisions on the way are part of the condition; the rest are assumptions
        parts = set(nodes_of(p))
        rest = {c: v for c, v in facts.items() if c not in parts and S.not_(c) not in parts}
        if len(rest) < len(facts):
            return possible(p, rest, tries)
    if seen >= 20 and moderate(nodes) and not any(n.op in ("eq0", "eqv") for n in atoms):
        return False
    return None
