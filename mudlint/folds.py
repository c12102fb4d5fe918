"""Closed forms of loop-carried values.

A loop over a sequence of symbolic length is interpreted once, with an index i and a
placeholder k for every value carried from one iteration to the next.  `new` is the
value after the iteration, a term over i and the placeholders; `old` the value before
the loop.  The functions here return the value after the loop, or None."""
from . import sym as S
from .sym import TRUE, FALSE, ZERO, ONE

INF = S.num(float("inf"))


def free(n, ks):
    return not (n.mk & ks)


def shifted(i, f):
    """(m, f at i = m - 1) with m ranging over one more value than i"""
    m = S.fresh(S.add(i.args[-1], ONE))
    return m, S.subst(f, {i: S.sub(m, ONE)})


def first(f, i):
    return S.subst(f, {i: ZERO})


def before(f, i):
    """value of f one step before the first iteration"""
    return S.subst(f, {i: S.num(-1)})


def delta(new, k, ks):
    """new - k, branch by branch"""
    if new.op == "ite" and free(new.args[0], ks):
        return S.ite(new.args[0], delta(new.args[1], k, ks), delta(new.args[2], k, ks))
    return S.sub(new, k)


def ratio(new, k, ks):
    if new is k:
        return ONE
    if new.op == "ite" and free(new.args[0], ks):
        a, b = ratio(new.args[1], k, ks), ratio(new.args[2], k, ks)
        return None if a is None or b is None else S.ite(new.args[0], a, b)
    if new.op == "poly" and len(new.args) == 1:
        return S.div(new, k)
    if new is ZERO:
        return ZERO
    return None


def extremum(new, k, ks):
    """('max'|'min', e) when new is max(k, e) or min(k, e)"""
    if new.op == "fn" and new.args[0] in ("max2", "min2") and k in new.args[1:]:
        o = [x for x in new.args[1:] if x is not k]
        if len(o) == 1 and free(o[0], ks):
            return new.args[0][:3], o[0]
    if new.op == "ite":
        for e in new.args[1:]:
            if e is not k and free(e, ks):
                for op, kind in (("<", "max"), ("<=", "max"), (">", "min"), (">=", "min")):
                    if S.ite(S.compare(op, k, e), e, k) is new:
                        return kind, e
        # one bound guarded by a condition free of the carried value is not an extremum
    return None


def boolean(new, k, old, i, ks):
    t, f = S.subst(new, {k: TRUE}), S.subst(new, {k: FALSE})
    if not free(t, ks) or not free(f, ks):
        return None
    if t is f:
        return S.subst(new, {i: S.sub(i.args[-1], ONE)})
    if t is TRUE:
        return S.or_(old, S.any_([i], f))
    if f is FALSE:
        return S.and_(old, S.not_(S.any_([i], S.not_(t))))
    return None


def plain(old, new, k, i, ks):
    """sums, products, maxima, minima, and/or"""
    if new is k:
        return old
    if free(new, ks):
        return S.subst(new, {i: S.sub(i.args[-1], ONE)})
    if k.cond:
        return boolean(new, k, old, i, ks)
    d = delta(new, k, ks)
    if free(d, ks):
        if not S.isnum(d) and before(d, i) is old:
            m, dm = shifted(i, d)
            return S.sum_([m], dm)
        return S.add(old, S.sum_([i], d))
    q = ratio(new, k, ks)
    if q is not None and free(q, ks):
        if not S.isnum(q) and before(q, i) is old:
            m, qm = shifted(i, q)
            return S.red("prod", [m], qm)
        return S.mul(old, S.red("prod", [i], q))
    x = extremum(new, k, ks)
    if x is not None:
        kind, e = x
        if old is (S.neg(INF) if kind == "max" else INF) or old is first(e, i):
            return S.red(kind, [i], e)
        if before(e, i) is old:
            m, em = shifted(i, e)
            return S.red(kind, [m], em)
        return S.fn(kind + "2", old, S.red(kind, [i], e))
    return None


# ------------------------------------------------------------------ arg max
def contest(c, i, ks, carried):
    """condition under which iteration i becomes the best so far -> (kind, score, key)
    where `key` is the placeholder compared against and `score` the term compared."""
    neg = c.op == "not"
    if neg or c.op != "lt0":
        return None
    p = c.args[0]
    t = S.terms(p)
    a = S.from_terms({m: v for m, v in t.items() if any(x.mk & ks for x, _ in m)})
    b = S.sub(p, a)
    if not free(b, ks):
        return None
    return a, b


def winner(c, i, ks, carried):
    """(F, mode) : F the index of the iteration that wins the contest c, for contests
    against a carried best value or against the value at a carried best position.
    mode(e, old) gives the final value of a variable set to e(i) when i wins."""
    ab = contest(c, i, ks, carried)
    if ab is None:
        return None
    a, b = ab
    used = [x for x in carried if x[0] in a.mk]
    if len(used) != 1:
        return None
    k, old, new = used[0]
    if new.op != "ite" or new.args[0] is not c or new.args[2] is not k or not free(new.args[1], ks):
        return None
    e = new.args[1]
    # the carried value, replaced by the challenger, must give equality
    if S.add(S.subst(a, {k: e}), b) is not ZERO:
        return None
    # a(k) + b < 0: the challenger wins when its score -b exceeds a(k)
    score = S.neg(b)
    if old is before(e, i):
        m, sm = shifted(i, score)
        return "before", S.red("argmax", [m], sm)
    if old is first(e, i):
        return "first", S.red("argmax", [i], score)
    if old is S.neg(INF) and a is k or old is INF and a is S.neg(k):
        return "any", S.red("argmax", [i], score)
    return None


def chosen(old, new, k, i, ks, carried):
    """new = e(i) if iteration i wins else k"""
    if new.op != "ite" or free(new.args[0], ks):
        return None
    c, e, o = new.args
    if o is not k or not free(e, ks):
        return None
    w = winner(c, i, ks, carried)
    if w is None:
        return None
    mode, F = w
    if mode == "before":
        if old is not before(e, i):
            return None
        return S.subst(e, {i: S.sub(F, ONE)})
    if mode == "first" and old is not first(e, i):
        return None
    return S.subst(e, {i: F})


def scalar(old, new, k, i, ks, carried=()):
    r = plain(old, new, k, i, ks)
    if r is None:
        r = chosen(old, new, k, i, ks, carried)
    return r


# ------------------------------------------------------------------ arrays
def without(n, c):
    """n where the condition c does not hold"""
    def cond(x):
        if x is c:
            return FALSE
        if x.op == "not":
            return S.not_(cond(x.args[0]))
        if x.op == "and":
            return S.and_(*[cond(y) for y in x.args])
        return x
    if n.op == "ite":
        return S.ite(cond(n.args[0]), without(n.args[1], c), without(n.args[2], c))
    if n.op in ("not", "and") or n is c:
        return cond(n)
    return n


def eqs(n, out):
    """equations used in the branch conditions of n"""
    def cond(x):
        if x.op == "eq0":
            out.append(x)
        elif x.op in ("not", "and"):
            for y in x.args:
                cond(y)
    if n.op == "ite":
        cond(n.args[0])
        eqs(n.args[1], out)
        eqs(n.args[2], out)
    elif n.op in ("not", "and", "eq0"):
        cond(n)
    return out


def scatter(old, new, k, idx, i, ks):
    """a[g(i)] = e(i), a[g(i)] += e(i) and the like, with distinct g(i)"""
    own = k(idx)
    body = new
    tried = set()
    for c in eqs(body, []):
        if c in tried:
            continue
        tried.add(c)
        if i not in c.mk or not (c.mk & set(idx)) or c.mk & ks:
            continue
        e = S.solve(c.args[0], i)
        if e is None or without(body, c) is not own:
            continue
        o = old(idx)
        tag = own if own.op != "elem" else own
        x = S.subst(S.replace(body, tag, o), {i: e})
        if not free(x, ks):
            return None
        n = i.args[-1]
        inside = S.and_(S.not_(S.lt0(e)), S.compare("<", e, n))
        return S.ite(inside, x, o)
    return None


def subterms(n, ok, keys, out, seen):
    if n in seen or not (n.mk & keys):
        return out
    seen.add(n)
    if ok(n):
        out.append(n)
    for x in S._children(n.args):
        subterms(x, ok, keys, out, seen)
    return out


def aligned(n, own, idx, depth=0):
    """where an equation fixes the position written, other readings of that position
    are readings of the carried element"""
    if n.op != "ite" or depth > 12:
        return n
    c, x, y = n.args
    x, y = aligned(x, own, idx, depth + 1), aligned(y, own, idx, depth + 1)
    m = {}
    for e in c.args if c.op == "and" else (c,):
        if e.op == "eq0":
            for j in idx:
                if j in m:
                    continue
                v = S.solve(S.subst(e.args[0], m), j)
                if v is not None:
                    m[j] = v
                    break
    if m:
        at = S.subst(own, m)
        base = own.args[0]
        for el in subterms(x, lambda t: t.op == own.op and t.args[0] is base, own.mk - set(idx), [], set()):
            if el is not own and S.subst(el, m) is at:
                x = S.replace(x, el, own)
    return S.ite(c, x, y)


def array(old, new, k, i, ks, carried=()):
    """old, new: arrays of the same shape; k(idx): the carried element"""
    if len(new.dims) != len(old.dims) or any(x is not y for x, y in zip(new.dims, old.dims)):
        return None
    idx = new.idx
    own = k(idx)
    # name the carried element, so that it is an atom
    if own.cond:
        name = S.cnd("own", S.sym("own" + own.key.hex()))
    else:
        name = S.sym("own" + own.key.hex())
    whole = aligned(new.body, own, idx)
    body = S.replace(whole, own, name)
    kss = ks | set(name.mk)
    o = old.at(idx)
    r = scalar(o, body, name, i, kss, carried)
    if r is None:
        r = scatter(lambda j: old.at(j), whole, k, idx, i, ks)
    if r is None:
        return None
    return S.build(old.dims, lambda *j: S.subst(r, dict(zip(idx, j))), new.kind)
