"""Summaries of numpy, scipy, sklearn and matplotlib."""
from fractions import Fraction

from . import sym as S
from .sym import Arr, Node, ShapeError, ZERO, ONE, TRUE, FALSE, NONE
from .interp import A, Ref, Ext, X, HArr, HView, HList, HSeq, HDict, HObj, HCell, XBound, MISSING, Unknown, NeedSplit
from . import lib as L
from . import canvas
from .lib import (
    N, pyint, num_, asarr, ew, OPS, reg, CALLS, deq, bdims, bidx, sc, ensure, reduce_, r_sum, r_red, r_any, r_all,
    r_arg, count_of, out_arg, shape_arg, reshape, transpose, matmul, inverse, shp, axes_of, unbool, fz, stack, tobool,
)

PI = S.sym("pi", pos=True)
EUL = S.sym("euler", pos=True)
CONSTS = {
    "numpy.pi": PI, "math.pi": PI, "numpy.e": EUL, "math.e": EUL, "numpy.newaxis": None,
    "numpy.inf": S.num(float("inf")), "math.inf": S.num(float("inf")), "numpy.nan": S.num(float("nan")),
    "builtins.Ellipsis": Ellipsis,
}


def NP(names, sig):
    return reg(" ".join(("numpy." + n if not n.startswith(("numpy.", "ndarray.", "scipy.", "math.")) else n) for n in names.split()), sig)


def call(name, I, *args, **kw):
    return L.call_ext(I, name, list(args), kw)


def prod_dims(dims):
    n = ONE
    for d in dims:
        n = S.mul(n, d)
    return n


# ------------------------------------------------------------------ construction
def mkcopy(I, x, ndmin=0, dtype=None):
    x = I.res(x)
    if x is None:
        return A(I.alloc(HArr(S.Arr((), (), S.NONE))))
    if isinstance(x, X):
        if x.kind == "opq":
            return X("opq", S.mk("asarray", x.node, opq=True))
        if x.kind not in ("rng",):
            return X("opq", S.mk("objarr", x.node, opq=True))
    a = asarr(I, x)
    a = astype_arr(I, a, dtype)
    nd = pyint(N(I, ndmin))
    while a.ndim < nd:
        b = a
        a = S.build((ONE,) + b.dims, lambda *i: b.at(i[1:]))
    if not a.dims:
        # zero-dimensional arrays are kept as array objects
        return A(I.alloc(HArr(a)))
    return I.new(a)


def astype_arr(I, a, dtype):
    dtype = I.res(dtype)
    d = L.dtcode(I, dtype)
    if d == "int":
        return S.build(a.dims, lambda *i: S.truncate(num_(a.at(i))))
    if d == "bool":
        return S.build(a.dims, lambda *i: tobool(a.at(i)))
    if d == "float":
        return S.build(a.dims, lambda *i: num_(a.at(i)))
    return a


@NP("array copy", "x dtype=None copy=True ndmin=0 order=None subok=False")
def np_array(I, x, dtype, copy, ndmin, order, subok):
    if copy is not True:
        c = I.truth(copy)  # None: only if needed
        if c is False and isinstance(I.res(x), A) and I.res(dtype) is None:
            return I.res(x)
    return mkcopy(I, x, ndmin, dtype)


@NP("asarray asanyarray ascontiguousarray asfortranarray asarray_chkfinite", "x dtype=None order=None")
def np_asarray(I, x, dtype, order):
    x = I.res(x)
    d = I.res(dtype)
    if isinstance(x, A) and (d is None or (isinstance(d, Ext) and d.name.split(".")[-1] in ("float", "float64", "double") and not S.isbool(I.readarr(x).body))):
        return x
    return mkcopy(I, x, 0, dtype)


@NP("ndarray.copy", "x order=None")
def nd_copy(I, x, order):
    a = I.readarr(x)
    return A(I.alloc(HArr(a)))


@NP("ndarray.astype", "x dtype copy=True")
def nd_astype(I, x, dtype, copy):
    return A(I.alloc(HArr(astype_arr(I, I.readarr(x), dtype))))


def dims_arg(I, shape):
    out = []
    for d in shape_arg(I, shape):
        if S.isnum(d) and S.val(d) < 0:
            I.throw("ValueError", "negative dimensions are not allowed")
        if not d.isint and not d.opq:
            I.throw("TypeError", "'float' object cannot be interpreted as an integer")
        out.append(d)
    return tuple(out)


def const_arr(I, shape, v):
    return A(I.alloc(HArr(S.build(dims_arg(I, shape), lambda *i: v))))


@NP("zeros", "shape dtype=None order=None")
def np_zeros(I, shape, dtype, order):
    return const_arr(I, shape, ZERO)


@NP("ones", "shape dtype=None order=None")
def np_ones(I, shape, dtype, order):
    return const_arr(I, shape, ONE)


@NP("empty", "shape dtype=None order=None")
def np_empty(I, shape, dtype, order):
    u = S.mk("uninit", I.uid(), opq=True)
    return A(I.alloc(HArr(S.build(dims_arg(I, shape), lambda *i: S.mk("elem", u, *i, opq=True)))))


@NP("full", "shape v dtype=None")
def np_full(I, shape, v, dtype):
    x = asarr(I, v)
    d = dims_arg(I, shape)
    return A(I.alloc(HArr(S.build(d, lambda *i: num_(x.at(bidx(x, i)))))))


@NP("zeros_like", "x dtype=None")
def np_zl(I, x, dtype):
    return A(I.alloc(HArr(S.build(asarr(I, x).dims, lambda *i: ZERO))))


@NP("ones_like", "x dtype=None")
def np_ol(I, x, dtype):
    return A(I.alloc(HArr(S.build(asarr(I, x).dims, lambda *i: ONE))))


@NP("full_like", "x v dtype=None")
def np_fl(I, x, v, dtype):
    n = N(I, v)
    return A(I.alloc(HArr(S.build(asarr(I, x).dims, lambda *i: n))))


@NP("empty_like", "x dtype=None")
def np_el(I, x, dtype):
    u = S.mk("uninit", I.uid(), opq=True)
    return A(I.alloc(HArr(S.build(asarr(I, x).dims, lambda *i: S.mk("elem", u, *i, opq=True)))))


@NP("eye identity", "n M=None k=0 dtype=None")
def np_eye(I, n, M, k, dtype):
    n = N(I, n)
    m = n if I.res(M) is None else N(I, M)
    k = N(I, k)
    return I.new(S.build((n, m), lambda i, j: S.delta(S.add(i, k), j)))


@NP("diag numpy.diagflat", "v k=0")
def np_diag(I, v, k):
    a = asarr(I, v)
    if N(I, k) is not ZERO:
        raise Unknown("diag with offset")
    if a.ndim == 1:
        return I.new(S.build((a.dims[0], a.dims[0]), lambda i, j: S.mul(S.delta(i, j), num_(a.at((i,))))))
    if a.ndim == 2:
        n = a.dims[0] if deq(*a.dims) else None
        if n is None:
            raise Unknown("diagonal of a rectangular matrix")
        return I.new(S.build((n,), lambda i: a.at((i, i))))
    I.throw("ValueError", "Input must be 1- or 2-d.")


@NP("diagonal ndarray.diagonal", "v")
def np_diagonal(I, v):
    return np_diag(I, v, 0)


@NP("trace ndarray.trace", "v")
def np_trace(I, v):
    a = asarr(I, v)
    i = S.fresh(a.dims[0])
    return S.sum_([i], num_(a.at((i, i))))


@NP("arange", "*a **kw")
def np_arange(I, a, kw):
    kw.pop("dtype", None)
    a = list(a)
    for n in ("start", "stop", "step"):
        if n in kw:
            a.append(kw[n])
    a = [N(I, x) for x in a]
    if len(a) == 1:
        a = [ZERO, a[0]]
    st = a[2] if len(a) > 2 else ONE
    if st is not ONE and not S.isnum(st):
        n = S.mk("fn", "ceil", S.div(S.sub(a[1], a[0]), st), isint=True)
        return I.new(S.build((n,), lambda i: S.add(a[0], S.mul(i, st))))
    n = S.div(S.sub(a[1], a[0]), st)
    if S.isnum(n):
        import math

        n = S.num(max(0, math.ceil(S.val(n))))
    elif not n.isint:
        n = S.mk("fn", "ceil", n, isint=True)
    return I.new(S.build((n,), lambda i: S.add(a[0], S.mul(i, st))))


@NP("linspace", "a b num=50 endpoint=True retstep=False dtype=None axis=0")
def np_linspace(I, a, b, num, endpoint, retstep, dtype, axis):
    n = N(I, num)
    if not n.isint:
        I.throw("TypeError", "num must be an integer")
    x, y = asarr(I, a), asarr(I, b)
    ep = I.truth(endpoint)
    if not isinstance(ep, bool):
        raise NeedSplit(ep)
    den = S.sub(n, ONE) if ep else n
    d = bdims(I, x.dims, y.dims)

    def f(k, *i):
        p, q = num_(x.at(bidx(x, i))), num_(y.at(bidx(y, i)))
        if k is ZERO:
            return p
        return S.add(p, S.mul(S.sub(q, p), k, S.power(den, -1)))

    r = I.new(S.build((n,) + d, f))
    if N(I, axis) is not ZERO:
        raise Unknown("linspace axis")
    if I.truth(retstep) is True:
        return (r, I.new(S.build(d, lambda *i: S.mul(S.sub(num_(y.at(bidx(y, i))), num_(x.at(bidx(x, i)))), S.power(den, -1)))))
    return r


@NP("logspace", "a b num=50")
def np_logspace(I, a, b, num):
    r = np_linspace(I, a, b, num, True, False, None, 0)
    return ew(I, lambda x: S.mk("fn", "power", S.num(10), x, pos=True), r)


@NP("meshgrid", "*xs **kw")
def np_meshgrid(I, xs, kw):
    ix = kw.get("indexing", "xy")
    if isinstance(ix, str) and ix not in ("xy", "ij"):
        I.throw("ValueError", "Valid values for `indexing` are 'xy' and 'ij'.")
    sparse = kw.get("sparse", False)
    if I.truth(sparse) is not False:
        raise Unknown("sparse meshgrid")
    arrs = []
    for x in xs:
        if isinstance(x, L.StarSeq):
            raise Unknown("meshgrid over a symbolic number of axes")
        a = asarr(I, x)
        if a.ndim > 1:
            a = L.flatten_arr(I, a)
        if a.ndim == 0:
            b = a
            a = S.build((ONE,), lambda i: b.body)
        arrs.append(a)
    order = list(range(len(arrs)))
    if ix == "xy" and len(arrs) > 1:
        order[0], order[1] = 1, 0
    dims = tuple(arrs[k].dims[0] for k in order)
    out = []
    for k, a in enumerate(arrs):
        pos = order.index(k)
        out.append(I.new(S.build(dims, lambda *i, a=a, pos=pos: a.at((i[pos],)))))
    return I.newlist(out)


# ------------------------------------------------------------------ shape changes
@NP("reshape ndarray.reshape_", "x shape=None order=None newshape=None")
def np_reshape(I, x, shape, order, newshape):
    order = I.res(order)
    shape = I.res(shape) if I.res(shape) is not None else I.res(newshape)
    v = ensure(I, x)
    return do_reshape(I, v, shape_arg(I, shape), order)


def do_reshape(I, v, want, order=None):
    if order not in (None, "C", "A", "K"):
        if order == "F":
            t = transpose(I, v)
            dims = tuple(reversed(L.reshape_dims(I, I.dims(t), list(want))))
            return transpose(I, A(I.alloc(HArr(I.readarr(reshape(I, t, list(dims)))))))
        raise Unknown("reshape order")
    r = reshape(I, v, list(want))
    return r


@NP("ndarray.reshape", "x *shape **kw")
def nd_reshape(I, x, shape, kw):
    shape = list(shape)
    order = I.res(kw.pop("order", None))
    if "shape" in kw:
        shape = [kw.pop("shape")]
    if len(shape) == 1:
        want = shape_arg(I, shape[0])
    else:
        want = [N(I, s) for s in shape]
    for w in want:
        if not w.isint and not w.opq:
            I.throw("TypeError", "'float' object cannot be interpreted as an integer")
    return do_reshape(I, x, want, order)


@NP("ravel ndarray.ravel", "x order=None")
def np_ravel(I, x, order):
    v = ensure(I, x)
    o = I.res(order)
    if o in ("F",):
        v = transpose(I, v)
    d = I.dims(v)
    if not d:
        b = I.readarr(v)
        return A(I.alloc(HArr(S.build((ONE,), lambda i: b.body))))
    if len(d) == 1:
        return v
    return reshape(I, v, [prod_dims(d)])


@NP("ndarray.flatten", "x order=None")
def nd_flatten(I, x, order):
    return A(I.alloc(HArr(I.readarr(np_ravel(I, x, order)))))


@NP("transpose", "x axes=None")
def np_transpose(I, x, axes):
    v = ensure(I, x)
    ax = I.res(axes)
    if ax is not None:
        ax = tuple(pyint(N(I, k)) % len(I.dims(v)) for k in I.iterate(ax))
    return transpose(I, v, ax)


@NP("ndarray.transpose", "x *axes")
def nd_transpose(I, x, axes):
    if len(axes) == 1 and not L.isscalar(I.res(axes[0])):
        return np_transpose(I, x, axes[0])
    return np_transpose(I, x, tuple(axes) if axes else None)


@NP("swapaxes", "x a b")
def np_swapaxes(I, x, a, b):
    v = ensure(I, x)
    n = len(I.dims(v))
    a, b = pyint(N(I, a)) % n, pyint(N(I, b)) % n
    ax = list(range(n))
    ax[a], ax[b] = ax[b], ax[a]
    return transpose(I, v, tuple(ax))


@NP("moveaxis", "x a b")
def np_moveaxis(I, x, a, b):
    v = ensure(I, x)
    n = len(I.dims(v))
    a, b = pyint(N(I, a)) % n, pyint(N(I, b)) % n
    ax = list(range(n))
    ax.pop(a)
    ax.insert(b, a)
    return transpose(I, v, tuple(ax))


@NP("squeeze", "x axis=None")
def np_squeeze(I, x, axis):
    v = ensure(I, x)
    d = I.dims(v)
    if I.res(axis) is None:
        for k in d:
            if k is not ONE and not L._generic(k):
                raise Unknown("squeeze of an unknown size")
        want = [k for k in d if k is not ONE]
    else:
        ax = axes_of(I, axis, len(d))
        for k in ax:
            if d[k] is not ONE:
                I.throw("ValueError", "cannot select an axis to squeeze out which has size not equal to one")
        want = [k for q, k in enumerate(d) if q not in ax]
    if not want:
        a = I.readarr(v)
        b = a.at([ZERO] * a.ndim)
        return A(I.alloc(HArr(sc(b)))) if d else v
    return reshape(I, v, want)


@NP("expand_dims", "x axis")
def np_expand(I, x, axis):
    v = ensure(I, x)
    d = list(I.dims(v))
    ax = [pyint(N(I, k)) for k in axis] if isinstance(axis, tuple) else [pyint(N(I, axis))]
    n = len(d) + len(ax)
    for k in sorted(a % n for a in ax):
        d.insert(k, ONE)
    return reshape(I, v, d)


@NP("atleast_1d", "x")
def np_al1(I, x):
    v = ensure(I, x)
    if not I.dims(v):
        b = I.readarr(v)
        return A(I.alloc(HArr(S.build((ONE,), lambda i: b.body))))
    return v


@NP("atleast_2d", "x")
def np_al2(I, x):
    v = np_al1(I, x)
    d = I.dims(v)
    if len(d) == 1:
        return reshape(I, v, [ONE, d[0]])
    return v


def concat(I, arrs, axis):
    nd = arrs[0].ndim
    if nd == 0:
        I.throw("ValueError", "zero-dimensional arrays cannot be concatenated")
    for a in arrs:
        if a.ndim != nd:
            I.throw("ValueError", "all the input array dimensions must match")
    ax = axis % nd
    for a in arrs[1:]:
        for k in range(nd):
            if k != ax and not deq(a.dims[k], arrs[0].dims[k]):
                I.throw("ValueError", "all the input array dimensions except for the concatenation axis must match exactly: %s / %s" % (shp(a.dims), shp(arrs[0].dims)))
    total = ZERO
    offs = []
    for a in arrs:
        offs.append(total)
        total = S.add(total, a.dims[ax])
    dims = list(arrs[0].dims)
    dims[ax] = total

    def f(*i):
        j = i[ax]
        r = None
        for a, o in reversed(list(zip(arrs, offs))):
            k = S.sub(j, o)
            ii = list(i)
            ii[ax] = ZERO if a.dims[ax] is ONE else k
            v = a.at(tuple(ii))
            if r is None:
                r = v
            else:
                end = S.add(o, a.dims[ax])
                if a.dims[ax] is ONE and False:
                    pass
                r = S.ite(S.compare("<", j, end), v, r) if not (S.isnum(j) and S.isnum(end)) else (v if S.val(j) < S.val(end) else r)
        return r

    # all parts of size one: a selection by position
    if all(a.dims[ax] is ONE for a in arrs):
        return S.build(tuple(dims), lambda *i: L.sel(i[ax], [a.at(tuple(ZERO if k == ax else x for k, x in enumerate(i))) for a in arrs]))
    return S.build(tuple(dims), f)


def seqarrs(I, xs):
    """list of Arr, or ('seq', n, Arr over (n, ...))"""
    xs = I.res(xs)
    if isinstance(xs, A):
        a = I.readarr(xs)
        n = a.dims[0]
        if S._num_dims(n):
            return [S.build(a.dims[1:], lambda *i, k=k: a.at((S.num(k),) + i)) for k in range(int(S.val(n)))]
        return ("seq", n, a)
    it = I.iterate(xs)
    if isinstance(it, list):
        return [asarr(I, x) for x in it]
    if isinstance(xs, Ref) and isinstance(I.obj(xs.loc), HSeq):
        o = I.obj(xs.loc)
        return ("seq", o.n, L.seqarr(I, o))
    n, g = it
    i = S.fresh(n)
    return ("seq", n, L.seqarr(I, HSeq(n, i, I.tmpl(g(i)))))


def need(I, arrs):
    if not isinstance(arrs, tuple) and not arrs:
        I.throw("ValueError", "need at least one array to concatenate")


@NP("concatenate", "xs axis=0")
def np_concat(I, xs, axis):
    arrs = seqarrs(I, xs)
    need(I, arrs)
    ax = I.res(axis)
    if isinstance(arrs, tuple):
        return seqconcat(I, arrs, pyint(N(I, ax)))
    if ax is None:
        arrs = [L.flatten_arr(I, a) for a in arrs]
        ax = 0
    return I.new(concat(I, arrs, pyint(N(I, ax))))


def seqconcat(I, t, ax):
    _, n, a = t
    inner = a.dims[1:]
    ax = ax % len(inner)
    m = inner[ax]
    dims = list(inner)
    dims[ax] = S.mul(n, m)

    def f(*i):
        q, r = S.divmod_(i[ax], m)
        ii = list(i)
        ii[ax] = r
        return a.at((q,) + tuple(ii))

    return I.new(S.build(dims, f))


@NP("vstack row_stack", "xs dtype=None")
def np_vstack(I, xs, dtype):
    arrs = seqarrs(I, xs)
    need(I, arrs)
    if isinstance(arrs, tuple):
        _, n, a = arrs
        if a.ndim == 2:
            return I.new(a)
        if a.ndim == 1:
            return I.new(S.build((n, ONE), lambda i, j: a.at((i,))))
        return seqconcat(I, arrs, 0)
    return I.new(concat(I, [al2(a) for a in arrs], 0))


def al2(a):
    if a.ndim == 0:
        return S.build((ONE, ONE), lambda i, j: a.body)
    if a.ndim == 1:
        return S.build((ONE, a.dims[0]), lambda i, j: a.at((j,)))
    return a


@NP("hstack", "xs dtype=None")
def np_hstack(I, xs, dtype):
    arrs = seqarrs(I, xs)
    need(I, arrs)
    if isinstance(arrs, tuple):
        _, n, a = arrs
        if a.ndim == 1:
            return I.new(a)
        return seqconcat(I, arrs, 0 if a.ndim == 2 else 1)
    arrs = [S.build((ONE,), lambda i, a=a: a.body) if a.ndim == 0 else a for a in arrs]
    return I.new(concat(I, arrs, 0 if arrs[0].ndim == 1 else 1))


@NP("column_stack", "xs")
def np_cstack(I, xs):
    arrs = seqarrs(I, xs)
    need(I, arrs)
    if isinstance(arrs, tuple):
        _, n, a = arrs
        if a.ndim == 2:
            return I.new(S.build((a.dims[1], n), lambda i, j: a.at((j, i))))
        return seqconcat(I, arrs, 1)
    arrs = [S.build((a.dims[0], ONE), lambda i, j, a=a: a.at((i,))) if a.ndim == 1 else a for a in arrs]
    return I.new(concat(I, arrs, 1))


@NP("stack", "xs axis=0")
def np_stack(I, xs, axis):
    arrs = seqarrs(I, xs)
    need(I, arrs)
    ax = pyint(N(I, axis))
    if isinstance(arrs, tuple):
        _, n, a = arrs
        v = I.new(a)
        ax = ax % a.ndim
        order = list(range(1, a.ndim))
        order.insert(ax, 0)
        return A(I.alloc(HArr(I.readarr(transpose(I, v, tuple(order))))))
    d0 = arrs[0].dims
    for a in arrs[1:]:
        if len(a.dims) != len(d0) or not all(deq(p, q) for p, q in zip(a.dims, d0)):
            I.throw("ValueError", "all input arrays must have the same shape")
    ax = ax % (len(d0) + 1)
    dims = list(d0)
    dims.insert(ax, S.num(len(arrs)))
    return I.new(S.build(dims, lambda *i: L.sel(i[ax], [a.at(i[:ax] + i[ax + 1:]) for a in arrs])))


@NP("split array_split", "x n axis=0")
def np_split(I, x, n, axis):
    v = ensure(I, x)
    k = pyint(N(I, n)) if L.isscalar(I.res(n)) else None
    d = I.dims(v)
    ax = pyint(N(I, axis))
    if isinstance(k, int) and S.isnum(d[ax]) and S.val(d[ax]) % k == 0:
        m = int(S.val(d[ax])) // k
        return I.newlist([L.getitem(I, v, tuple([slice(None)] * ax + [slice(q * m, (q + 1) * m)])) for q in range(k)])
    raise Unknown("split")


@NP("tile", "x reps")
def np_tile(I, x, reps):
    a = asarr(I, x)
    r = shape_arg(I, reps)
    while len(r) < a.ndim:
        r.insert(0, ONE)
    while a.ndim < len(r):
        b = a
        a = S.build((ONE,) + b.dims, lambda *i, b=b: b.at(i[1:]))
    dims = tuple(S.mul(p, q) for p, q in zip(a.dims, r))

    def f(*i):
        return num_(a.at(tuple(ZERO if d is ONE else (k if q is ONE else S.divmod_(k, d)[1]) for k, d, q in zip(i, a.dims, r))))

    return I.new(S.build(dims, f))


@NP("repeat", "x repeats axis=None")
def np_repeat(I, x, repeats, axis):
    a = asarr(I, x)
    rp = N(I, repeats) if L.isscalar(I.res(repeats)) else None
    if rp is None:
        raise Unknown("repeat with array counts")
    if I.res(axis) is None:
        a = L.flatten_arr(I, a) if a.ndim != 1 else a
        ax = 0
    else:
        ax = axes_of(I, axis, a.ndim)[0]
    dims = list(a.dims)
    dims[ax] = S.mul(dims[ax], rp)

    def f(*i):
        ii = list(i)
        ii[ax] = ZERO if a.dims[ax] is ONE else S.divmod_(i[ax], rp)[0]
        return a.at(tuple(ii))

    return I.new(S.build(dims, f))


@NP("flip flipud fliplr", "x axis=None")
def np_flip(I, x, axis):
    v = ensure(I, x)
    ks = [slice(None)] * len(I.dims(v))
    for k in axes_of(I, axis, len(ks)):
        ks[k] = slice(None, None, -1)
    return L.getitem(I, v, tuple(ks))


@NP("broadcast_to", "x shape")
def np_bto(I, x, shape):
    a = asarr(I, x)
    d = tuple(shape_arg(I, shape))
    bdims(I, a.dims, d)
    return I.new(S.build(d, lambda *i: a.at(bidx(a, i))))


@NP("broadcast_arrays", "*xs")
def np_barr(I, xs):
    arrs = [asarr(I, x) for x in xs]
    d = bdims(I, *[a.dims for a in arrs])
    return I.newlist([I.new(S.build(d, lambda *i, a=a: a.at(bidx(a, i)))) for a in arrs])


@NP("append", "a b axis=None")
def np_append(I, a, b, axis):
    return np_concat(I, (a, b) if I.res(axis) is not None else (np_ravel(I, a, None), np_ravel(I, b, None)), axis if I.res(axis) is not None else 0)


@NP("insert", "a k v axis=None")
def np_insert(I, a, k, v, axis):
    ax = I.res(axis)
    if ax is None or not isinstance(I.res(k), int):
        raise Unknown("np.insert")
    a = asarr(I, a)
    ax = axes_of(I, ax, a.ndim)[0]
    cut = lambda s: L.getitem(I, I.new(a), tuple([slice(None)] * ax + [s]))
    v = asarr(I, v)
    if v.ndim < a.ndim:
        v = asarr(I, L.getitem(I, I.new(v), tuple([slice(None)] * ax + [None])))
    return np_concat(I, (cut(slice(None, k)), I.new(v), cut(slice(k, None))), ax)


@NP("take", "a k axis=None mode=None")
def np_take(I, a, k, axis, mode):
    v = ensure(I, a)
    if I.res(axis) is None:
        return L.getitem(I, np_ravel(I, v, None), k)
    ax = axes_of(I, axis, len(I.dims(v)))[0]
    return L.getitem(I, v, tuple([slice(None)] * ax + [k]))


@NP("compress", "c a axis=None")
def np_compress(I, c, a, axis):
    return np_take(I, a, c, axis, None)


@NP("ix_", "*a")
def np_ix(I, a):
    out = []
    n = len(a)
    for k, x in enumerate(a):
        b = asarr(I, x)
        if L.isboolarr(b):
            _, b = L.nonzero(I, b)
        dims = [ONE] * n
        dims[k] = b.dims[0]
        out.append(I.new(S.build(dims, lambda *i, b=b, k=k: b.at((i[k],)))))
    return tuple(out)


@NP("fill_diagonal", "a v")
def np_filldiag(I, a, v):
    x = I.readarr(a)
    n = N(I, v)
    I.writearr(a, S.build(x.dims, lambda i, j: S.ite(S.eq0(S.sub(i, j)), n, x.at((i, j)))))


@NP("ndarray.fill", "a v")
def nd_fill(I, a, v):
    n = N(I, v)
    I.writearr(a, S.build(I.dims(a), lambda *i: n))


@NP("ndarray.tobytes", "a order=None")
def nd_tobytes(I, a, order):
    return X("opq", S.mk("bytes", I.freeze(a), opq=True))


@NP("ndarray.tolist", "a")
def nd_tolist(I, a):
    def go(x):
        if x.ndim == 0:
            return x.body
        n = x.dims[0]
        if S._num_dims(n) or (S.isnum(n) and S.val(n) <= 60):
            return I.newlist([go(S.build(x.dims[1:], lambda *i, k=k: x.at((S.num(k),) + i))) for k in range(int(S.val(n)))])
        i = S.fresh(n)
        from .interp import TArr

        if x.ndim == 1:
            return Ref(I.alloc(HSeq(n, i, x.at((i,)))))
        sub = S.build(x.dims[1:], lambda *j: x.at((i,) + j))
        return Ref(I.alloc(HSeq(n, i, TArr(sub))))

    return go(I.readarr(a))


@NP("ndarray.item", "a *k")
def nd_item(I, a, k):
    if len(k) == 1 and not isinstance(k[0], tuple):
        return N(I, L.getitem(I, np_ravel(I, a, None), k[0]))
    if k:
        return L.getitem(I, a, tuple(k) if len(k) > 1 else k[0])
    return N(I, a)


@NP("ndarray.view ndarray.__array__", "a")
def nd_view(I, a):
    return a


@NP("ndarray.__len__", "a")
def nd_len(I, a):
    return L.length(I, a)


@NP("ndarray.__getitem__", "a k")
def nd_getitem(I, a, k):
    return L.getitem(I, a, k)


@NP("ndarray.__matmul__", "a b")
def nd_mm(I, a, b):
    return matmul(I, a, b)


@NP("ndarray.is_integer", "a")
def nd_isint(I, a):
    return S.cnd("isint", N(I, a), opq=True)


@NP("ndarray.resize ndarray.put ndarray.partition", "a *k")
def nd_resize(I, a, k):
    raise Unknown("in-place array method")


@NP("ndarray.sort", "a axis=-1 kind=None")
def nd_sort(I, a, axis, kind):
    r = np_sort(I, a, axis, kind)
    I.writearr(a, I.readarr(r))


def copyto(I, dst, src):
    x = asarr(I, src)
    d = I.dims(dst)
    I.writearr(dst, S.build(d, lambda *i: num_(x.at(bidx(x, i)))))


@NP("copyto", "dst src")
def np_copyto(I, dst, src):
    copyto(I, dst, src)


@NP("put_along_axis place putmask", "*a")
def np_put(I, a):
    raise Unknown("scatter")


# ------------------------------------------------------------------ element-wise
def uf2(op):
    f = OPS[op]

    def g(I, a, b, out, where, dtype):
        if I.res(where) is not True:
            if I.res(out) is None:
                raise Unknown("ufunc where without out")
            r = call("numpy.where", I, where, g(I, a, b, None, True, dtype), I.res(out)[0] if isinstance(I.res(out), tuple) else out)
            return out_arg(I, r, out)
        return out_arg(I, L.binop(I, op, I.res(a), I.res(b)) if isinstance(I.res(a), A) or isinstance(I.res(b), A) else ew(I, f, a, b), out)

    return g


for _n, _op in (("add", "+"), ("subtract", "-"), ("multiply", "*"), ("divide", "/"), ("true_divide", "/"), ("power", "**"),
                ("float_power", "**"), ("floor_divide", "//"), ("mod", "%"), ("remainder", "%")):
    NP(_n, "a b out=None where=True dtype=None")(uf2(_op))


def uf1(f):
    def g(I, x, out, where, dtype):
        if I.res(where) is not True:
            if I.res(out) is None:
                raise Unknown("ufunc where without out")
            r = call("numpy.where", I, where, g(I, x, None, True, dtype), I.res(out)[0] if isinstance(I.res(out), tuple) else out)
            return out_arg(I, r, out)
        return out_arg(I, ew(I, f, x), out)

    return g


def _sf(n):
    return lambda a: S.fn(n, a)


def _logf(a):
    return S.fn("log", a)


def _roundf(a):
    if S.isnum(a):
        v = S.val(a)
        return S.num(round(v))
    if a.isint:
        return a
    return None


_U1 = {
    "exp": _sf("exp"), "log": _logf, "sqrt": S.sqrt, "abs": S.absval, "absolute": S.absval, "fabs": S.absval,
    "negative": S.neg, "positive": lambda a: a, "square": lambda a: S.power(a, 2), "reciprocal": lambda a: S.power(a, -1),
    "sin": _sf("sin"), "cos": _sf("cos"), "tan": _sf("tan"), "arctan": _sf("arctan"), "sinh": _sf("sinh"),
    "cosh": _sf("cosh"), "tanh": _sf("tanh"), "arcsin": _sf("arcsin"), "arccos": _sf("arccos"),
    "log2": lambda a: S.div(_logf(a), _logf(S.num(2))), "log10": lambda a: S.div(_logf(a), _logf(S.num(10))),
    "log1p": lambda a: _logf(S.add(a, ONE)), "expm1": lambda a: S.sub(S.fn("exp", a), ONE),
    "sign": lambda a: (ONE if a.pos else S.num((S.val(a) > 0) - (S.val(a) < 0)) if S.isnum(a) else S.mk("fn", "sign", a)),
    "floor": lambda a: a if a.isint else S.mk("fn", "floor", a, isint=True),
    "ceil": lambda a: a if a.isint else S.mk("fn", "ceil", a, isint=True),
    "trunc": lambda a: a if a.isint else S.mk("fn", "trunc", a, isint=True),
    "rint": lambda a: a if a.isint else S.mk("fn", "rint", a, isint=True),
    "conj": lambda a: a, "conjugate": lambda a: a, "real": lambda a: a, "nan_to_num": lambda a: S.mk("fn", "nan_to_num", a),
    "deg2rad": lambda a: S.mul(a, PI, S.num(Fraction(1, 180))), "radians": lambda a: S.mul(a, PI, S.num(Fraction(1, 180))),
    "cbrt": lambda a: S.power(a, Fraction(1, 3)),
}
for _n, _f in _U1.items():
    NP(_n, "x out=None where=True dtype=None")(uf1(_f))
    if _n in ("exp", "log", "sqrt", "sin", "cos", "tan", "fabs", "floor", "ceil", "tanh", "log2", "log10", "log1p", "sinh", "cosh"):
        reg("math." + _n, "x")(lambda I, x, f=_f: f(N(I, x)))
reg("math.pow", "a b")(lambda I, a, b: L._pow(N(I, a), N(I, b)))
reg("math.hypot numpy.hypot", "a b")(lambda I, a, b: ew(I, lambda x, y: S.sqrt(S.add(S.power(x, 2), S.power(y, 2))), a, b))
reg("math.prod", "x")(lambda I, x: np_prod(I, x, None, None, None, False, None, None))
def tol(I, v, d):
    v = I.res(v)
    return S.num(Fraction(d)) if v is None else N(I, v)


@reg("math.isclose", "a b rel_tol=None abs_tol=None")
def math_isclose(I, a, b, rel_tol, abs_tol):
    a, b = N(I, a), N(I, b)
    big = S.fn("max2", S.absval(a), S.absval(b))
    return I.simp(S.compare("<=", S.absval(S.sub(a, b)), S.fn("max2", S.mul(tol(I, rel_tol, "1e-9"), big), tol(I, abs_tol, "0"))))


@NP("ndarray.conj ndarray.conjugate", "x")
def nd_conj(I, x):
    return A(I.alloc(HArr(I.readarr(x))))


@NP("arctan2 math.atan2", "a b")
def np_arctan2(I, a, b):
    return ew(I, lambda x, y: S.mk("fn", "arctan2", x, y), a, b)


@NP("isnan", "x")
def np_isnan(I, x):
    # arithmetic is over the reals
    return ew(I, lambda a: S.cnd("nonfinite", a, opq=True), x)


def _infinite(a):
    r = S.ninf(a)
    return S.cnd("nonfinite", a, opq=True) if r is S.FALSE or r.op == "cnd" else r


@NP("isinf", "x")
def np_isinf(I, x):
    return ew(I, _infinite, x)


@NP("isfinite", "x")
def np_isfinite(I, x):
    return ew(I, lambda a: S.not_(_infinite(a)) if S._haslog(a) else S.cnd("nonfinite", a, opq=True), x)


@NP("isneginf", "x out=None")
def np_isneginf(I, x, out):
    return ew(I, S.ninf, x)


@NP("isposinf", "x out=None")
def np_isposinf(I, x, out):
    return ew(I, lambda a: S.TRUE if a.op == "sym" and a.args[0] == "inf" else S.FALSE, x)


@NP("maximum fmax", "a b out=None")
def np_maximum(I, a, b, out):
    return out_arg(I, ew(I, lambda x, y: S.fn("max2", x, y), a, b), out)


@NP("minimum fmin", "a b out=None")
def np_minimum(I, a, b, out):
    return out_arg(I, ew(I, lambda x, y: S.fn("min2", x, y), a, b), out)


@NP("clip ndarray.clip", "x lo=None hi=None out=None")
def np_clip(I, x, lo, hi, out):
    r = x
    if I.res(lo) is not None:
        r = ew(I, lambda a, b: S.fn("max2", a, b), r, lo)
    if I.res(hi) is not None:
        r = ew(I, lambda a, b: S.fn("min2", a, b), r, hi)
    return out_arg(I, r, out)


for _n, _op in (("less", "<"), ("less_equal", "<="), ("greater", ">"), ("greater_equal", ">="), ("equal", "=="), ("not_equal", "!=")):
    NP(_n, "a b")(lambda I, a, b, op=_op: L.cmp(I, op, ensure(I, a) if not L.isscalar(I.res(a)) else I.res(a), ensure(I, b) if not L.isscalar(I.res(b)) else I.res(b)))
for _n, _op in (("logical_and", "&"), ("logical_or", "|"), ("logical_xor", "^")):
    NP(_n, "a b")(lambda I, a, b, op=_op: ew(I, lambda x, y: L._logic(op)(tobool(x), tobool(y)), a, b, raw=True))


@NP("logical_not invert", "a")
def np_lnot(I, a):
    return ew(I, lambda x: S.not_(tobool(x)), a, raw=True)


@NP("round around round_ ndarray.round", "x decimals=0 out=None")
def np_round(I, x, decimals, out):
    d = N(I, decimals)

    def f(a):
        if a.isint:
            return a
        return S.mk("fn", "round", a, d, isint=d is ZERO)

    return out_arg(I, ew(I, f, x), out)


@NP("where", "c a=NOARG b=NOARG")
def np_where(I, c, a, b):
    m = asarr(I, c)
    if a is MISSING:
        return np_nonzero(I, c)
    x, y = asarr(I, a), asarr(I, b)
    d = bdims(I, m.dims, x.dims, y.dims)
    return I.new(S.build(d, lambda *i: S.ite(tobool(m.at(bidx(m, i))), num_(x.at(bidx(x, i))), num_(y.at(bidx(y, i))))))


@NP("flatnonzero", "c")
def np_flatnonzero(I, c):
    return np_nonzero(I, np_ravel(I, c, None))[0]


@NP("argwhere", "c")
def np_argwhere(I, c):
    return L.getitem(I, np_nonzero(I, c)[0], (slice(None), None))


@NP("nonzero ndarray.nonzero", "c")
def np_nonzero(I, c):
    m = asarr(I, c)
    if m.ndim != 1:
        raise Unknown("nonzero of a matrix")
    b = S.build(m.dims, lambda i: tobool(m.at((i,))))
    cnt, nz = L.nonzero(I, b)
    return (I.new(nz),)


@NP("count_nonzero", "c axis=None")
def np_cnz(I, c, axis):
    return reduce_(I, lambda ids, b: S.sum_(ids, S.b2n(tobool(b))) if ids else S.b2n(tobool(b)), c, axis, raw=True)


@NP("isin in1d", "a b")
def np_isin(I, a, b):
    x = asarr(I, a)
    y = asarr(I, b)
    js = [S.fresh(d) for d in y.dims]
    return I.new(S.build(x.dims, lambda *i: S.any_(js, S.compare("==", num_(x.at(i)), num_(y.at(js))))))


@NP("array_equal", "a b equal_nan=False")
def np_array_equal(I, a, b, equal_nan):
    if fz(I, a) is fz(I, b):
        return True
    x, y = asarr(I, a), asarr(I, b)
    if len(x.dims) != len(y.dims):
        return False
    same = [S.compare("==", p, q) for p, q in zip(x.dims, y.dims)]
    if any(c is S.FALSE for c in same):
        return False
    if not all(c is S.TRUE for c in same):
        c = I.truth(S.and_(*same))
        if c is not True:
            if c is not False:
                raise NeedSplit(c)
            return False
    js = [S.fresh(d) for d in x.dims]
    c = S.compare("==", num_(x.at(js)), num_(y.at(js)))
    return S.not_(S.any_(js, S.not_(c))) if js else c


@NP("isclose", "a b rtol=None atol=None equal_nan=False")
def np_isclose(I, a, b, rtol, atol, equal_nan):
    r, t = tol(I, rtol, "1e-5"), tol(I, atol, "1e-8")
    return ew(I, lambda x, y: S.compare("<=", S.absval(S.sub(num_(x), num_(y))), S.add(t, S.mul(r, S.absval(num_(y))))), a, b, raw=True)


@NP("allclose", "a b rtol=None atol=None equal_nan=False")
def np_allclose(I, a, b, rtol, atol, equal_nan):
    return call("numpy.all", I, np_isclose(I, a, b, rtol, atol, equal_nan))


@NP("array_equiv", "a b")
def np_array_equiv(I, a, b):
    return S.cnd("close", fz(I, a), fz(I, b), opq=True)


# ------------------------------------------------------------------ reductions
def wrap_out(f):
    return f


@NP("sum ndarray.sum", "x axis=None dtype=None out=None keepdims=False initial=None where=None")
def np_sum(I, x, axis, dtype, out, keepdims, initial, where):
    if I.res(where) not in (None, True):
        x = call("numpy.where", I, where, x, 0)
    r = reduce_(I, r_sum, x, axis, keepdims)
    if I.res(initial) is not None:
        r = ew(I, S.add, r, initial)
    return out_arg(I, r, out)


@NP("prod product ndarray.prod", "x axis=None dtype=None out=None keepdims=False initial=None where=None")
def np_prod(I, x, axis, dtype, out, keepdims, initial, where):
    if I.res(where) not in (None, True):
        x = call("numpy.where", I, where, x, 1)
    r = reduce_(I, r_red("prod"), x, axis, keepdims)
    if I.res(initial) is not None:
        r = ew(I, S.mul, r, initial)
    return out_arg(I, r, out)


@NP("mean ndarray.mean", "x axis=None dtype=None out=None keepdims=False")
def np_mean(I, x, axis, dtype, out, keepdims):
    a = asarr(I, x)
    n = count_of(I, a, axis)
    return out_arg(I, ew(I, lambda v: S.div(v, n), reduce_(I, r_sum, a, axis, keepdims)), out)


@NP("average", "x axis=None weights=None returned=False keepdims=False")
def np_average(I, x, axis, weights, returned, keepdims):
    if I.truth(returned) is not False:
        raise Unknown("average returned")
    a = asarr(I, x)
    if I.res(weights) is None:
        return np_mean(I, x, axis, None, None, keepdims)
    w = asarr(I, weights)
    if w.ndim != a.ndim or not all(deq(p, q) for p, q in zip(w.dims, a.dims)):
        if I.res(axis) is None:
            I.throw("TypeError", "Axis must be specified when shapes of a and weights differ.")
        if w.ndim != 1:
            I.throw("TypeError", "1D weights expected when shapes of a and weights differ.")
        ax = axes_of(I, axis, a.ndim)[0]
        if not deq(w.dims[0], a.dims[ax]):
            I.throw("ValueError", "Length of weights not compatible with specified axis.")
        w0 = w
        w = S.build(a.dims, lambda *i: w0.at((i[ax],)))
    num = reduce_(I, r_sum, S.build(a.dims, lambda *i: S.mul(num_(a.at(i)), num_(w.at(i)))), axis, keepdims)
    den = reduce_(I, r_sum, w, axis, keepdims)
    return ew(I, S.div, num, den)


def variance(I, x, axis, ddof, keepdims):
    a = asarr(I, x)
    n = count_of(I, a, axis)
    m = asarr(I, ew(I, lambda v: S.div(v, n), reduce_(I, r_sum, a, axis, True)))
    d = S.build(a.dims, lambda *i: S.power(S.sub(num_(a.at(i)), m.at(bidx(m, i))), 2))
    den = S.sub(n, N(I, ddof))
    return ew(I, lambda v: S.div(v, den), reduce_(I, r_sum, d, axis, keepdims))


@NP("var ndarray.var", "x axis=None dtype=None out=None ddof=0 keepdims=False")
def np_var(I, x, axis, dtype, out, ddof, keepdims):
    return out_arg(I, variance(I, x, axis, ddof, keepdims), out)


@NP("std ndarray.std", "x axis=None dtype=None out=None ddof=0 keepdims=False")
def np_std(I, x, axis, dtype, out, ddof, keepdims):
    return out_arg(I, ew(I, S.sqrt, variance(I, x, axis, ddof, keepdims)), out)


def nonempty(I, x, axis):
    """reductions without identity raise on arrays known to be empty"""
    a = asarr(I, x)
    if any(I.simp(S.compare("==", a.dims[k], ZERO)) is S.TRUE for k in axes_of(I, axis, a.ndim)):
        I.throw("ValueError", "zero-size array to reduction operation which has no identity")


@NP("max amax ndarray.max nanmax", "x axis=None out=None keepdims=False initial=None")
def np_max(I, x, axis, out, keepdims, initial=None):
    if I.res(initial) is not None:
        return out_arg(I, call("numpy.maximum", I, reduce_(I, r_red("max"), x, axis, keepdims), initial), out)
    nonempty(I, x, axis)
    return out_arg(I, reduce_(I, r_red("max"), x, axis, keepdims), out)


@NP("min amin ndarray.min nanmin", "x axis=None out=None keepdims=False initial=None")
def np_min(I, x, axis, out, keepdims, initial=None):
    if I.res(initial) is not None:
        return out_arg(I, call("numpy.minimum", I, reduce_(I, r_red("min"), x, axis, keepdims), initial), out)
    nonempty(I, x, axis)
    return out_arg(I, reduce_(I, r_red("min"), x, axis, keepdims), out)


@NP("ptp ndarray.ptp", "x axis=None")
def np_ptp(I, x, axis):
    return ew(I, S.sub, np_max(I, x, axis, None, False), np_min(I, x, axis, None, False))


@NP("argmax ndarray.argmax", "x axis=None out=None keepdims=False")
def np_argmax(I, x, axis, out, keepdims):
    nonempty(I, x, axis)
    return reduce_(I, r_arg("argmax"), x, axis, keepdims)


@NP("argmin ndarray.argmin", "x axis=None out=None keepdims=False")
def np_argmin(I, x, axis, out, keepdims):
    nonempty(I, x, axis)
    return reduce_(I, r_arg("argmin"), x, axis, keepdims)


@NP("nanargmax", "x axis=None")
def np_nanargmax(I, x, axis):
    return reduce_(I, r_arg("argmax"), x, axis, False)


@NP("any ndarray.any", "x axis=None out=None keepdims=False")
def np_any(I, x, axis, out, keepdims):
    r = reduce_(I, r_any, x, axis, keepdims, raw=True)
    return unbool(r) if isinstance(r, Node) else r


@NP("all ndarray.all", "x axis=None out=None keepdims=False")
def np_all(I, x, axis, out, keepdims):
    r = reduce_(I, r_all, x, axis, keepdims, raw=True)
    return unbool(r) if isinstance(r, Node) else r


@NP("cumsum ndarray.cumsum", "x axis=None")
def np_cumsum(I, x, axis):
    a = asarr(I, x)
    if I.res(axis) is None:
        a = L.flatten_arr(I, a) if a.ndim != 1 else a
        ax = 0
    else:
        ax = axes_of(I, axis, a.ndim)[0]
    d = a.dims[ax]
    k = S.fresh(d)

    def f(*i):
        if S._num_dims(d) and S.isnum(i[ax]):
            return S.add(*[num_(a.at(i[:ax] + (S.num(q),) + i[ax + 1:])) for q in range(int(S.val(i[ax])) + 1)])
        return S.sum_([k], S.mul(S.b2n(S.compare("<=", k, i[ax])), num_(a.at(i[:ax] + (k,) + i[ax + 1:]))))

    return I.new(S.build(a.dims, f))


@NP("cumprod ndarray.cumprod", "x axis=None")
def np_cumprod(I, x, axis):
    a = asarr(I, x)
    if I.res(axis) is None:
        a = L.flatten_arr(I, a) if a.ndim != 1 else a
        ax = 0
    else:
        ax = axes_of(I, axis, a.ndim)[0]
    d = a.dims[ax]
    k = S.fresh(d)

    def f(*i):
        if S._num_dims(d) and S.isnum(i[ax]):
            return S.mul(*[num_(a.at(i[:ax] + (S.num(q),) + i[ax + 1:])) for q in range(int(S.val(i[ax])) + 1)])
        return S.red("prod", [k], S.ite(S.compare("<=", k, i[ax]), num_(a.at(i[:ax] + (k,) + i[ax + 1:])), ONE))

    return I.new(S.build(a.dims, f))


@NP("roll", "x shift axis=None")
def np_roll(I, x, shift, axis):
    a = asarr(I, x)
    dims = a.dims
    flat = I.res(axis) is None and a.ndim != 1
    if flat:
        a = L.flatten_arr(I, a)
    ax = 0 if I.res(axis) is None else axes_of(I, axis, a.ndim)[0]
    sh = N(I, shift)
    d = a.dims[ax]
    r = S.build(a.dims, lambda *i: a.at(i[:ax] + (S.divmod_(S.sub(i[ax], sh), d)[1],) + i[ax + 1:]))
    return L.reshape(I, I.new(r), list(dims)) if flat else I.new(r)


@NP("resize", "x shape")
def np_resize(I, x, shape):
    a = L.flatten_arr(I, asarr(I, x))
    d = tuple(shape_arg(I, shape))
    total = ONE
    for q in d:
        total = S.mul(total, q)
    r = S.build((total,), lambda i: a.at((S.divmod_(i, a.dims[0])[1],)))
    return I.new(r) if len(d) == 1 else L.reshape(I, I.new(r), list(d))


@NP("diff", "x n=1 axis=-1")
def np_diff(I, x, n, axis):
    a = asarr(I, x)
    if I.res(n) != 1:
        raise Unknown("diff order")
    ax = axes_of(I, axis, a.ndim)[0]
    d = tuple(S.sub(q, ONE) if k == ax else q for k, q in enumerate(a.dims))
    up = lambda i: i[:ax] + (S.add(i[ax], ONE),) + i[ax + 1:]
    return I.new(S.build(d, lambda *i: S.sub(num_(a.at(up(i))), num_(a.at(i)))))


@NP("nan_to_num", "x *a **kw")
def np_n2n(I, x, a, kw):
    return I.new(asarr(I, x))


@NP("triu", "x k=0")
def np_triu(I, x, k):
    a = asarr(I, x)
    return I.new(S.build(a.dims, lambda *i: S.ite(S.compare(">=", S.sub(i[-1], i[-2]), N(I, k)), num_(a.at(i)), ZERO)))


@NP("tril", "x k=0")
def np_tril(I, x, k):
    a = asarr(I, x)
    return I.new(S.build(a.dims, lambda *i: S.ite(S.compare("<=", S.sub(i[-1], i[-2]), N(I, k)), num_(a.at(i)), ZERO)))


@NP("nansum", "x axis=None")
def np_nansum(I, x, axis):
    return reduce_(I, r_sum, x, axis, False)


@NP("median percentile quantile", "x *a **kw")
def np_median(I, x, a, kw):
    return X("opq", S.mk("median", fz(I, x), *[fz(I, v) for v in a], opq=True))


@NP("sort", "x axis=-1 kind=None")
def np_sort(I, x, axis, kind):
    a = asarr(I, x)
    if not a.ndim:
        return x
    ax = axes_of(I, axis, a.ndim)[0]
    n = S.mk("sortperm", S.lam(a), ax)
    return A(I.alloc(HArr(S.build(a.dims, lambda *i: S.mk("elem", S.mk("sorted", S.lam(a), ax), *i)))))


@NP("argsort ndarray.argsort", "x axis=-1 kind=None")
def np_argsort(I, x, axis, kind):
    a = asarr(I, x)
    ax = axes_of(I, axis, a.ndim)[0]
    n = S.mk("argsort", S.lam(a), ax)
    return I.new(S.build(a.dims, lambda *i: S.mk("elem", n, *i, isint=True)))


@NP("lexsort", "keys")
def np_lexsort(I, keys):
    a = asarr(I, keys)
    n = S.mk("lexsort", S.lam(a))
    return I.new(S.build(a.dims[-1:], lambda i: S.mk("elem", n, i, isint=True)))


@NP("unique", "x **kw")
def np_unique(I, x, kw):
    kw = {k: I.res(v) for k, v in kw.items()}
    kw = {k: v for k, v in kw.items() if v is not None and v is not False}
    a = asarr(I, x)
    if set(kw) == {"axis"} and kw["axis"] in (0, -2) and len(a.dims) == 2:
        n = S.mk("uniqrows", S.lam(a))
        return I.new(S.build((S.mk("lenuniq", n, isint=True), a.dims[1]), lambda i, j: S.mk("elem", n, i, j, isint=a.body.isint)))
    if kw:
        raise Unknown("unique with options")
    n = S.mk("unique", S.lam(a))
    d = S.mk("lenuniq", n, isint=True)
    return I.new(S.build((d,), lambda i: S.mk("elem", n, i, isint=a.body.isint)))


# ------------------------------------------------------------------ linear algebra
@NP("matmul", "a b out=None")
def np_matmul(I, a, b, out):
    return out_arg(I, matmul(I, a, b), out)


@NP("dot ndarray.dot", "a b out=None")
def np_dot(I, a, b, out):
    x, y = asarr(I, a), asarr(I, b)
    if x.ndim == 0 or y.ndim == 0:
        return out_arg(I, ew(I, S.mul, x, y), out)
    return out_arg(I, matmul(I, I.new(x), I.new(y)), out)


@NP("inner vdot", "a b")
def np_inner(I, a, b):
    x, y = asarr(I, a), asarr(I, b)
    if x.ndim == 1 and y.ndim == 1:
        return matmul(I, I.new(x), I.new(y))
    if x.ndim == 2 and y.ndim == 2:
        return matmul(I, I.new(x), transpose(I, I.new(y)))
    raise Unknown("inner")


@NP("outer", "a b")
def np_outer(I, a, b):
    x, y = L.flatten_arr(I, asarr(I, a)), L.flatten_arr(I, asarr(I, b))
    return I.new(S.build((x.dims[0], y.dims[0]), lambda i, j: S.mul(num_(x.at((i,))), num_(y.at((j,))))))


@NP("cross", "a b")
def np_kron(I, a, b):
    raise Unknown("kron")


@NP("linalg.multi_dot", "xs")
def np_multidot(I, xs):
    it = I.iterate(xs)
    r = it[0]
    for x in it[1:]:
        r = matmul(I, r, x)
    return r


@NP("linalg.matrix_power", "a n")
def np_mpow(I, a, n):
    k = pyint(N(I, n))
    if not isinstance(k, int) or k < 0:
        raise Unknown("matrix power")
    if k == 0:
        return np_eye(I, I.dims(a)[0], None, 0, None)
    r = a
    for _ in range(k - 1):
        r = matmul(I, r, a)
    return r


@NP("linalg.inv", "a")
def np_inv(I, a):
    return inverse(I, "inv", a)


@NP("linalg.pinv", "a rcond=None hermitian=False rtol=None")
def np_pinv(I, a, rcond, hermitian, rtol):
    if I.res(rcond) is not None or I.res(rtol) is not None:
        m = asarr(I, a)
        if m.ndim != 2:
            I.throw("LinAlgError", "array must be 2-dimensional")
        t = fz(I, rcond) if I.res(rcond) is not None else fz(I, rtol)
        if not (S.isnum(t) and S.val(t) <= S.Fraction(1, 10**14)):  # the default is of this size
            b = S.mk("pinv_tol", S.lam(m), t)
            return I.new(S.build((m.dims[1], m.dims[0]), lambda i, j: S.elem(b, i, j)))
    if I.res(hermitian) is not False:
        # same value for symmetric matrices
        pass
    return inverse(I, "pinv", a)


@NP("linalg.solve", "a b lower=False overwrite_a=False overwrite_b=False check_finite=True assume_a=None transposed=False")
def np_solve(I, a, b, lower, overwrite_a, overwrite_b, check_finite, assume_a, transposed):
    if I.res(overwrite_a) is not False or I.res(overwrite_b) is not False:
        raise Unknown("solve in place")
    if I.res(transposed) is True:
        a = I.call(I.getattr(a, "transpose"), [], {})
    return matmul(I, inverse(I, "inv", a), b)


@NP("linalg.lstsq", "a b rcond=None")
def np_lstsq(I, a, b, rcond):
    x = matmul(I, inverse(I, "pinv", a), b)
    q = lambda n: X("opq", S.mk("lstsq" + n, fz(I, a), fz(I, b), opq=True))
    return (x, q("res"), q("rank"), q("sv"))


@NP("linalg.det", "a")
def np_det(I, a):
    return S.mk("det", S.lam(asarr(I, a)))


@NP("linalg.matrix_rank", "a *r")
def np_rank(I, a, r):
    return S.mk("rank", S.lam(asarr(I, a)), *[fz(I, x) for x in r], isint=True)


@NP("linalg.cond", "a *r")
def np_cond(I, a, r):
    return S.mk("condno", S.lam(asarr(I, a)), *[fz(I, x) for x in r], pos=True)


@NP("linalg.eigvals linalg.eigvalsh", "a *r")
def np_eigvals(I, a, r):
    m = asarr(I, a)
    b = S.mk("eigvals", S.lam(m))
    return I.new(S.build(m.dims[:1], lambda i: S.elem(b, i)))


@NP("linalg.norm", "x ord=None axis=None keepdims=False")
def np_norm(I, x, ord, axis, keepdims):
    a = asarr(I, x)
    o = I.res(ord)
    ax = I.res(axis)
    nax = len(axes_of(I, ax, a.ndim))
    sq = lambda: ew(I, S.sqrt, reduce_(I, r_sum, S.build(a.dims, lambda *i: S.power(num_(a.at(i)), 2)), axis, keepdims))
    if o is None or o == "fro":
        return sq()
    on = N(I, o)
    if on.op == "ite" and S.isnum(on.args[1]) and S.isnum(on.args[2]) and not on.args[0].opq:
        raise NeedSplit(on.args[0])
    if nax == 1:
        if S.isnum(on) and S.val(on) == 2:
            return sq()
        if on is ONE:
            return reduce_(I, lambda ids, b: r_sum(ids, S.absval(b)), a, axis, keepdims)
        if on is S.num(float("inf")):
            return reduce_(I, lambda ids, b: r_red("max")(ids, S.absval(b)), a, axis, keepdims)
        if on is S.neg(S.num(float("inf"))):
            return reduce_(I, lambda ids, b: r_red("min")(ids, S.absval(b)), a, axis, keepdims)
        if S.isnum(on):
            p = S.val(on)
            if p == 0:
                return reduce_(I, lambda ids, b: r_sum(ids, S.b2n(tobool(b))), a, axis, keepdims)
            r = reduce_(I, lambda ids, b: r_sum(ids, S.power(S.absval(b), p)), a, axis, keepdims)
            return ew(I, lambda v: S.power(v, 1 / Fraction(p)), r)
    if nax == 2 and a.ndim == 2:
        return S.mk("matnorm", S.lam(a), on)
    raise Unknown("norm order")


def pinv_min(I, m, n):
    c = I.simp(S.compare("<=", m, n))
    if c is TRUE:
        return m
    if c is FALSE:
        return n
    return S.fn("min2", m, n)


def svd_parts(I, a, full):
    m, n = a.dims
    La = S.lam(a)
    k = pinv_min(I, m, n)
    U = S.mk("svdU", La)
    s = S.mk("svds", La)
    V = S.mk("svdVh", La)
    du = (m, m if full else k)
    dv = (n if full else k, n)
    ua = S.build(du, lambda i, j: S.mk("elem", U, i, j))
    sa = S.build((k,), lambda i: S.mk("elem", s, i, pos=True))
    va = S.build(dv, lambda i, j: S.mk("elem", V, i, j))
    if full and m is ONE and S.isnum(n) and S.val(n) == 2:
        # one row of two entries; the sign of the vectors is arbitrary, clients do not depend on it
        a0, a1 = num_(a.at((ZERO, ZERO))), num_(a.at((ZERO, ONE)))
        r = S.sqrt(S.add(S.mul(a0, a0), S.mul(a1, a1)))
        row = lambda i, x, y: S.div(S.select(i, [x, y]), r)
        va = S.build(dv, lambda i, j: S.select(i, [row(j, a0, a1), row(j, S.neg(a1), a0)]))
        ua = S.build(du, lambda i, j: ONE)
    return ua, sa, va


@NP("linalg.svd", "a full_matrices=True compute_uv=True hermitian=False lapack_driver=None check_finite=True overwrite_a=False")
def np_svd(I, a, full_matrices, compute_uv, hermitian, lapack_driver, check_finite, overwrite_a):
    x = asarr(I, a)
    if x.ndim != 2:
        I.throw("LinAlgError", "array must be two-dimensional")
    full = I.truth(full_matrices)
    if not isinstance(full, bool):
        raise NeedSplit(full)
    u, s, v = svd_parts(I, x, full)
    if I.truth(compute_uv) is False:
        return I.new(s)
    return (I.new(u), I.new(s), I.new(v))


@NP("linalg.svdvals", "a")
def np_svdvals(I, a):
    return I.new(svd_parts(I, asarr(I, a), True)[1])


@NP("linalg.eig scipy.linalg.sqrtm", "a *r")
def np_eig(I, a, r):
    return X("opq", S.mk("decomp", S.lam(asarr(I, a)), opq=True))


def decomp(I, name, a, dims):
    n = S.mk(name, S.lam(a))
    return I.new(S.build(dims, lambda *i: S.mk("elem", n, *i)))


@NP("linalg.cholesky", "a upper=False")
def np_cholesky(I, a, upper):
    return cholesky(I, a, I.res(upper))


@NP("scipy.linalg.cholesky", "a lower=False overwrite_a=False check_finite=True")
def sp_cholesky(I, a, lower, overwrite_a, check_finite):
    return cholesky(I, a, not I.res(lower))


def cholesky(I, a, upper):
    a = asarr(I, a)
    if a.ndim != 2 or not deq(*a.dims):
        I.throw("LinAlgError", "array must be square")
    r = decomp(I, "chol", a, a.dims)
    return transpose(I, r) if upper else r


@NP("linalg.eigh", "a UPLO=None")
def np_eigh(I, a, UPLO):
    a = asarr(I, a)
    if a.ndim != 2 or not deq(*a.dims):
        I.throw("LinAlgError", "array must be square")
    return (decomp(I, "eighw", a, a.dims[:1]), decomp(I, "eighv", a, a.dims))


@NP("linalg.qr", "a mode=None")
def np_qr(I, a, mode):
    a = asarr(I, a)
    if a.ndim != 2:
        I.throw("LinAlgError", "array must be two-dimensional")
    if I.res(mode) not in (None, "reduced"):
        raise Unknown("qr mode")
    k = pinv_min(I, *a.dims)
    return (decomp(I, "qrq", a, (a.dims[0], k)), decomp(I, "qrr", a, (k, a.dims[1])))


@NP("einsum", "spec *xs **kw")
def np_einsum(I, spec, xs, kw):
    if not isinstance(spec, str) or kw and set(kw) - {"optimize"}:
        raise Unknown("einsum form")
    spec = spec.replace(" ", "")
    if "." in spec:
        raise Unknown("einsum ellipsis")
    if "->" in spec:
        ins, out = spec.split("->")
    else:
        ins = spec
        lets = ins.replace(",", "")
        out = "".join(sorted(c for c in set(lets) if lets.count(c) == 1))
    ins = ins.split(",")
    arrs = [asarr(I, x) for x in xs]
    if len(ins) != len(arrs):
        I.throw("ValueError", "einsum: operand count")
    size = {}
    for s, a in zip(ins, arrs):
        if len(s) != a.ndim:
            I.throw("ValueError", "einsum: subscripts do not match operand dimension")
        for c, d in zip(s, a.dims):
            if c in size and size[c] is not ONE and d is not ONE and not deq(size[c], d):
                I.throw("ValueError", "einsum: operand dimensions mismatch")
            if c not in size or size[c] is ONE:
                size[c] = d
    summed = [c for c in size if c not in out]

    def f(*i):
        m = dict(zip(out, i))
        ids = []
        for c in summed:
            if size[c] is ONE:
                m[c] = ZERO
            else:
                m[c] = S.fresh(size[c])
                ids.append(m[c])
        t = ONE
        for s, a in zip(ins, arrs):
            t = S.mul(t, num_(a.at(tuple(ZERO if d is ONE else m[c] for c, d in zip(s, a.dims)))))
        return S.sum_(ids, t) if ids else t

    return I.new(S.build(tuple(size[c] for c in out), f))


@NP("tensordot", "a b axes=2")
def np_tensordot(I, a, b, axes):
    ax = I.res(axes)
    x, y = asarr(I, a), asarr(I, b)
    if isinstance(ax, int):
        l1, l2 = list(range(x.ndim - ax, x.ndim)), list(range(ax))
    else:
        l1, l2 = [I.res(q) for q in I.iterate(ax)]
        l1 = [l1] if isinstance(l1, int) else [pyint(N(I, q)) % x.ndim for q in I.iterate(l1)]
        l2 = [l2] if isinstance(l2, int) else [pyint(N(I, q)) % y.ndim for q in I.iterate(l2)]
    import string as _s

    lets = iter(_s.ascii_letters)
    sx = [next(lets) for _ in range(x.ndim)]
    sy = [next(lets) for _ in range(y.ndim)]
    for p, q in zip(l1, l2):
        sy[q] = sx[p]
    out = [c for k, c in enumerate(sx) if k not in l1] + [c for k, c in enumerate(sy) if k not in l2]
    return np_einsum(I, "".join(sx) + "," + "".join(sy) + "->" + "".join(out), [I.new(x) if x.ndim else x.body, I.new(y)], {})


@NP("cov corrcoef", "m *a **kw")
def np_cov(I, m, a, kw):
    return X("opq", S.mk("cov", fz(I, m), opq=True))


@NP("apply_over_axes", "*a **kw")
def np_apply(I, a, kw):
    raise Unknown("apply along axis")


# ------------------------------------------------------------------ queries
@NP("shape", "x")
def np_shape(I, x):
    return tuple(pyint(d) for d in asarr(I, x).dims)


@NP("ndim", "x")
def np_ndim(I, x):
    x = I.res(x)
    if x is None or isinstance(x, (str, X)):
        return 0
    return asarr(I, x).ndim


@NP("size", "x axis=None")
def np_size(I, x, axis):
    a = asarr(I, x)
    if I.res(axis) is not None:
        return pyint(a.dims[axes_of(I, axis, a.ndim)[0]])
    return pyint(prod_dims(a.dims))


@NP("isscalar", "x")
def np_isscalar(I, x):
    x = I.res(x)
    return L.isscalar(x) or L.isstr(x)


@NP("finfo", "t")
def np_finfo(I, t):
    return X("finfo", S.mk("finfo"))


@NP("errstate seterr printoptions set_printoptions", "*a **kw")
def np_errstate(I, a, kw):
    return X("ctx", S.sym("errstate"))


@NP("float64 float32 float_ double", "x=0")
def np_float64(I, x):
    x = I.res(x)
    if isinstance(x, A) and I.dims(x):
        return x
    return N(I, x)


@NP("int64 int32 intp", "x=0")
def np_int64(I, x):
    return CALLS["builtins.int"][0](I, x, None)


@NP("dtype", "x")
def np_dtype(I, x):
    return X("dtype", S.mk("dtype", "num"))


@NP("issubdtype", "a b")
def np_issubdtype(I, a, b):
    d = L.dtcode(I, a)
    b = I.res(b)
    if d not in ("int", "float", "bool") or not isinstance(b, Ext):
        return X("opq", S.mk("npcall", fz(I, a), fz(I, b), opq=True))
    n = b.name.split(".")[-1]
    kinds = {"int": {"int", "int64", "integer", "signedinteger", "number", "generic"}, "float": {"float", "float64", "floating", "inexact", "number", "generic", "double"}, "bool": {"bool", "bool_", "generic"}}
    return n in kinds[d]


@NP("result_type promote_types", "*x")
def np_rt(I, x):
    return X("dtype", S.mk("dtype", "num"))


@NP("searchsorted digitize interp histogram polyfit polyval gradient convolve save savez load savetxt loadtxt genfromtxt", "*a **kw")
def np_opq(I, a, kw):
    return X("opq", S.mk("npcall", *[fz(I, x) for x in a], opq=True))


@NP("scipy.special.erfinv", "x")
def sp_erfinv(I, x):
    return ew(I, lambda a: S.fn("erfinv", a), x)


@NP("scipy.special.erf math.erf", "x")
def sp_erf(I, x):
    return ew(I, lambda a: S.fn("erf", a), x)


@NP("scipy.special.ndtri", "p")
def sp_ndtri(I, p):
    # inverse normal distribution function
    return ew(I, lambda a: S.mul(S.sqrt(S.num(2)), S.fn("erfinv", S.sub(S.mulc(a, 2), ONE))), p)


@NP("scipy.special.erfcinv", "x")
def sp_erfcinv(I, x):
    return ew(I, lambda a: S.fn("erfinv", S.sub(ONE, a)), x)


@NP("scipy.stats.contingency.margins", "a")
def sp_margins(I, a):
    x = asarr(I, a)
    out = []
    for k in range(x.ndim):
        others = tuple(j for j in range(x.ndim) if j != k)
        out.append(reduce_(I, r_sum, x, others, True) if others else I.new(x))
    return I.newlist(out)


# ------------------------------------------------------------------ random numbers
def draw(I, state, kind, shape, f=None):
    """(value, next state) of a draw of the given shape from a stream"""
    dims = () if shape is None else tuple(shape)
    size = prod_dims(dims)
    base = S.mk("rnd", kind, state, size)
    nxt = S.mk("rngadv", state, kind, size)
    pos = kind == "u"

    def g(*i):
        r = L.ravel_index(i, dims) if dims else ZERO
        v = S.mk("elem", base, r)
        return f(v, i) if f else v

    return S.build(dims, g), nxt


def size_arg(I, size):
    s = I.res(size)
    if s is None:
        return None
    return dims_arg(I, s)


def loc_scale(I, kind, loc, scale, size, getset, sub=False):
    a, b = asarr(I, loc), asarr(I, scale)
    dims = size_arg(I, size)
    if dims is None:
        d = bdims(I, a.dims, b.dims)
        dims = d if d else None
    else:
        bdims(I, dims, a.dims, b.dims)
    st, put = getset

    def f(v, i):
        l, s = num_(a.at(bidx(a, i))), num_(b.at(bidx(b, i)))
        if sub:
            s = S.sub(s, l)
        return S.add(l, S.mul(s, v))

    r, nxt = draw(I, st(), kind, dims, f)
    put(nxt)
    return I.new(r)


def glob(I):
    def put(n):
        I.st.rng = n

    I.event("draw")
    return (lambda: I.st.rng), put


def rng_call(I, name, args, kw, gs):
    get, put = gs

    def a(k, n, d=None):
        if k < len(args):
            return args[k]
        return kw.get(n, d)

    if name in ("randn", "rand"):
        dims = dims_arg(I, tuple(args)) if args else None
        r, nx = draw(I, get(), "z" if name == "randn" else "u", dims)
        put(nx)
        return I.new(r)
    if name == "standard_normal":
        return loc_scale(I, "z", 0, 1, a(0, "size"), gs)
    if name in ("random", "random_sample", "ranf", "sample"):
        return loc_scale(I, "u", 0, 1, a(0, "size"), gs)
    if name == "normal":
        return loc_scale(I, "z", a(0, "loc", 0), a(1, "scale", 1), a(2, "size"), gs)
    if name == "uniform":
        return loc_scale(I, "u", a(0, "low", 0), a(1, "high", 1), a(2, "size"), gs, True)
    if name in ("choice", "randint", "integers"):
        st = get()
        fr = [fz(I, x) for x in args] + [S.mk("item", k, fz(I, v)) for k, v in sorted(kw.items())]
        size = a(1, "size") if name == "choice" else a(2, "size")
        dims = size_arg(I, size)
        x = I.res(args[0]) if args else None
        base = S.mk("rnd" + name, st, *fr)
        nxt = S.mk("rngadv", st, name, *fr)
        known = None
        if name == "choice" and x is not None and set(kw) <= {"size", "replace"} and len(args) < 4 and I.res(a(2, "replace", True)) is True:
            known = (ZERO, N(I, x) if L.isscalar(x) else asarr(I, x).dims[0])
        elif name != "choice" and x is not None and set(kw) <= {"size", "high"} and len(args) < 4:
            hi = I.res(a(1, "high"))
            known = (ZERO, N(I, x)) if hi is None else (N(I, x), N(I, hi)) if L.isscalar(hi) and L.isscalar(x) else None
        if known:  # whole numbers drawn evenly from a range, with replacement: one stream under all three names
            base = S.mk("rndint", st, *known, *(dims or ()))
            nxt = S.mk("rngadv", st, "ints", *known, *(dims or ()))
        put(nxt)
        isint = name != "choice" or L.isscalar(x)
        if not isint:
            src = asarr(I, x)
            pos = lambda i: S.mk("elem", base, L.ravel_index(i, dims) if dims else ZERO, isint=True)
            return I.new(S.build(tuple(dims or ()) + src.dims[1:], lambda *i: src.at((pos(i[: len(dims or ())]),) + i[len(dims or ()):])))
        return I.new(S.build(dims or (), lambda *i: S.mk("elem", base, L.ravel_index(i, dims) if dims else ZERO, isint=True)))
    if name in ("shuffle", "permutation"):
        st = get()
        x = I.res(args[0])
        n = N(I, x) if L.isscalar(x) else N(I, L.length(I, x))
        base = S.mk("rndperm", st, n)
        put(S.mk("rngadv", st, "perm", n))
        if L.isscalar(x):
            return I.new(S.build((n,), lambda i: S.mk("elem", base, i, isint=True)))
        src = asarr(I, x)
        r = S.build(src.dims, lambda i, *j: src.at((S.mk("elem", base, i, isint=True),) + j))
        if name == "permutation":
            return I.new(r)
        if isinstance(x, A):
            I.writearr(x, r)
            return None
        it = I.iterate(x)
        if isinstance(it, list) and isinstance(x, Ref):
            I.put(x.loc, HList([L.pick(I, it, S.mk("elem", base, S.num(k), isint=True)) for k in range(len(it))]))
            return None
        raise Unknown("shuffle of a sequence")
    if name == "seed":
        s = a(0, "seed")
        put(S.mk("seeded", fz(I, s)))
        return None
    if name in ("get_state",):
        return X("rngsnap", get())
    if name in ("set_state",):
        x = I.res(args[0])
        if isinstance(x, X) and x.kind == "rngsnap":
            put(x.node)
            return None
        raise Unknown("set_state")
    st = get()
    put(S.mk("rngadv", st, name, opq=True))
    return X("opq", S.mk("rnd?" + name, st, opq=True))


def _mk_rng(name):
    def f(I, a, kw):
        if name == "seed":
            s = a[0] if a else kw.get("seed")
            I.event("seed", fz(I, s))
            if I.res(s) is None:
                I.st.rng = S.mk("entropy", I.uid())
                return None
            I.st.rng = S.mk("seeded", fz(I, s))
            return None
        if name == "get_state":
            return X("rngsnap", I.st.rng)
        if name == "set_state":
            I.event("seed", fz(I, a[0]))
            x = I.res(a[0])
            if isinstance(x, X) and x.kind == "rngsnap":
                I.st.rng = x.node
                return None
            raise Unknown("set_state")
        return rng_call(I, name, list(a), kw, glob(I))

    return f


for _n in ("seed randn rand normal uniform standard_normal random random_sample choice randint shuffle permutation get_state set_state "
           "multivariate_normal beta gamma exponential poisson binomial laplace").split():
    NP("random." + _n, "*a **kw")(_mk_rng(_n))


@NP("random.RandomState", "seed=None")
def np_rs(I, seed):
    s = I.res(seed)
    n = S.mk("entropy", I.uid()) if s is None else S.mk("seeded", fz(I, s))
    return Ref(I.alloc(HCell(X("rngstate", n))))


@NP("random.default_rng", "seed=None")
def np_drng(I, seed):
    s = I.res(seed)
    n = S.mk("entropy", I.uid()) if s is None else S.mk("seededpcg", fz(I, s))
    return Ref(I.alloc(HCell(X("rngstate", n))))


def rng_method(I, o, h, name, args, kw):
    def get():
        return I.obj(o.loc).v.node

    def put(n):
        I.put(o.loc, HCell(X("rngstate", n)))

    return rng_call(I, name, list(args), dict(kw), (get, put))


# ------------------------------------------------------------------ distributions
# standard densities by name: symmetric ones are even functions
EVENPDF = {"norm", "laplace", "t", "logistic", "cauchy"}
NOSHAPE = {"norm", "uniform", "laplace", "logistic", "cauchy", "expon"}


def stdfn(kind, name, z, shp=()):
    return S.fn(kind + "_" + name, z, *shp)


class DistP:
    __slots__ = ("name", "loc", "scale", "shapes")

    def __init__(self, name, loc, scale, shapes):
        self.name, self.loc, self.scale, self.shapes = name, loc, scale, shapes


NSHAPES = {"norm": 0, "uniform": 0, "laplace": 0, "logistic": 0, "cauchy": 0, "expon": 0, "beta": 2, "gamma": 1, "t": 1, "truncnorm": 2, "lognorm": 1}


def dist_params(I, name, args, kw):
    ns = NSHAPES[name]
    args = list(args)
    kw = dict(kw)
    shapes = args[:ns]
    rest = args[ns:]
    names = {"beta": ["a", "b"], "gamma": ["a"], "t": ["df"], "truncnorm": ["a", "b"], "lognorm": ["s"]}.get(name, [])
    for k, n in enumerate(names):
        if k >= len(shapes):
            if n not in kw:
                I.throw("TypeError", "missing shape parameter")
            shapes.append(kw.pop(n))
    loc = rest[0] if len(rest) > 0 else kw.pop("loc", 0)
    scale = rest[1] if len(rest) > 1 else kw.pop("scale", 1)
    if kw:
        I.throw("TypeError", "unexpected keyword argument %r" % sorted(kw)[0])
    return DistP(name, asarr(I, loc), asarr(I, scale), [asarr(I, s) for s in shapes])


def frozen(I, name, args, kw):
    p = dist_params(I, name, args, kw)
    node = S.mk("frozen", name, dl(p.loc), dl(p.scale), *[dl(s) for s in p.shapes])
    return X("dist", node, ("known", p))


def dl(a):
    return S.mk("arr", tuple(a.dims), S.lam(a)) if a.dims else a.body


def known_eval(I, p, kind, x):
    def f(v, l, s, *sh):
        z = S.div(S.sub(v, l), s)
        if kind == "pdf":
            return S.div(stdfn("pdf", p.name, z, sh), s)
        if kind == "logpdf":
            return S.sub(S.fn("log", stdfn("pdf", p.name, z, sh)), S.fn("log", s))
        if kind == "ppf":
            return S.add(l, S.mul(s, stdfn("ppf", p.name, v, sh)))
        return stdfn(kind, p.name, z, sh)

    return ew(I, f, x, p.loc, p.scale, *p.shapes)


DISTM = {"pdf", "logpdf", "cdf", "sf", "ppf", "isf", "logcdf"}


def stats_call(I, name, args, kw):
    """scipy.stats.<name>(...)"""
    if name == "gaussian_kde" or name == "kde.gaussian_kde":
        return kde(I, *args, **kw)
    parts = name.split(".")
    if parts[0] in NSHAPES:
        if len(parts) == 1:
            return frozen(I, parts[0], args, kw)
        if parts[1] in DISTM:
            p = dist_params(I, parts[0], args[1:], kw)
            return known_eval(I, p, parts[1], args[0])
        if parts[1] == "rvs":
            kw = dict(kw)
            size = kw.pop("size", None)
            rs = kw.pop("random_state", None)
            p = dist_params(I, parts[0], args, kw)
            return rvs(I, p, size, rs)
    I.opaque.add("scipy.stats." + name)
    return X("opq", S.mk("call", "scipy.stats." + name, *[fz(I, a) for a in args], *[S.mk("item", k, fz(I, v)) for k, v in sorted(kw.items())], opq=True))


def rvs(I, p, size, rs):
    rs = I.res(rs)
    s = I.res(size)
    if rs is None:
        gs = glob(I)
    elif isinstance(rs, Ref) and isinstance(I.obj(rs.loc), HCell):
        gs = (lambda: I.obj(rs.loc).v.node), (lambda n: I.put(rs.loc, HCell(X("rngstate", n))))
    elif L.isscalar(rs):
        cell = [S.mk("seeded", fz(I, rs))]
        gs = (lambda: cell[0]), (lambda n: cell.__setitem__(0, n))
    else:
        raise Unknown("random_state")
    loc = I.new(p.loc) if p.loc.dims else p.loc.body
    scale = I.new(p.scale) if p.scale.dims else p.scale.body
    kind = {"norm": "z", "uniform": "u"}.get(p.name)
    if kind is None:
        st, put = gs
        base = S.mk("rnd_" + p.name, st(), fz(I, s))
        put(S.mk("rngadv", st(), p.name, fz(I, s)))
        dims = size_arg(I, s) or ()
        return ew(I, lambda v, l, q: S.add(l, S.mul(q, v)), S.build(dims, lambda *i: S.mk("elem", base, L.ravel_index(i, dims) if dims else ZERO)), p.loc, p.scale)
    return loc_scale(I, kind, loc, scale, s if s is not None else None, gs)


def userdist_pdf(I, D, kind, x, kw):
    """user distribution: densities column by column"""
    a = asarr(I, x)
    extra = [S.mk("item", k, fz(I, v)) for k, v in sorted(kw.items())]

    def f(*i):
        j = i[-1] if i else ZERO
        if a.ndim and a.dims[-1] is ONE:
            j = ZERO
        if a.ndim == 1:
            j = ZERO
        return S.mk("pdf", D, j, num_(a.at(i)), *extra)

    if kind == "logpdf":
        return I.new(S.build(a.dims, lambda *i: S.fn("log", f(*i))))
    if kind == "pdf":
        return I.new(S.build(a.dims, f))
    raise Unknown("distribution.%s" % kind)


def kde(I, dataset, bw_method=None, weights=None):
    a = asarr(I, dataset)
    a = al2(a)
    if a.ndim != 2:
        I.throw("ValueError", "dataset")
    d, n = a.dims
    if I.res(weights) is None:
        w = S.build((n,), lambda i: ONE)
    else:
        w = asarr(I, weights)
        if w.ndim == 0:
            w0 = w
            w = S.build((ONE,), lambda i: w0.body)
        if w.ndim != 1:
            I.throw("ValueError", "`weights` input should be one-dimensional.")
        if not deq(w.dims[0], n):
            I.throw("ValueError", "`weights` input should be of length n")
    if n is ONE:
        I.throw("ValueError", "`dataset` input should have multiple elements.")
    i = S.fresh(n)
    tot = S.sum_([i], num_(w.at((i,))))
    wn = S.build((n,), lambda k: S.div(num_(w.at((k,))), tot))
    la, lw = S.lam(a), S.lam(wn)
    if S.PERMS and (la.mk | lw.mk) & S.PERMS:
        # the order of the sample set does not matter
        k, j = S.fresh(d), S.fresh(n)
        both = S.mk("pair", num_(a.at((k, j))), num_(wn.at((j,))))
        (j2,), b2 = S.unshuffle([j], both)
        if b2 is not both:
            la = S.lam(S.build((d, n), lambda x, y: S.subst(b2.args[0], {k: x, j2: y})))
            lw = S.lam(S.build((n,), lambda y: S.subst(b2.args[1], {j2: y})))
    node = S.mk("kde", la, fz(I, bw_method), lw)
    return X("kde", node, ("kde", a, w))


CALLS["scipy.stats.gaussian_kde"] = (lambda I, dataset, bw_method, weights: kde(I, dataset, bw_method, weights),
                                     [("dataset", "req", None), ("bw_method", "opt", None), ("weights", "opt", None)])
CALLS["scipy.stats.kde.gaussian_kde"] = CALLS["scipy.stats.gaussian_kde"]


def kde_eval(I, K, pts, log=False):
    a = al2(asarr(I, pts))
    d = K.extra[1].dims[0]
    if a.dims[0] is not d and not deq(a.dims[0], d):
        if a.dims[0] is ONE and deq(a.dims[1], d):
            b = a
            a = S.build((d, ONE), lambda i, j: b.at((ZERO, i)))
        else:
            I.throw("ValueError", "points have dimension %s, dataset has dimension %s" % (S.show(a.dims[0]), S.show(d)))
    m = a.dims[1]

    def f(k):
        col = S.build((a.dims[0],), lambda i: num_(a.at((i, k))))
        v = S.mk("kdepdf", K.node, S.lam(col))
        return S.fn("log", v) if log else v

    return A(I.alloc(HArr(S.build((m,), f))))


def call_x(I, f, args, kw):
    if f.kind == "kde":
        return kde_eval(I, f, args[0] if args else kw.get("points", kw.get("x")))
    if f.kind == "opq":
        I.event("opqcall")
        return X("opq", S.mk("call", f.node, *[fz(I, a) for a in args], opq=True))
    if f.kind in ("clickdeco", "wraps"):
        return args[0] if args else None
    if f.kind == "func":
        # uninterpreted user function: element-wise description of its result
        return f.extra(I, args, kw)
    if f.kind == "ctx":
        return f
    I.throw("TypeError", "object is not callable")


def x_method(I, o, name, args, kw):
    k = o.kind
    if k == "axes":
        return ax_method(I, o, name, args, kw)
    if k == "figure":
        return fig_method(I, o, name, args, kw)
    if k == "kde":
        if name in ("pdf", "evaluate", "__call__"):
            return kde_eval(I, o, args[0] if args else kw.get("x", kw.get("points")))
        if name == "logpdf":
            return kde_eval(I, o, args[0] if args else kw.get("x"), log=True)
        return X("opq", S.mk("kdem", o.node, name, *[fz(I, a) for a in args], opq=True))
    if k == "dist":
        if o.extra[0] == "known":
            p = o.extra[1]
            if name in DISTM:
                if kw and set(kw) - {"x"}:
                    I.throw("TypeError", "unexpected keyword argument")
                return known_eval(I, p, name, args[0] if args else kw["x"])
            if name == "rvs":
                size = args[0] if args else kw.get("size")
                rs = args[1] if len(args) > 1 else kw.get("random_state")
                return rvs(I, p, size, rs)
            if name in ("mean", "std", "var", "median") and p.name == "norm":
                if name in ("mean", "median"):
                    return ew(I, lambda l, s: l, p.loc, p.scale)
                if name == "std":
                    return ew(I, lambda l, s: s, p.loc, p.scale)
                return ew(I, lambda l, s: S.power(s, 2), p.loc, p.scale)
            if name == "mean" and p.name == "uniform":
                return ew(I, lambda l, s: S.add(l, S.mulc(s, Fraction(1, 2))), p.loc, p.scale)
            if name == "interval" and p.name == "norm":
                c = N(I, args[0] if args else kw.get("confidence", kw.get("alpha")))
                z = S.mul(S.sqrt(S.num(2)), S.fn("erfinv", c))
                return (ew(I, lambda l, s: S.sub(l, S.mul(s, z)), p.loc, p.scale), ew(I, lambda l, s: S.add(l, S.mul(s, z)), p.loc, p.scale))
        elif name in ("pdf", "logpdf"):
            kw = dict(kw)
            x = args[0] if args else kw.pop("x")
            return userdist_pdf(I, o.node, name, x, kw)
        return X("opq", S.mk("distm", o.node, name, *[fz(I, a) for a in args], opq=True))
    if k == "path":
        if name in ("exists", "is_file", "is_dir"):
            return S.cnd("exists", o.node)
        if name == "joinpath":
            r = o.node
            for a in args:
                r = L.pjoin(r, a.node if isinstance(a, X) and a.kind == "path" else I.freeze(a))
            return X("path", r)
        if name == "open":
            return CALLS["builtins.open"][0](I, o, args[0] if args else kw.get("mode", "r"), [], {})
        if name in ("as_posix", "__str__", "__fspath__"):
            return o.node.args[0] if o.node.op == "str" else o.node
        if name in ("resolve", "absolute", "expanduser"):
            return X("path", S.mk("pathm", o.node, name, opq=True))
        if name in ("with_suffix", "with_name", "with_stem", "is_absolute", "relative_to", "is_relative_to", "match"):
            vs = [a.node if isinstance(a, X) and a.kind == "path" else I.freeze(a) for a in args]
            if o.node.op == "str" and not kw and all(v.op == "str" for v in vs):
                import pathlib

                try:
                    r = getattr(pathlib.PurePosixPath(o.node.args[0]), name)(*[v.args[0] for v in vs])
                except ValueError:
                    I.throw("ValueError", "path")
                return r if isinstance(r, bool) else X("path", S.string(str(r)))
            return X("path", S.mk("pathm", o.node, name, *vs, opq=True))
        I.event("path_" + name, o.node, *[fz(I, a) for a in args])
        return X("opq", S.mk("pathm", o.node, name, opq=True))
    if k == "rcparams":
        if name == "copy":
            return X("opq", S.mk("rccopy", o.node))
        I.event("rcset", *[fz(I, a) for a in args])
        return None
    if k == "artist":
        I.event("artist", o.node, name, *[fz(I, a) for a in args])
        return X("artist", S.mk("artm", o.node, name))
    if k == "exc":
        return o
    if k in ("log",):
        return None
    if k == "file":
        if name in ("write", "writelines"):
            I.event("filewrite", o.node)
            return None
        if name in ("read", "readlines"):
            return X("opq", S.mk("fileread", o.node, opq=True))
        return None
    if k == "buffer":
        return None
    if k == "clickdeco":
        return o
    if k == "rngstate":
        return None
    if k == "axarr":
        if name in ("ravel", "flatten", "reshape"):
            return o
        if name in AXES_ONLY:
            I.throw("AttributeError", "'numpy.ndarray' object has no attribute '%s'" % name)
    if k == "dictview":
        return None
    if k == "opq":
        if o.node.op == "log":
            return None
        I.opaque.add("method ." + name)
        return X("opq", S.mk("callm", o.node, name, *[fz(I, a) for a in args], *[S.mk("item", q, fz(I, v)) for q, v in sorted(kw.items())], opq=True))
    if k == "dtype" or k == "finfo" or k == "ctx":
        return X("opq", S.mk("callm", o.node, name, opq=True))
    if k == "func":
        return X("opq", S.mk("callm", o.node, name, opq=True))
    raise Unknown("method %s of %s" % (name, k))


# ------------------------------------------------------------------ figures
AXES_ONLY = set(canvas.ON_AXES) | set(canvas.ON_AXES.values())
AX_QUERIES = {"get_ylim": 2, "get_xlim": 2}


def kwnode(I, kw):
    return S.mk("dict", *[S.mk("item", S.string(k), I.freeze(v)) for k, v in sorted(kw.items())])


# property names matplotlib's artists accept; anything else is an error when the artist is made
LINE2D = set("aa agg_filter alpha animated antialiased c clip_box clip_on clip_path color dash_capstyle dash_joinstyle dashes data drawstyle ds figure fillstyle gapcolor gid in_layout label linestyle linewidth ls lw marker markeredgecolor markeredgewidth markerfacecolor markerfacecoloralt markersize markevery mec mew mfc mfcalt mouseover ms path_effects picker pickradius rasterized sketch_params snap solid_capstyle solid_joinstyle transform url visible xdata ydata zorder".split())
COLLECTION = set("aa agg_filter alpha animated antialiased antialiaseds array capstyle clim clip_box clip_on clip_path cmap color dashes ec edgecolor edgecolors facecolor facecolors fc figure gid hatch hatch_linewidth hatchcolor in_layout joinstyle label linestyle linestyles linewidth linewidths ls lw mouseover norm offset_transform offsets path_effects paths picker pickradius rasterized sizes sketch_params snap transOffset transform url urls visible zorder".split())
TEXT = set("agg_filter alpha animated antialiased backgroundcolor bbox c clip_box clip_on clip_path color family figure font font_properties fontfamily fontfeatures fontname fontproperties fontsize fontstretch fontstyle fontvariant fontweight gid ha horizontalalignment in_layout label language linespacing ma math_fontfamily mouseover multialignment name parse_math path_effects picker position rasterized rotation rotation_mode size sketch_params snap stretch style text transform transform_rotates_text url usetex va variant verticalalignment visible weight wrap x y zorder".split())
ACCEPTED = {
    "plot": LINE2D | {"scalex", "scaley"},
    "semilogy": LINE2D | {"base", "subs", "nonpositive"},
    "semilogx": LINE2D | {"base", "subs", "nonpositive"},
    "loglog": LINE2D | {"base", "subs", "nonpositive"},
    "axvline": LINE2D | {"x", "ymin", "ymax"},
    "axhline": LINE2D | {"y", "xmin", "xmax"},
    "scatter": COLLECTION | {"x", "y", "s", "c", "marker", "vmin", "vmax", "plotnonfinite", "data", "colorizer"},
    "annotate": TEXT | {"xy", "xytext", "xycoords", "textcoords", "arrowprops", "annotation_clip", "anncoords"},
    "text": TEXT | {"s", "fontdict"},
    "set_xlabel": TEXT | {"xlabel", "fontdict", "labelpad", "loc"},
    "set_ylabel": TEXT | {"ylabel", "fontdict", "labelpad", "loc"},
    "set_title": TEXT | {"label", "fontdict", "loc", "pad"},
}


def ax_method(I, o, name, args, kw):
    for k in kw:
        if name in ACCEPTED and k not in ACCEPTED[name]:
            I.throw("AttributeError", "%s() got an unexpected keyword argument '%s'" % (name, k))
    if name in ("get_ylim", "get_xlim"):
        n = sum(1 for e in I.st.events if e.kind == "ax" and e.args[0] is o.node and "lim" in e.args[1])
        return (S.mk("lim", o.node, name, 0, n), S.mk("lim", o.node, name, 1, n))
    if name in ("get_figure",):
        return X("figure", L.figof(o.node))
    if name.startswith("get_"):
        return X("opq", S.mk("axget", o.node, name, opq=True))
    if name in ("twinx", "twiny", "inset_axes"):
        canvas.record(I, o, name, [], kw)
        return X("axes", S.mk("axof", L.figof(o.node), name))
    cnt = sum(1 for e in I.st.events if e.kind in ("ax", "fig"))
    canvas.record(I, o, name, args, kw)
    art = X("artist", S.mk("artist", o.node, name, cnt))
    if name == "plot":
        return I.newlist([art])
    return art


def nfig(I):
    return sum(1 for e in I.st.events if e.kind == "newfig")


def fig_method(I, o, name, args, kw):
    if name in ("add_subplot", "gca", "add_axes", "subplots"):
        if name == "subplots":
            return subplots_of(I, o.node, args, kw)
        c = canvas.cur(I)
        if name == "gca":
            if isinstance(c, X) and L.figof(c.node) is o.node:
                return c
            return X("axes", S.mk("axof", o.node, "current"))
        if name == "add_subplot" and len(args) == 3 and all(type(I.res(k)) is int for k in args):
            r, k, i = [I.res(k) for k in args]
            if not 1 <= i <= r * k:
                I.throw("ValueError", "num must be an integer with 1 <= num <= %d" % (r * k))
        ax = X("axes", S.mk("axof", o.node, fz(I, tuple(args))))
        if isinstance(c, X) and L.figof(c.node) is o.node:
            canvas.set_cur(I, ax)
        return ax
    if name == "savefig":
        return save_fig(I, o.node, args, kw)
    I.event("fig", o.node, name, S.mk("tuple", *[I.freeze(a) for a in args]), kwnode(I, kw))
    I.st.events[-1].data = ([canvas.snap(I, a) for a in args], {k: canvas.snap(I, v) for k, v in kw.items()})
    return X("artist", S.mk("figart", o.node, name))


def save_fig(I, fig, args, kw):
    kw = dict(kw)
    f = I.res(args[0] if args else kw.pop("fname"))
    if isinstance(f, X) and f.kind == "buffer":
        return None
    n = f.node if isinstance(f, X) else I.freeze(f)
    if n.op == "str":
        import posixpath

        n = S.string(posixpath.normpath(n.args[0]))
    I.event("savefig", fig, n, kwnode(I, kw))
    return None


def subplots_of(I, fig, args, kw):
    r = args[0] if args else kw.get("nrows", 1)
    c = args[1] if len(args) > 1 else kw.get("ncols", 1)
    r, c = pyint(N(I, r)), pyint(N(I, c))
    if r == 1 and c == 1:
        return X("axes", S.mk("axof", fig, S.mk("tuple", ONE, ONE)))
    return X("axarr", S.mk("axarr", fig, fz(I, r), fz(I, c)), (fig, r, c))


def axarr_item(I, o, k):
    fig, r, c = o.extra
    return X("axes", S.mk("axof", fig, fz(I, k)))


@reg("matplotlib.pyplot.subplots", "*a **kw")
def plt_subplots(I, a, kw):
    f = S.mk("fig", nfig(I))
    I.event("newfig", f)
    canvas.set_cur(I, X("axes", S.mk("axof", f, S.mk("tuple", ONE, ONE))))
    return (X("figure", f), subplots_of(I, f, a, kw))


@reg("matplotlib.pyplot.figure", "*a **kw")
def plt_figure(I, a, kw):
    if a and isinstance(I.res(a[0]), X):
        f = I.res(a[0]).node
        canvas.set_cur(I, X("axes", S.mk("axof", f, "current")))
        return X("figure", f)
    f = S.mk("fig", nfig(I))
    I.event("newfig", f)
    canvas.set_cur(I, X("axes", S.mk("axof", f, "current")))
    return X("figure", f)


@reg("matplotlib.figure.Figure", "*a **kw")
def mpl_figure(I, a, kw):
    return X("figure", S.mk("privfig", I.uid()))


@reg("matplotlib.pyplot.gca matplotlib.pyplot.subplot matplotlib.pyplot.axes", "*a **kw")
def plt_gca(I, a, kw):
    I.event("plt", "gca")
    return canvas.cur(I)


@reg("matplotlib.pyplot.gcf", "")
def plt_gcf(I):
    I.event("plt", "gcf")
    return X("figure", L.figof(canvas.cur(I).node))


@reg("matplotlib.pyplot.sca", "ax")
def plt_sca(I, ax):
    I.event("plt", "sca")
    ax = I.res(ax)
    if not (isinstance(ax, X) and ax.kind == "axes"):
        raise Unknown("plt.sca")
    canvas.set_cur(I, ax)


@reg("matplotlib.pyplot.savefig", "*a **kw")
def plt_savefig(I, a, kw):
    return save_fig(I, L.figof(canvas.cur(I).node), list(a), kw)


@reg("matplotlib.pyplot.close", "fig=None")
def plt_close(I, fig):
    fig = I.res(fig)
    c = canvas.cur(I)
    n = L.figof(c.node) if fig is None else fig.node if isinstance(fig, X) and fig.kind == "figure" else I.freeze(fig)
    I.event("close", n)
    if n is L.figof(c.node) or n.op == "str":
        canvas.set_cur(I, X("axes", S.mk("axbefore", c.node)))


@reg("matplotlib.pyplot.colorbar", "mappable=None cax=None ax=None **kw")
def plt_colorbar(I, mappable, cax, ax, kw):
    ax = I.res(ax)
    m = I.res(mappable)
    if isinstance(ax, X) and ax.kind == "axes":
        n = ax.node
    elif isinstance(m, X) and m.node.op == "artist" and isinstance(m.node.args[0], Node) and I.res(cax) is None and False:
        n = m.node.args[0]
    else:
        n = canvas.cur(I).node
    I.event("pltbar", n)
    return X("artist", S.mk("artist", n, "colorbar", 0))


@reg("matplotlib.pyplot.rcdefaults matplotlib.pyplot.switch_backend matplotlib.use matplotlib.rc", "*a **kw")
def plt_rc(I, a, kw):
    I.event("rcset")


@reg("matplotlib.rc_context matplotlib.pyplot.rc_context", "*a **kw")
def plt_rcc(I, a, kw):
    return X("ctx", S.sym("rc_context"))


# ------------------------------------------------------------------ sklearn
@reg("sklearn.decomposition.PCA", "n_components=None **kw")
def sk_pca(I, n_components, kw):
    nc = I.res(n_components)
    if not (nc is None or isinstance(nc, int) and not isinstance(nc, bool) or isinstance(nc, Node) and nc.isint):
        raise Unknown("PCA with a number of components of unknown kind")
    # components do not depend on how many of them are kept
    par = S.mk("pcapar", kwnode(I, kw))
    return Ref(I.alloc(HCell(X("pcaobj", par, (nc, None)))))


@reg("sklearn.preprocessing.StandardScaler", "**kw")
def sk_scaler(I, kw):
    return Ref(I.alloc(HCell(X("scaler", S.mk("scaler", kwnode(I, kw)), None))))


def col_mean(a, j):
    n = a.dims[0]
    if n is ONE:
        return num_(a.at((ZERO, j)))
    k = S.fresh(n)
    return S.div(S.sum_([k], num_(a.at((k, j)))), n)


def standardise(I, a, b=None):
    """(x - mean) / std with unit scale for constant columns"""
    n = a.dims[0]

    def f(i, j):
        m = col_mean(a, j)
        k2 = S.fresh(n)
        v = S.div(S.sum_([k2], S.power(S.sub(num_(a.at((k2, j))), m), 2)), n)
        return S.div(S.sub(num_((a if b is None else b).at((i, j))), m), S.mk("fn", "nzstd", v, pos=True))

    return S.build((a if b is None else b).dims, f)


@NP("trapz trapezoid", "y x=None dx=None axis=-1")
def np_trapz(I, y, x, dx, axis):
    a = asarr(I, y)
    if a.ndim != 1:
        raise Unknown("trapz")
    xs = None if I.res(x) is None else asarr(I, x)
    m = S.sub(a.dims[0], ONE)
    k = S.fresh(m)
    h = S.sub(num_(xs.at((S.add(k, ONE),))), num_(xs.at((k,)))) if xs is not None else ONE if I.res(dx) is None else N(I, dx)
    v = S.mul(h, S.mulc(S.add(num_(a.at((S.add(k, ONE),))), num_(a.at((k,)))), Fraction(1, 2)))
    return S.sum_([k], v)


def scaler_method(I, o, h, name, args, kw):
    opts = h.v.node.args[0]
    if opts.args:
        raise Unknown("StandardScaler options")
    if name == "fit_transform" or name == "fit":
        a = asarr(I, args[0] if args else kw["X"])
        if a.ndim != 2:
            I.throw("ValueError", "Expected 2D array")
        I.put(o.loc, HCell(X("scaler", h.v.node, a)))
        if name == "fit":
            return o
        return I.new(standardise(I, a))
    if name == "transform":
        a = asarr(I, args[0] if args else kw["X"])
        f = h.v.extra
        if f is None:
            I.throw("ValueError", "not fitted")
        if a.ndim != 2 or a.dims[1] is not f.dims[1]:
            I.throw("ValueError", "other number of columns")
        return I.new(standardise(I, f, a))
    raise Unknown("StandardScaler.%s" % name)


def pca_terms(I, par, ncomp, a):
    sc_ = S.mk("pcascores", S.lam(a), par)
    nc = pca_count(I, ncomp, a)
    return I.new(S.build((a.dims[0], nc), lambda i, j: S.mk("elem", sc_, i, j)))


def pca_count(I, ncomp, a):
    return S.num(ncomp) if isinstance(ncomp, int) else ncomp if ncomp is not None else pinv_min(I, a.dims[0], a.dims[1])


def pca_method(I, o, h, name, args, kw):
    v = h.v
    par = v.node if v.node.op == "pcapar" else v.node.args[0]
    if name in ("fit_transform", "fit"):
        a = asarr(I, args[0] if args else kw["X"])
        if a.ndim != 2:
            I.throw("ValueError", "Expected 2D array")
        I.put(o.loc, HCell(X("pcaobj", S.mk("pcafit", par, S.lam(a)), (v.extra[0], a))))
        if name == "fit":
            return o
        return pca_terms(I, par, v.extra[0], a)
    if name == "transform":
        a = asarr(I, args[0] if args else kw["X"])
        if v.extra[1] is not None and S.lam(v.extra[1]) is S.lam(a):
            return pca_terms(I, par, v.extra[0], a)
        f = v.extra[1]
        if f is None:
            I.throw("ValueError", "not fitted")
        if a.ndim != 2 or a.dims[1] is not f.dims[1]:
            I.throw("ValueError", "other number of columns")
        if any("whiten" in str(x) for x in par.args):
            raise Unknown("transform of other data")
        t = S.mk("pcacomponents_", S.lam(f), par)

        def at(i, j):
            k = S.fresh(a.dims[1])
            return S.sum_([k], S.mul(S.sub(num_(a.at((i, k))), col_mean(f, k)), S.mk("elem", t, j, k)))

        return I.new(S.build((a.dims[0], pca_count(I, v.extra[0], f)), at))
    raise Unknown("PCA.%s" % name)


def pca_attr(I, o, v, name, default):
    par = v.node if v.node.op == "pcapar" else v.node.args[0]
    a = v.extra[1]
    if name in ("components_", "explained_variance_", "explained_variance_ratio_", "singular_values_", "mean_", "n_components_"):
        if a is None:
            if default is not MISSING:
                return default
            I.throw("AttributeError", "not fitted: %s" % name)
        nc = pca_count(I, v.extra[0], a)
        if name == "n_components_":
            return nc
        t = S.mk("pca" + name, S.lam(a), par)
        if name == "components_":
            return I.new(S.build((nc, a.dims[1]), lambda i, j: S.mk("elem", t, i, j)))
        if name == "mean_":
            return I.new(S.build((a.dims[1],), lambda i: col_mean(a, i)))
        return I.new(S.build((nc,), lambda i: S.mk("elem", t, i, pos=True)))
    if name == "n_components":
        return v.extra[0]
    raise Unknown("PCA attribute %s" % name)


PCA_METHODS = ("fit", "fit_transform", "transform")
