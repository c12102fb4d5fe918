# Models of external functions, written in the analysed language: the abstract interpreter runs these
# bodies on terms in place of calls to the named functions (a double underscore stands for a dot).
# This file is parsed, never imported.
import numpy as np


# ---------------------------------------------------------------- operator
def operator__add(a, b):
    return a + b


def operator__sub(a, b):
    return a - b


def operator__mul(a, b):
    return a * b


def operator__truediv(a, b):
    return a / b


def operator__floordiv(a, b):
    return a // b


def operator__mod(a, b):
    return a % b


def operator__pow(a, b):
    return a**b


def operator__matmul(a, b):
    return a @ b


def operator__neg(a):
    return -a


def operator__pos(a):
    return a


def operator__not_(a):
    return not a


def operator__eq(a, b):
    return a == b


def operator__ne(a, b):
    return a != b


def operator__lt(a, b):
    return a < b


def operator__le(a, b):
    return a <= b


def operator__gt(a, b):
    return a > b


def operator__ge(a, b):
    return a >= b


def operator__is_(a, b):
    return a is b


def operator__is_not(a, b):
    return a is not b


def operator__contains(a, b):
    return b in a


def operator__getitem(a, b):
    return a[b]


def operator__setitem(a, b, c):
    a[b] = c


def operator__iadd(a, b):
    a += b
    return a


def operator__concat(a, b):
    return a + b


def operator__itemgetter(first, *rest):
    if rest:
        return lambda x: tuple([x[k] for k in (first,) + rest])
    return lambda x: x[first]


def _attr(x, name):
    for part in name.split("."):
        x = getattr(x, part)
    return x


def operator__attrgetter(first, *rest):
    if rest:
        return lambda x: tuple([_attr(x, k) for k in (first,) + rest])
    return lambda x: _attr(x, first)


def operator__methodcaller(name, *args, **kwargs):
    return lambda x: getattr(x, name)(*args, **kwargs)


# ---------------------------------------------------------------- itertools
def itertools__islice(xs, *bounds):
    return list(xs)[slice(*bounds)]


def itertools__repeat(x, times):
    return [x for _ in range(times)]


def itertools__pairwise(xs):
    xs = list(xs)
    return list(zip(xs, xs[1:]))


def itertools__starmap(f, xs):
    return [f(*x) for x in xs]


def itertools__chain__from_iterable(xs):
    out = []
    for x in xs:
        out.extend(x)
    return out


def itertools__zip_longest(*xs, fillvalue=None):
    xs = [list(x) for x in xs]
    n = max([len(x) for x in xs])
    return [tuple([x[k] if k < len(x) else fillvalue for x in xs]) for k in range(n)]


def itertools__combinations(xs, r):
    xs = list(xs)
    if r == 0:
        return [()]
    out = []
    for k in range(len(xs)):
        out += [(xs[k],) + t for t in itertools__combinations(xs[k + 1 :], r - 1)]
    return out


def itertools__permutations(xs, r=None):
    xs = list(xs)
    r = len(xs) if r is None else r
    if r == 0:
        return [()]
    out = []
    for k in range(len(xs)):
        out += [(xs[k],) + t for t in itertools__permutations(xs[:k] + xs[k + 1 :], r - 1)]
    return out


def itertools__takewhile(f, xs):
    out = []
    for x in xs:
        if not f(x):
            break
        out.append(x)
    return out


def itertools__dropwhile(f, xs):
    out = []
    for x in xs:
        if out or not f(x):
            out.append(x)
    return out


def itertools__filterfalse(f, xs):
    return [x for x in xs if not f(x)]


def itertools__compress(xs, keep):
    return [x for x, k in zip(xs, keep) if k]


# ---------------------------------------------------------------- builtins
def builtins__maxkey(xs, key):
    keys = np.array([key(x) for x in xs])
    return list(xs)[int(np.argmax(keys))]


def builtins__minkey(xs, key):
    keys = np.array([key(x) for x in xs])
    return list(xs)[int(np.argmin(keys))]


# ---------------------------------------------------------------- functools, contextlib, collections, types
def functools__reduce(f, xs, *initial):
    xs = list(xs)
    if initial:
        acc = initial[0]
    else:
        acc = xs[0]
        xs = xs[1:]
    for x in xs:
        acc = f(acc, x)
    return acc


def functools__lru_cache(f=None, maxsize=128, typed=False):
    if f is None or isinstance(f, int):
        return lambda g: functools__lru_cache(g)
    store = []

    def cached(*args, **kwargs):
        for x in args + tuple(kwargs.values()):
            if isinstance(x, (list, dict, set, np.ndarray)):
                raise TypeError("unhashable type")
        key = (args, sorted(kwargs.items()))
        for k, v in store:
            if k == key:
                return v
        v = f(*args, **kwargs)
        store.append((key, v))
        return v

    return cached


def functools__cache(f):
    return functools__lru_cache(f)


def contextlib__nullcontext(value=None):
    return _Null(value)


def contextlib__closing(value):
    return _Null(value)


class _Null:
    def __init__(self, value):
        self.value = value

    def __enter__(self):
        return self.value

    def __exit__(self, *a):
        return None


class types__SimpleNamespace:
    def __init__(self, **kwargs):
        for k, v in kwargs.items():
            setattr(self, k, v)


def collections__OrderedDict(*args, **kwargs):
    return dict(*args, **kwargs)


# ---------------------------------------------------------------- math, statistics
def math__fsum(xs):
    return sum(xs)


def math__dist(p, q):
    return np.sqrt(sum([(a - b) ** 2 for a, b in zip(p, q)]))


def math__isnan(x):
    return np.isnan(x)


def math__isinf(x):
    return np.isinf(x)


def math__isfinite(x):
    return np.isfinite(x)


def statistics__mean(xs):
    return np.mean(xs)


def statistics__fmean(xs):
    return np.mean(xs)


# ---------------------------------------------------------------- numpy: methods of binary operations
def numpy__add__reduce(a, axis=0, dtype=None, out=None, keepdims=False):
    return np.sum(a, axis=axis, out=out, keepdims=keepdims)


def numpy__multiply__reduce(a, axis=0, dtype=None, out=None, keepdims=False):
    return np.prod(a, axis=axis, out=out, keepdims=keepdims)


def numpy__maximum__reduce(a, axis=0, dtype=None, out=None, keepdims=False):
    return np.max(a, axis=axis, out=out, keepdims=keepdims)


def numpy__minimum__reduce(a, axis=0, dtype=None, out=None, keepdims=False):
    return np.min(a, axis=axis, out=out, keepdims=keepdims)


def numpy__logical_and__reduce(a, axis=0, dtype=None, out=None, keepdims=False):
    return np.all(a, axis=axis, out=out, keepdims=keepdims)


def numpy__logical_or__reduce(a, axis=0, dtype=None, out=None, keepdims=False):
    return np.any(a, axis=axis, out=out, keepdims=keepdims)


def numpy__add__accumulate(a, axis=0):
    return np.cumsum(a, axis=axis)


def numpy__multiply__accumulate(a, axis=0):
    return np.cumprod(a, axis=axis)


def _outer(f, a, b):
    a, b = np.asarray(a), np.asarray(b)
    return f(np.reshape(a, a.shape + (1,) * b.ndim), b)


def numpy__multiply__outer(a, b):
    return _outer(np.multiply, a, b)


def numpy__add__outer(a, b):
    return _outer(np.add, a, b)


def numpy__subtract__outer(a, b):
    return _outer(np.subtract, a, b)


def numpy__divide__outer(a, b):
    return _outer(np.divide, a, b)


def numpy__true_divide__outer(a, b):
    return _outer(np.divide, a, b)


def numpy__maximum__outer(a, b):
    return _outer(np.maximum, a, b)


def numpy__minimum__outer(a, b):
    return _outer(np.minimum, a, b)


# ---------------------------------------------------------------- numpy: others
def numpy__vecdot(a, b, axis=-1):
    return np.sum(np.multiply(a, b), axis=axis)


def numpy__matvec(a, b):
    return a @ b


def numpy__rollaxis(a, axis, start=0):
    return np.moveaxis(a, axis, start if start <= axis else start - 1)


def numpy__select(conditions, choices, default=0):
    out = default
    for c, v in list(zip(conditions, choices))[::-1]:
        out = np.where(c, v, out)
    return out


def numpy__exp2(x):
    return 2.0**x


def numpy__heaviside(x, half):
    return np.where(np.asarray(x) > 0, 1.0, np.where(np.asarray(x) < 0, 0.0, half))


def numpy__logaddexp(a, b):
    return np.log(np.exp(a) + np.exp(b))


def numpy__alltrue(a, axis=None):
    return np.all(a, axis=axis)


def numpy__sometrue(a, axis=None):
    return np.any(a, axis=axis)


def numpy__fromiter(xs, dtype=None, count=-1):
    return np.array(list(xs))


def numpy__dstack(xs):
    ys = []
    for x in xs:
        x = np.asarray(x)
        if x.ndim < 2:
            x = np.reshape(x, (1, -1, 1))
        elif x.ndim == 2:
            x = x[:, :, None]
        ys.append(x)
    return np.concatenate(ys, axis=2)


def numpy__block(xs):
    if not isinstance(xs, list):
        return np.array(xs)
    if isinstance(xs[0], list):
        return np.vstack([np.hstack(row) for row in xs])
    return np.hstack(xs)


def numpy__kron(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.ndim == 1 and b.ndim == 1:
        return (a[:, None] * b[None, :]).ravel()
    return np.reshape(a[:, None, :, None] * b[None, :, None, :], (a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]))


def numpy__delete(a, k, axis=None):
    a = np.asarray(a)
    if axis is None:
        a, axis = a.ravel(), 0
    n = a.shape[axis]
    drop = [k] if isinstance(k, int) else list(k)
    drop = [d if d >= 0 else d + n for d in drop]
    return np.take(a, [i for i in range(n) if i not in drop], axis=axis)


def numpy__apply_along_axis(f, axis, a, *args, **kwargs):
    a = np.asarray(a)
    if a.ndim == 1:
        return f(a, *args, **kwargs)
    b = a if axis in (1, -1) else a.T
    out = np.array([f(row, *args, **kwargs) for row in b])
    return out if out.ndim == 1 or axis in (1, -1) else out.T


def numpy__indices(shape):
    return np.array(np.meshgrid(*[np.arange(n) for n in shape], indexing="ij"))


def numpy__rot90(a, k=1):
    return np.flip(np.transpose(a), 0)


def numpy__broadcast_shapes(*shapes):
    n = max([len(s) for s in shapes])
    out = []
    for k in range(n):
        d = 1
        for s in shapes:
            j = k - (n - len(s))
            if j >= 0 and s[j] != 1:
                if d != 1 and s[j] != d:
                    raise ValueError("shape mismatch")
                d = s[j]
        out.append(d)
    return tuple(out)


def numpy__iterable(x):
    try:
        iter(x)
    except TypeError:
        return False
    return True


def numpy__unravel_index(k, shape):
    out = []
    for n in list(shape)[::-1]:
        out.append(k % n)
        k = k // n
    return tuple(out[::-1])


def numpy__ravel_multi_index(ks, shape):
    out = 0
    for k, n in zip(ks, shape):
        out = out * n + k
    return out


def numpy__ndindex(*shape):
    if len(shape) == 1 and isinstance(shape[0], tuple):
        shape = shape[0]
    out = [()]
    for n in shape:
        out = [t + (k,) for t in out for k in range(n)]
    return out


def numpy__ndenumerate(a):
    a = np.asarray(a)
    return [(t, a[t]) for t in numpy__ndindex(*a.shape)]


def numpy__vectorize(f, otypes=None, doc=None, excluded=None, cache=False, signature=None):
    def g(*xs):
        xs = np.broadcast_arrays(*xs) if len(xs) > 1 else [np.asarray(xs[0])]
        if xs[0].ndim == 0:
            return f(*xs)
        if len(xs) == 1:
            flat = np.array([f(v) for v in xs[0].ravel()])
        else:
            flat = np.array([f(*vs) for vs in zip(*[x.ravel() for x in xs])])
        return np.reshape(flat, xs[0].shape)

    return g


def numpy__put(a, ks, vs):
    a = np.ravel(a) if a.ndim != 1 else a
    for k, v in zip(ks, vs):
        a[k] = v


# ---------------------------------------------------------------- scipy, sklearn
def scipy__special__logsumexp(a, axis=None, b=None, keepdims=False):
    e = np.exp(a)
    if b is not None:
        e = e * b
    return np.log(np.sum(e, axis=axis, keepdims=keepdims))


def scipy__linalg__null_space(A, rcond=None):
    u, s, vh = np.linalg.svd(A, full_matrices=True)
    M, N = u.shape[0], vh.shape[1]
    if rcond is None:
        rcond = np.finfo(s.dtype).eps * max(M, N)
    num = np.sum(s > np.amax(s) * rcond, dtype=int)
    return vh[num:, :].T.conj()


def scipy__linalg__lstsq(a, b, cond=None):
    x, res, rank, s = np.linalg.lstsq(a, b, rcond=cond)
    return x, res, rank, s


def scipy__linalg__cho_factor(a, lower=False):
    return (a, lower)


def scipy__linalg__cho_solve(c, b):
    return np.linalg.solve(c[0], b)


def scipy__linalg__block_diag(*xs):
    xs = [np.atleast_2d(x) for x in xs]
    rows = []
    for i, x in enumerate(xs):
        rows.append(np.hstack([x if i == j else np.zeros((x.shape[0], y.shape[1])) for j, y in enumerate(xs)]))
    return np.vstack(rows)


def scipy__spatial__distance__cdist(a, b, metric="euclidean"):
    d = np.asarray(a)[:, None, :] - np.asarray(b)[None, :, :]
    return np.sqrt(np.sum(d**2, axis=-1))


def sklearn__preprocessing__scale(X):
    from sklearn.preprocessing import StandardScaler

    return StandardScaler().fit_transform(X)


# ---------------------------------------------------------------- index tricks
def _columns(x):
    x = np.asarray(x)
    return x.reshape(-1, 1) if np.ndim(x) < 2 else x


def numpy__c__call(*parts):
    return np.concatenate([_columns(x) for x in parts], axis=1)


def numpy__r__call(*parts):
    return np.concatenate([np.atleast_1d(x) for x in parts], axis=0)


def _column(a):
    a = np.asarray(a)
    return np.atleast_2d(a).T if a.ndim < 2 else a


def numpy__c__call(*xs):
    return np.concatenate([_column(x) for x in xs], axis=1 if _column(xs[0]).ndim == 2 else -1)


def numpy__r__call(*xs):
    return np.concatenate([np.atleast_1d(x) for x in xs], axis=0)


def numpy__hsplit(a, n):
    return np.split(a, n, axis=0 if np.ndim(a) == 1 else 1)


def numpy__vsplit(a, n):
    return np.split(a, n, axis=0)


def numpy__extract(condition, a):
    return np.ravel(a)[np.ravel(condition)]


def numpy__take_along_axis(a, k, axis):
    if a.ndim == 1:
        return a[k]
    if a.ndim == 2 and axis in (0, -2):
        return a[k, np.arange(a.shape[1])[np.newaxis, :]]
    if a.ndim == 2 and axis in (1, -1):
        return a[np.arange(a.shape[0])[:, np.newaxis], k]
    raise NotImplementedError("take_along_axis")
