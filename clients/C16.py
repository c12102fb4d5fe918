def noise(n, s):
    np.random.seed(0)
    return np.random.randn(n) * s


def wme(q, d, s, n):
    return np.sum((q - d) / (s * np.sqrt(n)), axis=1)


def used(q, num):
    return q if num == "none" else num


def check_problem(d, X, q, dm):
    check("parameters", d.X, X)
    check("outputs", d.y, q)
    check("domain", d.domain, dm)


def ob_mud(q=["q", 1, 3], num=["none", 1, 2, "q"], lam=["matrix", "flat"], qoi=["matrix", "flat"]):
    n, p, q = D("n p") + (D(q),)
    if num == 2 and q == 1 or qoi == "flat" and q != 1:
        return
    k = q if num in ("none", "q") else num
    X = arr("X", n, p) if lam == "matrix" else arr("X", n)
    Y = arr("Y", n, q) if qoi == "matrix" else arr("Y", n)
    ref = arr("ref", q)
    dm = domain(p if lam == "matrix" else 1)
    s = positive("s")
    np.random.seed(0)
    d = F.mud_problem(X, Y, ref, dm, s) if num == "none" else F.mud_problem(X, Y, ref, dm, sd=s, num_obs=k)
    data = ref[:k] + noise(k, s)
    check_problem(d, X.reshape(n, p if lam == "matrix" else 1), wme(Y.reshape(n, q)[:, :k], data, s, k).reshape(n, 1), dm)


def ob_mud_generic_count():
    n, p, k, j = D("n p k j")
    Y, ref, s = arr("Y", n, k + j), arr("ref", k + j), positive("s")
    np.random.seed(0)
    d = F.mud_problem(arr("X", n, p), Y, ref, domain(p), s, k)
    data = ref[:k] + noise(k, s)
    check_problem(d, arr("X", n, p), wme(Y[:, :k], data, s, k).reshape(n, 1), domain(p))


def ob_mud_default_deviation():
    n, p, q = D("n p q")
    Y, ref = arr("Y", n, q), arr("ref", q)
    np.random.seed(0)
    d = F.mud_problem(arr("X", n, p), Y, ref, domain(p))
    check_problem(d, arr("X", n, p), wme(Y, ref + noise(q, 0.05), 0.05, q).reshape(n, 1), domain(p))


def ob_mud_estimate():
    # what the built problem estimates
    n, p, q = D("n p q")
    Y, ref, s = arr("Y", n, q), arr("ref", q), positive("s")
    np.random.seed(0)
    d = F.mud_problem(arr("X", n, p), Y, ref, domain(p), s)
    Z = wme(Y, ref + noise(q, s), s, q).reshape(n, 1)
    e = DensityProblem(arr("X", n, p), Z, domain(p))
    check("estimate", d.estimate(), e.estimate())
    check("ratio", d.expected_ratio(), e.expected_ratio())


def ob_mud_weights(w=["vector", "list", "stack"], split=[0, 1]):
    n = 3 if w == "list" else D("n")
    p = D("p")
    Y, ref, s = arr("Y", n, 2), arr("ref", 2), positive("s")
    weights = posarr("w", n) if w == "vector" else [0.5, 0.25, 1.0] if w == "list" else posarr("w", 2, n)
    np.random.seed(0)
    if split:
        d = F.mud_problem(arr("X", n, p), Y, ref, domain(p), s, weights=weights, split=[np.array([0]), np.array([1])])
        e = noise(2, s)
        Z = np.stack([(Y[:, 0] - ref[0] - e[0]) / s, (Y[:, 1] - ref[1] - e[1]) / s], axis=1)
    else:
        d = F.mud_problem(arr("X", n, p), Y, ref, domain(p), s, weights=weights)
        Z = wme(Y, ref + noise(2, s), s, 2).reshape(n, 1)
    e = DensityProblem(arr("X", n, p), Z, domain(p), weights=weights)
    check("outputs", d.y, Z)
    check("estimate", d.estimate(), e.estimate())
    check("ratio", d.expected_ratio(), e.expected_ratio())


SPLITS = {
    "halves": [[0, 1], [2, 3]],
    "uneven": [[0], [1, 2, 3]],
    "interleaved": [[0, 2], [1, 3]],
    "overlapping": [[3, 0], [0, 1, 2]],
    "three": [[2], [0, 3], [1]],
}


def ob_mud_split(split=["halves", "uneven", "interleaved", "overlapping", "three"], num=["none", 4, 3], ref=["array", "list"]):
    n, p = D("n p")
    k = 4 if num == "none" else num
    groups = SPLITS[split]
    Y, s = arr("Y", n, 4), positive("s")
    R = arr("ref", 4) if ref == "array" else [real("r0"), real("r1"), real("r2"), real("r3")]
    cols = [np.array(g) for g in groups]
    np.random.seed(0)
    d = F.mud_problem(arr("X", n, p), Y, R, domain(p), sd=s, num_obs=None if num == "none" else num, split=cols)
    e = noise(k, s)
    want = []
    for g in groups:
        g2 = [i for i in g if i < k]
        m = len(g2)
        tot = 0
        for i in g2:
            tot = tot + (Y[:, i] - R[i] - e[i]) / (s * np.sqrt(m))
        want.append(tot)
    check_problem(d, arr("X", n, p), np.stack(want, axis=1), domain(p))


def ob_counts(f=["mud_problem", "map_problem"], num=[0, -1, 4, "more"], q=[3, 1, "q"]):
    n, p, q = D("n p") + (D(q),)
    if num == 4 and q not in (3, 1):
        return
    k = q + 1 if num == "more" else num
    raises("number of observations", lambda: getattr(F, f)(arr("X", n, p), arr("Y", n, q), arr("ref", q), domain(p), positive("s"), num_obs=k), ValueError)


def ob_counts_flat(f=["mud_problem", "map_problem"]):
    n, p = D("n p")
    raises("two observations of one output", lambda: getattr(F, f)(arr("X", n, p), arr("Y", n), arr("ref", 1), domain(p), num_obs=2), ValueError)


def ob_counts_split():
    n, p = D("n p")
    raises("more than the outputs", lambda: F.mud_problem(arr("X", n, p), arr("Y", n, 2), arr("ref", 2), domain(p), num_obs=3, split=[np.array([0]), np.array([1])]), ValueError)
    raises("none", lambda: F.mud_problem(arr("X", n, p), arr("Y", n, 2), arr("ref", 2), domain(p), num_obs=0, split=[np.array([0]), np.array([1])]), ValueError)


def likelihood(Y, data, s):
    return np.prod(stats_dist.norm(loc=data, scale=s).pdf(Y), axis=1)


def ob_map(q=["q", 1, 3], num=["none", 1, 2, "q"], log=[0, 1, "default"], qoi=["matrix", "flat"]):
    n, p, q = D("n p") + (D(q),)
    if num == 2 and q == 1 or qoi == "flat" and q != 1:
        return
    k = q if num in ("none", "q") else num
    X, s, ref = arr("X", n, p), positive("s"), arr("ref", q)
    Y = arr("Y", n, q) if qoi == "matrix" else arr("Y", n)
    dm = domain(p)
    np.random.seed(0)
    kw = {}
    if num != "none":
        kw["num_obs"] = k
    if log != "default":
        kw["log"] = log == 1
    b = F.map_problem(X, Y, ref, dm, s, **kw)
    Y2 = Y.reshape(n, q)[:, :k]
    check_problem(b, X, Y2, dm)
    want = BayesProblem(X, Y2, dm)
    want.set_likelihood(stats_dist.norm(loc=ref[:k] + noise(k, s), scale=s), log=log == 1)
    want.set_prior(Dist("prior"))
    b.set_prior(Dist("prior"))
    if log == 1:
        L = np.sum(stats_dist.norm(loc=ref[:k] + noise(k, s), scale=s).logpdf(Y2), axis=1)
        post = np.log(np.prod(pdf("prior", X), axis=1)) + L
    else:
        post = np.prod(pdf("prior", X), axis=1) * likelihood(Y2, ref[:k] + noise(k, s), s)
    has_mass(post, log == 1)
    check("estimate", b.estimate(), X[np.argmax(post), :])


def ob_map_flat_parameters():
    n, q = D("n q")
    X, s, ref, Y = arr("X", n), positive("s"), arr("ref", q), arr("Y", n, q)
    np.random.seed(0)
    b = F.map_problem(X, Y, ref, domain(1), s)
    check_problem(b, X.reshape(n, 1), Y, domain(1))


def ob_map_default_deviation():
    n, p, q = D("n p q")
    X, ref, Y = arr("X", n, p), arr("ref", q), arr("Y", n, q)
    np.random.seed(0)
    b = F.map_problem(X, Y, ref, domain(p))
    b.set_prior(Dist("prior"))
    post = np.prod(pdf("prior", X), axis=1) * likelihood(Y, ref + noise(q, 0.05), 0.05)
    assume(np.sum(post) != 0)
    check("estimate", b.estimate(), X[np.argmax(post), :])


def ob_caller_arrays(f=["mud_problem", "map_problem"]):
    # the reference values stay noiseless
    n, p, q = D("n p q")
    ref, Y = arr("ref", q), arr("Y", n, q)
    getattr(F, f)(arr("X", n, p), Y, ref, domain(p), positive("s"))
    check("reference", ref, arr("ref", q))
    check("outputs", Y, arr("Y", n, q))
