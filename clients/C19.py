# Data-constructed maps
STP = SpatioTemporalProblem


def problem(n, k, s, t, sd=True):
    p = STP()
    p.sensors = arr("sensors", s, 2)
    p.times = arr("times", t)
    p.domain = domain(k)
    p.lam = inside(n, k)
    p.data = arr("Y", n, s * t)
    p.measurements = arr("meas", s * t)
    if sd:
        p.std_dev = positive("sd")
    return p


def inside(n, k):
    return arr("X", n, k)


def residuals(n, m):
    return (arr("meas", m) - arr("Y", n, m)) / positive("sd")


def same_problem(d, X, q, k):
    check("parameters handed on", d.X, X)
    check("map", d.y, q)
    check("domain handed on", d.domain, domain(k))


def ob_wme(method=["keyword", "positional"], s=["s", 1], t=["t", 1], k=["k", 1]):
    n, k, s, t = D("n"), D(k), D(s), D(t)
    p = problem(n, k, s, t)
    d = p.mud_problem(method="wme") if method == "keyword" else p.mud_problem("wme", None, None, 2, None, None, None)
    r = residuals(n, s * t)
    same_problem(d, inside(n, k), np.sum(r, axis=1).reshape(n, 1) / np.sqrt(s * t), k)


def selection(n, s, t, sel):
    kw = {}
    a = b = c = None
    if sel in ("samples", "all"):
        kw["samples_mask"] = a = indices("ma", D("h"), n)
    if sel in ("times", "all"):
        kw["times_mask"] = b = indices("mb", D("g"), t)
    if sel in ("sensors", "all"):
        kw["sensors_mask"] = c = indices("mc", D("f"), s)
    return kw, a, b, c


def selected(sel, n, k, s, t, a, b, c):
    X, Y, M = inside(n, k), np.reshape(arr("Y", n, s * t), (n, s, t)), np.reshape(arr("meas", s * t), (s, t))
    if a is not None:
        X, Y, n = X[a, :], Y[a, :, :], D("h")
    if b is not None:
        Y, M, t = Y[:, :, b], M[:, b], D("g")
    if c is not None:
        Y, M, s = Y[:, c, :], M[c, :], D("f")
    R = (M.reshape(s * t) - Y.reshape(n, s * t)) / positive("sd")
    return X, R, n, s * t


def ob_wme_selected(sel=["samples", "times", "sensors", "all"]):
    n, k, s, t = D("n k s t")
    p = problem(n, k, s, t)
    kw, a, b, c = selection(n, s, t, sel)
    d = p.mud_problem(method="wme", **kw)
    X, R, n, m = selected(sel, n, k, s, t, a, b, c)
    same_problem(d, X, np.sum(R, axis=1).reshape(n, 1) / np.sqrt(m), k)


def weighted(R, m):
    w = arr("dw", m)
    return R * (w / np.sqrt(np.sum(w**2)))


def ob_wme_data_weights(shape=["flat", "row", "column", "list"], sel=["none", "times"]):
    n, k, s, t = D("n k s t")
    if shape == "list":
        s, t = 2, 2
    p = problem(n, k, s, t)
    kw, a, b, c = selection(n, s, t, sel)
    X, R, n, m = selected(sel, n, k, s, t, a, b, c)
    w = arr("dw", m)
    if shape == "row":
        w = w.reshape(1, m)
    if shape == "column":
        w = w.reshape(m, 1)
    if shape == "list":
        if sel == "times":
            return
        w = [w[0], w[1], w[2], w[3]]
    d = p.mud_problem(method="wme", data_weights=w, **kw)
    same_problem(d, X, np.sum(weighted(R, m), axis=1).reshape(n, 1) / np.sqrt(m), k)


def ob_sample_weights(method=["wme", "pca", "svd"], stack=[0, 1]):
    n, k, s, t = D("n k s t")
    p = problem(n, k, s, t)
    w = posarr("w", n)
    v = posarr("v", n)
    d = p.mud_problem(method=method, sample_weights=np.stack([w, v]) if stack else w)
    check("weights of the problem", d._weights, w * v if stack else w)
    d2 = p.mud_problem(method=method)
    check("default weights", d2._weights, np.ones(n))


def components(R, nc):
    return PP.pca(R, n_components=nc)[0].components_


def ob_pca(nc=["c", 1, 2, "default"], dw=[0, 1], how=["named", "default"]):
    n, k, s, t = D("n k s t")
    p = problem(n, k, s, t)
    kw = {}
    R = residuals(n, s * t)
    if dw:
        kw["data_weights"] = arr("dw", s * t)
        R = weighted(R, s * t)
    if how == "named":
        kw["method"] = "pca"
    c = 2
    if nc != "default":
        c = D(nc)
        kw["num_components"] = c
    d = p.mud_problem(**kw)
    res, train = PP.pca(R, n_components=c)
    same_problem(d, inside(n, k), R @ res.components_.T, k)
    check("directions kept", p.pca["vecs"], res.components_)
    check("variances kept", p.pca["var"], res.explained_variance_)
    check("scores kept", p.pca["X_train"], train)


def ob_svd(nc=["c", 1, 2, "default"], dw=[0, 1]):
    n, k, s, t = D("n k s t")
    if nc == "c":
        t = t + D("c")
        s = 1
    p = problem(n, k, s, t)
    kw = {}
    R = residuals(n, s * t)
    if dw:
        kw["data_weights"] = arr("dw", s * t)
        R = weighted(R, s * t)
    c = 2
    if nc != "default":
        c = D(nc)
        kw["num_components"] = c
    if nc != "c":
        assume(s * t > 2)
    d = p.mud_problem(method="svd", **kw)
    u, sv, v = PP.svd(R)
    same_problem(d, inside(n, k), R @ v[0:c, :].T, k)
    check("singular values kept", p.svd["singular_values"], sv)
    check("singular vectors kept", p.svd["singular_vectors"], v)
    check("left vectors kept", p.svd["u"], u)


def ob_pca_selected(method=["pca", "svd"], sel=["samples", "sensors", "all"]):
    n, k, s, t = D("n k s t")
    p = problem(n, k, s, t)
    kw, a, b, c = selection(n, s, t, sel)
    X, R, n, m = selected(sel, n, k, s, t, a, b, c)
    d = p.mud_problem(method=method, num_components=1, **kw)
    V = components(R, 1) if method == "pca" else PP.svd(R)[2][0:1, :]
    same_problem(d, X, R @ V.T, k)


def ob_rejects(method=["wme", "pca", "svd"]):
    n, k, s, t = D("n k s t")
    p = problem(n, k, s, t)
    raises("data weights too long", lambda: p.mud_problem(method=method, data_weights=arr("dw", s * t + 1)), ValueError)
    raises("data weights too short", lambda: p.mud_problem(method=method, data_weights=arr("dw", 1)), ValueError)
    raises("per-sensor weights", lambda: p.mud_problem(method=method, data_weights=arr("dw", s)), ValueError)
    raises("unknown map", lambda: p.mud_problem(method="WME"), ValueError)
    raises("unknown map", lambda: p.mud_problem(method=None), ValueError)
    raises("unknown map", lambda: p.mud_problem(method="weighted"), ValueError)
    raises("weights of the selection", lambda: p.mud_problem(method=method, data_weights=arr("dw", s * t), times_mask=[0]), ValueError)
    raises("sample weights too long", lambda: p.mud_problem(method=method, sample_weights=posarr("w", n + 1)), AssertionError, ValueError)


def ob_second_map():
    # a map does not depend on the one built before
    n, k, s, t = D("n k s t")
    p = problem(n, k, s, t)
    p.mud_problem(method="pca", data_weights=arr("dw", s * t))
    p.mud_problem(method="svd")
    d = p.mud_problem(method="wme")
    R = residuals(n, s * t)
    same_problem(d, inside(n, k), np.sum(R, axis=1).reshape(n, 1) / np.sqrt(s * t), k)
    p.measurements = arr("newer", s * t)
    p.std_dev = positive("newer_sd")
    R = (arr("newer", s * t) - arr("Y", n, s * t)) / positive("newer_sd")
    d = p.mud_problem(method="wme")
    same_problem(d, inside(n, k), np.sum(R, axis=1).reshape(n, 1) / np.sqrt(s * t), k)
