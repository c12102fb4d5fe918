# Mesh, domain, noise and deviation helpers


def spaced(lo, hi, N):
    """N evenly spaced values from lo to hi, both included"""
    return lo + (hi - lo) * np.arange(N) / (N - 1)


def ob_mesh(where=["util", "plot", "normal"], how=["given", "positional", "default", "default window"]):
    f = U.make_2d_unit_mesh if where == "util" else P.make_2d_unit_mesh if where == "plot" else P.make_2d_normal_mesh
    N, w = 50, 1
    if how == "given":
        N, w = D("N"), real("w")
        X, Y, XX = f(N=N, window=w)
    elif how == "positional":
        N, w = D("N"), real("w")
        X, Y, XX = f(N, w)
    elif how == "default window":
        N = D("N")
        X, Y, XX = f(N)
    else:
        X, Y, XX = f()
    g = spaced(-w if where == "normal" else 0, w, N)
    gx = np.tile(g.reshape(1, N), (N, 1))
    gy = np.tile(g.reshape(N, 1), (1, N))
    check("first coordinate", X, gx)
    check("second coordinate", Y, gy)
    check("points", XX, np.stack([gx.reshape(N * N), gy.reshape(N * N)], axis=1))


def ob_mesh_small(where=["util", "plot", "normal"], N=[2, 3]):
    f = U.make_2d_unit_mesh if where == "util" else P.make_2d_unit_mesh if where == "plot" else P.make_2d_normal_mesh
    w = real("w")
    X, Y, XX = f(N, w)
    lo = -w if where == "normal" else 0 * w
    g = [lo + (w - lo) * i / (N - 1) for i in range(N)]
    check("points", XX, np.array([[g[i], g[j]] for j in range(N) for i in range(N)]))


def ob_problem_meshes():
    # the mesh the linear problems use
    check("same mesh in both modules", U.make_2d_unit_mesh(D("N"), real("w")), P.make_2d_unit_mesh(D("N"), real("w")))


def cell(lo, hi, a):
    return spaced(lo, hi, a)[: a - 1]


def ob_grid(p=[1, 2, 3], form=["list", "array", "rows"], aff=["a", 4]):
    a = D(aff)
    lo, hi = arr("lo", p), arr("hi", p)
    if form == "list":
        dm = [[lo[i], hi[i]] for i in range(p)]
    elif form == "rows":
        dm = [(lo[i], hi[i]) for i in range(p)]
    else:
        dm = np.stack([lo, hi], axis=1)
    mesh, pts = P.build_nd_mesh_grid(dm, aff=a) if form != "rows" else P.build_nd_mesh_grid(dm, a)
    check("number of grids", len(mesh), p)
    shape = [a - 1] * p
    for i in range(p):
        g = cell(lo[i], hi[i], a)
        one = [1] * p
        one[i] = a - 1
        rep = [a - 1] * p
        rep[i] = 1
        G = np.tile(g.reshape(one), rep)
        check("grid of coordinate %d" % i, mesh[i], G)
        check("row of coordinate %d" % i, pts[i], G.reshape(-1))


def ob_grid_default(p=[1, 2]):
    lo, hi = arr("lo", p), arr("hi", p)
    a = P.build_nd_mesh_grid(np.stack([lo, hi], axis=1))
    b = P.build_nd_mesh_grid(np.stack([lo, hi], axis=1), aff=100)
    check("hundred values", a[1], b[1])


def padded(lo, hi, r):
    return np.stack([lo - r * (hi - lo), hi + r * (hi - lo)], axis=1)


def ob_domain(k=["k", 1, 2], ratio=["given", "default", "zero", "positional"]):
    n, k = D("n"), D(k)
    X = arr("X", n, k)
    if ratio == "given":
        r, d = real("r"), U.fit_domain(X, pad_ratio=real("r"))
    elif ratio == "positional":
        r, d = real("r"), U.fit_domain(X, None, real("r"))
    elif ratio == "zero":
        r, d = 0, U.fit_domain(x=X, pad_ratio=0.0)
    else:
        r, d = 0.1, U.fit_domain(X)
    check("domain", d, padded(np.min(X, axis=0), np.max(X, axis=0), r))


def ob_domain_bounds(k=["k", 1, 2], ratio=["given", "default"], form=["array", "list"], also=[0, 1]):
    # given bounds are the ones padded, whatever the samples are
    if form == "list" and k == "k":
        k = 2
    k, n = D(k), D("n")
    lo, hi = arr("lo", k), arr("hi", k)
    b = np.stack([lo, hi], axis=1) if form == "array" else [[lo[i], hi[i]] for i in range(k)]
    kw = {"pad_ratio": real("r")} if ratio == "given" else {}
    if also:
        kw["x"] = arr("X", n, k)
    check("domain", U.fit_domain(min_max_bounds=b, **kw), padded(lo, hi, real("r") if ratio == "given" else 0.1))


def ob_domain_rejects():
    raises("nothing to fit", lambda: U.fit_domain(), ValueError)
    raises("nothing to fit", lambda: U.fit_domain(pad_ratio=0.5), ValueError)


def ob_noise(form=["flat", "row", "list", "column", "matrix"], sd=["given", "default", "positional", "zero"], seed=["none", 0, 7]):
    n = D("n")
    if form == "list":
        n = 3
    s = arr("signal", n)
    if form == "column":
        s = s.reshape(n, 1)
    if form == "matrix":
        s = arr("signal", n, D("k"))
    sig = s.reshape(1, n) if form == "row" else [s[0], s[1], s[2]] if form == "list" else s
    kw = {} if seed == "none" else {"seed": seed}
    np.random.seed(5)
    if sd == "given":
        v, r = positive("sd"), U.add_noise(sig, sd=positive("sd"), **kw)
    elif sd == "positional":
        v, r = positive("sd"), U.add_noise(sig, positive("sd"), **kw)
    elif sd == "zero":
        v, r = 0, U.add_noise(sig, sd=0, **kw)
    else:
        v, r = 0.05, U.add_noise(sig, **kw)
    np.random.seed(5 if seed == "none" else seed)
    e = np.random.randn(*s.shape) * v
    check("signal plus noise", r, (s + e).reshape(1, n) if form == "row" else s + e)


def ob_equipment(how=["named", "positional", "default", "tolerance", "probability"]):
    t, p = real("t"), real("p")
    if how == "named":
        r = U.std_from_equipment(tolerance=t, probability=p)
    elif how == "positional":
        r = U.std_from_equipment(t, p)
    elif how == "tolerance":
        p = 0.95
        r = U.std_from_equipment(t)
    elif how == "probability":
        t = 0.1
        r = U.std_from_equipment(probability=p)
    else:
        t, p = 0.1, 0.95
        r = U.std_from_equipment()
    from scipy.special import erfinv

    check("deviation", r, t / (np.sqrt(2) * erfinv(p)))


def ob_shape():
    n, k = D("n k")
    check("vector to row", U.set_shape(arr("v", n)), arr("v", n).reshape(1, n))
    check("vector to column", U.set_shape(arr("v", n), (-1, 1)), arr("v", n).reshape(n, 1))
    check("vector to column", U.set_shape(arr("v", n), [-1, 1]), arr("v", n).reshape(n, 1))
    check("matrix unchanged", U.set_shape(arr("M", n, k), (-1, 1)), arr("M", n, k))
    check("matrix unchanged", U.set_shape(arr("M", n, k)), arr("M", n, k))
    check("number to array", U.set_shape(np.array(3)), np.array([[3]]))
