def ob_shapes(x=["2d", "1d", "col"], y=["2d", "1d", "col"], dom=["given", "fitted", "padded"]):
    n, p, q = D("n p q")
    X = arr("X", n, p) if x == "2d" else arr("X", n) if x == "1d" else arr("X", n, 1)
    Y = arr("Y", n, q) if y == "2d" else arr("Y", n) if y == "1d" else arr("Y", n, 1)
    P, Q = p if x == "2d" else 1, q if y == "2d" else 1
    X2 = X.reshape(n, P)
    Y2 = Y.reshape(n, Q)
    if dom == "given":
        d = DensityProblem(X, Y, domain(P))
        check("domain", d.domain, domain(P))
    else:
        pad = 0.1
        if dom == "padded":
            pad = real("pad")
            d = DensityProblem(X, Y, pad_domain=pad)
        else:
            d = DensityProblem(X, Y)
        mn, mx = np.min(X2, axis=0), np.max(X2, axis=0)
        check("fitted domain", d.domain, np.stack([mn - pad * (mx - mn), mx + pad * (mx - mn)], axis=1))
    check("parameter samples", d.X, X2)
    check("output samples", d.y, Y2)
    check("sizes", (d.n_samples, d.n_params, d.n_features), (n, P, Q))


def ob_lists():
    d = DensityProblem([[real("a"), real("b")], [real("c"), real("d")], [real("e"), real("f")]], [real("u"), real("v"), real("w")], [[0, 1], [2, 3]])
    check("sizes", (d.n_samples, d.n_params, d.n_features), (3, 2, 1))
    check("parameters", d.X, np.array([[real("a"), real("b")], [real("c"), real("d")], [real("e"), real("f")]]))
    check("outputs", d.y, np.array([[real("u")], [real("v")], [real("w")]]))
    check("domain", d.domain, np.array([[0, 1], [2, 3]]))


def ob_flat_domain(cls=["density", "bayes"], y=["1d", "2d"]):
    n, q = D("n q")
    a, b = real("a"), real("b")
    Y = arr("Y", n) if y == "1d" else arr("Y", n, q)
    if cls == "density":
        d = DensityProblem(arr("X", n), Y, [a, b])
        check("parameter samples", d.X, arr("X", n).reshape(n, 1))
    else:
        d = BayesProblem(arr("X", n, 1), arr("Y", n, q), np.array([a, b]))
    check("domain of one parameter", d.domain, np.array([[a, b]]))


def ob_domain_mismatch(cls=["density", "bayes"], p=["p", 1, 2], k=["k", 1, 3]):
    n, q = D("n q")
    p, k = D(p), D(k)
    make = DensityProblem if cls == "density" else BayesProblem
    if p != k:
        raises("domain rows differ from parameters", lambda: make(arr("X", n, p), arr("Y", n, q), domain(k)), AssertionError, ValueError)
    else:
        d = make(arr("X", n, p), arr("Y", n, q), domain(k))
        check("domain", d.domain, domain(k))


def ob_flat_domain_mismatch(cls=["density", "bayes"]):
    n, q, p = D("n q p")
    make = DensityProblem if cls == "density" else BayesProblem
    raises("one domain row for several parameters", lambda: make(arr("X", n, p), arr("Y", n, q), [0, 1]), AssertionError, ValueError)


def ob_domain_form(cls=["density", "bayes"], form=["flat", "one row", "transposed", "one row more"], y=["1d", "2d"]):
    # as many numbers as needed, but not one row per parameter
    n = D("n")
    make = DensityProblem if cls == "density" else BayesProblem
    v = [[0, 1], [2, 3], [4, 5]]
    dom = {"flat": [0, 1, 2, 3, 4, 5], "one row": [[0, 1, 2, 3, 4, 5]], "transposed": [[0, 2, 4], [1, 3, 5]], "one row more": v + [[6, 7]]}[form]
    Y = arr("Y", n, 2) if y == "2d" or cls == "bayes" else arr("Y", n)
    raises("not one row per parameter", lambda: make(arr("X", n, 3), Y, dom), AssertionError, ValueError)
    raises("not one row per parameter, array", lambda: make(arr("X", n, 3), Y, np.array(dom)), AssertionError, ValueError)

def ob_bayes(p=["p", 1], q=["q", 1], dom=[0, 1]):
    n, p, q = D("n"), D(p), D(q)
    X = arr("X", n, p)
    if dom:
        b = BayesProblem(X, arr("Y", n, q), domain(p))
        check("domain", b.domain, domain(p))
    else:
        b = BayesProblem(X, arr("Y", n, q))
        mn, mx = np.min(X, axis=0), np.max(X, axis=0)
        check("fitted domain", b.domain, np.stack([mn - 0.1 * (mx - mn), mx + 0.1 * (mx - mn)], axis=1))
    check("samples", b.X, X)
    check("outputs", b.y, arr("Y", n, q))
    check("sizes", (b.n_samples, b.n_params, b.n_features), (n, p, q))


def ob_set_shape():
    n, k = D("n k")
    check("vector to row", U.set_shape(arr("a", n)), arr("a", n).reshape(1, n))
    check("vector to column", U.set_shape(arr("a", n), (-1, 1)), arr("a", n).reshape(n, 1))
    check("vector to row, explicitly", U.set_shape(arr("a", n), (1, -1)), arr("a", n).reshape(1, n))
    check("matrix unchanged", U.set_shape(arr("a", n, k), (-1, 1)), arr("a", n, k))
    check("matrix unchanged by default", U.set_shape(arr("a", n, k)), arr("a", n, k))


def ob_one_sample_more_outputs():
    # as many outputs as parameters, or as samples: axes must not be confused
    p, q = D("p q")
    d = DensityProblem(arr("X", q, p), arr("Y", q, p), domain(p))
    check("sizes", (d.n_samples, d.n_params, d.n_features), (q, p, p))
    d = DensityProblem(arr("X", p, p), arr("Y", p, p), domain(p))
    check("sizes", (d.n_samples, d.n_params, d.n_features), (p, p, p))
    check("fitted", DensityProblem(arr("X", p, p), arr("Y", p)).domain.shape, (p, 2))
