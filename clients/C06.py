def problem(n, p, q, **kw):
    return DensityProblem(arr("X", n, p), arr("Y", n, q), domain(p), **kw)


def ob_default(p=["p", 1], q=["q", 1]):
    n, p, q = D("n"), D(p), D(q)
    check("weights by default", problem(n, p, q)._weights, np.ones(n))
    d = problem(n, p, q, weights=arr("w", n))
    d.set_weights()
    check("weights after reset", d._weights, np.ones(n))
    d.set_weights(None)
    check("weights after reset to None", d._weights, np.ones(n))


def ob_given(p=["p", 1], q=["q", 1], norm=[0, 1], how=["constructor", "setter"], rows=["vector", "list", "m", 1, 2, 3, "rows"]):
    n, p, q = D("n"), D(p), D(q)
    if rows == "vector":
        w, want = arr("w", n), arr("w", n)
    elif rows == "list":
        w, want = arr("w", n).tolist(), arr("w", n)
    elif rows == "rows":
        w, want = [arr("w", n), arr("v", n)], arr("w", n) * arr("v", n)
    else:
        m = D(rows)
        w, want = arr("w", m, n), np.prod(arr("w", m, n), axis=0)
    if norm:
        want = want / np.linalg.norm(want)
    if how == "constructor":
        d = problem(n, p, q, weights=w, normalize=bool(norm))
    else:
        d = problem(n, p, q, weights=arr("old", n))
        d.set_weights(w, normalize=bool(norm))
    check("weights", d._weights, want)
    d.set_initial(Dist("I"))
    d.set_observed(Dist("O"))
    d.set_predicted(Dist("P"))
    d.fit()
    X, Y = arr("X", n, p), arr("Y", n, q)
    check("weights after use", d._weights, want)
    check("updated density with weights", d._up, product(pdf("I", X)) * want * product(pdf("O", Y)) / product(pdf("P", Y)))


def ob_not_normalised_unless_requested():
    n, p, q = D("n p q")
    check("vector", problem(n, p, q, weights=arr("w", n))._weights, arr("w", n))
    check("stacked", problem(n, p, q, weights=arr("w", 3, n))._weights, np.prod(arr("w", 3, n), axis=0))


def ob_wrong_length(how=["constructor", "setter", "predicted"], kind=["vector", "stacked", "transposed", "shorter"]):
    n, p, q, m = D("n p q m")
    if kind == "vector":
        w = arr("w", m)
    elif kind == "stacked":
        w = arr("w", 2, m)
    elif kind == "transposed":
        w = arr("w", n, 2)
    else:
        w = arr("w", n - 1)
    if how == "constructor":
        raises("weights of wrong length", lambda: problem(n, p, q, weights=w), AssertionError, ValueError)
    elif how == "setter":
        d = problem(n, p, q)
        raises("weights of wrong length", lambda: d.set_weights(w), AssertionError, ValueError)
    else:
        d = problem(n, p, q)
        raises("weights of wrong length", lambda: d.set_predicted(weights=w), AssertionError, ValueError)


def ob_replaced_by_predicted(q=["q", 1], dist=[0, 1], stacked=[0, 1]):
    n, p, q = D("n"), D("p"), D(q)
    X, Y = arr("X", n, p), arr("Y", n, q)
    w = arr("w", 2, n) if stacked else arr("w", n)
    wv = np.prod(w, axis=0) if stacked else w
    d = problem(n, p, q, weights=arr("old", n))
    d.set_initial(Dist("I"))
    d.set_observed(Dist("O"))
    if dist:
        d.set_predicted(Dist("P"), weights=w)
        pr = product(pdf("P", Y))
    else:
        d.set_predicted(weights=w)
        pr = kde(Y, wv).pdf(Y.T)
    check("stored weights", d._weights, wv)
    check("predicted density", d._pr, pr)
    d.fit()
    check("updated density", d._up, product(pdf("I", X)) * wv * product(pdf("O", Y)) / pr)
