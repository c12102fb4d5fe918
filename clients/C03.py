def problem(n, p, q, dom=True, w=None):
    return DensityProblem(arr("X", n, p), arr("Y", n, q), arr("dom", p, 2) if dom else None, weights=w)


def stated(n, p, q, w):
    X, Y = arr("X", n, p), arr("Y", n, q)
    return product(pdf("I", X)) * w * product(pdf("O", Y)) / product(pdf("P", Y))


def ob_updated_density(p=["p", 1], q=["q", 1], order=["iop", "opi", "pio", "oip"], weights=[0, 1, 2]):
    n, p, q = D("n"), D(p), D(q)
    w = None if weights == 0 else arr("w", n) if weights == 1 else arr("w", D("m"), n)
    wv = np.ones(n) if weights == 0 else arr("w", n) if weights == 1 else np.prod(arr("w", D("m"), n), axis=0)
    d = problem(n, p, q, w=w)
    # the predicted density is reset by set_initial, so it comes after it
    for c in order:
        if c == "i":
            d.set_initial(Dist("I"))
        if c == "o":
            d.set_observed(Dist("O"))
        if c == "p" and "i" not in order[order.index("p"):]:
            d.set_predicted(Dist("P"))
    d.set_predicted(Dist("P"))
    up = stated(n, p, q, wv)
    best = arr("X", n, p)[np.argmax(up), :]
    d.fit()
    check("updated density", d._up, up)
    check("MUD point", d.mud_point(), best)
    check("estimate", d.estimate(), best)


def ob_estimate_without_fit(p=["p", 1], q=["q", 1]):
    n, p, q = D("n"), D(p), D(q)
    d = problem(n, p, q)
    d.set_initial(Dist("I"))
    d.set_observed(Dist("O"))
    d.set_predicted(Dist("P"))
    up = stated(n, p, q, np.ones(n))
    check("estimate before any fit", d.estimate(), arr("X", n, p)[np.argmax(up), :])
    check("updated density after the estimate", d._up, up)


def ob_default_predicted(q=["q", 1], weights=[0, 1], how=["fit", "estimate", "set"], bw=["none", "given"]):
    # the predicted density estimated from the weighted outputs
    n, p, q = D("n"), D("p"), D(q)
    w = None if weights == 0 else arr("w", n)
    wv = np.ones(n) if weights == 0 else arr("w", n)
    d = problem(n, p, q, w=w)
    d.set_initial(Dist("I"))
    d.set_observed(Dist("O"))
    X, Y = arr("X", n, p), arr("Y", n, q)
    h = None if bw == "none" or how == "estimate" else real("h")
    if how == "set":
        d.set_predicted(bw_method=h)
    if how == "fit":
        d.fit(bw_method=h)
    est = d.estimate()
    up = product(pdf("I", X)) * wv * product(pdf("O", Y)) / kde(Y, wv, h)(Y.T)
    check("estimate", est, X[np.argmax(up), :])
    check("updated density", d._up, up)


def ob_one_distribution(which=["initial observed", "observed predicted", "all"], weights=[0, 1]):
    # one and the same distribution object in several places
    n, p = D("n p")
    q = p
    w = None if weights == 0 else arr("w", n)
    wv = np.ones(n) if weights == 0 else arr("w", n)
    d = DensityProblem(arr("X", n, p), arr("Y", n, q), weights=w)
    s = Dist("S")
    a, b, c = {"initial observed": (s, s, Dist("P")), "observed predicted": (Dist("I"), s, s), "all": (s, s, s)}[which]
    d.set_initial(a)
    d.set_observed(b)
    d.set_predicted(c)
    X, Y = arr("X", n, p), arr("Y", n, q)
    up = product(a.pdf(X)) * wv * product(b.pdf(Y)) / product(c.pdf(Y))
    check("estimate", d.estimate(), X[np.argmax(up), :])
    check("updated density", d._up, up)


def ob_fitted_again(times=[2, 3], weights=[0, 1]):
    n, p, q = D("n p q")
    w = None if weights == 0 else arr("w", n)
    wv = np.ones(n) if weights == 0 else arr("w", n)
    d = problem(n, p, q, w=w)
    d.set_initial(Dist("I"))
    d.set_observed(Dist("O"))
    d.set_predicted(Dist("P"))
    for k in range(times):
        d.fit()
    up = stated(n, p, q, wv)
    check("updated density", d._up, up)
    check("estimate", d.estimate(), arr("X", n, p)[np.argmax(up), :])


def ob_no_domain(p=["p"], q=["q"]):
    n, p, q = D("n"), D(p), D(q)
    d = problem(n, p, q, dom=False)
    d.set_initial(Dist("I"))
    d.set_observed(Dist("O"))
    d.set_predicted(Dist("P"))
    check("MUD point", d.mud_point(), arr("X", n, p)[np.argmax(stated(n, p, q, np.ones(n))), :])
