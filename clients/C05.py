def problem(n, p, q, w=None):
    return DensityProblem(arr("X", n, p), arr("Y", n, q), domain(p), weights=w)


def ob_all_defaults(p=["p", 1], q=["q", 1], weights=[0, 1], how=["fit", "fitbw", "setters", "estimate", "expected_ratio"], bw=["silverman", "scott", 0.25]):
    n, p, q = D("n"), D(p), D(q)
    w = arr("w", n) if weights else None
    wv = arr("w", n) if weights else np.ones(n)
    X, Y = arr("X", n, p), arr("Y", n, q)
    d = problem(n, p, q, w)
    b = None
    if how == "fit":
        d.fit()
    elif how == "fitbw":
        d.fit(bw_method=bw)
        b = bw
    elif how == "estimate":
        d.estimate()
    elif how == "expected_ratio":
        d.expected_ratio()
    else:
        d.set_initial()
        d.set_observed()
        d.set_predicted(bw_method=bw)
        b = bw
        d.fit()
    i = product(uniform_over(domain(p)).pdf(X))
    o = product(stats_dist.norm(loc=0, scale=1).pdf(Y))
    pr = kde(Y, wv, b).pdf(Y.T)
    check("initial density", d._in, i)
    check("observed density", d._ob, o)
    check("predicted density", d._pr, pr)
    check("updated density of defaults", d._up, i * wv * o / pr)


def ob_given_are_used(p=["p", 1], q=["q", 1], which=["iop", "io", "ip", "op", "i", "o", "p"], weights=[0, 1]):
    n, p, q = D("n"), D(p), D(q)
    w = arr("w", n) if weights else None
    wv = arr("w", n) if weights else np.ones(n)
    X, Y = arr("X", n, p), arr("Y", n, q)
    d = problem(n, p, q, w)
    i = product(uniform_over(domain(p)).pdf(X))
    o = product(stats_dist.norm().pdf(Y))
    pr = kde(Y, wv).pdf(Y.T)
    if "i" in which:
        d.set_initial(Dist("I"))
        i = product(pdf("I", X))
    elif "p" in which:
        d.set_initial()
    if "o" in which:
        d.set_observed(Dist("O"))
        o = product(pdf("O", Y))
    if "p" in which:
        d.set_predicted(Dist("P"))
        pr = product(pdf("P", Y))
    d.fit()
    check("updated density", d._up, i * wv * o / pr)
    d.fit()
    check("updated density, fitted again", d._up, i * wv * o / pr)


def ob_predicted_keywords(q=["q", 1], joint=[0, 1]):
    n, p, q = D("n"), D("p"), D(q)
    Y = arr("Y", n, q)
    d = problem(n, p, q)
    d.set_initial(Dist("I"))
    d.set_observed(Dist("O"))
    if joint:
        d.set_predicted(Joint("P"), shift=real("s"), flag="abc")
        pr = rowfun("P", Y, shift=real("s"), flag="abc")
    else:
        d.set_predicted(Dist("P"), shift=real("s"), flag="abc")
        pr = product(Dist("P").pdf(Y, shift=real("s"), flag="abc"))
    d.fit()
    check("updated density", d._up, product(pdf("I", arr("X", n, p))) * product(pdf("O", Y)) / pr)


def ob_fit_forwards_keywords(q=["q", 1]):
    n, p, q = D("n"), D("p"), D(q)
    Y = arr("Y", n, q)
    d = problem(n, p, q)
    d.set_initial(Dist("I"))
    d.set_observed(Dist("O"))
    d.fit(distribution=Dist("P"), c=real("c"))
    check("updated density", d._up, product(pdf("I", arr("X", n, p))) * product(pdf("O", Y)) / product(Dist("P").pdf(Y, c=real("c"))))


def ob_kde_on_weights_in_force(q=["q", 1], how=["setter", "argument"], bw=["none", "silverman"]):
    n, p, q = D("n"), D("p"), D(q)
    Y = arr("Y", n, q)
    d = problem(n, p, q, arr("w0", n))
    d.set_initial(Dist("I"))
    d.set_observed(Dist("O"))
    d.fit()
    b = None if bw == "none" else bw
    if how == "setter":
        d.set_weights(arr("w", n))
        d.set_predicted(bw_method=b)
    else:
        d.set_predicted(bw_method=b, weights=arr("w", n))
    d.fit()
    w = arr("w", n)
    check("updated density", d._up, product(pdf("I", arr("X", n, p))) * w * product(pdf("O", Y)) / kde(Y, w, b).pdf(Y.T))


def ob_bayes_default_prior(p=["p", 1], q=["q", 1], log=[0, 1], how=["fit", "set", "setpr", "estimate"]):
    n, p, q = D("n"), D(p), D(q)
    X, Y = arr("X", n, p), arr("Y", n, q)
    b = BayesProblem(X, Y, domain(p))
    pr = product(uniform_over(domain(p)).pdf(X))
    if how == "set":
        b.set_prior()
    if how == "setpr":
        b.set_prior(Dist("I"))
        pr = product(pdf("I", X))
    b.set_likelihood(Dist("L"), log=bool(log))
    ps = np.log(pr) + log_product("L", Y) if log else pr * product(pdf("L", Y))
    has_mass(ps, log)
    if how == "estimate":
        b.estimate()
    else:
        b.fit()
    check("posterior", b._ps, ps)


def ob_domain_order(cls=["density", "Bayes"], how=["setter", "fit"], p=["p", 2]):
    # the bounds of a parameter may be given in either order
    n, p, q = D("n"), D(p), D("q")
    X, Y = arr("X", n, p), arr("Y", n, q)
    dm = domain(p)[:, ::-1]
    pr = product(uniform_over(domain(p)).pdf(X))
    if cls == "density":
        d = DensityProblem(X, Y, dm)
        if how == "setter":
            d.set_initial()
        else:
            d.fit()
        check("initial", d._in, pr)
    else:
        b = BayesProblem(X, Y, dm)
        if how == "setter":
            b.set_prior()
        else:
            has_mass(pr * product(pdf("L", Y)), 0)
            b.set_likelihood(Dist("L"))
            b.fit()
        check("prior", b._pr, pr)
