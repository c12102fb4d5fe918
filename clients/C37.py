# Density-based estimates are consistent under sample reordering


def samples(p, q, weights):
    n = D("n")
    X, Y = arr("X", n, p), arr("Y", n, q)
    w = None
    if weights == "single":
        w = posarr("w", n)
    elif weights == "stacked":
        w = posarr("w", D("k"), n)
    elif weights == "two":
        w = posarr("w", 2, n)
    elif weights == "row":
        w = posarr("w", 1, n)
    return X, Y, w, shuffle("perm", n)


def at(w, s):
    return None if w is None else w[..., s]


def compare(one, two, s, r=True):
    check("initial", two._in, one._in[s])
    check("observed", two._ob, one._ob[s])
    check("predicted", two._pr, one._pr[s])
    if r:
        check("ratio", two._r, one._r[s])
    check("updated", two._up, one._up[s])
    check("weights", two._weights, one._weights[s])
    check("largest value", np.max(two._up), np.max(one._up))


def ob_density(p=["p", 1, 2], q=["q", 1, 2], weights=["none", "single", "stacked", "two", "row"], normalize=[False, True], initial=["given", "box", "fitted"], predicted=["kde", "kde2", "given"]):
    p, q = D(p), D(q)
    X, Y, w, s = samples(p, q, weights)
    dom = None if initial == "fitted" else domain(p)
    one = DensityProblem(X, Y, domain=dom, weights=w, normalize=normalize)
    two = DensityProblem(X[s], Y[s], domain=dom, weights=at(w, s), normalize=normalize)
    for d in [one, two]:
        if initial == "given":
            d.set_initial(Dist("pin"))
        d.set_observed(Dist("pob"))
        if predicted == "given":
            d.set_initial(Dist("pin"))
            d.set_predicted(Dist("ppr"))
        elif predicted == "kde2":
            d.set_initial(Dist("pin"))
            d.set_predicted(bw_method="silverman")
        d.fit()
    compare(one, two, s)
    check("domain", two.domain, one.domain)
    check("expected ratio", two.expected_ratio(), one.expected_ratio())


def ob_density_all_default(p=["p", 1], q=["q", 1], pad=[0.1, "pad"]):
    p, q = D(p), D(q)
    X, Y, w, s = samples(p, q, "none")
    pad = positive("pad") if pad == "pad" else pad
    one, two = DensityProblem(X, Y, pad_domain=pad), DensityProblem(X[s], Y[s], pad_domain=pad)
    check("expected ratio", two.expected_ratio(), one.expected_ratio())
    compare(one, two, s)
    check("domain", two.domain, one.domain)


def ob_density_joint(which=["Observed", "Initial", "Predicted"], p=["p", 1], q=["q", 1]):
    # distributions without independent coordinates where the library accepts them
    p, q = D(p), D(q)
    X, Y, w, s = samples(p, q, "single")
    one, two = DensityProblem(X, Y, weights=w), DensityProblem(X[s], Y[s], weights=at(w, s))
    for d in [one, two]:
        d.set_initial(Dist("pin"))
        d.set_predicted(Joint("ppr"))
        d.set_observed(Dist("pob"))
    check("expected ratio", two.expected_ratio(), one.expected_ratio())
    compare(one, two, s)


def ob_later_weights(how=["set_weights", "set_predicted", "both"], normalize=[False, True], weights=["single", "stacked", "two"], before=["none", "fit", "mud_point"]):
    p, q = D("p q")
    X, Y, w, s = samples(p, q, weights)
    one, two = DensityProblem(X, Y), DensityProblem(X[s], Y[s])
    for d, v in [(one, w), (two, at(w, s))]:
        if before == "fit":
            d.fit()
        elif before == "mud_point":
            d.mud_point()
        if how != "set_predicted":
            d.set_weights(v, normalize)
        if how == "both":
            d.set_weights(v[..., :])
        if how == "set_predicted":
            d.set_predicted(weights=v)
        d.fit()
    compare(one, two, s)
    check("expected ratio", two.expected_ratio(), one.expected_ratio())


def ob_bayes(p=["p", 1, 2], q=["q", 1, 2], log=[False, True], prior=["given", "box", "fitted"]):
    p, q = D(p), D(q)
    X, Y, w, s = samples(p, q, "none")
    dom = None if prior == "fitted" else domain(p)
    one, two = BayesProblem(X, Y, domain=dom), BayesProblem(X[s], Y[s], domain=dom)
    for d in [one, two]:
        if prior == "given":
            d.set_prior(Dist("pin"))
        else:
            d.set_prior()
        d.set_likelihood(Dist("pob"), log=log)
    has_mass(np.log(one._pr) + one._ll if log else one._pr * one._ll, log)
    one.fit()
    two.fit()
    check("likelihood", two._ll, one._ll[s])
    check("posterior", two._ps, one._ps[s])
    check("prior", two._pr, one._pr[s])
    check("domain", two.domain, one.domain)
    check("largest value", np.max(two._ps), np.max(one._ps))


def ob_twice(p=["p", 1]):
    # two reorderings, one after the other
    p, q = D(p), D("q")
    X, Y, w, s = samples(p, q, "single")
    t = shuffle("other", D("n"))
    one = DensityProblem(X, Y, weights=w)
    two = DensityProblem(X[s][t], Y[s][t], weights=w[s][t])
    for d in [one, two]:
        d.fit()
    check("updated", two._up, one._up[s][t])
    check("expected ratio", two.expected_ratio(), one.expected_ratio())


def ob_reversed(p=["p", 1], weights=["none", "single", "stacked"]):
    p, q = D(p), D("q")
    X, Y, w, s = samples(p, q, weights)
    one = DensityProblem(X, Y, weights=w)
    two = DensityProblem(X[::-1], Y[::-1], weights=None if w is None else w[..., ::-1])
    for d in [one, two]:
        d.set_initial(Dist("pin"))
        d.set_predicted(Dist("ppr"))
        d.fit()
    check("updated", two._up, one._up[::-1])


def ob_same_shape_samples(k=["n"]):
    # two problems that differ in one sample only agree on the density values of all the others
    n, p, q = D("n p q")
    m = D("m")
    X, Y, w = arr("X", n + m, p), arr("Y", n + m, q), posarr("w", n + m)
    V, Z, u = arr("V", m, p), arr("Z", m, q), posarr("u", m)
    one = DensityProblem(X, Y, weights=w, domain=domain(p))
    two = DensityProblem(np.concatenate([X[:n], V]), np.concatenate([Y[:n], Z]), weights=np.concatenate([w[:n], u]), domain=domain(p))
    for d in [one, two]:
        d.set_initial(Dist("pin"))
        d.set_predicted(Dist("ppr"))
        d.fit()
    check("initial", two._in[:n], one._in[:n])
    check("observed", two._ob[:n], one._ob[:n])
    check("predicted", two._pr[:n], one._pr[:n])
    check("ratio", two._r[:n], one._r[:n])
    check("updated", two._up[:n], one._up[:n])


def ob_bayes_others(log=[False, True]):
    # ... and up to normalisation for posteriors
    n, p, q, m = D("n p q m")
    X, Y = arr("X", n + m, p), arr("Y", n + m, q)
    V, Z = arr("V", m, p), arr("Z", m, q)
    one = BayesProblem(X, Y, domain=domain(p))
    two = BayesProblem(np.concatenate([X[:n], V]), np.concatenate([Y[:n], Z]), domain=domain(p))
    for d in [one, two]:
        d.set_prior(Dist("pin"))
        d.set_likelihood(Dist("pob"), log=log)
    check("likelihood", two._ll[:n], one._ll[:n])
    check("prior", two._pr[:n], one._pr[:n])
