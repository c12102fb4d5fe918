def posterior(X, Y, log):
    if log:
        return np.sum(np.log(pdf("I", X)), axis=1) + np.sum(Dist("L").logpdf(Y), axis=1)
    return product(pdf("I", X)) * product(pdf("L", Y))


def ob_posterior(p=["p", 1], q=["q", 1], log=[0, 1], order=["IL", "LI"], how=["fit", "map_point", "estimate"]):
    n, p, q = D("n"), D(p), D(q)
    X, Y = arr("X", n, p), arr("Y", n, q)
    b = BayesProblem(X, Y, domain(p))
    for k in order:
        if k == "I":
            b.set_prior(Dist("I"))
        elif log:
            b.set_likelihood(Dist("L"), log=True)
        else:
            b.set_likelihood(Dist("L"))
    ps = posterior(X, Y, log)
    has_mass(ps, log)
    best = X[np.argmax(ps), :]
    if how == "fit":
        b.fit()
    elif how == "map_point":
        check("MAP point", b.map_point(), best)
    else:
        check("estimate", b.estimate(), best)
    check("posterior", b._ps, ps)
    check("MAP point again", b.map_point(), best)
    check("estimate again", b.estimate(), best)


def ob_forms_agree(q=["q", 1]):
    n, p, q = D("n"), D("p"), D(q)
    X, Y = arr("X", n, p), arr("Y", n, q)
    lik = stats_dist.norm(loc=arr("d", q), scale=positive("s"))
    a, b = BayesProblem(X, Y, domain(p)), BayesProblem(X, Y, domain(p))
    a.set_prior(Dist("I"))
    b.set_prior(Dist("I"))
    a.set_likelihood(lik)
    b.set_likelihood(lik, log=True)
    plain = product(pdf("I", X)) * product(lik.pdf(Y))
    has_mass(plain)
    has_mass(np.log(product(pdf("I", X))) + np.sum(np.log(lik.pdf(Y)), axis=1), True)
    a.fit()
    b.fit()
    check("log posterior is the logarithm of the posterior", b._ps, np.log(a._ps))


def ob_degenerate(log=[0, 1], how=["fit", "map_point", "estimate"], p=["p", 1]):
    n, p, q = D("n"), D(p), D("q")
    X, Y = arr("X", n, p), arr("Y", n, q)
    b = BayesProblem(X, Y, domain(p))
    b.set_prior(Dist("I"))
    b.set_likelihood(Dist("L"), log=bool(log))
    no_mass(posterior(X, Y, log), log)
    f = b.fit if how == "fit" else b.map_point if how == "map_point" else b.estimate
    raises("posterior vanishing", f, ValueError)


def ob_no_likelihood(how=["fit", "map_point", "estimate"], prior=[0, 1]):
    n, p, q = D("n p q")
    b = BayesProblem(arr("X", n, p), arr("Y", n, q), domain(p))
    if prior:
        b.set_prior(Dist("I"))
    f = b.fit if how == "fit" else b.map_point if how == "map_point" else b.estimate
    raises("likelihood never set", f, ValueError)


def ob_log_form_accepts_any_value():
    # log posteriors adding up to zero are as good as any
    X = [[0.25], [0.5], [0.75]]
    b = BayesProblem(X, X, [[0, 1]])
    b.set_likelihood(stats_dist.uniform(0, 1), log=True)
    b.fit()
    check("log posterior", b._ps, np.zeros(3))


def ob_log_form_without_mass(how=["fit", "map_point", "estimate"]):
    X = [[0.25], [0.5], [0.75]]
    b = BayesProblem(X, X, [[0, 1]])
    b.set_likelihood(stats_dist.uniform(5, 1), log=True)
    raises("posterior vanishing", b.fit if how == "fit" else b.map_point if how == "map_point" else b.estimate, ValueError)
