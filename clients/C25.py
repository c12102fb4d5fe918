# Problems keep their own copies
JUDGE_RAISES = False


def spoil(*arrays):
    """the caller writes over its arrays"""
    for i, a in enumerate(arrays):
        if a is not None:
            a *= 3
            a += real("junk%d" % i)


def posdef(name, p):
    return arr(name, p, p)


# ---- density problems
def density_attributes(d, e):
    check("parameters", d.X, e.X)
    check("outputs", d.y, e.y)
    check("domain", d.domain, e.domain)
    check("weights", d._weights, e._weights)


def density_results(d, e):
    for p in (d, e):
        p.set_observed(Dist("obs"))
    check("estimate", d.estimate(), e.estimate())
    check("updated density", d._up, e._up)
    check("expected ratio", d.expected_ratio(), e.expected_ratio())


def ob_density(shape=["rows", "flat"], dom=["given", "fitted"], w=["none", "flat", "stacked"], norm=[0, 1]):
    n, k, m = D("n k m")
    if shape == "flat":
        k = m = 1

    def inputs():
        X, y = (arr("X", n, k), arr("Y", n, m)) if shape == "rows" else (arr("X", n), arr("Y", n))
        return X, y, domain(k) if dom == "given" else None, None if w == "none" else posarr("w", n) if w == "flat" else posarr("w", 2, n)

    X, y, dm, ws = inputs()
    d = DensityProblem(X, y, dm, ws, bool(norm))
    e = DensityProblem(*inputs(), bool(norm))
    spoil(X, y, dm, ws)
    density_attributes(d, e)
    density_results(d, e)


def ob_density_between():
    # written over between an estimate and the next
    n, k, m = D("n k m")
    X, y, dm, w = arr("X", n, k), arr("Y", n, m), domain(k), posarr("w", n)
    d, e = DensityProblem(X, y, dm, w), DensityProblem(arr("X", n, k), arr("Y", n, m), domain(k), posarr("w", n))
    d.estimate()
    e.estimate()
    spoil(X, y, dm, w)
    density_attributes(d, e)
    check("estimate", d.estimate(), e.estimate())
    check("ratio", d.expected_ratio(), e.expected_ratio())
    for p in (d, e):
        p.set_initial()
        p.set_observed()
    check("estimate after a new fit", d.estimate(), e.estimate())
    check("ratio after a new fit", d.expected_ratio(), e.expected_ratio())


def ob_density_weights(norm=[0, 1], shape=["flat", "row", "stacked", "predicted"]):
    n, k, m = D("n k m")
    d = DensityProblem(arr("X", n, k), arr("Y", n, m), domain(k))
    e = DensityProblem(arr("X", n, k), arr("Y", n, m), domain(k))
    f = lambda: posarr("w", n) if shape in ("flat", "predicted") else posarr("w", 1, n) if shape == "row" else posarr("w", 3, n)
    w = f()
    if shape == "predicted":
        d.set_predicted(weights=w)
        e.set_predicted(weights=f())
    else:
        d.set_weights(w, normalize=bool(norm))
        e.set_weights(f(), normalize=bool(norm))
    spoil(w)
    density_attributes(d, e)
    density_results(d, e)


def ob_density_plot():
    n = D("n")
    X, y, dm = arr("X", n, 2), arr("Y", n, 2), domain(2)
    d, e = DensityProblem(X, y, dm), DensityProblem(arr("X", n, 2), arr("Y", n, 2), domain(2))
    spoil(X, y, dm)
    d.estimate(), e.estimate()
    d.plot_params_2d(ax=Axes("ax"))
    d.plot_qoi(ax=Axes("ax"))
    density_attributes(d, e)


# ---- Bayesian problems
def ob_bayes(shape=["rows", "flat"], dom=["given", "fitted"], log=[0, 1]):
    n, k, m = D("n k m")

    def inputs():
        X, y = (arr("X", n, k), arr("Y", n, m)) if shape == "rows" else (arr("X", k), arr("Y", m))
        return X, y, domain(k) if dom == "given" else None

    X, y, dm = inputs()
    d, e = BayesProblem(X, y, dm), BayesProblem(*inputs())
    spoil(X, y, dm)
    check("parameters", d.X, e.X)
    check("outputs", d.y, e.y)
    check("domain", d.domain, e.domain)
    for p in (d, e):
        p.set_likelihood(Dist("ll"), log=bool(log))
        p.set_prior(Dist("pr"))
    check("estimate", d.estimate(), e.estimate())
    check("posterior", d._ps, e._ps)


# ---- linear problems
def linear_attributes(d, e):
    for f in ("A", "b", "y", "mean_i", "cov_i", "cov_o"):
        check(f, getattr(d, f), getattr(e, f))


def linear_results(d, e, x):
    for m in ("mud", "mud_alt", "map", "ls"):
        check(m, d.solve(m), e.solve(m))
    check("updated covariance", d.updated_cov(), e.updated_cov())
    check("functionals", d.compute_functionals(x), e.compute_functionals(x))


def ob_linear(shape=["column", "flat", "row"], when=["before", "after"]):
    d, p, n = D("d p n")

    def inputs():
        v = (lambda name, m: arr(name, m, 1)) if shape == "column" else (lambda name, m: arr(name, 1, m)) if shape == "row" else (lambda name, m: arr(name, m))
        return arr("A", d, p), v("b", d), v("y", d), v("m", p), arr("S", p, p), arr("R", d, d)

    a = inputs()
    f, g = LinearGaussianProblem(*a, positive("alpha")), LinearGaussianProblem(*inputs(), positive("alpha"))
    if when == "after":
        f.solve("all"), g.solve("all")
    spoil(*a)
    linear_attributes(f, g)
    linear_results(f, g, arr("x", n, p))


def ob_linear_vector():
    p = D("p")
    a = arr("A", p)
    f, g = LinearGaussianProblem(a), LinearGaussianProblem(arr("A", p))
    spoil(a)
    linear_attributes(f, g)


def ob_default_map():
    # the shared default map is not handed out
    f = LinearGaussianProblem(y=[1, 2])
    f.A *= 3
    check("map of the next problem", LinearGaussianProblem(y=[1, 2]).A, np.array([[1], [1]]))


def ob_iterative():
    p, d = D("p"), 2

    def inputs():
        return arr("A", d, p), arr("b", d, 1), arr("y", d, 1), arr("m", p, 1), arr("S", p, p), arr("R", d, d)

    a = inputs()
    f, g = IterativeLinearProblem(*a), IterativeLinearProblem(*inputs())
    f.solve(), g.solve()
    spoil(*a)
    linear_attributes(f, g)
    check("continued", f.solve(), g.solve())
    check("errors", f.get_errors(arr("ref", p)), g.get_errors(arr("ref", p)))


def ob_wme():
    p, d, e = D("p d e")

    def inputs():
        return [arr("A", d, p), arr("B", e, p)], [arr("y", d), arr("z", e)], 2, None, arr("m", p), arr("S", p, p), arr("R", 2, 2)

    a = inputs()
    f, g = LinearWMEProblem(*a), LinearWMEProblem(*inputs())
    spoil(a[0][0], a[0][1], a[1][0], a[1][1], a[4], a[5], a[6])
    linear_attributes(f, g)
    check("solution", f.solve(), g.solve())


def ob_builders(f=["mud", "map", "split"]):
    n, k, m = D("n k m")
    if f == "split":
        m = 3

    def inputs():
        return arr("X", n, k), arr("Y", n, m), arr("true", m), domain(k)

    def make(a, w):
        np.random.seed(1)
        if f == "map":
            return F.map_problem(*a)
        if f == "mud":
            return F.mud_problem(*a, weights=w)
        return F.mud_problem(*a, weights=w, split=[np.array([0, 1]), np.array([2])])

    a, w = inputs(), posarr("w", n)
    p, q = make(a, w), make(inputs(), posarr("w", n))
    spoil(*a, w)
    check("parameters", p.X, q.X)
    check("outputs", p.y, q.y)
    check("domain", p.domain, q.domain)
    check("estimate", p.estimate(), q.estimate())


def ob_solver_functions():
    # a problem object handed out by the functional entry point
    d, p = D("d p")

    def inputs():
        return arr("A", d, p), arr("b", d, 1), arr("y", d, 1), arr("m", p, 1), arr("S", p, p), arr("R", d, d)

    a = inputs()
    f, g = F.lin_prob(*a), F.lin_prob(*inputs())
    spoil(*a)
    linear_attributes(f, g)
    check("mud", f.solve("mud"), g.solve("mud"))
