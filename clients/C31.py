# Invalid requests are rejected, valid ones are not


def other_than(name, *known):
    """any string but the known ones"""
    v = text(name)
    for k in known:
        assume(v != k)
    return v


def accepted(label, f):
    """a valid request: any exception leaves the client by itself and is reported"""
    f()
    check(label, 1, 1)


ANY = (AssertionError, ValueError, AttributeError, IndexError, TypeError, KeyError)


# -- names --------------------------------------------------------------------------------------------------
def ob_solution_methods(cls=["linear", "iterative", "wme"], name=["any", "MUD", "mud ", "least squares", "", "initial", "A", "mean_i", "up_cov", "sol", None, 0]):
    p = D("p")
    m = other_than("method", "mud", "mud_alt", "map", "ls", "all") if name == "any" else name
    if cls == "linear":
        lp = LinearGaussianProblem(arr("A", D("d"), p))
    elif cls == "wme":
        lp = LinearWMEProblem([arr("A", 3, p)], [arr("y", 3)], 1)
    else:
        lp = IterativeLinearProblem(arr("A", 2, p), arr("b", 2, 1), arr("y", 2, 1), arr("m", p, 1))
    if cls == "iterative":
        raises("unknown method", lambda: lp.solve(1, m), ValueError, AttributeError)
        raises("unknown method", lambda: lp.solve(method=m), ValueError, AttributeError)
    else:
        raises("unknown method", lambda: lp.solve(m), ValueError)
        raises("unknown method, fewer outputs", lambda: lp.solve(method=m, output_dim=1), ValueError)


def ob_solution_methods_after_solving(name=["any", "sol", "up_cov", "cov_p", "A", "y", "MUD"]):
    p = D("p")
    m = other_than("method", "mud", "mud_alt", "map", "ls", "all") if name == "any" else name
    lp = LinearGaussianProblem(arr("A", D("d"), p))
    lp.solve("all")
    raises("unknown method", lambda: lp.solve(m), ValueError)


def ob_known_methods(name=["mud", "mud_alt", "map", "ls", "all"]):
    lp = LinearGaussianProblem(arr("A", D("d"), D("p")))
    accepted("solve", lambda: lp.solve(name))
    accepted("solve", lambda: lp.solve(method=name, output_dim=1))
    if name != "all":
        it = IterativeLinearProblem(arr("A", 1, D("p")), arr("b", 1, 1), arr("y", 1, 1))
        accepted("solve", lambda: it.solve(method=name))
        accepted("solve", lambda: F.iter_lin_solve(arr("A", 1, D("p")), arr("b", 1, 1), method=name))


def ob_iter_lin_solve_methods(name=["any", "MUD", "", "newton"]):
    m = other_than("method", "mud", "mud_alt", "map", "ls", "all") if name == "any" else name
    raises("unknown method", lambda: F.iter_lin_solve(arr("A", 2, D("p")), arr("b", 2, 1), arr("y", 2, 1), method=m), ValueError, AttributeError)


def ob_plotted_solution(name=["any", "", "MUD", "mean"]):
    m = other_than("point", "mud", "mud_alt", "map", "ls", "all", "initial") if name == "any" else name
    lp = LinearGaussianProblem(arr("A", 2, 2))
    raises("unknown solution", lambda: lp.plot_sol(m, Axes("ax")), ValueError)
    check("nothing drawn", points(Axes("ax")), [])


def ob_known_plotted(name=["mud", "mud_alt", "map", "ls", "initial"]):
    lp = LinearGaussianProblem(arr("A", 1, 2))
    accepted("plot", lambda: lp.plot_sol(name, Axes("ax")))


def ob_functional_terms(name=["any", "Data", "prior", "", "reg_", "dc_fun", None]):
    p = D("p")
    t = other_than("term", "all", "data", "reg", "dc_term", "reg_m", "bayes", "dc") if name == "any" else name
    lp = LinearGaussianProblem(arr("A", D("d"), p))
    raises("unknown term", lambda: lp.compute_functionals(arr("Z", D("n"), p), t), ValueError)
    raises("unknown term", lambda: lp.compute_functionals(arr("Z", D("n"), p), terms=t), ValueError)


def ob_known_terms(name=["all", "data", "reg", "dc_term", "reg_m", "bayes", "dc"]):
    p = D("p")
    lp = LinearGaussianProblem(arr("A", D("d"), p))
    accepted("term", lambda: lp.compute_functionals(arr("Z", D("n"), p), name))


def ob_distribution_sources(name=["any", "KDE", "cdf", "", None]):
    s = other_than("source", "pdf", "kde") if name == "any" else name
    raises("unknown source", lambda: P.plot_dist(Dist("f"), arr("r", 1, 2), Axes("ax"), 0, s, 5), ValueError)
    raises("unknown source", lambda: P.plot_dist(Dist("f"), arr("r", 2, 2), Axes("ax"), 1, source=s, aff=4), ValueError)
    check("nothing drawn", curves(Axes("ax"), None), [])


def ob_map_types(name=["any", "WME", "mean", "", None], how=["method", "function"]):
    n, k, s, t = D("n k s t")
    m = other_than("method", "wme", "pca", "svd") if name == "any" else name
    if how == "method":
        p = spatio(n, k, s, t)
        raises("unknown map", lambda: p.mud_problem(m), ValueError)
        raises("unknown map", lambda: p.mud_problem(method=m, data_weights=arr("dw", s * t)), ValueError)
    else:
        raises("unknown map", lambda: F.data_prob(arr("X", n, k), arr("Y", n, t), measurements=arr("meas", t), std_dev=0.1, method=m), ValueError)


def ob_known_maps(name=["wme", "pca", "svd"], how=["method", "function"]):
    n, k, s, t = D("n k s t")
    if how == "method":
        accepted("map", lambda: spatio(n, k, s, t).mud_problem(name))
    else:
        accepted("map", lambda: F.data_prob(arr("X", n, k), arr("Y", n, t), measurements=arr("meas", t), std_dev=0.1, method=name))


def ob_sampling_types(name=["any", "U", "uniform", "", None, 0]):
    k = other_than("kind", "u", "n") if name == "any" else name
    p = SpatioTemporalProblem()

    def f():
        p.sample_dist = k

    raises("unknown sampling type", f, ValueError)
    p.sample_dist = "n"
    raises("unknown sampling type", f, ValueError)
    check("kept", p.sample_dist, "n")
    p.sample_dist = "u"
    check("replaced", p.sample_dist, "u")


# -- column indices -------------------------------------------------------------------------------------------
def density(n, k, m):
    d = DensityProblem(arr("X", n, k), arr("Y", n, m), domain(k))
    d.set_initial(Dist("init"))
    d.set_observed(Dist("obs"))
    return d


def ob_columns_2d(k=[2, 3], m=[1, 2]):
    n = D("n")
    d = density(n, k, m)
    ax = Axes("ax")
    raises("first parameter too high", lambda: d.plot_params_2d(k, 0, ax=ax), ValueError, IndexError)
    raises("second parameter too high", lambda: d.plot_params_2d(0, k, ax=ax), ValueError, IndexError)
    raises("both too high", lambda: d.plot_params_2d(k + 1, k, ax=ax), ValueError, IndexError)
    raises("output too high", lambda: d.plot_params_2d(0, 1, m, ax=ax), ValueError, IndexError)
    raises("output too high", lambda: d.plot_params_2d(0, 1, m + 1, True, ax=ax), ValueError, IndexError)
    raises("below the first", lambda: d.plot_params_2d(0, -k - 1, ax=ax), ValueError, IndexError)
    accepted("last ones", lambda: d.plot_params_2d(k - 2, k - 1, m - 1, True, ax=ax))
    accepted("first ones", lambda: d.plot_params_2d(1, 0, 0, ax=ax))


def ob_columns_2d_generic():
    n, k, m, j = D("n k m j")
    d = density(n, k, m)
    ax = Axes("ax")
    raises("first parameter too high", lambda: d.plot_params_2d(k, 0, ax=ax), ValueError, IndexError)
    raises("second parameter too high", lambda: d.plot_params_2d(0, k + j, ax=ax), ValueError, IndexError)
    raises("output too high", lambda: d.plot_params_2d(0, 1, m, ax=ax), ValueError, IndexError)
    raises("output too high", lambda: d.plot_params_2d(0, 1, m + j, ax=ax), ValueError, IndexError)
    accepted("last ones", lambda: d.plot_params_2d(k - 2, k - 1, m - 1, ax=ax))


def ob_columns_need_two():
    n, m = D("n m")
    d = density(n, 1, m)
    raises("one parameter", lambda: d.plot_params_2d(ax=Axes("ax")), AttributeError, ValueError, IndexError)
    raises("one parameter", lambda: d.plot_params_2d(0, 0, ax=Axes("ax")), AttributeError, ValueError, IndexError)


def ob_columns_qoi(m=[1, 2, 3]):
    n = D("n")
    d = density(n, 2, m)
    ax = Axes("ax")
    raises("x too high", lambda: d.plot_qoi(m, 0, ax), IndexError, ValueError)
    raises("y too high", lambda: d.plot_qoi(0, m, ax), IndexError, ValueError)
    raises("far too high", lambda: d.plot_qoi(0, m + 5, ax), IndexError, ValueError)
    if m > 1:
        accepted("last ones", lambda: d.plot_qoi(m - 2, m - 1, ax))
    else:
        raises("default second output", lambda: d.plot_qoi(ax=ax), IndexError, ValueError)


def bayes(n, k, m):
    """with a posterior that does not vanish"""
    b = BayesProblem(arr("X", n, k), arr("Y", n, m), domain(k))
    b.set_prior(Dist("pr"))
    b.set_likelihood(Dist("ll"))
    assume(np.sum(product(pdf("ll", arr("Y", n, m))) * product(pdf("pr", arr("X", n, k)))) != 0)
    return b


def ob_columns_curves(cls=["density", "bayes"], which=["param", "obs"], k=[1, 2]):
    n = D("n")
    if cls == "density":
        d = density(n, k, k)
        f = (lambda i: d.plot_param_space(i, ax=Axes("ax"), x_range=arr("r", k, 2), aff=4)) if which == "param" else (lambda i: d.plot_obs_space(i, Axes("ax"), arr("r", k, 2), aff=4))
    else:
        d = bayes(n, k, k)
        f = (lambda i: d.plot_param_space(i, ax=Axes("ax"), x_range=arr("r", k, 2), aff=4)) if which == "param" else (lambda i: d.plot_obs_space(i, Axes("ax"), arr("r", k, 2), aff=4))
    d.fit()
    raises("too high", lambda: f(k), IndexError, ValueError)
    raises("far too high", lambda: f(k + 3), IndexError, ValueError)
    accepted("last", lambda: f(k - 1))
    accepted("first", lambda: f(0))


def ob_ranges(cls=["density", "bayes"], which=["param", "obs"], rows=[1, 3]):
    """a plotting range has one row per column of the samples"""
    n = D("n")
    k = 2
    if cls == "density":
        d = density(n, k, k)
    else:
        d = bayes(n, k, k)
    d.fit()
    f = (lambda r: d.plot_param_space(0, ax=Axes("ax"), x_range=r, aff=4)) if which == "param" else (lambda r: d.plot_obs_space(0, Axes("ax"), r, aff=4))
    accepted("matching range", lambda: f(arr("r", k, 2)))
    if which == "obs" and cls == "density":
        raises("range of other dimension", lambda: f(arr("r", rows, 2)), *ANY)


# -- missing parts ------------------------------------------------------------------------------------------------
def ob_likelihood_unset(prior=["default", "given"]):
    n, k, m = D("n k m")
    for what in ("fit", "estimate", "map_point"):
        b = BayesProblem(arr("X", n, k), arr("Y", n, m), domain(k))
        if prior == "given":
            b.set_prior(Dist("pr"))
        raises("no likelihood for " + what, getattr(b, what), ValueError)


def ob_likelihood_unset_plots(what=["param", "obs"]):
    n = D("n")
    b = BayesProblem(arr("X", n, 2), arr("Y", n, 2), domain(2))
    b.set_prior(Dist("pr"))
    f = (lambda: b.plot_param_space(ax=Axes("ax"), aff=4)) if what == "param" else (lambda: b.plot_obs_space(ax=Axes("ax"), aff=4))
    raises("no likelihood", f, ValueError, AttributeError)
    b = bayes(n, 2, 2)
    b.fit()
    f = (lambda: b.plot_param_space(ax=Axes("ax"), aff=4)) if what == "param" else (lambda: b.plot_obs_space(ax=Axes("ax"), aff=4))
    accepted("likelihood set", f)


def ob_density_unset_plots(what=["param", "obs"], fitted=[0, 1]):
    n = D("n")
    d = DensityProblem(arr("X", n, 2), arr("Y", n, 2), domain(2))
    f = (lambda: d.plot_param_space(ax=Axes("ax"), aff=4)) if what == "param" else (lambda: d.plot_obs_space(ax=Axes("ax"), aff=4))
    if fitted:
        d.fit()
        return accepted("defaults in force", f)
    raises("nothing set", f, AssertionError, ValueError, AttributeError)


def ob_posterior_unstable():
    n, k, m = D("n k m")
    b = BayesProblem(arr("X", n, k), arr("Y", n, m), domain(k))
    b.set_likelihood(Dist("ll"))
    assume(np.sum(product(pdf("ll", arr("Y", n, m))) * product(uniform_over(domain(k)).pdf(arr("X", n, k)))) == 0)
    raises("posterior vanishes", b.fit, ValueError)
    raises("posterior vanishes", b.estimate, ValueError)


def spatio(n, k, s, t, without=()):
    lo, w = arr("dom_lo", k), posarr("dom_width", k)
    ds = {"domain": domain(k), "sensors": arr("sensors", s, 2), "times": arr("times", t), "lam": arr("X", n, k), "data": arr("Y", n, s * t),
          "std_dev": positive("sd"), "true_vals": arr("true", s * t), "measurements": arr("meas", s * t), "sample_dist": "u"}
    for x in without:
        ds.pop(x)
    return SpatioTemporalProblem(ds)


def ob_spatio_missing(what=["measurements", "true_vals", "std_dev", "data"]):
    n, k, s, t = D("n k s t")
    p = spatio(n, k, s, t, [what])
    if what == "measurements":
        raises("nearest to measurements", p.get_closest_to_measurements, *ANY)
        raises("map", lambda: p.mud_problem("wme"), *ANY)
        raises("map", lambda: p.mud_problem("pca"), *ANY)
        raises("validation", p.validate, ValueError)
        accepted("validation without measurements", lambda: p.validate(check_meas=False))
        accepted("nearest to true values", p.get_closest_to_true_vals)
        accepted("selection", p.sample_data)
    elif what == "true_vals":
        raises("nearest to true values", p.get_closest_to_true_vals, AttributeError)
        raises("measurements", p.measurements_from_reference, AttributeError)
        raises("validation", lambda: p.validate(check_true=True), ValueError)
        accepted("validation", p.validate)
        accepted("map", lambda: p.mud_problem("wme"))
        accepted("measurements of given values", lambda: p.measurements_from_reference(arr("ref", s * t)))
    elif what == "std_dev":
        raises("map", lambda: p.mud_problem("wme"), *ANY)
        raises("measurements", p.measurements_from_reference, AttributeError)
        accepted("measurements of given deviation", lambda: p.measurements_from_reference(std_dev=0.1))
    else:
        raises("selection", p.sample_data, AttributeError)
        raises("nearest to measurements", p.get_closest_to_measurements, AttributeError)
        raises("map", lambda: p.mud_problem("wme"), AttributeError)
        raises("validation", p.validate, ValueError)


def ob_spatio_empty():
    p = SpatioTemporalProblem()
    for what in ("n_samples", "n_qoi", "n_sensors", "n_ts"):
        raises("size " + what, lambda: getattr(p, what), AttributeError)
    raises("selection", p.sample_data, AttributeError)
    raises("validation", p.validate, ValueError)
    raises("measurements", p.measurements_from_reference, AttributeError)
    raises("measurements", lambda: p.measurements_from_reference(std_dev=0.1), AttributeError)


def ob_files(name=["nowhere.pkl", "nowhere", "dir/nowhere.pkl", "nowhere.nc"]):
    assume(not exists(name))
    raises("no such file", lambda: SpatioTemporalProblem(name), FileNotFoundError)
    raises("no such file", lambda: SpatioTemporalProblem().load(name), FileNotFoundError)


def ob_nothing_to_fit():
    raises("neither samples nor bounds", lambda: U.fit_domain(), ValueError)
    raises("neither samples nor bounds", lambda: U.fit_domain(None, None, 0.2), ValueError)
    accepted("samples", lambda: U.fit_domain(arr("X", D("n"), D("k"))))
    accepted("bounds", lambda: U.fit_domain(min_max_bounds=arr("b", D("k"), 2)))


def ob_errors_before_solving():
    it = IterativeLinearProblem(arr("A", 1, 2), arr("b", 1, 1), arr("y", 1, 1))
    it.solve()
    accepted("solved", lambda: it.get_errors(arr("ref", 2)))
    accepted("solved", lambda: it.plot_chain_error(arr("ref", 2), Axes("ax")))


# -- lengths -------------------------------------------------------------------------------------------------------
def ob_weights_length(where=["constructor", "setter", "predicted"], form=["flat", "stacked", "list"], size=["longer", "shorter", "one", "other"]):
    n, k, m, j = D("n k m j")
    c = {"longer": n + 1, "shorter": n - 1, "one": 1, "other": j}[size]
    if size == "other":
        assume(j != n)
    w = posarr("w", c) if form == "flat" else posarr("w", 2, c) if form == "stacked" else [posarr("w", c), posarr("v", c)]
    X, y, dm = arr("X", n, k), arr("Y", n, m), domain(k)
    if where == "constructor":
        f = lambda: DensityProblem(X, y, dm, w)
    else:
        d = DensityProblem(X, y, dm)
        d.set_initial(Dist("init"))
        f = (lambda: d.set_weights(w)) if where == "setter" else (lambda: d.set_predicted(Dist("pred"), weights=w))
    raises("weights of other length", f, AssertionError, ValueError)


def ob_weights_fit(where=["constructor", "setter", "predicted"], form=["flat", "stacked", "list", "none"]):
    n, k, m = D("n k m")
    w = None if form == "none" else posarr("w", n) if form == "flat" else posarr("w", 2, n) if form == "stacked" else [posarr("w", n), posarr("v", n)]
    X, y, dm = arr("X", n, k), arr("Y", n, m), domain(k)
    if where == "constructor":
        accepted("weights", lambda: DensityProblem(X, y, dm, w))
    else:
        d = DensityProblem(X, y, dm)
        d.set_initial(Dist("init"))
        accepted("weights", (lambda: d.set_weights(w)) if where == "setter" else (lambda: d.set_predicted(Dist("pred"), weights=w)))


def ob_domain_length(cls=["density", "bayes"], size=["longer", "shorter", "one", "other"]):
    n, k, m, j = D("n k m j")
    c = {"longer": k + 1, "shorter": k - 1, "one": 1, "other": j}[size]
    if size == "other":
        assume(j != k)
    make = DensityProblem if cls == "density" else BayesProblem
    raises("domain of other dimension", lambda: make(arr("X", n, k), arr("Y", n, m), domain(c)), AssertionError, ValueError)
    accepted("domain", lambda: make(arr("X", n, k), arr("Y", n, m), domain(k)))


def ob_data_length(f=["class", "lin_prob", "mud_sol", "mud_sol_with_cov", "map_sol", "map_sol_with_cov"], size=["longer", "shorter", "other"]):
    d, p, j = D("d p j")
    c = {"longer": d + 1, "shorter": d - 1, "other": j}[size]
    if size == "other":
        assume(j != d)
    fun = LinearGaussianProblem if f == "class" else getattr(F, f)
    raises("data of other length", lambda: fun(arr("A", d, p), arr("b", d, 1), arr("y", c)), ValueError)
    raises("data of other length", lambda: fun(arr("A", d, p), arr("b", d, 1), arr("y", c, 1), arr("m", p)), ValueError)
    accepted("data", lambda: fun(arr("A", d, p), arr("b", d, 1), arr("y", d, 1)))


def ob_offset_length(f=["mud_sol", "map_sol"], size=["longer", "other"]):
    d, p, j = D("d p j")
    c = {"longer": d + 1, "other": j}[size]
    if size == "other":
        assume(j != d)
    raises("offset of other length", lambda: getattr(F, f)(arr("A", d, p), arr("b", c, 1), arr("y", d, 1)), *ANY)
    raises("mean of other length", lambda: getattr(F, f)(arr("A", d, p), arr("b", d, 1), arr("y", d, 1), mean=arr("m", p + 1, 1)), *ANY)
    raises("covariance of other size", lambda: getattr(F, f)(arr("A", d, p), arr("b", d, 1), arr("y", d, 1), cov=arr("S", p + 1, p + 1)), *ANY)


def ob_wme_length(size=["longer", "shorter", "one", "other"]):
    n, m, j = D("n m j")
    c = {"longer": m + 1, "shorter": m - 1, "one": 1, "other": j}[size]
    if size == "other":
        assume(j != m)
    for sd in (None, 0.1):
        raises("data of other length", lambda: F.wme(arr("q", n, m), arr("data", c), sd), ValueError)
    accepted("data", lambda: F.wme(arr("q", n, m), arr("data", m), 0.1))
    accepted("data", lambda: F.wme(arr("q", n, m), arr("data", m)))


def ob_transform_rejects(form=["function", "class"]):
    N, p, j = D("N p j")
    assume(j != N)
    f = (lambda A, y, s: U.transform_linear_map(A, y, s)) if form == "function" else (lambda A, y, s: LinearWMEProblem([A], [y], [s]))
    A, y = arr("A", N, p), arr("y", N)
    raises("other number of data", lambda: f(A, arr("y", j), 0.1), AssertionError, ValueError)
    raises("other number of deviations", lambda: f(A, y, posarr("s", j)), AssertionError, ValueError)
    raises("zero deviation", lambda: f(A, y, 0.0), AssertionError, ValueError)
    raises("negative deviation", lambda: f(A, y, -0.1), AssertionError, ValueError)
    raises("zero deviation, one row", lambda: f(arr("A", 1, p), y, 0.0), AssertionError, ValueError)
    raises("negative deviation, one row", lambda: f(arr("A", 1, p), y, -2.0), AssertionError, ValueError)
    raises("several deviations, one row", lambda: f(arr("A", 1, p), y, posarr("s", N)), AssertionError, ValueError)
    accepted("one deviation", lambda: f(A, y, 0.1))
    accepted("deviations", lambda: f(A, y, 1 + posarr("s", N)))
    accepted("one row", lambda: f(arr("A", 1, p), y, 0.1))


def ob_updated_cov_rejects():
    d, p, j = D("d p j")
    assume(j != d)
    assume(j != p)
    lp = LinearGaussianProblem(arr("A", d, p))
    for f in (F.updated_cov, lp.updated_cov):
        raises("initial covariance of other size", lambda: f(arr("A", d, p), arr("S", j, j)), AssertionError, ValueError)
        raises("data covariance of other size", lambda: f(arr("A", d, p), arr("S", p, p), arr("R", j, j)), AssertionError, ValueError)
        accepted("sizes", lambda: f(arr("A", d, p), arr("S", p, p), arr("R", d, d)))
    accepted("own", lp.updated_cov)


def ob_observation_counts(f=["mud_problem", "map_problem"], num=["zero", "negative", "one too many", "many too many"]):
    n, k, m, j = D("n k m j")
    c = {"zero": 0, "negative": 0 - j, "one too many": m + 1, "many too many": m + j}[num]
    raises("number of observations", lambda: getattr(F, f)(arr("X", n, k), arr("Y", n, m), arr("true", m), domain(k), num_obs=c), ValueError)
    raises("number of observations", lambda: getattr(F, f)(arr("X", n, k), arr("Y", n, m), arr("true", m), None, 0.1, c), ValueError)


def ob_observation_counts_valid(f=["mud_problem", "map_problem"], num=["one", "all", "none", "last but one"]):
    n, k, m = D("n k m")
    c = {"one": 1, "all": m, "none": None, "last but one": m - 1}[num]
    accepted("number of observations", lambda: getattr(F, f)(arr("X", n, k), arr("Y", n, m), arr("true", m), domain(k), num_obs=c))


def ob_component_data(f=["pca", "svd"]):
    n, k, j = D("n k j")
    fun = getattr(PP, f)
    raises("vector", lambda: fun(arr("v", n)), ValueError)
    raises("three axes", lambda: fun(arr("T", n, k, j)), ValueError)
    raises("number", lambda: fun(1.0), ValueError)
    accepted("two axes", lambda: fun(arr("X", n, k)))


def ob_spatio_lengths(what=["lam", "domain", "data", "measurements", "true_vals", "lam_ref"]):
    n, k, s, t, j = D("n k s t j")
    p = spatio(n, k, s, t)
    assume(j != k)
    bad = {"lam": arr("Z", n, j), "domain": domain(j), "data": arr("Z", n, s * t + 1), "measurements": arr("z", s * t + 1), "true_vals": arr("z", s * t + 1), "lam_ref": arr("z", j)}[what]
    good = {"lam": arr("X", n, k), "domain": domain(k), "data": arr("Z", n, s * t), "measurements": arr("z", s * t), "true_vals": arr("z", s * t), "lam_ref": arr("dom_lo", k) + posarr("dom_width", k) / 2}[what]
    before = frozen(getattr(p, what))
    raises("other size", lambda: setattr(p, what, bad), *ANY)
    check("kept", getattr(p, what), before)
    if what == "domain":  # the samples lie inside theirs only
        p = SpatioTemporalProblem()
    accepted("matching size", lambda: setattr(p, what, good))


def ob_data_weights(method=["wme", "pca", "svd"], size=["longer", "shorter", "one", "sensors"]):
    n, k, s, t = D("n k s t")
    p = spatio(n, k, s, t)
    c = {"longer": s * t + 1, "shorter": s * t - 1, "one": 1, "sensors": s}[size]
    raises("data weights of other length", lambda: p.mud_problem(method, arr("dw", c)), ValueError)
    accepted("data weights", lambda: p.mud_problem(method, arr("dw", s * t)))
    accepted("data weights", lambda: p.mud_problem(method, posarr("dw", 1, s * t)))


def ob_masks(what=["samples", "times", "sensors"]):
    n, k, s, t = 3, 2, 2, 4
    p = spatio(n, k, s, t)
    size = {"samples": n, "times": t, "sensors": s}[what]
    key = what + "_mask"
    for bad in ([size], [0, size], np.array([size + 2])):
        raises("selection out of range", lambda: p.sample_data(**{key: bad}), IndexError, ValueError)
        raises("selection out of range", lambda: p.mud_problem("wme", **{key: bad}), IndexError, ValueError)
        raises("selection out of range", lambda: p.get_closest_to_measurements(**{key: bad}), IndexError, ValueError)
    accepted("last", lambda: p.sample_data(**{key: [size - 1]}))
    accepted("nearest", lambda: p.get_closest_to_measurements(**{key: [size - 1, 0]}))


def ob_contour_rows(where=["method", "function"]):
    lp = LinearGaussianProblem(arr("A", 2, 2))
    f = (lambda rows: lp.plot_contours(arr("ref", 2), rows, Axes("ax"))) if where == "method" else (lambda rows: P.plot_contours(arr("A", 2, 2), arr("ref", 2), rows))
    raises("row out of range", lambda: f([2]), IndexError, ValueError)
    raises("row out of range", lambda: f([0, 5]), IndexError, ValueError)
    accepted("rows", lambda: f([1, 0]))
    accepted("row", lambda: f([1]))


def ob_iteration_rows():
    p = D("p")
    a = (arr("A", 2, p), arr("b", 2, 1), arr("y", 2, 1))
    raises("row out of range", lambda: IterativeLinearProblem(*a, idx_order=[2]).solve(), IndexError, ValueError)
    raises("row out of range", lambda: F.iter_lin_solve(*a, idx_order=[0, 3]), IndexError, ValueError)
    accepted("rows", lambda: IterativeLinearProblem(*a, idx_order=[1]).solve())


def message(f):
    try:
        f()
    except Exception as e:
        return str(e)
    return "no exception"


def ob_index_messages(a=[2, 3, 7], y=[2, 3, 5]):
    # the message is filled in
    n = D("n")
    d = DensityProblem(arr("X", n, 2), arr("Y", n, 2), domain(2))
    ax = Axes("ax")
    m = message(lambda: d.plot_params_2d(0, a, ax=ax))
    check("no placeholders", "{" in m, False)
    m = message(lambda: d.plot_params_2d(0, 1, y, ax=ax))
    check("no placeholders", "{" in m, False)


def ob_observation_counts_split(num=["zero", "one too many", "many too many"]):
    n, k, j = D("n k j")
    c = {"zero": 0, "one too many": 4, "many too many": 4 + j}[num]
    sp = [np.array([0, 1]), np.array([2])]
    raises("number of observations", lambda: getattr(F, "mud_problem")(arr("X", n, k), arr("Y", n, 3), arr("true", 3), domain(k), num_obs=c, split=sp), ValueError)
