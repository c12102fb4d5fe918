# Queries, solvers and plots leave a problem as it was
JUDGE_RAISES = False


# -- density ---------------------------------------------------------------------------------------------
def shape_of(d):
    return (d.n_params, d.n_features, d.n_samples)


def density_state(d):
    return (frozen(d.X), frozen(d.y), frozen(d.domain), shape_of(d), frozen(getattr(d, "_weights", None)))


def density_results(d, later, tag):
    n = d.n_samples
    if later == "estimate":
        return (d.estimate(), d.mud_point())
    if later == "ratio":
        return d.expected_ratio()
    if later == "fit":
        d.fit()
        return (d.mud_point(), d.expected_ratio())
    if later == "new observed":
        d.set_observed(Dist("obs2"))
        return (d.estimate(), d.expected_ratio())
    if later == "new initial":
        d.set_initial(Dist("init2"))
        return (d.estimate(), d.expected_ratio())
    if later == "default initial":
        d.set_initial()
        return (d.estimate(), d.expected_ratio())
    if later == "new predicted":
        d.set_predicted(Joint("pred2"))
        return (d.estimate(), d.expected_ratio())
    if later == "default predicted":
        d.set_predicted()
        return (d.estimate(), d.expected_ratio())
    if later == "new weights":
        d.set_weights(posarr("w2", n))
        return (d.estimate(), d.expected_ratio())
    if later == "plot":
        ax, bx, cx = Axes(tag + "a"), Axes(tag + "b"), Axes(tag + "c")
        d.plot_param_space(1, ax=ax, aff=5, in_opts={"label": "i"}, up_opts={"label": "u"}, win_opts={"label": "w"})
        d.plot_obs_space(0, ax=bx, aff=5, ob_opts={"label": "o"}, pr_opts={"label": "p"}, pf_opts={"label": "f"})
        d.plot_params_2d(0, 1, 0, ax=cx)
        return [curves(ax, v) for v in ("i", "u", "w")] + [curves(bx, v) for v in ("o", "p", "f")] + [points(cx), colours(cx)]


def density_observer(d, obs, ax):
    if obs == "estimate":
        d.estimate()
    elif obs == "mud_point":
        d.estimate()
        d.mud_point()
    elif obs == "ratio":
        d.expected_ratio()
    elif obs == "param":
        d.plot_param_space(1, arr("t", 2), ax, arr("r", 2, 2), aff=5, in_opts={"color": "r"}, win_opts={"color": "k"}, mud_opts={"color": "b"})
    elif obs == "param defaults":
        d.plot_param_space(ax=ax, aff=5)
    elif obs == "obs":
        d.plot_obs_space(0, ax, arr("r", 2, 2), 5, {"color": "r"}, {"color": "b"}, {"color": "g"})
    elif obs == "obs defaults":
        d.plot_obs_space(ax=ax, aff=5)
    elif obs == "qoi":
        d.plot_qoi(0, 1, ax)
    elif obs == "2d":
        d.plot_params_2d(0, 1, 0, True, True, ax)


def ob_density_inputs(obs=["estimate", "mud_point", "ratio", "param", "param defaults", "obs", "obs defaults", "qoi", "2d"], w=["none", "flat", "stacked"], dists=["default", "given"]):
    n = D("n")
    d, e = density2(w, dists), density2(w, dists)
    if w != "none" or dists == "default":
        assume(np.sum(posarr("w", n)) != 0)
    if obs in ("param", "param defaults", "obs", "obs defaults", "qoi", "2d"):
        d.estimate()
    before, shared = density_state(d), defaults()
    density_observer(d, obs, Axes("ax"))
    density_observer(d, obs, Axes("bx"))
    check("inputs", density_state(d), before)
    check("shared defaults", defaults(), shared)


def density2(w, dists):
    """two outputs, so that every plot applies"""
    n = D("n")
    d = DensityProblem(arr("X", n, 2), arr("Y", n, 2), domain(2))
    if w == "flat":
        d.set_weights(posarr("w", n))
    elif w == "stacked":
        d.set_weights([posarr("w", n), posarr("v", n)], normalize=True)
    if dists == "given":
        d.set_initial(Dist("init"))
        d.set_observed(Dist("obs"))
        d.set_predicted(Dist("pred"))
    elif dists == "some":
        d.set_observed(Dist("obs"))
        d.set_initial(Dist("init"))
    return d


LATER = ["estimate", "ratio", "fit", "new observed", "new initial", "default initial", "new predicted", "default predicted", "new weights", "plot"]


def ob_density_later(
    obs=["estimate", "mud_point", "ratio", "param", "param defaults", "obs", "obs defaults", "qoi", "2d"],
    later=["estimate", "ratio", "fit", "new observed", "new initial", "default initial", "new predicted", "default predicted", "new weights", "plot"],
    dists=["given", "some"],
    w=["none", "flat"],
):
    n = D("n")
    if w == "flat":
        assume(np.sum(posarr("w", n)) != 0)
    d, e = density2(w, dists), density2(w, dists)
    if obs in ("param", "param defaults", "obs", "obs defaults", "qoi", "2d"):
        d.estimate()
        if later == "plot":
            e.estimate()
    elif later == "plot":
        e.estimate()
    density_observer(d, obs, Axes("ax"))
    check("result of " + later, density_results(d, later, "p"), density_results(e, later, "q"))


def ob_density_repeated(obs=["estimate", "ratio"], dists=["default", "given", "some"]):
    d = density2("none", dists)
    first = d.estimate() if obs == "estimate" else d.expected_ratio()
    check("second", d.estimate() if obs == "estimate" else d.expected_ratio(), first)
    d.estimate()
    d.expected_ratio()
    check("third", d.estimate() if obs == "estimate" else d.expected_ratio(), first)


# -- Bayes ---------------------------------------------------------------------------------------------------
def bayes(prior, log):
    n = D("n")
    b = BayesProblem(arr("X", n, 2), arr("Y", n, 2), domain(2))
    b.set_likelihood(Dist("ll"), log=log)
    if prior == "given":
        b.set_prior(Dist("pr"))
    return b


def bayes_observer(b, obs, ax):
    if obs == "estimate":
        b.estimate()
    elif obs == "map_point":
        b.estimate()
        b.map_point()
    elif obs == "param":
        b.plot_param_space(1, ax, arr("r", 2, 2), 5, {"color": "r"}, {"color": "b"}, {"color": "g"}, {"color": "k"}, arr("t", 2))
    elif obs == "param defaults":
        b.plot_param_space(ax=ax, aff=5)
    elif obs == "obs":
        b.plot_obs_space(0, ax, arr("r", 2, 2), 5, {"color": "r"}, {"color": "b"})
    elif obs == "obs defaults":
        b.plot_obs_space(ax=ax, aff=5)


def bayes_results(b, later, tag):
    if later == "estimate":
        return b.estimate()
    if later == "fit":
        b.fit()
        return b.map_point()
    if later == "new likelihood":
        b.set_likelihood(Dist("ll2"))
        return b.estimate()
    if later == "new log likelihood":
        b.set_likelihood(Dist("ll2"), log=True)
        return b.estimate()
    if later == "new prior":
        b.set_prior(Dist("pr2"))
        return b.estimate()
    if later == "default prior":
        b.set_prior()
        return b.estimate()
    if later == "plot":
        ax, bx = Axes(tag + "a"), Axes(tag + "b")
        b.plot_param_space(1, ax=ax, aff=5, pr_opts={"label": "p"}, ps_opts={"label": "q"})
        b.plot_obs_space(0, ax=bx, aff=5, ll_opts={"label": "l"}, pf_opts={"label": "f"})
        return [curves(ax, v) for v in ("p", "q")] + [curves(bx, v) for v in ("l", "f")]


def ob_bayes(
    obs=["estimate", "map_point", "param", "param defaults", "obs", "obs defaults"],
    later=["inputs", "estimate", "fit", "new likelihood", "new log likelihood", "new prior", "default prior", "plot"],
    prior=["default", "given"],
    log=[0, 1],
):
    b, e = bayes(prior, bool(log)), bayes(prior, bool(log))
    if obs in ("param", "param defaults", "obs", "obs defaults") or later == "plot":
        b.estimate()
        e.estimate()
    before, shared = (frozen(b.X), frozen(b.y), frozen(b.domain), shape_of(b)), defaults()
    bayes_observer(b, obs, Axes("ax"))
    if later == "inputs":
        bayes_observer(b, obs, Axes("bx"))
        check("inputs", (frozen(b.X), frozen(b.y), frozen(b.domain), shape_of(b)), before)
        check("shared defaults", defaults(), shared)
    else:
        check("result of " + later, bayes_results(b, later, "p"), bayes_results(e, later, "q"))


# -- linear ----------------------------------------------------------------------------------------------------
def linear(cls, p, d=3, rows=2):
    a = dict(A=arr("A", d, p), b=arr("b", d, 1), y=arr("y", d, 1), mean_i=arr("m", p, 1), cov_i=arr("S", p, p), cov_o=arr("R", d, d), alpha=positive("alpha"))
    if cls == "linear":
        return LinearGaussianProblem(**a)
    if cls == "wme" and rows == 1:
        return LinearWMEProblem([arr("A", d, p)], [arr("yA", d)], [1], mean_i=arr("m", p, 1), cov_i=arr("S", p, p), alpha=positive("alpha"))
    if cls == "wme":
        return LinearWMEProblem([arr("A", d, p), arr("B", 2, p)], [arr("yA", d), arr("yB", 2)], [1, 2], mean_i=arr("m", p, 1), cov_i=arr("S", p, p), alpha=positive("alpha"))
    a.pop("alpha")
    return IterativeLinearProblem(a["A"], a["b"], a["y"], a["mean_i"], a["cov_i"], a["cov_o"], [2, 0])


def linear_inputs(lp):
    return [frozen(lp.A), frozen(lp.b), frozen(lp.y), frozen(lp.mean_i), frozen(lp.cov_i), frozen(lp.cov_o), lp.alpha, shape_of(lp)]


def linear_observer(lp, obs, ax, p):
    if obs in ("mud", "mud_alt", "map", "ls", "all"):
        lp.solve(obs)
    elif obs == "reduced":
        lp.solve("mud", output_dim=1)
        lp.solve("map", output_dim=1)
    elif obs == "cov":
        lp.updated_cov()
    elif obs == "other cov":
        lp.updated_cov(arr("A2", D("d"), p), arr("S2", p, p), arr("R2", D("d"), D("d")))
    elif obs == "functionals":
        for t in ("all", "data", "reg", "dc_term", "reg_m", "bayes", "dc"):
            lp.compute_functionals(arr("Z", D("n"), p), t)
    elif obs == "sol":
        lp.plot_sol("mud", ax, label="x", note_loc=[0, 1], pt_opts={"color": "r"}, ln_opts={"lw": 3}, annotate_opts={"fontsize": 1})
    elif obs == "sol initial":
        lp.plot_sol("initial", ax)
    elif obs == "contours":
        lp.plot_contours(ax=ax, annotate=True)
    elif obs == "contours given":
        lp.plot_contours(arr("ref", 2), [1, 0], ax, True, [0, 1], 2, "row {i}", {"color": "r"}, {"fontsize": 1})
    elif obs == "fun contours":
        lp.plot_fun_contours(ax=ax, N=3)
    elif obs == "fun contours given":
        lp.plot_fun_contours(arr("mesh", 9, 2), "bayes", ax, 3, levels=3)


def linear_results(lp, later, p, tag):
    if later in ("mud", "mud_alt", "map", "ls"):
        return lp.solve(later)
    if later == "all":
        return lp.solve("all")
    if later == "cov":
        return lp.updated_cov()
    if later == "functionals":
        return lp.compute_functionals(arr("Z", D("n"), p))
    if later == "reduced":
        return lp.solve("mud", output_dim=1)
    ax = Axes(tag)
    if later == "sol":
        lp.plot_sol("map", ax)
    else:
        lp.plot_contours(arr("ref", 2), ax=ax, annotate=True)
    return (points(ax), curves(ax), notes(ax))


def ob_linear(
    cls=["linear", "wme"],
    obs=["mud", "mud_alt", "map", "ls", "all", "reduced", "cov", "other cov", "functionals"],
    later=["inputs", "mud", "mud_alt", "map", "ls", "all", "cov", "functionals", "reduced"],
):
    d, p = D("d p")
    rows = 1 if cls == "wme" and (obs in ("mud_alt", "all", "cov", "other cov") or later in ("mud_alt", "all", "cov")) else 2
    if rows == 1 and "reduced" in (obs, later):
        return check("one row cannot be reduced", 1, 1)
    lp, e = linear(cls, p, d, rows), linear(cls, p, d, rows)
    before, shared = linear_inputs(lp), defaults()
    linear_observer(lp, obs, None, p)
    if later == "inputs":
        linear_observer(lp, obs, None, p)
        check("inputs", linear_inputs(lp), before)
        check("shared defaults", defaults(), shared)
    else:
        check("result of " + later, linear_results(lp, later, p, "p"), linear_results(e, later, p, "q"))


def ob_linear_plots(
    cls=["linear", "iterative"],
    obs=["sol", "sol initial", "contours", "contours given", "fun contours", "fun contours given"],
    later=["inputs", "mud", "map", "ls", "functionals", "reduced", "sol", "contours"],
):
    if cls == "iterative" and (later not in ("inputs", "functionals", "contours") or obs[:3] == "sol"):
        return check("solving an iterative problem is not a query", 1, 1)
    p = 2
    lp, e = linear(cls, p), linear(cls, p)
    before, shared = linear_inputs(lp), defaults()
    linear_observer(lp, obs, Axes("ax"), p)
    if later == "inputs":
        linear_observer(lp, obs, Axes("bx"), p)
        check("inputs", linear_inputs(lp), before)
        check("shared defaults", defaults(), shared)
    else:
        check("result of " + later, linear_results(lp, later, p, "p"), linear_results(e, later, p, "q"))


# -- iterative ---------------------------------------------------------------------------------------------------
def iterative(order):
    return IterativeLinearProblem(arr("A", 2, 2), arr("b", 2, 1), arr("y", 2, 1), idx_order=order)


def ob_iterative(obs=["errors", "other errors", "chain", "chain error"], order=["none", "reversed"]):
    o = None if order == "none" else [1, 0]
    p, e = iterative(o), iterative(o)
    a, b = p.solve(), e.solve()
    before, shared, chains = linear_inputs(p), defaults(), frozen(p.solution_chains)
    for i in range(2):
        if obs == "errors":
            p.get_errors(arr("ref", 2))
        elif obs == "other errors":
            p.get_errors(arr("ref", 2, 1))
        elif obs == "chain":
            p.plot_chain(arr("ref", 2), Axes("ax"), annotate=True)
        else:
            p.plot_chain_error(arr("ref", 2), Axes("ax"))
    check("inputs", linear_inputs(p), before)
    check("shared defaults", defaults(), shared)
    check("recorded solutions", p.solution_chains, chains)
    check("recorded solutions", p.solution_chains, e.solution_chains)
    check("errors", p.get_errors(arr("other", 2)), e.get_errors(arr("other", 2)))


def ob_solving_keeps_inputs(method=["mud", "map", "ls"], epochs=[1, 2]):
    p = IterativeLinearProblem(arr("A", 1, 2), arr("b", 1, 1), arr("y", 1, 1), arr("m", 2, 1), arr("S", 2, 2), arr("R", 1, 1)) if epochs == 2 else iterative(None)
    before = linear_inputs(p)
    p.solve(epochs, method)
    after = linear_inputs(p)
    check("inputs", after, before)


# -- spatio-temporal ---------------------------------------------------------------------------------------------
def spatio(n, k, s, t):
    lo, w = arr("dom_lo", k), posarr("dom_width", k)
    ds = {"domain": domain(k), "sensors": arr("sensors", s, 2), "times": arr("times", t), "lam": arr("X", n, k), "data": arr("Y", n, s * t),
          "lam_ref": lo + w / 2, "std_dev": positive("sd"), "true_vals": arr("true", s * t), "measurements": arr("meas", s * t), "sample_dist": "u"}
    p = SpatioTemporalProblem(ds)
    if not hasattr(p, "lam_ref"):
        p.lam_ref = lo + w / 2
    return p


def spatio_state(p):
    return [frozen(v) for v in (p.lam, p.data, p.domain, p.measurements, p.true_vals, p.lam_ref, p.sample_dist, p.sensors, p.times, p.std_dev)] + [p.n_samples, p.n_sensors, p.n_ts, p.n_params]


def spatio_observer(p, obs, n, k, s, t):
    h, g = D("h g")
    if obs == "selection":
        p.sample_data(indices("a", h, n), indices("b", g, t), indices("c", h, s))
    elif obs == "half selection":
        p.sample_data(samples_mask=indices("a", h, n))
        p.sample_data(times_mask=indices("a", h, t))
        p.sample_data(sensors_mask=indices("a", h, s))
    elif obs == "whole selection":
        p.sample_data()
    elif obs == "closest":
        p.get_closest_to_measurements()
        p.get_closest_to_true_vals()
    elif obs == "closest selected":
        p.get_closest_to_measurements(indices("a", h, n), indices("b", g, t), indices("c", h, s))
    elif obs in ("wme", "pca", "svd"):
        d = p.mud_problem(method=obs)
        d.set_observed(Dist("ob"))
        d.estimate()
    elif obs == "selected map":
        p.mud_problem("wme", arr("dw", h * g), posarr("w", h), 1, indices("a", h, n), indices("b", g, t), indices("c", h, s))
    elif obs == "series":
        p.plot_ts(Axes("ax"), max_plot=2)
    elif obs == "selected series":
        p.plot_ts(Axes("ax"), indices("a", h, n), indices("b", g, t), max_plot=2)
    elif obs == "contours":
        p.sensor_contour_plot(0, arr("c", s), Axes("ax"), None, True, True, levels=3)
    elif obs == "scatter":
        p.sensor_scatter_plot(Axes("ax"), None, True, c=arr("c", s))


def spatio_results(p, later, n, k, s, t):
    h, g = D("h g")
    if later == "selection":
        return p.sample_data(indices("a", h, n), indices("b", g, t), indices("c", h, s))
    if later == "whole selection":
        return p.sample_data()
    if later == "closest":
        return (p.get_closest_to_measurements(), p.get_closest_to_true_vals())
    d = p.mud_problem(method=later)
    d.set_observed(Dist("ob"))
    return (d.y, d.estimate())


def ob_spatio(
    obs=["selection", "half selection", "whole selection", "closest", "closest selected", "wme", "pca", "svd", "selected map", "series", "selected series", "contours", "scatter"],
    later=["inputs", "selection", "whole selection", "closest", "wme", "pca", "svd"],
):
    n, k, s, t = D("n k s t")
    p, e = spatio(n, k, s, t), spatio(n, k, s, t)
    before, shared = spatio_state(p), defaults()
    spatio_observer(p, obs, n, k, s, t)
    if later == "inputs":
        spatio_observer(p, obs, n, k, s, t)
        check("inputs", spatio_state(p), before)
        check("shared defaults", defaults(), shared)
    else:
        check("result of " + later, spatio_results(p, later, n, k, s, t), spatio_results(e, later, n, k, s, t))
