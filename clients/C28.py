JUDGE_RAISES = False


def axes(where):
    # a figure of the user's is current all along
    return Axes("given") if where == "given" else None


def only(ax, *before):
    check("drawn elsewhere", astray(ax), [])
    if ax is not None:
        check("current axes", current_axes(), before[0])


def density(n, p, q, w=None, fitted=False):
    d = DensityProblem(arr("X", n, p), arr("Y", n, q), domain(p), weights=w)
    if fitted:
        d.estimate()
    else:
        d.set_initial(Dist("I"))
        d.set_observed(Dist("O"))
    return d


def ob_density_parameters(where=["given", "none"], opts=["default", "all", "none"], weights=[0, 1], fitted=[0, 1], x_range=[0, 1]):
    n, p, q = D("n"), 2, D("q")
    d = density(n, p, q, posarr("w", n) if weights else None, fitted)
    ax, c = axes(where), current_axes()
    kw = {"x_range": domain(p, "range")} if x_range else {}
    if opts == "default":
        d.plot_param_space(0, None, ax, aff=3, **kw)
    elif opts == "all":
        d.plot_param_space(1, arr("t", p), ax, ylim=positive("top"), aff=3, win_opts={"color": "y"}, true_opts={"color": "c"}, **kw)
    else:
        d.plot_param_space(0, ax=ax, aff=3, in_opts=None, up_opts=None, mud_opts=None, true_opts=None, **kw)
    only(ax, c)


def ob_density_outputs(where=["given", "none"], opts=["default", "none", "own"], weights=[0, 1], fitted=[0, 1]):
    n, p, q = D("n"), D("p"), 2
    d = density(n, p, q, posarr("w", n) if weights else None, fitted)
    ax, c = axes(where), current_axes()
    if opts == "default":
        d.plot_obs_space(1, ax, domain(q, "range"), 3)
    elif opts == "own":
        d.set_predicted(Dist("P"))
        d.plot_obs_space(0, ax, aff=3)
    else:
        d.plot_obs_space(0, ax=ax, aff=3, ob_opts=None, pr_opts=None, pf_opts=None)
    only(ax, c)


def ob_density_scatter(where=["given", "none"], colorbar=["default", True, False], contours=[False, True], label=[True, False], own=[0, 1]):
    n, p, q = D("n p q")
    d = density(n, p, q)
    ax, c = axes(where), current_axes()
    kw = {} if colorbar == "default" else {"colorbar": colorbar}
    if own:
        kw["c"] = arr("own", n)
    d.plot_params_2d(0, 1, 0, contours=contours, ax=ax, label=label, **kw)
    only(ax, c)


def ob_density_qoi(where=["given", "none"]):
    n, p, q = D("n p q")
    d = density(n, p, q)
    ax, c = axes(where), current_axes()
    d.plot_qoi(0, 1, ax, s=3)
    only(ax, c)


def ob_bayes_parameters(where=["given", "none"], opts=["default", "all", "none"], log=[False, True]):
    n, p, q = D("n"), 2, D("q")
    d = BayesProblem(arr("X", n, p), arr("Y", n, q), domain(p))
    d.set_likelihood(Dist("L"), log=log)
    ax, c = axes(where), current_axes()
    if opts == "default":
        d.plot_param_space(0, ax, aff=3)
    elif opts == "all":
        d.plot_param_space(1, ax, domain(p, "range"), 3, true_val=arr("t", p))
    else:
        d.plot_param_space(0, ax, aff=3, pr_opts=None, ps_opts=None, map_opts=None, true_opts=None)
    only(ax, c)


def ob_bayes_outputs(where=["given", "none"], opts=["default", "range", "none"], log=[False, True]):
    n, p, q = D("n"), D("p"), 2
    d = BayesProblem(arr("X", n, p), arr("Y", n, q), domain(p))
    d.set_likelihood(Dist("L"), log=log)
    d.fit()
    ax, c = axes(where), current_axes()
    if opts == "default":
        d.plot_obs_space(0, ax, aff=3)
    elif opts == "range":
        d.plot_obs_space(1, ax, domain(q, "range"), 3)
    else:
        d.plot_obs_space(0, ax, aff=3, ll_opts=None, pf_opts=None)
    only(ax, c)


def linear(m):
    return LinearGaussianProblem(arr("A", m, 2), arr("b", m, 1), arr("y", m, 1), arr("mu", 2, 1))


def ob_linear_solution(where=["given", "none"], point=["mud", "map", "ls", "mud_alt", "initial"], label=[0, 1, 2], line=[0, 1]):
    lp = linear(D("m"))
    ax, c = axes(where), current_axes()
    kw = {} if line else {"ln_opts": None}
    if label == 0:
        lp.plot_sol(point, ax, **kw)
    elif label == 1:
        lp.plot_sol(point, ax, "here", **kw)
    else:
        lp.plot_sol(point, ax, "here", (0.25, 0.5), **kw)
    only(ax, c)


def ob_linear_contours(where=["given", "none"], m=[1, 3], annotate=[False, True], ref=[0, 1], subset=[0, 1]):
    lp = linear(m)
    ax, c = axes(where), current_axes()
    lp.plot_contours(arr("r", 2, 1) if ref else None, [m - 1] if subset else None, ax, annotate, (0.25, 0.5) if subset else None)
    only(ax, c)


def ob_linear_functionals(where=["given", "none"], terms=["dc", "bayes", "data"], mesh=[0, 1]):
    lp = linear(2)
    ax, c = axes(where), current_axes()
    if mesh:
        lp.plot_fun_contours(arr("mesh", 9, 2), terms, ax, 3)
    else:
        lp.plot_fun_contours(terms=terms, ax=ax, N=3, r=2, levels=4)
    only(ax, c)


def iterative():
    return IterativeLinearProblem(arr("A", 2, 2), arr("b", 2, 1), arr("y", 2, 1), arr("mu", 2, 1))


def ob_chain(where=["given", "none"], epochs=[1, 2], annotate=[0, 1]):
    ip = iterative()
    ip.solve(epochs)
    ax, c = axes(where), current_axes()
    if annotate:
        ip.plot_chain(arr("r", 2, 1), ax, "g", 5, annotate=True, w=2)
    else:
        ip.plot_chain(arr("r", 2, 1), ax)
    only(ax, c)


def ob_chain_error(where=["given", "none"], label=[0, 1]):
    ip = iterative()
    ip.solve()
    ax, c = axes(where), current_axes()
    if label:
        ip.plot_chain_error(arr("r", 2, 1), ax, 0.5, "g", "errors")
    else:
        ip.plot_chain_error(arr("r", 2, 1), ax=ax)
    only(ax, c)


def series():
    n, k, s, t = D("n k s t")
    p = SpatioTemporalProblem()
    p.sensors, p.times = arr("sensors", s, 2), arr("times", t)
    p.lam, p.data, p.measurements = arr("X", n, k), arr("Y", n, s * t), arr("meas", s * t)
    return p


def ob_sensors_contour(where=["given", "none"], fill=[True, False], colorbar=[True, False, "default"], vals=[0, 1], mask=[0, 1]):
    p = series()
    ax, c = axes(where), current_axes()
    kw = {} if colorbar == "default" else {"colorbar": colorbar}
    h = D("h")
    kw["c_vals"] = arr("c", h if mask else D("s"))
    if vals:
        kw["levels"] = 5
    p.sensor_contour_plot(0, ax=ax, mask=indices("m", h, D("s")) if mask else None, fill=fill, **kw)
    only(ax, c)


def ob_sensors_scatter(where=["given", "none"], colorbar=[True, False, None, "default"], colours=[0, 1], mask=[0, 1]):
    p = series()
    ax, c = axes(where), current_axes()
    h = D("h")
    kw = {} if colorbar == "default" else {"colorbar": colorbar}
    if colours:
        kw["c"] = arr("c", h if mask else D("s"))
    p.sensor_scatter_plot(ax, mask=indices("m", h, D("s")) if mask else None, **kw)
    only(ax, c)


def ob_time_series(where=["given", "none"], masks=[0, 1], max_plot=[1, 2]):
    p = series()
    ax, c = axes(where), current_axes()
    if masks:
        p.plot_ts(ax, indices("a", D("h"), D("n")), indices("b", D("g"), D("t")), 1, max_plot, {"color": "y"}, {"color": "c"})
    else:
        p.plot_ts(ax=ax, max_plot=max_plot)
    only(ax, c)


def ob_vectors(where=["given", "none"], markers=[0, 1], label=[True, False]):
    ax, c = axes(where), current_axes()
    P.plot_1D_vecs([arr("u", 3), arr("v", 3)], ["o", "x"] if markers else None, ax, label)
    only(ax, c)


def ob_distribution(where=["given", "none"], source=["pdf", "kde"], p=[1, 2], idx=[0, -1]):
    ax, c = axes(where), current_axes()
    d = Dist("d") if source == "pdf" else kde(arr("X", D("n"), p), posarr("w", D("n")))
    P.plot_dist(d, domain(p), ax, idx, source, 3, color="g")
    only(ax, c)


def ob_vertical_line(ylim=[0, 1]):
    ax, c = Axes("given"), current_axes()
    if ylim:
        P.plot_vert_line(ax, real("x"), positive("top"), color="g")
    else:
        P.plot_vert_line(ax, real("x"))
    only(ax, c)


def ob_two_figures():
    # two plots on two axes: each stays on its own
    n, q = D("n q")
    d = density(n, 2, q)
    a, b = Axes("first"), Axes("second")
    d.plot_params_2d(0, 1, 0, ax=a)
    m = len(points(a)), len(points(b))
    d.plot_qoi(0, 1, b)
    check("markers", (m, len(points(a)), len(points(b)), bars(a), bars(b)), ((1, 0), 1, 1, 1, 0))
