# Plots of samples, sensors, time series and vectors show what was asked for


def sensors_problem(n, s, t):
    p = SpatioTemporalProblem()
    p.sensors, p.times = arr("sensors", s, 2), arr("times", t)
    p.lam, p.data, p.measurements = arr("X", n, 2), arr("Y", n, s * t), arr("meas", s * t)
    return p


def ob_sensor_contours(fill=[True, False, "default"], vals=["given", "sample", "default"], mask=[0, 1], colorbar=[True, False, "default"], opts=[0, 1]):
    n, s, h = D("n s h")
    p = sensors_problem(n, s, 1)
    ax = Axes("ax")
    kw = {}
    m = None
    xy, Y = arr("sensors", s, 2), arr("Y", n, s)
    if mask:
        m = kw["mask"] = indices("m", h, s)
        xy, Y = xy[m, :], Y[:, m]
    z = Y[0, :]
    if vals == "given":
        z = kw["c_vals"] = arr("c", h if mask else s)
    elif vals == "sample":
        k = indices("k", 1, n)[0]
        kw["idx"] = k
        z = Y[k, :]
    if fill != "default":
        kw["fill"] = fill
    if colorbar != "default":
        kw["colorbar"] = colorbar
    if opts:
        kw["levels"] = 7
    r = p.sensor_contour_plot(ax=ax, **kw)
    check("one plot", len(surfaces(ax)), 1)
    kind, x, y, v = surfaces(ax)[0]
    check("kind", kind, "tricontour" if fill is False else "tricontourf")
    check("sensors", (x, y), (xy[:, 0], xy[:, 1]))
    check("values", v, z)
    check("options", option(ax, kind, "levels"), [7 if opts else None])
    check("colour bar", bars(ax), 0 if colorbar is False else 1)
    check("no markers or lines", (len(points(ax)), len(curves(ax))), (0, 0))


def ob_sensor_markers(mask=[0, 1], colours_given=[0, 1], colorbar=[True, False, None, "default"], opts=[0, 1]):
    n, s, h = D("n s h")
    p = sensors_problem(n, s, D("t"))
    ax = Axes("ax")
    kw = {}
    xy = arr("sensors", s, 2)
    if mask:
        kw["mask"] = indices("m", h, s)
        xy = xy[kw["mask"], :]
    if colours_given:
        kw["c"] = arr("c", h if mask else s)
    if colorbar != "default":
        kw["colorbar"] = colorbar
    if opts:
        kw["s"] = 7
        kw["label"] = "here"
    p.sensor_scatter_plot(ax=ax, **kw)
    check("points", points(ax), [(xy[:, 0], xy[:, 1])])
    check("colours", colours(ax), [arr("c", h if mask else s) if colours_given else None])
    check("options", (option(ax, "scatter", "s"), option(ax, "scatter", "label")), ([7], ["here"]) if opts else ([None], [None]))
    check("colour bar", bars(ax), 1 if colorbar is True and colours_given else 0)


def ob_time_series(samples=[0, 1], times=[0, 1], sensor=[0, 1, 2], max_plot=[1, 2, 3]):
    # every sample reads the same, so the sample drawn at random does not matter
    n, t, g = D("n t g")
    h = 3
    p = SpatioTemporalProblem()
    p.sensors, p.times = arr("sensors", 3, 2), arr("times", t)
    p.lam = arr("X", n if samples else 5, 2)
    one = arr("series", 3 * t)
    p.data = np.ones((n if samples else 5, 1)) * one
    p.measurements = arr("meas", 3 * t)
    ax = Axes("ax")
    kw = {}
    T, S, M = arr("times", t), one.reshape(3, t)[sensor, :], arr("meas", 3 * t).reshape(3, t)[sensor, :]
    if samples:
        kw["samples"] = indices("a", h, n)
    if times:
        b = kw["times"] = indices("b", g, t)
        T, S, M = T[b], S[b], M[b]
    p.plot_ts(ax, sensor_idx=sensor, max_plot=max_plot, **kw)
    check("measurements", points(ax), [(T, M)])
    check("measurement label", option(ax, "scatter", "label"), ["$\\zeta_{obs}$"])
    ls = curves(ax)
    check("series drawn", len(ls), max_plot)
    for x, y in ls:
        check("times", x, T)
        check("series", y, S)
    check("labelled series", [x for x in option(ax, "plot", "label") if x is not None], ["Sensor %d" % sensor])


def ob_time_series_drawn(n=[3, 4, "n"], max_plot=[1, 2, 3], samples=[0, 1], sensor=[0, 1]):
    # fewer series than samples: the ones drawn at random
    n, t = D(n), D("t")
    p = sensors_problem(n, 2, t)
    if samples or max_plot < 3 or n == 4:
        k = indices("k", 4, n) if samples else None
        ax = Axes("ax")
        np.random.seed(5)
        p.plot_ts(ax, k, None, sensor, max_plot)
        np.random.seed(5)
        rows = np.random.choice(4 if samples else n, max_plot)
        Y = arr("Y", n, 2 * t)
        Y = Y[k] if samples else Y
        check("series", curves(ax), [(arr("times", t), Y[r, :].reshape(2, t)[sensor, :]) for r in rows])


def ob_time_series_default_sensor(max_plot=["default", 10, 4]):
    t = D("t")
    p = SpatioTemporalProblem()
    p.sensors, p.times = arr("sensors", 2, 2), arr("times", t)
    p.lam = arr("X", 4, 2)
    one = arr("series", 2 * t)
    p.data = np.ones((4, 1)) * one
    p.measurements = arr("meas", 2 * t)
    ax = Axes("ax")
    if max_plot == "default":
        p.plot_ts(ax)
    else:
        p.plot_ts(ax, max_plot=max_plot)
    check("series drawn", len(curves(ax)), 4)
    for x, y in curves(ax):
        check("series", (x, y), (arr("times", t), one.reshape(2, t)[0, :]))
    check("measurements", points(ax), [(arr("times", t), arr("meas", 2 * t).reshape(2, t)[0, :])])


def ob_time_series_samples(which=[0, 1], sensor=[0, 1]):
    # one chosen sample: every curve is its series at the chosen sensor
    n, t = D("n t")
    p = sensors_problem(n, 2, t)
    ax = Axes("ax")
    k = indices("k", 1, n) if which else np.array([0])
    p.plot_ts(ax, k, None, sensor, 1)
    Y = arr("Y", n, 2 * t)
    check("series", curves(ax), [(arr("times", t), Y[k[0], :].reshape(2, t)[sensor, :])])


def ob_time_series_options(who=["meas", "samples"]):
    n, t = D("n t")
    p = sensors_problem(5, 2, t)
    ax = Axes("ax")
    if who == "meas":
        p.plot_ts(ax, max_plot=2, meas_kwargs={"color": "y", "s": 9})
        check("measurement options", (option(ax, "scatter", "color"), option(ax, "scatter", "s"), option(ax, "scatter", "marker")), (["y"], [9], ["^"]))
    else:
        p.plot_ts(ax, max_plot=3, samples_kwargs={"color": "c"})
        check("sample options", option(ax, "plot", "color")[:2], ["c", "c"])


def ob_vectors(k=[1, 2, 3], markers=[0, 1], label=[True, False, "default"], opts=[0, 1]):
    ax = Axes("ax")
    size = [3, 4, 2][:k]
    vs = [arr("v%d" % i, size[i]) for i in range(k)]
    kw = {"s": 4} if opts else {}
    if label != "default":
        kw["label"] = label
    mk = ["o", "x", "+"]
    if markers:
        kw["markers"] = mk
    P.plot_1D_vecs(vs, ax=ax, **kw)
    check("points", points(ax), [(np.arange(size[i]), vs[i]) for i in range(k)])
    check("names", option(ax, "scatter", "label"), ["$p^{(%d)}$" % (i + 1) for i in range(k)])
    check("markers", option(ax, "scatter", "marker"), mk[:k] if markers else [None] * k)
    check("options", option(ax, "scatter", "s"), [4 if opts else None] * k)
    check("axis named", (labels(ax, "x"), labels(ax, "y") is None), (None, True) if label is False else ("i", False))
    check("legend", len(option(ax, "legend", "loc")), 0 if label is False else 1)


def ob_matrix_rows(markers=[0, 1]):
    # rows of a matrix, such as principal components
    m = D("m")
    V = arr("V", 2, m)
    ax = Axes("ax")
    P.plot_1D_vecs(V, ["o", "x"] if markers else None, ax)
    check("points", points(ax), [(np.arange(m), V[i, :]) for i in range(2)])


def ob_parameter_scatter(x=["01", "10", "20", "default"], y=[0, 1], contours=[False, True], colorbar=[True, False, "default"], opts=[0, 1]):
    n = D("n")
    d = DensityProblem(arr("X", n, 3), arr("Y", n, 2), domain(3))
    X, Y = arr("X", n, 3), arr("Y", n, 2)
    ax = Axes("ax")
    kw = {"s": 4, "cmap": "viridis"} if opts else {}
    if colorbar != "default":
        kw["colorbar"] = colorbar
    a, b = (0, 1) if x == "default" else (int(x[0]), int(x[1]))
    if x != "default":
        kw["x_1"], kw["x_2"] = a, b
    d.plot_params_2d(y=y, contours=contours, ax=ax, **kw)
    check("points", points(ax), [(X[:, a], X[:, b])])
    check("colours", colours(ax), [Y[:, y]])
    check("axes named", (labels(ax, "x"), labels(ax, "y")), (r"$\lambda_%d$" % (a + 1), r"$\lambda_%d$" % (b + 1)))
    check("options", (option(ax, "scatter", "s"), option(ax, "scatter", "cmap")), ([4], ["viridis"]) if opts else ([None], [None]))
    check("colour bar", bars(ax), 0 if colorbar is False else 1)
    check("contours", [(q[0], q[3]) for q in surfaces(ax)], [("tricontour", Y[:, y])] if contours else [])
    check("title", title(ax), "$q_%d$" % (y + 1) if contours else None)


def ob_output_scatter(idx=["01", "10", "02", "default"], opts=[0, 1]):
    n = D("n")
    d = DensityProblem(arr("X", n, 2), arr("Y", n, 3), domain(2))
    Y = arr("Y", n, 3)
    ax = Axes("ax")
    kw = {"s": 4, "label": "here"} if opts else {}
    a, b = (0, 1) if idx == "default" else (int(idx[0]), int(idx[1]))
    if idx != "default":
        kw["idx_x"], kw["idx_y"] = a, b
    d.plot_qoi(ax=ax, **kw)
    check("points", points(ax), [(Y[:, a], Y[:, b])])
    check("options", (option(ax, "scatter", "s"), option(ax, "scatter", "label")), ([4], ["here"]) if opts else ([None], [None]))


def ob_parameter_names(idx=[0, 1, 2], who=["density", "bayes"]):
    n, q = D("n q")
    ax = Axes("ax")
    if who == "density":
        d = DensityProblem(arr("X", n, 3), arr("Y", n, q), domain(3))
        d.set_observed(Dist("OBS"))
        d.set_initial(Dist("IN"))
        d.plot_param_space(idx, ax=ax, aff=3)
    else:
        assume(np.sum(product(Dist("PRIOR").pdf(arr("X", n, 3))) * product(Dist("LL").pdf(arr("Y", n, q)))) != 0)
        d = BayesProblem(arr("X", n, 3), arr("Y", n, q), domain(3))
        d.set_prior(Dist("PRIOR"))
        d.set_likelihood(Dist("LL"))
        d.plot_param_space(idx, ax, aff=3)
    check("axis named", labels(ax, "x"), r"$\lambda_%d$" % (idx + 1))


def ob_line(top=[0, 1], opts=[0, 1]):
    ax = Axes("ax")
    x = real("x")
    kw = {"label": "L", "color": "g"} if opts else {}
    if top:
        kw["ylim"] = positive("top")
    P.plot_vert_line(ax, x, **kw)
    ls = curves(ax)
    check("one line", len(ls), 1)
    check("position", ls[0][0], np.array([x, x]))
    if top:
        check("height", ls[0][1][1], positive("top"))
    check("options", (option(ax, "plot", "label"), option(ax, "plot", "color")), (["L"], ["g"]) if opts else ([None], [None]))


def ob_returned_axes(op=["qoi", "params 2d", "params", "obs", "contour", "scatter", "series", "vectors", "dist"]):
    # the axes drawn on are handed back
    n = D("n")
    ax = Axes("ax")
    d = DensityProblem(arr("X", n, 2), arr("Y", n, 2), domain(2))
    d.set_observed(Dist("OBS"))
    d.set_initial(Dist("IN"))
    p = sensors_problem(5, 2, 1)
    if op == "qoi":
        r = d.plot_qoi(ax=ax)
    elif op == "params 2d":
        r = d.plot_params_2d(ax=ax)
    elif op == "params":
        r = d.plot_param_space(0, ax=ax, aff=3)
    elif op == "obs":
        r = d.plot_obs_space(0, ax, aff=3)
    elif op == "contour":
        r = p.sensor_contour_plot(ax=ax)
    elif op == "scatter":
        r = p.sensor_scatter_plot(ax=ax)
    elif op == "series":
        r = p.plot_ts(ax=ax)
    elif op == "vectors":
        r = P.plot_1D_vecs([arr("u", 3)], ax=ax)
    else:
        r = P.plot_dist(Dist("d"), domain(2), ax, 0, "pdf", 3)
    check("same axes", r is ax, True)
