# Arguments and shared defaults are left alone
JUDGE_RAISES = False


def mats(d, p):
    return dict(A=arr("A", d, p), b=arr("b", d, 1), y=arr("y", d, 1), mean=arr("m", p, 1), cov=arr("S", p, p), data_cov=arr("R", d, d))


def ob_map_functions():
    n, d, p = D("n d p")
    for sd in (None, positive("sd")):
        intact("wme", F.wme, arr("q", n, d), arr("data", d), sd)
    intact("wme of a list", F.wme, arr("q", n, 2), [real("d0"), real("d1")], 1)
    intact("transform", U.transform_linear_map, arr("A", d, p), arr("y", d, 1), 1 + posarr("s", d))
    intact("transform, one deviation", U.transform_linear_map, arr("A", d, p), arr("y", d), 2)
    intact("transform, repeated", U.transform_linear_map, arr("A", 1, p), arr("y", d), 2)
    intact("transform of lists", U.transform_linear_map, arr("A", 2, p), [real("d0"), real("d1")], [1, 2])
    intact("setup", U.transform_linear_setup, [arr("A", d, p), arr("B", n, p)], [arr("y", d), arr("z", n)], [1 + posarr("s", d), 2])
    intact("setup, one deviation", U.transform_linear_setup, [arr("A", d, p), arr("B", n, p)], [arr("y", d), arr("z", n)], 2)
    operators, data, sds = [arr("A", d, p), arr("B", n, p)], [arr("y", d, 1), arr("z", n, 1)], [2, 3]
    intact("problem", LinearWMEProblem, operators, data, sds)
    intact("problem with more", LinearWMEProblem, operators, data, sds, arr("yy", 2), arr("m", p), arr("S", p, p), arr("R", 2, 2), 0.5)


def ob_linear_functions(f=["lin_prob", "mud_sol", "mud_sol_with_cov", "map_sol", "map_sol_with_cov"], y=["column", "row", "flat"]):
    d, p = D("d p")
    kw = mats(d, p)
    if y == "row":
        kw["y"] = arr("y", 1, d)
    if y == "flat":
        kw["y"] = arr("y", d)
        kw["b"] = arr("b", d)
        kw["mean"] = arr("m", p)
    if y == "row":
        return check("data are a column or flat", 1, 1)
    fun = getattr(F, f)
    intact(f, fun, **kw)
    if f in ("map_sol", "map_sol_with_cov"):
        intact(f + " weighted", fun, w=0.5, **kw)
    intact(f + " defaults", fun, kw["A"], kw["b"])


def ob_updated_cov():
    d, p = D("d p")
    intact("updated covariance", F.updated_cov, arr("A", d, p), arr("S", p, p), arr("R", d, d))
    intact("updated covariance", F.updated_cov, arr("A", d, p))
    lp = LinearGaussianProblem(arr("A", d, p), arr("b", d, 1))
    intact("method", lp.updated_cov, arr("A2", d, p), arr("S2", p, p), arr("R2", d, d))
    intact("method", lp.updated_cov)


def ob_iterative(f=["performEpoch", "iterate"]):
    p = D("p")
    d = 3
    fun = F.performEpoch if f == "performEpoch" else F.iterate
    a = (arr("A", d, p), arr("b", d, 1), arr("y", d, 1), arr("m", p, 1), arr("S", p, p))
    intact(f, fun, *a)
    intact(f, fun, *a, data_cov=arr("R", d, d), idx=[2, 0])
    intact(f, fun, *a, data_cov=arr("R", d, d), idx=np.array([2, 0]))
    intact("problem", IterativeLinearProblem, *a, arr("R", d, d), [1, 0])


def ob_iter_lin_solve():
    p = D("p")
    d = 3
    a = (arr("A", d, p), arr("b", d, 1), arr("y", d, 1), arr("m", p, 1), arr("S", p, p))
    intact("solve", F.iter_lin_solve, *a)
    intact("solve", F.iter_lin_solve, *a, data_cov=arr("R", d, d), method="map", num_epochs=2, idx_order=[2, 0, 0])


def ob_iterative_object():
    p = D("p")
    order = [1, 0]
    it = IterativeLinearProblem(arr("A", 2, p), arr("b", 2, 1), arr("y", 2, 1), idx_order=order)
    it.solve(num_epochs=2)
    check("order", order, [1, 0])
    ref = arr("ref", p)
    it.get_errors(ref)
    check("reference", ref, arr("ref", p))
    intact("errors of a column", it.get_errors, arr("ref", p, 1))
    opts = {"plot_opts": {"color": "r"}}
    it2 = IterativeLinearProblem(arr("A", 2, 2), arr("b", 2, 1), arr("y", 2, 1))
    it2.solve()
    intact("chain plot", it2.plot_chain, arr("ref", 2), Axes("ax"), plot_opts=opts["plot_opts"], annotate=True, annotate_opts={"fontsize": 3})
    intact("chain plot", it2.plot_chain, arr("ref", 2, 1), Axes("ax"))
    intact("error plot", it2.plot_chain_error, arr("ref", 2), Axes("ax"))


def ob_linear_problem(shape=["column", "flat"]):
    d, p, n = D("d p n")
    v = (lambda name, m: arr(name, m, 1)) if shape == "column" else (lambda name, m: arr(name, m))
    a = (arr("A", d, p), v("b", d), v("y", d), v("m", p), arr("S", p, p), arr("R", d, d), positive("alpha"))
    lp = intact("problem", LinearGaussianProblem, *a)
    before = frozen(a)
    for m in ("mud", "mud_alt", "map", "ls", "all"):
        lp.solve(method=m)
    lp.solve("mud", output_dim=1)
    lp.updated_cov()
    check("arguments of the problem", a, before)
    for t in ("all", "data", "reg", "dc_term", "reg_m", "bayes", "dc"):
        intact("functionals " + t, lp.compute_functionals, arr("X", n, p), t)


def ob_linear_plots(what=["sol", "contours", "contours subset", "functionals"]):
    d = 3
    lp = LinearGaussianProblem(arr("A", d, 2), arr("b", d, 1), arr("y", d, 1), arr("m", 2, 1), arr("S", 2, 2), arr("R", d, d))
    ax = Axes("ax")
    if what == "sol":
        for pt in ("mud", "initial", "ls"):
            intact("solution", lp.plot_sol, pt, ax, label="x", note_loc=[0, 1], pt_opts={"color": "r"}, ln_opts={"lw": 3}, annotate_opts={"fontsize": 1})
            intact("solution", lp.plot_sol, pt, ax)
            intact("solution", lp.plot_sol, pt, ax, label="y", ln_opts=None)
    elif what == "contours":
        intact("contours", lp.plot_contours, arr("ref", 2), None, ax, True, [0, 1], 2, "row {i}", {"color": "r"}, {"fontsize": 1})
        intact("contours", lp.plot_contours, ax=ax, annotate=True)
        intact("contours", P.plot_contours, arr("A", d, 2), arr("ref", 2))
    elif what == "contours subset":
        intact("contours", lp.plot_contours, arr("ref", 2), [2, 0], ax)
        intact("contours", lp.plot_contours, arr("ref", 2, 1), np.array([2, 0]), ax, annotate=True)
        intact("contours", P.plot_contours, arr("A", d, 2), arr("ref", 2), [1, 2])
        intact("contours", P.plot_contours, arr("A", d, 2), arr("ref", 2), np.array([1, 2]))
    else:
        N = 4
        intact("functional contours", lp.plot_fun_contours, arr("mesh", N * N, 2), "dc", ax, N, levels=3)
        intact("functional contours", lp.plot_fun_contours, ax=ax, N=N)


def ob_chain_function():
    intact("chain", P.plotChain, [arr("x0", 2, 1), arr("x1", 2, 1), arr("x2", 2, 1)], arr("ref", 2))
    intact("chain", P.plotChain, [arr("x0", 2), arr("x1", 2)], arr("ref", 2, 1))


def ob_builders(f=["mud", "map"], dom=["array", "none"]):
    n, k, m = D("n k m")
    a = (arr("X", n, k), arr("Y", n, m), arr("true", m), domain(k) if dom == "array" else None)
    if f == "map":
        intact("builder", F.map_problem, *a)
        intact("builder", F.map_problem, arr("X", n), arr("Y", n), arr("true", 1), None, 0.1, 1, True)
    else:
        intact("builder", F.mud_problem, *a)
        intact("builder", F.mud_problem, *a, weights=posarr("w", n))
        intact("builder", F.mud_problem, arr("X", n), arr("Y", n), arr("true", 1), None, 0.1, 1)


def ob_builders_split(num=["all", 2]):
    n, k = D("n k")
    a = (arr("X", n, k), arr("Y", n, 4), arr("true", 4), domain(k))
    kw = {} if num == "all" else {"num_obs": 3}
    intact("columns", F.mud_problem, *a, split=np.array([[0, 1], [2, 3]]), **kw)
    intact("arrays", F.mud_problem, *a, split=[np.array([0, 2]), np.array([1, 3])], weights=[posarr("w", n), posarr("v", n)], **kw)


def ob_data_prob(method=["wme", "pca", "svd"]):
    n, k, s, t = D("n k s t")
    intact("data problem", F.data_prob, arr("X", n, k), arr("Y", n, s * t), arr("true", s * t), arr("meas", s * t), positive("sd"), "u", domain(k),
           None, arr("times", t), arr("sensors", s, 2), None, method, Dist("init"))
    intact("data problem", F.data_prob, arr("X", n, k), arr("Y", n, s * t), measurements=arr("meas", s * t, 1), std_dev=positive("sd"), method=method)


def ob_norms():
    n, d, p = D("n d p")
    X = arr("X", n, p)
    S_, R = arr("S", p, p), arr("R", d, d)
    m, A, y, mo = arr("m", p, 1), arr("A", d, p), arr("y", d, 1), arr("mo", d, 1)
    intact("inner product", NM.inner_product, arr("V", p, n), S_)
    for c in (S_, 2.0):
        intact("input norm", NM.norm_input, X, m, c)
        intact("predicted norm", NM.norm_predicted, A, X, m, c)
    for c in (R, 2.0):
        intact("data norm", NM.norm_data, A, X, y, mo, c)
    intact("full", NM.full_functional, A, X, y, m, S_, mo, R)


def ob_helpers():
    n, k, m = D("n k m")
    intact("noise", U.add_noise, arr("s", n), 0.1, 3)
    intact("noise of a list", U.add_noise, [real("a"), real("b")])
    intact("null space", U.null_space, arr("A", m, k))
    intact("null space", U.null_space, arr("A", m, k), 0.1)
    intact("ranks", U.rank_decomposition, arr("A", 2, k + 2))
    intact("domain", U.fit_domain, arr("X", n, k), None, 0.5)
    intact("domain of bounds", U.fit_domain, min_max_bounds=arr("b", k, 2), pad_ratio=0.5)
    intact("domain of bounds", U.fit_domain, None, [[real("a"), real("b")], [0, 1]])
    intact("shape", U.set_shape, arr("v", n), [1, -1])
    intact("shape", U.set_shape, arr("M", n, k), (1, -1))
    intact("grid", P.build_nd_mesh_grid, arr("b", 2, 2), 5)
    intact("grid", P.build_nd_mesh_grid, [[real("a"), real("b")], [0, 1]])
    intact("pca", PP.pca, arr("X", n, k), 2, whiten=True)
    intact("svd", PP.svd, arr("X", n, k))


def ob_plot_functions():
    n, k = D("n k")
    ax = Axes("ax")
    opts = {"color": "r"}
    intact("distribution", P.plot_dist, Dist("f"), arr("r", 2, 2), ax, 1, "pdf", 5, **opts)
    intact("distribution", P.plot_dist, gaussian_kde(arr("X", n, 2).T), [[0, 1], [2, 3]], ax, aff=5)
    intact("line", P.plot_vert_line, ax, real("x"), ylim=2, color="r")
    intact("line", P.plot_vert_line, ax, real("x"))
    intact("vectors", P.plot_1D_vecs, [arr("v", n), arr("w", n)], ["o", "x"], ax, color="r")
    intact("vectors", P.plot_1D_vecs, arr("V", 2, n), ax=ax, label=False)
    intact("save", P.save_figure, "name.png", "there", dpi=100)


def ob_density(shape=["rows", "flat"], w=["none", "flat", "stacked", "list"]):
    n, k, m = D("n k m")
    if shape == "flat":
        k = m = 1
    X, y = (arr("X", n, k), arr("Y", n, m)) if shape == "rows" else (arr("X", n), arr("Y", n))
    if w == "list":
        weights = [posarr("w", n), posarr("v", n)]
    else:
        weights = None if w == "none" else posarr("w", n) if w == "flat" else posarr("w", 2, n)
    d = intact("problem", DensityProblem, X, y, domain(k), weights, True)
    intact("problem, no domain", DensityProblem, X, y, None, weights, False, 0.3)
    intact("weights", d.set_weights, weights, True)
    intact("initial", d.set_initial, Dist("init"))
    intact("initial", d.set_initial)
    intact("predicted", d.set_predicted, Dist("pred"), weights=weights, option=arr("o", n))
    intact("predicted", d.set_predicted, bw_method=0.4, weights=weights)
    intact("observed", d.set_observed, Dist("obs"))
    intact("observed", d.set_observed)
    before = frozen((X, y, weights))
    d.estimate()
    d.expected_ratio()
    check("arguments of the problem", (X, y, weights), before)


def ob_density_plots(what=["param", "param defaults", "obs", "obs defaults", "qoi", "2d"]):
    n = D("n")
    d = DensityProblem(arr("X", n, 2), arr("Y", n, 2), domain(2))
    d.set_initial(Dist("init"))
    d.set_observed(Dist("obs"))
    d.estimate()
    ax = Axes("ax")
    o = lambda: {"color": "m"}
    if what == "param":
        intact("plot", d.plot_param_space, 1, arr("t", 2), ax, arr("r", 2, 2), 3, 0.1, 5, o(), o(), o(), o(), o())
        intact("plot", d.plot_param_space, 1, [1, 2], ax, [[0, 1], [2, 3]], aff=5, in_opts=None, up_opts=None, mud_opts=None, true_opts=None)
    elif what == "param defaults":
        intact("plot", d.plot_param_space, ax=ax, aff=5)
        intact("plot", d.plot_param_space, ax=ax, aff=5, win_opts={}, true_val=arr("t", 2))
        check("domain kept", d.domain, domain(2))
    elif what == "obs":
        intact("plot", d.plot_obs_space, 1, ax, arr("r", 2, 2), 5, o(), o(), o())
        intact("plot", d.plot_obs_space, 0, ax, [[0, 1], [2, 3]], 5, None, None, None)
    elif what == "obs defaults":
        intact("plot", d.plot_obs_space, ax=ax, aff=5)
    elif what == "qoi":
        intact("plot", d.plot_qoi, 0, 1, ax, color="r")
    else:
        intact("plot", d.plot_params_2d, 0, 1, 0, True, True, ax, color="r")
        intact("plot", d.plot_params_2d, ax=ax)


def ob_bayes(shape=["rows", "lists"], log=[0, 1]):
    n, k, m = D("n k m")
    if shape == "lists":
        a = ([[real("a"), real("b")], [real("c"), real("d")]], [[real("e")], [real("f")]], [[0, 1], [0, 1]])
    else:
        a = (arr("X", n, k), arr("Y", n, m), domain(k))
    b = intact("problem", BayesProblem, *a)
    intact("problem, no domain", BayesProblem, *a[:2])
    intact("likelihood", b.set_likelihood, Dist("ll"), bool(log))
    intact("prior", b.set_prior, Dist("pr"))
    intact("prior", b.set_prior)
    before = frozen(a)
    b.estimate()
    check("arguments of the problem", a, before)


def ob_bayes_plots(what=["param", "obs"], log=[0, 1]):
    n = D("n")
    b = BayesProblem(arr("X", n, 2), arr("Y", n, 2), domain(2))
    b.set_prior(Dist("pr"))
    b.set_likelihood(Dist("ll"), log=bool(log))
    ax = Axes("ax")
    o = lambda: {"color": "m"}
    if what == "param":
        intact("plot", b.plot_param_space, 1, ax, arr("r", 2, 2), 5, o(), o(), o(), o(), arr("t", 2))
        intact("plot", b.plot_param_space, ax=ax, aff=5, true_val=[1, 2])
    else:
        intact("plot", b.plot_obs_space, 1, ax, arr("r", 2, 2), 5, o(), o())
        intact("plot", b.plot_obs_space, ax=ax, aff=5)


def dataset(n, k, s, t):
    lo, w = arr("dom_lo", k), posarr("dom_width", k)
    return {"domain": domain(k), "sensors": arr("sensors", s, 2), "times": arr("times", t), "lam": arr("X", n, k), "data": arr("Y", n, s * t),
            "lam_ref": lo + w / 2, "std_dev": positive("sd"), "true_vals": arr("true", s * t), "measurements": arr("meas", s * t), "sample_dist": "u"}


def ob_spatio_temporal(method=["wme", "pca", "svd"]):
    n, k, s, t, h = D("n k s t h")
    ds = dataset(n, k, s, t)
    before = frozen(ds)
    p = intact("load", SpatioTemporalProblem, ds)
    p.get_closest_to_measurements()
    p.get_closest_to_true_vals()
    intact("selection", p.sample_data, indices("a", h, n), indices("b", h, t), indices("c", h, s))
    intact("nearest", p.get_closest_to_measurements, indices("a", h, n), indices("b", h, t), indices("c", h, s))
    intact("map", p.mud_problem, method, arr("dw", s * t), posarr("w", n), 1)
    intact("map", p.mud_problem, method=method)
    d = p.mud_problem(method=method)
    d.set_observed(stats_dist.norm(0, 1))
    d.estimate()
    intact("measurements", p.measurements_from_reference, arr("other", s * t), 0.1, 5)
    check("data set", ds, before)
    intact("load again", p.load, ds, measurements="true_vals")


def ob_setters(f=["lam", "data", "domain", "measurements", "true_vals"]):
    n, k, s, t = D("n k s t")
    p = SpatioTemporalProblem()
    p.sensors, p.times = arr("sensors", s, 2), arr("times", t)
    v = {"lam": arr("X", n, k), "data": arr("Y", n, s * t), "domain": domain(k), "measurements": arr("meas", s * t), "true_vals": arr("true", s, t)}[f]
    before = frozen(v)
    setattr(p, f, v)
    check(f, v, before)


def ob_series_plots(what=["ts", "contour", "scatter"]):
    n, k = D("n k")
    s, t = D("s t")
    p = SpatioTemporalProblem(dataset(n, k, s, t))
    ax = Axes("ax")
    if what == "ts":
        intact("series", p.plot_ts, ax, None, None, 0, 1, {"color": "r"}, {"color": "g"}, 0.2)
        intact("series", p.plot_ts, ax, max_plot=2)
        intact("series", p.plot_ts, ax, indices("a", D("h"), n), indices("b", D("g"), t), max_plot=2)
    elif what == "contour":
        intact("sensors", p.sensor_contour_plot, 0, arr("c", s), ax, None, True, True, levels=3)
        intact("sensors", p.sensor_contour_plot, 0, arr("c", D("h")), ax, indices("m", D("h"), s), False, False)
    else:
        intact("sensors", p.sensor_scatter_plot, ax, None, True, c=arr("c", s))
        intact("sensors", p.sensor_scatter_plot, ax, indices("m", D("h"), s))
