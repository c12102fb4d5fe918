# Parts fit together: every operation, alone and after every other one
import matplotlib.pyplot as plt


def done():
    check("reached", 1, 1)


def density(domain_given=True, weights=None):
    n = D("n")
    if domain_given:
        return DensityProblem(X=arr("X", n, 2), y=arr("Y", n, 2), domain=domain(2), weights=weights)
    return DensityProblem(X=arr("X", n, 2), y=arr("Y", n, 2), weights=weights, pad_domain=0.2)


def density_op(p, op):
    n = p.n_samples
    ax = Axes("ax")
    if op == "weights":
        p.set_weights(weights=posarr("v", n), normalize=True)
    elif op == "weights default":
        p.set_weights()
    elif op == "observed":
        p.set_observed(distribution=Dist("ob"))
    elif op == "observed default":
        p.set_observed()
    elif op == "initial":
        p.set_initial(distribution=Dist("in"))
    elif op == "initial default":
        p.set_initial()
    elif op == "predicted":
        p.set_predicted(distribution=Dist("pr"))
    elif op == "predicted default":
        p.set_predicted(bw_method="silverman", weights=posarr("v2", n))
    elif op == "fit":
        p.fit()
    elif op == "fit options":
        p.fit(bw_method="scott")
    elif op == "mud_point":
        p.mud_point()
    elif op == "estimate":
        p.estimate()
    elif op == "expected_ratio":
        p.expected_ratio()
    elif op == "sizes":
        p.n_params, p.n_features, p.n_samples, p.X, p.y, p.domain
    elif op == "params":
        p.plot_param_space(param_idx=1, ax=ax, aff=3, true_val=arr("t", 2))
    elif op == "params options":
        p.plot_param_space(param_idx=0, ax=ax, x_range=arr("r", 2, 2), aff=3, in_opts={"color": "k"}, up_opts={"color": "k"}, win_opts={"color": "k"}, mud_opts={"color": "k"}, true_opts={"color": "k"}, true_val=arr("t", 2))
    elif op == "obs":
        p.plot_obs_space(obs_idx=1, ax=ax, aff=3)
    elif op == "obs options":
        p.plot_obs_space(obs_idx=0, ax=ax, y_range=arr("r", 2, 2), aff=3, ob_opts={"color": "k"}, pr_opts={"color": "k"}, pf_opts={"color": "k"})
    elif op == "qoi":
        p.plot_qoi(idx_x=1, idx_y=0, ax=ax, s=3)
    elif op == "params 2d":
        p.plot_params_2d(x_1=1, x_2=0, y=1, contours=True, colorbar=True, ax=ax, s=3)
    elif op == "fresh axes":
        p.plot_param_space()
        p.plot_obs_space()
        p.plot_qoi()
        p.plot_params_2d()


DENSITY = ["weights", "weights default", "observed", "observed default", "initial", "initial default", "predicted", "predicted default", "fit", "fit options", "mud_point", "estimate", "expected_ratio", "sizes", "params", "params options", "obs", "obs options", "qoi", "params 2d"]


def valid_density(ops):
    """a given predicted distribution needs nothing first; options of fit are for the kernel estimate"""
    return True


def ob_density(domain_given=["yes", "no"], weighted=["no", "yes", "stack"], op=["weights", "weights default", "observed", "observed default", "initial", "initial default", "predicted", "predicted default", "fit", "fit options", "mud_point", "estimate", "expected_ratio", "sizes", "params", "params options", "obs", "obs options", "qoi", "params 2d", "fresh axes"]):
    n = D("n")
    w = {"no": None, "yes": posarr("w", n), "stack": posarr("w", 2, n)}[weighted]
    p = density(domain_given == "yes", w)
    try:
        density_op(p, op)
    except AssertionError:  # plots need the initial and observed distributions first
        density_op(p, "fit")
        density_op(p, op)
    done()


def ob_density_pairs(first=["weights", "weights default", "observed", "observed default", "initial", "initial default", "predicted", "predicted default", "fit", "fit options", "mud_point", "estimate", "expected_ratio", "params", "params options", "obs", "obs options", "qoi", "params 2d"]):
    for op in DENSITY:
        p = density()
        p.set_initial()
        p.set_observed()
        density_op(p, first)
        density_op(p, op)
    done()


def bayes(domain_given=True):
    n = D("n")
    p = BayesProblem(X=arr("X", n, 2), y=arr("Y", n, 2), domain=domain(2)) if domain_given else BayesProblem(arr("X", n, 2), arr("Y", n, 2))
    return p


def bayes_op(p, op):
    ax = Axes("ax")
    if op == "likelihood":
        p.set_likelihood(distribution=Dist("ll"), log=False)
    elif op == "log likelihood":
        p.set_likelihood(Dist("ll"), log=True)
    elif op == "prior":
        p.set_prior(distribution=Dist("pr"))
    elif op == "prior default":
        p.set_prior()
    elif op == "fit":
        p.fit()
    elif op == "map_point":
        p.map_point()
    elif op == "estimate":
        p.estimate()
    elif op == "sizes":
        p.n_params, p.n_features, p.n_samples, p.X, p.y, p.domain
    elif op == "params":
        p.plot_param_space(param_idx=1, ax=ax, aff=3, true_val=arr("t", 2))
    elif op == "params options":
        p.plot_param_space(param_idx=0, ax=ax, x_range=arr("r", 2, 2), aff=3, pr_opts={"color": "k"}, ps_opts={"color": "k"}, map_opts={"color": "k"}, true_opts={"color": "k"}, true_val=arr("t", 2))
    elif op == "obs":
        p.plot_obs_space(obs_idx=1, ax=ax, aff=3)
    elif op == "obs options":
        p.plot_obs_space(obs_idx=0, ax=ax, y_range=arr("r", 2, 2), aff=3, ll_opts={"color": "k"}, pf_opts={"color": "k"})
    elif op == "fresh axes":
        p.plot_param_space()
        p.plot_obs_space()


BAYES = ["likelihood", "log likelihood", "prior", "prior default", "fit", "map_point", "estimate", "sizes", "params", "params options", "obs", "obs options"]


def ob_bayes_before(op=["likelihood", "log likelihood", "prior", "prior default", "sizes"], domain_given=["yes", "no"]):
    """what needs no likelihood"""
    bayes_op(bayes(domain_given == "yes"), op)
    done()


def ob_bayes_prior_plot():
    p = bayes()
    p.plot_param_space(ax=Axes("ax"), aff=3, ps_opts=None, map_opts=None)
    done()


def ob_bayes_pairs(how=["likelihood", "log likelihood"], domain_given=["yes", "no"], first=["likelihood", "log likelihood", "prior", "prior default", "fit", "map_point", "estimate", "params", "params options", "obs", "obs options", "fresh axes"]):
    for op in BAYES:
        p = bayes(domain_given == "yes")
        try:
            bayes_op(p, how)
            bayes_op(p, first)
            bayes_op(p, op)
        except ValueError:  # a posterior that vanishes everywhere
            pass
    done()


def linear(cls, full, d):
    """problems with any number of parameters"""
    p = D("p")
    v = dict(y=arr("y", d, 1)) if full else {}
    if cls == "linear":
        if full:
            return LinearGaussianProblem(A=arr("A", d, p), b=arr("b", d, 1), mean_i=arr("m", p, 1), cov_i=arr("S", p, p), cov_o=arr("R", d, d), alpha=positive("alpha"), **v)
        return LinearGaussianProblem(A=arr("A", d, p))
    if cls == "wme":
        n = D("n")
        if full:
            return LinearWMEProblem(operators=[arr("A0", n, p)], data=[arr("z0", n)], sigma=[1 + positive("s")], y=arr("y", 1, 1), mean_i=arr("m", p, 1), cov_i=arr("S", p, p), cov_o=arr("R", 1, 1), alpha=positive("alpha"))
        return LinearWMEProblem([arr("A0", n, p)], [arr("z0", n)], 2)
    if full:
        return IterativeLinearProblem(A=arr("A", d, p), b=arr("b", d, 1), mu_i=arr("m", p, 1), cov=arr("S", p, p), data_cov=arr("R", d, d), idx_order=[1, 0, 1], **v)
    return IterativeLinearProblem(arr("A", d, p), arr("b", d, 1))


def planar(cls, full):
    """problems with two parameters, for what draws"""
    d = 2
    if cls == "linear":
        if full:
            return LinearGaussianProblem(A=arr("A", d, 2), b=arr("b", d, 1), y=arr("y", d, 1), mean_i=arr("m", 2, 1), cov_i=arr("S", 2, 2), cov_o=arr("R", d, d), alpha=positive("alpha"))
        return LinearGaussianProblem(A=arr("A", d, 2))
    if cls == "wme":
        ops, data = [arr("A0", 3, 2), arr("A1", 1, 2)], [arr("z0", 3), arr("z1", 4)]
        return LinearWMEProblem(ops, data, [1 + positive("s"), 2])
    return IterativeLinearProblem(A=arr("A", d, 2), b=arr("b", d, 1), y=arr("y", d, 1), mu_i=arr("m", 2, 1), idx_order=[1, 0] if full else None)


def linear_op(p, op, iterative):
    if op in ("mud", "mud_alt", "map", "ls", "all"):
        if iterative:
            p.solve(num_epochs=1, method="mud" if op == "all" else op)
        else:
            p.solve(method=op)
    elif op == "fewer":
        if iterative:
            p.solve()
        else:
            p.solve(method="all", output_dim=1)
    elif op == "covariance":
        d, k = p.A.shape
        p.updated_cov()
        p.updated_cov(A=arr("A2", d, k), init_cov=arr("S2", k, k), data_cov=arr("R2", d, d))
    elif op == "functionals":
        for t in ("all", "data", "reg", "dc_term", "reg_m", "bayes", "dc"):
            p.compute_functionals(X=arr("Z", D("n"), p.n_params), terms=t)
    elif op == "sizes":
        p.n_params, p.n_features, p.n_samples, p.A, p.b, p.y, p.mean_i, p.cov_i, p.cov_o, p.alpha
    elif op == "plot solution" and not iterative:
        for point in ("mud", "mud_alt", "map", "ls", "initial"):
            p.plot_sol(point=point, ax=Axes("ax"), label="x", note_loc=[0, 0], pt_opts={"color": "k"}, ln_opts={"color": "k"}, annotate_opts={"fontsize": 2})
        p.plot_sol(label="y")
        p.plot_sol()


def ob_linear(cls=["linear", "wme", "iterative"], full=["yes", "no"], first=["none", "mud", "mud_alt", "map", "ls", "all", "fewer"], op=["mud", "mud_alt", "map", "ls", "all", "fewer", "covariance", "functionals", "sizes", "plot solution"]):
    it = cls == "iterative"
    p = linear(cls, full == "yes", 2 if it else D("d"))
    if first != "none":
        linear_op(p, first, it)
    linear_op(p, op, it)
    done()


def ob_linear_plots(cls=["linear", "wme", "iterative"], full=["yes", "no"], what=["contours", "functionals"], term=["data", "reg", "bayes"]):
    p = planar(cls, full == "yes")
    ax = Axes("ax")
    ref = arr("ref", 2, 1)
    if what == "contours":
        p.plot_contours(ref=ref, subset=[1], ax=ax, annotate=True, note_loc=[0, 0], w=2, label="{i}", plot_opts={"color": "k"}, annotate_opts={"fontsize": 2})
        p.plot_contours(ref, annotate=True)
    else:
        if cls == "linear" and full == "yes":
            p = LinearGaussianProblem(arr("A", 1, 2))
        p.plot_fun_contours(mesh=None, terms=term, ax=ax, N=3, r=2, levels=3)
        p.plot_fun_contours(terms=term, N=3)
    done()


def ob_iterative(full=["yes", "no"], first=["mud", "map", "two"]):
    p = linear("iterative", full == "yes", 2)
    p.errors, p.epochs, p.solution_chains, p.idx_order, p.mu_i, p.cov, p.data_cov
    if first in ("mud", "map"):
        p.solve(method=first)
    elif first == "two":
        p.solve(num_epochs=2)
    k = p.n_params
    p.get_errors(ref_param=arr("ref", k))
    p.plot_chain_error(ref_param=arr("ref", k), ax=Axes("ax"), alpha=0.5, color="r", label="x", s=2, fontsize=3)
    p.plot_chain_error(arr("ref", k, 1))
    p.errors
    done()


def ob_chain_plot(full=["yes", "no"], solved=["no", "yes"]):
    p = planar("iterative", full == "yes")
    if solved == "yes":
        p.solve()
    p.plot_chain(ref_param=arr("ref", 2, 1), ax=Axes("ax"), color="r", s=3)
    p.plot_chain(arr("ref", 2), annotate=True, w=2)
    done()


def spatio(how):
    n, s, t = D("n s t")
    values = dict(domain=None, lam=arr("L", n, 2), data=arr("Q", n, s * t), measurements=arr("z", s * t), sensors=arr("sens", s, 2), times=arr("times", t), std_dev=positive("sd"))
    if how == "attributes":
        p = SpatioTemporalProblem()
        p.sensors, p.times, p.std_dev = values["sensors"], values["times"], values["std_dev"]
        p.lam, p.data, p.measurements = values["lam"], values["data"], values["measurements"]
    elif how == "constructor":
        p = SpatioTemporalProblem(df=values)
    elif how == "custom keys":
        p = SpatioTemporalProblem()
        p.load({"a": values["lam"], "b": values["data"], "c": values["measurements"], "d": values["sensors"], "times": values["times"], "std_dev": values["std_dev"]}, lam="a", data="b", measurements="c", sensors="d")
    else:
        p = SpatioTemporalProblem()
        p.load(df=values, lam="lam", data="data")
    return p


def spatio_op(p, op):
    ax = Axes("ax")
    n, s, t = D("n s t")
    i, j, k = indices("i", D("a"), n), indices("j", D("b"), t), indices("k", D("c"), s)
    if op == "sizes":
        p.n_samples, p.n_sensors, p.n_ts, p.n_params, p.domain, p.lam, p.data, p.measurements, p.lam_ref, p.true_vals, p.sample_dist, p.sensors, p.times, p.std_dev, p.qoi, p.pca
    elif op == "validate":
        p.validate(check_meas=True, check_true=False)
    elif op == "sample":
        p.sample_data(samples_mask=i, times_mask=j, sensors_mask=k)
        p.sample_data()
    elif op == "closest":
        p.get_closest_to_measurements(samples_mask=i, times_mask=j, sensors_mask=k)
    elif op == "reference":
        p.true_vals = arr("tv", s * t)
        p.get_closest_to_true_vals()
    elif op == "measure":
        p.measurements_from_reference(ref=arr("tv", s * t), std_dev=0.1, seed=3)
    elif op == "contours":
        p.sensor_contour_plot(idx=0, c_vals=arr("c", s), ax=ax, fill=True, colorbar=True, levels=3)
        p.sensor_contour_plot(c_vals=arr("c", s), fill=False, colorbar=False)
        p.sensor_contour_plot(idx=0, c_vals=arr("c", D("c")), mask=k)
    elif op == "scatter":
        p.sensor_scatter_plot(ax=ax, mask=k, colorbar=True, c=arr("c", D("c")))
        p.sensor_scatter_plot()
        p.sensor_scatter_plot(colorbar=True)
    elif op == "series":
        p.plot_ts(ax=ax, samples=i, times=j, sensor_idx=0, max_plot=1, meas_kwargs={"color": "k"}, samples_kwargs={"color": "k"}, alpha=0.2)
    elif op in ("wme", "pca", "svd"):
        p.mud_problem(method=op, data_weights=posarr("dw", s * t), sample_weights=posarr("sw", n), num_components=2)
        p.n_qoi
    elif op == "subset":
        p.mud_problem(method="wme", samples_mask=i, times_mask=j, sensors_mask=k)
        p.n_qoi


def ob_spatio(how=["attributes", "constructor", "load", "custom keys"], op=["sizes", "validate", "sample", "closest", "reference", "measure", "contours", "scatter", "series", "wme", "pca", "svd", "subset"]):
    p = spatio(how)
    spatio_op(p, op)
    done()


def ob_spatio_pairs(first=["sizes", "validate", "sample", "closest", "reference", "measure", "contours", "scatter", "series", "wme", "pca", "svd", "subset"]):
    for op in ("sizes", "validate", "sample", "closest", "reference", "measure", "contours", "scatter", "series", "wme", "pca", "svd"):
        p = spatio("load")
        spatio_op(p, first)
        spatio_op(p, op)
    done()


def ob_spatio_reference():
    n, s, t = D("n s t")
    p = spatio("load")
    p.true_vals = arr("tv", s * t)
    p.measurements_from_reference()
    p.measurements_from_reference(std_dev=0.2)
    p.measurements_from_reference(seed=1)
    done()


def ob_columns_of_map(method=["wme", "pca", "svd"], c=[1, 2]):
    p = spatio("load")
    q = p.mud_problem(method=method, num_components=c)
    check("columns", p.n_qoi, 1 if method == "wme" else c)
    check("columns", q.n_features, p.n_qoi)


def ob_functions():
    n, d, p = D("n d p")
    A, b, y, m, S_, R = arr("A", d, p), arr("b", d, 1), arr("y", d, 1), arr("m", p, 1), arr("S", p, p), arr("R", d, d)
    F.wme(predictions=arr("q", n, d), data=arr("z", d), sd=0.1)
    F.updated_cov(X=A, init_cov=S_, data_cov=R)
    F.lin_prob(A=A, b=b, y=y, mean=m, cov=S_, data_cov=R, alpha=0.5)
    F.mud_sol(A=A, b=b, y=y, mean=m, cov=S_, data_cov=R)
    F.mud_sol_with_cov(A=A, b=b, y=y, mean=m, cov=S_, data_cov=R)
    F.map_sol(A=A, b=b, y=y, mean=m, cov=S_, data_cov=R, w=0.5)
    F.map_sol_with_cov(A=A, b=b, y=y, mean=m, cov=S_, data_cov=R, w=0.5)
    for f in (F.lin_prob, F.mud_sol, F.mud_sol_with_cov, F.map_sol, F.map_sol_with_cov):
        f(A, b)
    NM.inner_product(X=arr("X", p, n), mat=S_)
    NM.norm_input(inputs=arr("X", n, p), initial_mean=m, initial_cov=S_)
    NM.norm_data(operator=A, inputs=arr("X", n, p), data=y, observed_mean=b, observed_cov=R)
    NM.norm_predicted(operator=A, inputs=arr("X", n, p), initial_mean=m, initial_cov=S_)
    done()


def ob_chains(method=["mud", "mud_alt", "map", "ls"]):
    p = D("p")
    d = 3
    A, b, y, m, S_, R = arr("A", d, p), arr("b", d, 1), arr("y", d, 1), arr("m", p, 1), arr("S", p, p), arr("R", d, d)
    F.iter_lin_solve(A=A, b=b, y=y, mean=m, cov=S_, data_cov=R, method=method, num_epochs=2, idx_order=[2, 0])
    F.iter_lin_solve(A, b, method=method)
    F.performEpoch(A=A, b=b, y=y, initial_mean=m, initial_cov=S_, data_cov=R, idx=[1, 0])
    F.iterate(A=A, b=b, y=y, initial_mean=m, initial_cov=S_, data_cov=R, num_epochs=2, idx=[1, 0])
    done()


def ob_wrappers(num=["all", "some"], flat=["no", "yes"], log=["no", "yes"], split=["no", "yes"]):
    n, t = D("n t")
    k = None if num == "all" else 2
    lam = arr("L", n) if flat == "yes" else arr("L", n, 2)
    dm = domain(1) if flat == "yes" else domain(2)
    b = F.map_problem(lam=lam, qoi=arr("Q", n, 4), qoi_true=arr("qt", 4), domain=dm, sd=0.1, num_obs=k, log=log == "yes")
    try:
        b.estimate()
    except ValueError:  # a posterior that vanishes everywhere
        pass
    parts = None if split == "no" else [np.array([0, 1]), np.array([1, 3])]
    if split == "yes" and num == "some":
        parts = [np.array([0, 1]), np.array([1])]
    d = F.mud_problem(lam=lam, qoi=arr("Q", n, 4), qoi_true=arr("qt", 4), domain=dm, sd=0.1, num_obs=k, split=parts, weights=posarr("w", n))
    d.estimate()
    d.expected_ratio()
    done()


def ob_data_prob(method=["wme", "pca", "svd"]):
    n, s, t = D("n s t")
    d = F.data_prob(lam=arr("L", n, 2), qoi=arr("Q", n, t), qoi_true=arr("tv", t), measurements=arr("z", t), std_dev=0.1, sample_dist="u", domain=None, lam_ref=None, times=arr("times", t), sensors=arr("sens", 1, 2), idxs=None, method=method, init_dist=Dist("in"))
    d.mud_point()
    F.data_prob(arr("L", n, 2), arr("Q", n, t), measurements=arr("z", t), std_dev=0.1)
    done()


def ob_utilities():
    n, d, p = D("n d p")
    U.std_from_equipment(tolerance=0.1, probability=0.9)
    U.transform_linear_map(operator=arr("A", d, p), data=arr("y", d), std=1 + positive("s"))
    U.transform_linear_setup(operator_list=[arr("A", d, p)], data_list=[arr("y", d)], std_list=[1 + positive("s")])
    U.null_space(A=arr("A", 1, 2), rcond=None)
    U.make_2d_unit_mesh(N=3, window=2)
    U.add_noise(signal=arr("y", d), sd=0.1, seed=2)
    U.rank_decomposition(A=arr("A", 2, 2))
    U.fit_domain(x=arr("x", n, p), min_max_bounds=None, pad_ratio=0.2)
    U.fit_domain(x=None, min_max_bounds=arr("mm", p, 2), pad_ratio=0.2)
    U.set_shape(array=arr("x", n), shape=(-1, 1))
    PP.pca(data=arr("x", n, p), n_components=2)
    PP.svd(data=arr("x", n, p), full_matrices=False)
    done()


def ob_plot_functions():
    ax = Axes("ax")
    P.plotChain(mud_chain=[arr("c0", 2, 1), arr("c1", 2, 1)], ref_param=arr("ref", 2), color="r", s=2)
    P.plot_contours(A=arr("A", 2, 2), ref_param=arr("ref", 2), subset=[0], color="r", ls="-", lw=2, fs=3, w=2, s=5)
    P.make_2d_normal_mesh(N=3, window=2)
    P.make_2d_unit_mesh(N=3, window=2)
    P.plot_1D_vecs(vecs=[arr("v0", 3), arr("v1", 3)], markers=["o", "x"], ax=ax, label=True, color="k")
    P.plot_1D_vecs([arr("v0", 3)])
    P.build_nd_mesh_grid(domain=arr("r", 2, 2), aff=3)
    P.plot_dist(dist=Dist("f"), domain=arr("r", 2, 2), ax=ax, idx=1, source="pdf", aff=3, color="k")
    P.plot_vert_line(ax=ax, x_loc=positive("x"), ylim=2, color="k")
    P.plot_vert_line(ax, positive("x"))
    fig, bx = plt.subplots()
    P.save_figure(fname="x.png", save_path="there", close_fig=False, dpi=3)
    done()
