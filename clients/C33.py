# All array axes line up for every problem size
STP = SpatioTemporalProblem


def sized(case):
    """sizes from a word like 'n p q', 'n n q', 'n 1 2': equal letters are equal sizes, any other size is unknown"""
    return [D(x) if not x.isdigit() else int(x) for x in case.split()]


def shapes(label, got, want):
    check(label, np.shape(got), want)


# -- densities ------------------------------------------------------------------------------------------------
def ob_density(case=["n p q", "n p p", "n n q", "n p n", "n n n", "n 1 q", "n p 1", "n 1 1", "n 2 2", "n 3 1", "n 1 3", "2 2 2", "3 2 1", "2 3 2"], weights=["none", "flat", "rows", "k", "square"], predicted=["kde", "given", "joint"], initial=["box", "given"]):
    n, p, q = sized(case)
    X, Y = arr("X", n, p), arr("Y", n, q)
    w = None
    if weights == "flat":
        w = posarr("w", n)
    elif weights == "rows":
        w = posarr("w", 2, n)
    elif weights == "k":
        w = posarr("w", D("k"), n)
    elif weights == "square":
        w = posarr("w", n, n)
    d = DensityProblem(X, Y, domain=domain(p), weights=w)
    check("sizes", (d.n_samples, d.n_params, d.n_features), (n, p, q))
    shapes("weights", d._weights, (n,))
    shapes("domain", d.domain, (p, 2))
    if initial == "given":
        d.set_initial(Dist("pin"))
    if predicted == "given":
        d.set_initial(Dist("pin"))
        d.set_predicted(Dist("ppr"))
    elif predicted == "joint":
        d.set_initial(Dist("pin"))
        d.set_predicted(Joint("ppr"))
    shapes("estimate", d.estimate(), (p,))
    shapes("expected ratio", d.expected_ratio(), ())
    for name in ["_in", "_ob", "_pr", "_r", "_up"]:
        shapes(name, getattr(d, name), (n,))
    check("updated", d._up, (product(uniform_over(domain(p)).pdf(X)) if initial == "box" and predicted == "kde" else d._in) * (1 if w is None else w if weights == "flat" else np.prod(w, axis=0)) * d._ob / d._pr)
    shapes("estimate again", d.mud_point(), (p,))


def ob_density_flat(case=["n p", "n n", "n 1", "n 2", "2 2"], which=["parameters", "outputs", "both"], domain_=[0, 1]):
    # one-dimensional input means samples of a single quantity
    n, q = sized(case)
    if which == "parameters":
        d = DensityProblem(arr("X", n), arr("Y", n, q), domain=domain(1) if domain_ else None)
        p = 1
    elif which == "outputs":
        d = DensityProblem(arr("X", n, q), arr("Y", n), domain=domain(q) if domain_ else None)
        p, q = q, 1
    else:
        d = DensityProblem(arr("X", n), arr("Y", n), domain=domain(1) if domain_ else None)
        p = q = 1
    check("sizes", (d.n_samples, d.n_params, d.n_features), (n, p, q))
    shapes("domain", d.domain, (p, 2))
    shapes("estimate", d.estimate(), (p,))
    shapes("updated", d._up, (n,))


def ob_density_fitted_domain(case=["n p q", "n n q", "n p n", "n 1 1", "n 2 2", "2 2 2", "3 2 2"]):
    n, p, q = sized(case)
    X = arr("X", n, p)
    d = DensityProblem(X, arr("Y", n, q))
    shapes("domain", d.domain, (p, 2))
    lo, hi = np.min(X, axis=0), np.max(X, axis=0)
    check("domain", d.domain, np.stack([lo - 0.1 * (hi - lo), hi + 0.1 * (hi - lo)], axis=1))
    shapes("estimate", d.estimate(), (p,))


def ob_bayes(case=["n p q", "n p p", "n n q", "n p n", "n n n", "n 1 q", "n p 1", "n 1 1", "n 2 2", "2 2 2", "3 2 1", "2 3 2"], log=[False, True], prior=["box", "given"]):
    n, p, q = sized(case)
    X, Y = arr("X", n, p), arr("Y", n, q)
    b = BayesProblem(X, Y, domain=domain(p))
    check("sizes", (b.n_samples, b.n_params, b.n_features), (n, p, q))
    if prior == "given":
        b.set_prior(Dist("pin"))
    else:
        b.set_prior()
    b.set_likelihood(Dist("pob"), log=log)
    has_mass(np.log(b._pr) + b._ll if log else b._pr * b._ll, log)
    shapes("estimate", b.estimate(), (p,))
    shapes("likelihood", b._ll, (n,))
    shapes("posterior", b._ps, (n,))
    check("likelihood", b._ll, log_product("pob", Y) if log else product(pdf("pob", Y)))



# -- linear problems --------------------------------------------------------------------------------------------
LINEAR = ["d p", "p d", "d d", "1 p", "d 1", "1 1", "2 2", "2 p", "d 2", "2 1", "1 2"]


def linear(d, p, form):
    sh = {"column": lambda a, k: arr(a, k, 1), "flat": lambda a, k: arr(a, k), "row": lambda a, k: arr(a, 1, k)}[form]
    return arr("A", d, p), sh("b", d), sh("y", d), sh("m", p), arr("S", p, p), arr("R", d, d)


def ob_linear(case=["d p", "d d", "1 p", "d 1", "1 1", "2 p", "d 2", "2 1", "1 2"], form=["column", "flat", "row"], method=["mud", "mud_alt", "map", "ls"], given=[0, 1]):
    d, p = sized(case)
    A, b, y, m, S, R = linear(d, p, form)
    lp = LinearGaussianProblem(A, b, y, m, S, R) if given else LinearGaussianProblem(A)
    shapes("solution", lp.solve(method), (p, 1))
    shapes("updated covariance", lp.updated_cov(), (p, p))


def ob_linear_all(case=["d p", "d d", "1 p", "d 1", "1 1", "2 1", "1 2"], form=["column", "flat"]):
    d, p = sized(case)
    lp = LinearGaussianProblem(*linear(d, p, form))
    r = lp.solve("all")
    check("three solutions", len(r), 3)
    for k in range(3):
        shapes("solution %d" % k, r[k], (p, 1))
    shapes("updated covariance", lp.up_cov, (p, p))
    shapes("posterior covariance", lp.cov_p, (p, p))


def ob_linear_output_dim(case=["1 1 p", "1 j p", "k j p", "k 1 1", "k j 1", "1 1 1", "k k k"], method=["mud", "mud_alt", "map", "ls"]):
    k, j, p = sized(case)
    d = k + j
    lp = LinearGaussianProblem(*linear(d, p, "column"))
    shapes("solution", lp.solve(method, k), (p, 1))
    shapes("solution of all outputs", lp.solve(method), (p, 1))


def ob_functionals(case=["n d p", "n n p", "n d n", "n p p", "n n n", "1 d p", "n 1 p", "n d 1", "1 1 1", "n 2 2", "2 2 2", "3 2 2"], term=["data", "reg", "dc_term", "reg_m", "bayes", "dc"], form=["column", "flat"]):
    n, d, p = sized(case)
    lp = LinearGaussianProblem(*linear(d, p, form))
    shapes(term, lp.compute_functionals(arr("X", n, p), term), (n,))


def ob_functionals_all(case=["n d p", "n n p", "n d n", "n p p", "n n n", "1 d p", "n 1 p", "n d 1", "1 1 1", "2 2 2"]):
    n, d, p = sized(case)
    lp = LinearGaussianProblem(*linear(d, p, "column"))
    for t in lp.compute_functionals(arr("X", n, p)):
        shapes("term", t, (n,))


def ob_norms(case=["n d p", "n n p", "n d n", "n p p", "n n n", "1 d p", "n 1 p", "n d 1", "1 1 1", "2 2 2"], form=["column", "flat"]):
    n, d, p = sized(case)
    A, b, y, m, S, R = linear(d, p, form)
    X = arr("X", n, p)
    shapes("inner product", NM.inner_product(X.T, S), (n,))
    shapes("data mismatch", NM.norm_data(A, X, b, y, R), (n,))
    shapes("regularisation", NM.norm_input(X, m, S), (n,))
    shapes("predicted", NM.norm_predicted(A, X, m, S), (n,))
    shapes("data-consistent", NM.full_functional(A, X, b, m, S, y, R), (n,))


def ob_functions(case=["d p", "d d", "1 p", "d 1", "1 1", "2 p", "d 2", "2 1", "1 2"], given=[0, 1]):
    d, p = sized(case)
    A, b, y, m, S, R = linear(d, p, "column")
    a = (A, b, y, m, S, R) if given else (A, b)
    column = lambda x: x if given else np.reshape(x, (p, 1))
    shapes("mud", column(F.mud_sol(*a)), (p, 1))
    shapes("map", column(F.map_sol(*a)), (p, 1))
    x, c = F.mud_sol_with_cov(*a)
    shapes("mud", column(x), (p, 1))
    shapes("updated covariance", c, (p, p))
    x, c = F.map_sol_with_cov(*a)
    shapes("map", column(x), (p, 1))
    shapes("posterior covariance", c, (p, p))
    shapes("updated covariance", F.updated_cov(A, S, R), (p, p))


def ob_epochs(case=["d p", "p p", "2 p", "1 p", "1 1", "3 1", "2 1"], data=[0, 1], how=["performEpoch", "iterate"]):
    # the chain starts with the initial mean and gains one point per row and epoch
    d, p = sized(case)
    A, b, y, m, S, R = linear(2 if case[0] in "dp" else d, p, "column")
    d = 2 if case[0] in "dp" else d
    ch = F.performEpoch(A, b, y, m, S, R if data else None) if how == "performEpoch" else F.iterate(A, b, y, m, S, R if data else None, num_epochs=2)
    for x in ch:
        shapes("point", np.reshape(x, (p, 1)), (p, 1))
    check("points", len(ch) >= d, True)


def ob_iterative(case=["1 p", "2 p", "3 p", "1 1", "2 1"], form=["column", "flat"], epochs=[1, 2]):
    d, p = sized(case)
    A, b, y, m, S, R = linear(d, p, form)
    lp = IterativeLinearProblem(A, b, y, m, S)
    epochs = 1 if d == 3 else epochs
    lp.solve(epochs)
    check("points", len(lp.solution_chains), epochs)
    for ch in lp.solution_chains:
        check("points of an epoch", len(ch), d + 1)
        for x in ch:
            shapes("point", x, (p, 1))
    shapes("errors", lp.get_errors(arr("ref", p, 1)), (epochs * d,))


# -- maps -----------------------------------------------------------------------------------------------------
def ob_wme(case=["n d", "n n", "1 d", "n 1", "1 1", "2 2", "n 2"], shape=["flat", "column"], sd=["own", "one"]):
    n, d = sized(case)
    if sd == "own" and case in ("1 1", "n 1"):
        return check("one observation has no deviation", 1, 1)
    q = F.wme(arr("q", n, d), arr("y", d) if shape == "flat" else arr("y", d, 1), positive("s") if sd == "one" else None)
    shapes("one value per sample", q, (n,))
    s = positive("s") if sd == "one" else np.std(arr("y", d) if shape == "flat" else arr("y", d, 1))
    check("values", q, np.sum((arr("q", n, d) - (arr("y", d) if shape == "flat" else arr("y", d, 1).reshape(d))) / (s * np.sqrt(d)), axis=1))


def ob_transform(case=["N p", "N N", "N 1", "1 p", "1 1", "2 2", "2 p"], shape=["flat", "column", "row"], sd=["one", "each"], repeated=[0, 1]):
    N, p = sized(case)
    A = arr("A", 1, p) if repeated else arr("A", N, p)
    y = arr("y", N) if shape == "flat" else arr("y", N, 1) if shape == "column" else arr("y", 1, N)
    s = 1 + positive("s") if sd == "one" else 1 + posarr("s", N)
    if (repeated or N == 1) and sd == "each":
        return check("repeated measurements have one deviation", 1, 1)
    if shape == "row" and N != 1:
        return check("data are a column or flat", 1, 1)
    a, b = U.transform_linear_map(A, y, s)
    shapes("map", a, (1, p))
    check("offset", np.size(b), 1)


def ob_setup(case=["2 N M p", "2 N N p", "2 N p p", "2 1 1 p", "2 N M 1", "2 1 1 1", "2 p p p"]):
    k, N, M, p = sized(case)
    X, Y = U.transform_linear_setup([arr("A", N, p), arr("B", M, p)], [arr("y", N), arr("z", M)], [1 + (positive("s") if N == 1 else posarr("s", N)), 1 + positive("t")])
    shapes("map", X, (k, p))
    shapes("offset", Y, (k, 1))
    lp = LinearWMEProblem([arr("A", N, p), arr("B", M, p)], [arr("y", N), arr("z", M)], [1 + (positive("s") if N == 1 else posarr("s", N)), 1 + positive("t")])
    shapes("map", lp.A, (k, p))
    shapes("offset", lp.b, (k, 1))
    shapes("data", lp.y, (k, 1))
    shapes("mean", lp.mean_i, (p, 1))
    for m in ["mud", "map", "ls"]:
        shapes(m, lp.solve(m), (p, 1))


def ob_problems(which=["mud", "map"], case=["n p d", "n n d", "n p n", "n n n", "n 1 d", "n p 1", "n 1 1", "2 2 2", "n 2 2"], flat=["none", "parameters"], num=["all", "first"]):
    n, p, d = sized(case)
    lam = arr("X", n, p) if flat == "none" else arr("X", n)
    p = p if flat == "none" else 1
    k = None if num == "all" else 1
    f = F.mud_problem if which == "mud" else F.map_problem
    P_ = f(lam, arr("Y", n, d), arr("true", d), domain(p), positive("sd"), k)
    if which == "map":
        P_.set_prior()
        assume(np.sum(P_._pr * P_._ll) != 0)
    check("sizes", (P_.n_samples, P_.n_params, P_.n_features), (n, p, 1 if which == "mud" else d if k is None else 1))
    shapes("estimate", P_.estimate(), (p,))


def ob_vector_maps(case=["n p", "n n", "n 1", "2 2"], split=["two", "overlapping", "three"]):
    n, p = sized(case)
    d = 4
    sp = [np.array([0, 2]), np.array([1, 3])] if split == "two" else [np.array([0, 1, 2]), np.array([2, 3])] if split == "overlapping" else [np.array([0]), np.array([1]), np.array([2, 3])]
    m = F.mud_problem(arr("X", n, p), arr("Y", n, d), arr("true", d), domain(p), positive("sd"), split=sp)
    check("sizes", (m.n_samples, m.n_params, m.n_features), (n, p, len(sp)))
    shapes("estimate", m.estimate(), (p,))


# -- space-time -------------------------------------------------------------------------------------------------
TIMES = ["n k s t", "n k s s", "n n s t", "n k n t", "n k s n", "n k k k", "n n n n", "n k 1 t", "n k s 1", "n k 1 1", "n 1 s t", "n 1 1 1", "2 2 2 2", "n 2 2 2", "3 1 2 4"]


def space_time(n, k, s, t):
    p = STP()
    p.sensors = arr("sensors", s, 2)
    p.times = arr("times", t)
    p.domain = domain(k)
    p.lam = arr("X", n, k)
    p.data = arr("Y", n, s * t)
    p.measurements = arr("meas", s * t)
    p.true_vals = arr("true", s * t)
    p.std_dev = positive("sd")
    return p


def ob_space_time(case=["n k s t", "n k s s", "n n s t", "n k n t", "n k s n", "n k k k", "n n n n", "n k 1 t", "n k s 1", "n k 1 1", "n 1 s t", "n 1 1 1", "2 2 2 2", "n 2 2 2", "3 1 2 4"]):
    n, k, s, t = sized(case)
    p = space_time(n, k, s, t)
    check("sizes", (p.n_samples, p.n_params, p.n_sensors, p.n_ts), (n, k, s, t))
    shapes("data", p.data, (n, s * t))
    shapes("measurements", p.measurements, (s * t, 1))
    lam, times, sensors, data, m = p.sample_data()
    shapes("parameters", lam, (n, k))
    shapes("sampled data", data, (n, s * t))
    shapes("sampled measurements", np.ravel(m), (s * t,))
    shapes("sampled sensors", sensors, (s, 2))
    shapes("sampled times", np.ravel(times), (t,))
    check("sampled data", data, arr("Y", n, s * t))


def ob_space_time_domain(case=["n k", "n n", "n 1", "n 2", "n 3", "2 2", "3 2", "2 3", "4 4"], flat=[0, 1]):
    # with no domain given, row k is the range of parameter k
    n, k = sized(case)
    X = arr("X", n, k) if not flat else arr("X", n)
    p = STP()
    p.lam = X
    X = X if not flat else np.reshape(X, (n, 1))
    shapes("samples", p.lam, np.shape(X))
    check("domain", p.domain, np.stack([np.min(X, axis=0), np.max(X, axis=0)], axis=1))


def ob_space_time_selected(case=["n k s t", "n k s s", "n n s t", "n k n t", "n k s n", "n n n n", "n k 1 t", "n k s 1", "n 1 1 1", "2 2 2 2"], a=["all", "h", 1], b=["all", "g", 1], c=["all", "f", 1]):
    n, k, s, t = sized(case)
    p = space_time(n, k, s, t)
    h, g, f = (n if a == "all" else D(a)), (t if b == "all" else D(b)), (s if c == "all" else D(c))
    A = None if a == "all" else indices("ma", h, n)
    B = None if b == "all" else indices("mb", g, t)
    C = None if c == "all" else indices("mc", f, s)
    lam, times, sensors, data, m = p.sample_data(samples_mask=A, times_mask=B, sensors_mask=C)
    shapes("parameters", lam, (h, k))
    shapes("data", data, (h, f * g))
    shapes("measurements", np.ravel(m), (f * g,))
    shapes("sensors", sensors, (f, 2))
    shapes("times", np.ravel(times), (g,))


def ob_space_time_data(case=["n k s t", "n k s s", "n k n t", "n n n n", "n k 1 t", "n k s 1", "n k 1 1", "2 2 2 2"], form=["grid", "flat"]):
    n, k, s, t = sized(case)
    p = STP()
    p.sensors = arr("sensors", s, 2)
    p.times = arr("times", t)
    p.lam = arr("X", n, k)
    p.data = arr("Y", n, s, t) if form == "grid" else arr("Y", n, s * t)
    shapes("data", p.data, (n, s * t))
    check("data", p.data, np.reshape(arr("Y", n, s, t), (n, s * t)) if form == "grid" else arr("Y", n, s * t))


def ob_closest(case=["n k s t", "n k s s", "n n s t", "n k n t", "n k 1 1", "n 1 s t", "2 2 2 2"], which=["measurements", "true"]):
    n, k, s, t = sized(case)
    p = space_time(n, k, s, t)
    r = p.get_closest_to_measurements() if which == "measurements" else p.get_closest_to_true_vals()
    shapes("one sample", np.reshape(r, (k,)), (k,))


def ob_noise(case=["n k s t", "n k s s", "n k n t", "n k 1 1", "n k s 1", "n k 1 t", "2 2 2 2"]):
    n, k, s, t = sized(case)
    p = space_time(n, k, s, t)
    p.measurements_from_reference()
    shapes("measurements", p.measurements, (s * t, 1))


def ob_map_problem(case=["n k s t", "n k s s", "n n s t", "n k n t", "n k s n", "n n n n", "n k 1 t", "n k s 1", "n k 1 1", "n 1 s t", "n 1 1 1", "2 2 2 2"]):
    n, k, s, t = sized(case)
    d = space_time(n, k, s, t).mud_problem(method="wme")
    check("sizes", (d.n_samples, d.n_params, d.n_features), (n, k, 1))
    shapes("estimate", d.estimate(), (k,))


def ob_pca_problem(case=["n k s t", "n n s t", "n k n t", "n k s s", "n 1 s t"], comps=[1, 2], method=["pca", "wme_pca", "svd", "wme_svd"]):
    n, k, s, t = sized(case)
    p = space_time(n, k, s, t)
    try:
        d = p.mud_problem(method=method, num_components=comps)
    except ValueError:
        return check("not a method", 1, 1)
    check("sizes", (d.n_samples, d.n_params, d.n_features), (n, k, comps))


# -- helpers ----------------------------------------------------------------------------------------------------
def ob_helpers(case=["n p", "n n", "1 p", "n 1", "1 1", "2 2", "3 2", "2 3"]):
    n, p = sized(case)
    shapes("fitted domain", U.fit_domain(arr("X", n, p)), (p, 2))
    shapes("padded domain", U.fit_domain(min_max_bounds=domain(p)), (p, 2))
    shapes("noise", U.add_noise(arr("X", n, p)), (n, p))
    shapes("noise", U.add_noise(arr("X", n)), (n,))
    shapes("row", U.set_shape(arr("X", n)), (1, n))
    shapes("column", U.set_shape(arr("X", n), (-1, 1)), (n, 1))
    shapes("kept", U.set_shape(arr("X", n, p)), (n, p))


def ob_meshes(N=["N", 2, 3], where=["util", "plot", "normal"]):
    N = D(N)
    f = U.make_2d_unit_mesh if where == "util" else P.make_2d_unit_mesh if where == "plot" else P.make_2d_normal_mesh
    X, Y, XX = f(N)
    shapes("first", X, (N, N))
    shapes("second", Y, (N, N))
    shapes("points", XX, (N * N, 2))


def ob_ranks(case=["2 2", "2 3", "3 2", "1 3", "3 1", "1 1"]):
    d, p = sized(case)
    for M in U.rank_decomposition(arr("A", d, p)):
        shapes("term", M, (d, p))
