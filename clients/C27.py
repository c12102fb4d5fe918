# include C24
# Seeds and draws


def intact(_label, _f, *args, **kw):
    """no public call draws from the global generator or reseeds it, the noisy ones (below) excepted"""
    before = rng()
    r = _f(*args, **kw)
    check(_label + ": generator untouched", rng(), before)
    check(_label + ": no reseeding", effects("seed"), [])
    return r


def quiet_seed(_label, _f, *args, **kw):
    """a call that may draw, but never reseeds"""
    r = _f(*args, **kw)
    check(_label + ": no reseeding", effects("seed"), [])
    return r


# -- calls of the included client that draw ---------------------------------------------------------
def ob_builders(f=["mud", "map"], dom=["array", "none"]):
    n, k, m = D("n k m")
    a = (arr("X", n, k), arr("Y", n, m), arr("true", m), domain(k) if dom == "array" else None)
    if f == "map":
        quiet_seed("builder", F.map_problem, *a)
        quiet_seed("builder", F.map_problem, arr("X", n), arr("Y", n), arr("true", 1), None, 0.1, 1, True)
    else:
        quiet_seed("builder", F.mud_problem, *a)
        quiet_seed("builder", F.mud_problem, *a, weights=posarr("w", n))
        quiet_seed("builder", F.mud_problem, arr("X", n), arr("Y", n), arr("true", 1), None, 0.1, 1)


def ob_builders_split(num=["all", 2]):
    n, k = D("n k")
    a = (arr("X", n, k), arr("Y", n, 4), arr("true", 4), domain(k))
    kw = {} if num == "all" else {"num_obs": 3}
    quiet_seed("columns", F.mud_problem, *a, split=np.array([[0, 1], [2, 3]]), **kw)
    quiet_seed("arrays", F.mud_problem, *a, split=[np.array([0, 2]), np.array([1, 3])], weights=[posarr("w", n), posarr("v", n)], **kw)


def ob_builders_follow_the_generator(f=["mud", "map"], s=[0, 7]):
    """the generator's state is all the noise depends on"""
    n, k, m = D("n k m")
    fun = F.mud_problem if f == "mud" else F.map_problem
    np.random.seed(s)
    p1 = fun(arr("X", n, k), arr("Y", n, m), arr("true", m), domain(k))
    r1 = rng()
    np.random.rand(m)
    np.random.seed(s)
    p2 = fun(arr("X", n, k), arr("Y", n, m), arr("true", m), domain(k))
    check("generator after", rng(), r1)
    if f == "mud":
        check("outputs", p1.y, p2.y)
    else:
        check("estimate", p1.estimate(), p2.estimate())


def ob_builder_draws_one_normal_per_observation(f=["mud", "map"], num=["all", "first"]):
    n, k, m = D("n k m")
    h = D("h") if num == "first" else m
    if num == "first":
        assume(h <= m)
    fun = F.mud_problem if f == "mud" else F.map_problem
    np.random.seed(3)
    fun(arr("X", n, k), arr("Y", n, m), arr("true", m), domain(k), num_obs=h if num == "first" else None)
    r1 = rng()
    np.random.seed(3)
    np.random.randn(h)
    check("generator after", rng(), r1)


def ob_helpers():
    n, k, m = D("n k m")
    intact("null space", U.null_space, arr("A", m, k))
    intact("null space", U.null_space, arr("A", m, k), 0.1)
    intact("ranks", U.rank_decomposition, arr("A", 2, k + 2))
    intact("domain", U.fit_domain, arr("X", n, k), None, 0.5)
    intact("domain of bounds", U.fit_domain, min_max_bounds=arr("b", k, 2), pad_ratio=0.5)
    intact("shape", U.set_shape, arr("v", n), [1, -1])
    intact("deviation", U.std_from_equipment, 0.1, 0.9)
    intact("grid", P.build_nd_mesh_grid, arr("b", 2, 2), 5)
    intact("mesh", P.make_2d_unit_mesh, 4, 3)
    intact("mesh", P.make_2d_normal_mesh, 4, 3)
    intact("mesh", U.make_2d_unit_mesh, 4, 3)
    intact("pca", PP.pca, arr("X", n, k), 2, whiten=True)
    intact("svd", PP.svd, arr("X", n, k))


def ob_spatio_temporal(method=["wme", "pca", "svd"]):
    n, k, s, t, h = D("n k s t h")
    ds = dataset(n, k, s, t)
    p = intact("load", SpatioTemporalProblem, ds)
    intact("nearest", p.get_closest_to_measurements)
    intact("nearest", p.get_closest_to_true_vals)
    intact("selection", p.sample_data, indices("a", h, n), indices("b", h, t), indices("c", h, s))
    intact("nearest", p.get_closest_to_measurements, indices("a", h, n), indices("b", h, t), indices("c", h, s))
    intact("map", p.mud_problem, method, arr("dw", s * t), posarr("w", n), 1)
    intact("map", p.mud_problem, method=method)
    d = p.mud_problem(method=method)
    d.set_observed(stats_dist.norm(0, 1))
    intact("estimate", d.estimate)
    intact("ratio", d.expected_ratio)
    intact("load again", p.load, ds, measurements="true_vals")


def ob_series_plots(what=["ts", "contour", "scatter"]):
    n, k = D("n k")
    s, t = D("s t")
    p = SpatioTemporalProblem(dataset(n, k, s, t))
    ax = Axes("ax")
    if what == "ts":
        quiet_seed("series", p.plot_ts, ax, None, None, 0, 1, {"color": "r"}, {"color": "g"}, 0.2)
        quiet_seed("series", p.plot_ts, ax, max_plot=2)
    elif what == "contour":
        intact("sensors", p.sensor_contour_plot, 0, arr("c", s), ax, None, True, True, levels=3)
    else:
        intact("sensors", p.sensor_scatter_plot, ax, None, True, c=arr("c", s))
        intact("sensors", p.sensor_scatter_plot, ax, indices("m", D("h"), s))


# -- queries that the included client makes without wrapping --------------------------------------------
def ob_queries(cls=["density", "bayes", "linear", "iterative"]):
    n, k, m = D("n k m")
    if cls == "density":
        d = DensityProblem(arr("X", n, k), arr("Y", n, m), domain(k))
        intact("estimate", d.estimate)
        intact("ratio", d.expected_ratio)
        intact("fit", d.fit)
        intact("mud point", d.mud_point)
    elif cls == "bayes":
        b = BayesProblem(arr("X", n, k), arr("Y", n, m), domain(k))
        b.set_likelihood(Dist("ll"))
        intact("fit", b.fit)
        intact("estimate", b.estimate)
        intact("map point", b.map_point)
    elif cls == "linear":
        lp = LinearGaussianProblem(arr("A", n, k), arr("b", n, 1), arr("y", n, 1))
        for how in ("mud", "mud_alt", "map", "ls", "all"):
            intact("solve " + how, lp.solve, how)
    else:
        it = IterativeLinearProblem(arr("A", 2, k), arr("b", 2, 1), arr("y", 2, 1))
        intact("solve", it.solve)
        intact("errors", it.get_errors, arr("ref", k))


# -- the noise itself ---------------------------------------------------------------------------------------
def ob_noise_of_a_seed(s=[0, 1, 42, 21], before=[0, 1, 2]):
    """the seed is what determines the draw, whatever was drawn or seeded before"""
    n = D("n")
    sig, sd = arr("s", n), positive("sd")
    np.random.seed(s)
    want = U.add_noise(sig, sd)
    state = rng()
    for i in range(before):
        np.random.rand(n)
    if before == 2:
        np.random.seed(9)
    check("noise", U.add_noise(sig, sd, seed=s), want)
    check("generator after", rng(), state)
    check("again", U.add_noise(sig, sd, s), want)


def ob_noise_of_a_symbolic_seed():
    n = D("n")
    s = D("seed") - 2
    sig, sd = arr("s", n), positive("sd")
    np.random.seed(s)
    want = U.add_noise(sig, sd)
    state = rng()
    np.random.rand(n)
    check("noise", U.add_noise(sig, sd, seed=s), want)
    check("generator after", rng(), state)


def ob_noise_without_seed():
    n = D("n")
    sig, sd = arr("s", n), positive("sd")
    U.add_noise(sig, sd)
    U.add_noise(sig, sd, None)
    U.add_noise(sig, sd, seed=None)
    U.add_noise(sig)
    check("not reseeded", effects("seed"), [])


def ob_noise_draws_fresh():
    """successive draws without seed use successive generator states"""
    n = D("n")
    sig, sd = arr("s", n), positive("sd")
    np.random.seed(3)
    a = U.add_noise(sig, sd)
    b = U.add_noise(sig, sd)
    np.random.seed(3)
    U.add_noise(sig, sd)
    check("second", U.add_noise(sig, sd), b)


def ob_measurements(s=[0, 1, 42], how=["stored", "given"]):
    n, k, ns, nt = D("n k s t")
    p = SpatioTemporalProblem()
    p.sensors, p.times = arr("sensors", ns, 2), arr("times", nt)
    sd = positive("sd")
    p.true_vals = arr("true", ns, nt)
    p.std_dev = sd
    np.random.seed(s)
    p.measurements_from_reference()
    want, state = p.measurements, rng()
    np.random.rand(3)
    if how == "stored":
        p.measurements_from_reference(seed=s)
    else:
        p.measurements_from_reference(arr("true", ns, nt), sd, s)
    check("measurements", p.measurements, want)
    check("generator after", rng(), state)


def ob_measurements_without_seed():
    ns, nt = D("s t")
    p = SpatioTemporalProblem()
    p.sensors, p.times = arr("sensors", ns, 2), arr("times", nt)
    p.true_vals = arr("true", ns, nt)
    p.std_dev = positive("sd")
    p.measurements_from_reference()
    p.measurements_from_reference(seed=None)
    p.measurements_from_reference(arr("other", ns, nt), 0.1)
    check("not reseeded", effects("seed"), [])


def ob_series_choice_follows_the_generator(s=[0, 4]):
    n, k, ns, nt = D("n k s t")
    p = SpatioTemporalProblem(dataset(n, k, ns, nt))
    a, b = Axes("ax"), Axes("bx")
    np.random.seed(s)
    p.plot_ts(a, max_plot=2)
    r = rng()
    np.random.rand(2)
    np.random.seed(s)
    p.plot_ts(b, max_plot=2)
    check("generator after", rng(), r)
    check("curves", curves(a), curves(b))
