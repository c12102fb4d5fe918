# Example problem generators produce data from the parameters they are given
import mud.examples.simple as SI
import mud.examples.exp_decay as ED
import mud.examples.linear as EL
import mud.examples.comparison as EC
import mud.examples.poisson as EP
import mud.examples.adcirc as EA
from scipy.stats import norm, uniform

STP = SpatioTemporalProblem


# ---- polynomial and identity maps ------------------------------------------------------------------------
def polynomial(n, p, N, init, mu, sd):
    """samples, outputs and data in the order they are drawn"""
    lam = init.rvs(size=(n, 1))
    data = np.array([mu]) if N == 1 else mu + sd * np.random.randn(N)
    return lam, lam ** p, data


def ob_polynomial_samples(p=[1, 2, 5, "p"], N=[1, 4, "N"]):
    n, p, N = D("n"), D(p), D(N)
    init = uniform(loc=real("lo"), scale=positive("width"))
    np.random.seed(3)
    lam, q, data = SI.polynomial_1D_data(p=p, num_samples=n, N=N, init_dist=init, mu=real("mu"), sigma=positive("sd"))
    np.random.seed(3)
    want = polynomial(n, p, N, init, real("mu"), positive("sd"))
    check("samples", lam, want[0])
    check("outputs", q, want[1])
    check("number of data", np.shape(data), (N,))


def ob_polynomial_single(p=[1, 5]):
    # one datum is the mean itself
    n = D("n")
    lam, q, data = SI.polynomial_1D_data(p, n, mu=real("mu"), sigma=positive("sd"))
    check("data", data, np.array([real("mu")]))


def ob_polynomial_deviation():
    n, N = D("n N")
    init = uniform(loc=0, scale=1)
    np.random.seed(3)
    lam, q, data = SI.polynomial_1D_data(p=5, num_samples=n, N=N, mu=real("mu"), sigma=positive("sd"))
    np.random.seed(3)
    want = polynomial(n, 5, N, init, real("mu"), positive("sd"))[2]
    np.random.seed(3)
    check("deviation of the data", data, want, known=polynomial(n, 5, N, init, real("mu"), positive("sd") ** 2)[2])


def ob_polynomial_domain():
    # with a domain given, samples are uniform over it
    n = D("n")
    dm = domain(1)
    np.random.seed(3)
    lam, q, data = SI.polynomial_1D_data(p=5, num_samples=n, domain=dm)
    np.random.seed(3)
    want = uniform(loc=dm[0, 0], scale=dm[0, 1] - dm[0, 0]).rvs(size=(n, 1))
    np.random.seed(3)
    check("samples over the domain", lam, want, known=uniform(loc=0, scale=1).rvs(size=(n, 1)))


def ob_identity_density(weights=[0, 1], init=["default", "given"], analytical=[True, False, "default"], normalize=[False, True]):
    n, N = D("n N")
    lo = real("lo")
    box = [lo, lo + positive("width")]
    given = uniform(loc=real("a"), scale=positive("b"))
    start = given if init == "given" else uniform(loc=lo, scale=box[1] - box[0])
    kw = {} if analytical == "default" else {"analytical_pred": analytical}
    if init == "given":
        kw["init_dist"] = given
    w = posarr("w", n) if weights else None
    np.random.seed(3)
    d = SI.identity_1D_density_prob(n, N, real("mu"), positive("sd"), weights=w, domain=box, normalize=normalize, **kw)
    np.random.seed(3)
    X = start.rvs(size=(n, 1))
    check("samples", d.X, X)
    check("outputs", d.y, X)
    check("domain", d.domain, np.array([box]))
    e = DensityProblem(X, X, box, weights=w, normalize=normalize)
    e.set_initial(start)
    np.random.seed(3)
    data = SI.polynomial_1D_data(1, n, init_dist=start, mu=real("mu"), sigma=positive("sd"), N=N)[2]
    e.set_observed(stats_dist.norm(np.mean(data), positive("sd")))
    if analytical is not False:
        e.set_predicted(start)
    check("updated density", d.estimate(), e.estimate())
    check("expected ratio", d.expected_ratio(), e.expected_ratio())


def ob_identity_bayes(domain_=[0, 1], init=["default", "given"]):
    n, N = D("n N")
    start = uniform(loc=real("a"), scale=positive("b")) if init == "given" else uniform(loc=0, scale=1)
    kw = {"init_dist": start} if init == "given" else {}
    if domain_:
        kw["domain"] = [real("a"), real("a") + positive("b")] if init == "given" else [0, 1]
    np.random.seed(3)
    b = SI.identity_1D_bayes_prob(n, N, real("mu"), positive("sd"), **kw)
    np.random.seed(3)
    X = start.rvs(size=(n, 1))
    check("samples", b.X, X)
    check("outputs", b.y, X)
    if domain_:
        check("domain", b.domain, np.array([kw["domain"]]))
    np.random.seed(3)
    data = SI.polynomial_1D_data(1, n, init_dist=start, mu=real("mu"), sigma=positive("sd"), N=N)[2]
    b.set_prior(Dist("PR"))
    ll = product(norm(loc=data, scale=positive("sd")).pdf(X))
    assume(np.sum(product(pdf("PR", X)) * ll) != 0)
    b.fit()
    check("likelihood", b._ll, ll)


def ob_identity_temporal():
    n, N = D("n N")
    d = SI.identity_1D_temporal_prob(n, N)
    check("parameters", d.n_params, 1)


# ---- exponential decay -------------------------------------------------------------------------------------
def ob_decay_1d(domain_=["default", "given"], u0=["default", "given"]):
    n = D("n")
    kw = {}
    box = [0, 1]
    if domain_ == "given":
        box = [0.25, 0.75]
        kw["domain"] = box
    u = 0.75
    if u0 == "given":
        u = kw["u_0"] = real("u")
    np.random.seed(3)
    p = ED.exp_decay_1D(num_samples=n, time_range=[0, 2.0], sampling_freq=2.0, lambda_true=real("true"), std_dev=positive("sd"), **kw)
    np.random.seed(3)
    lam = uniform(loc=box[0], scale=box[1] - box[0]).rvs(size=n)
    t = np.array([0.0, 0.5, 1.0, 1.5])
    check("times", p.times, t)
    check("domain", p.domain, np.array([box]))
    check("samples", p.lam, np.reshape(lam, (n, 1)))
    check("data", p.data, u * np.exp(-np.reshape(lam, (n, 1)) * np.reshape(t, (1, 4))))
    check("true values", p.true_vals, np.reshape(u * np.exp(-real("true") * t), (4, 1)))
    check("deviation", p.std_dev, positive("sd"))


def ob_decay_1d_start():
    p = ED.exp_decay_1D(num_samples=D("n"), time_range=[0, 2.0], t_start=1.0, sampling_freq=4.0)
    check("times", p.times, np.array([1.0, 1.25, 1.5, 1.75]))


def ob_decay_2d():
    n = D("n")
    p = ED.exp_decay_2D(num_samples=n, time_range=[0, 2.0], sampling_freq=2.0)
    check("samples", np.shape(p.lam), (n, 2))


# ---- linear problems -----------------------------------------------------------------------------------------
def ob_noisy_data(std=["one", "each"], num=["default", "given"], rows=["all", "single"]):
    p, m = D("p m")
    M = arr("M", m, p) if rows == "all" else arr("M", 1, p)
    ref = arr("ref", p)
    s = positive("s") if std == "one" else posarr("s", m)
    if rows == "all" or num == "given":
        np.random.seed(3)
        got = EL.noisy_linear_data(M, ref, s, **({} if num == "default" else {"num_data": m}))
        np.random.seed(3)
        z = np.random.randn(m, 1)[:, 0]
        check("data", got, (M @ ref if rows == "all" else (M @ ref)[0] * np.ones(m)) + s * z)


def ob_noisy_data_rejects(what=["reference", "rows", "deviations"]):
    p, m = D("p m")
    if what == "reference":
        raises("reference of other length", lambda: EL.noisy_linear_data(arr("M", m, p), arr("r", p + 1), 0.1), AssertionError, ValueError)
    elif what == "rows":
        raises("other number of rows", lambda: EL.noisy_linear_data(arr("M", m + 1, p), arr("r", p), 0.1, m + 2), AssertionError, ValueError)
    else:
        raises("other number of deviations", lambda: EL.noisy_linear_data(arr("M", m, p), arr("r", p), posarr("s", m + 1)), AssertionError, ValueError)


def ob_random_linear(mean=[0, 1], cov=[0, 1]):
    p, d = D("p d")
    kw = {}
    if mean:
        kw["mean_i"] = arr("m", p, 1)
    if cov:
        kw["cov_i"] = arr("S", p, p)
    ref, lp = EL.random_linear_problem(p, d, seed=5, **kw)
    np.random.seed(5)
    A = np.random.randn(d, p)
    b = np.random.randn(d).reshape(-1, 1)
    r = np.random.randn(p).reshape(-1, 1)
    check("map", lp.A, A)
    check("offset", lp.b, b)
    check("reference", ref, r)
    check("data of the reference", lp.y, A @ r + b)
    check("mean", lp.mean_i, arr("m", p, 1) if mean else np.zeros((p, 1)))
    if cov:
        check("covariance", lp.cov_i, arr("S", p, p))


def ob_rotation_map(q=[3, 4], b=[0, 1], ref=[0, 1]):
    kw = {}
    if b:
        kw["b"] = arr("b", q, 1)
    if ref:
        kw["ref_param"] = arr("ref", 2, 1)
    A, o, y, m, S_, r = EL.rotation_map(qnum=q, tol=positive("tol"), **kw)
    th = np.linspace(0, np.pi, q)
    want = np.stack([np.sin(th), np.cos(th)], axis=1)
    check("map", A, want)
    check("offset", o, arr("b", q, 1) if b else np.zeros((q, 1)))
    check("reference", r, arr("ref", 2, 1) if ref else np.array([[0.5], [0.5]]))
    check("data", y, want @ r + o)
    check("mean", np.shape(m), (2, 1))
    check("covariance", S_, np.eye(2) * U.std_from_equipment(positive("tol")))


def ob_rotation_map_seed():
    # the seed given fixes the initial mean
    m = EL.rotation_map(qnum=3, seed=5)[3]
    np.random.seed(5)
    want = np.random.randn(2).reshape(-1, 1)
    np.random.seed(24)
    check("initial mean of the seed", m, want, known=np.random.randn(2).reshape(-1, 1))


def wme_case(dist, repeated, q):
    """what the generator is asked for: one map, one data vector of the requested length per quantity; the noise carries the deviation
    asked for, whatever number of draws the maps take"""
    p, k = D("p"), 3
    run = {}
    for f in (0, 1, 2):
        s = [f * positive("s%d" % i) if f else positive("s%d" % i) * 0 for i in range(q)]
        np.random.seed(3)
        run[f] = EL.random_linear_wme_problem(arr("ref", p), s, num_qoi=q, num_observations=[k] * q, dist=dist, repeated=repeated)
    ops, data, sd = run[1]
    check("maps", len(ops), q)
    check("data", [np.shape(x) for x in data], [(k,)] * q)
    check("deviations", [x for x in sd], [positive("s%d" % i) for i in range(q)])
    for i in range(q):
        check("map", np.shape(ops[i]), (1, p))
        check("same map", run[2][0][i], ops[i])
        check("data without noise", run[0][1][i], (ops[i] @ arr("ref", p))[0] * np.ones(k))
        check("noise in proportion", run[2][1][i] - run[0][1][i], 2 * (data[i] - run[0][1][i]))
    # the first quantity's noise: standard normal draws, after a map of as many rows as it takes one quantity (or each observation) to draw
    noise = (data[0] - run[0][1][0]) / positive("s0")
    left = 1
    for rows in (1, q, k):
        np.random.seed(3)
        M = np.random.randn(rows, p) if dist == "normal" else np.random.rand(rows, p)
        left = left * (noise - np.random.randn(k))
    check("standard noise", left, np.zeros(k))


def ob_wme_operators(dist=["normal", "uniform"], q=[1, 2]):
    wme_case(dist, True, q)


def ob_wme_operator_rows():
    # a map that differs between the observations has one row each
    p = D("p")
    np.random.seed(3)
    ops, data, sd = EL.random_linear_wme_problem(arr("ref", p), [positive("s")], num_qoi=1, num_observations=[3])
    np.random.seed(3)
    want = np.random.randn(3, p)
    np.random.seed(3)
    check("rows of the map", ops[0], want, known=np.random.randn(1, p))


def ob_wme_operators_several():
    p = D("p")
    ops, data, sd = EL.random_linear_wme_problem(arr("ref", p), [positive("s"), positive("t")], num_qoi=2, num_observations=[3, 3])
    check("rows of the maps", [np.shape(x) for x in ops], [(3, p), (3, p)])


def ob_wme_operators_one_deviation():
    ops, data, sd = EL.random_linear_wme_problem(arr("ref", D("p")), 0.5, num_qoi=2, num_observations=3, repeated=True)
    check("deviations", [x for x in sd], [0.5, 0.5])


def ob_contours(given=["none", "map", "data", "covariance"], plot=["all", "map", "mud", "comparison", "consistent", "tikhonov", "data_mismatch"]):
    kw = {}
    if given == "map":
        kw = {"A": arr("A", 1, 2)}
    elif given == "data":
        kw = {"y": arr("y", 1, 1), "b": arr("b", 1, 1)}
    elif given == "covariance":
        kw = {"cov_i": arr("S", 2, 2), "cov_o": arr("R", 1, 1), "mean_i": arr("m", 2, 1)}
    lp = EL.run_contours(plot_fig=[plot], **kw)
    check("map", lp.A, kw.get("A", np.array([[1, 1]])))
    check("data", lp.y, kw.get("y", np.array([[1]])))
    check("offset", lp.b, kw.get("b", np.array([[0]])))
    check("mean", lp.mean_i, kw.get("mean_i", np.array([[0.25], [0.25]])))
    check("covariance", lp.cov_i, kw.get("cov_i", np.array([[1, -0.25], [-0.25, 0.5]])))
    check("data covariance", lp.cov_o, kw.get("cov_o", np.array([[1]])))


# ---- stored data sets -----------------------------------------------------------------------------------------
def stored(n, k, s, t):
    return {"lam": arr("X", n, k), "data": arr("Y", n, s * t), "true_vals": arr("true", s * t), "domain": domain(k), "sensors": arr("sensors", s, 2),
            "lam_ref": (domain(k)[:, 0] + domain(k)[:, 1]) / 2, "times": arr("times", t)}


def ob_poisson_load(sd=["default", 0.05]):
    n, k, s = D("n k s")
    assume(exists("poisson.pkl"))
    file_content("poisson.pkl", stored(n, k, s, 1))
    kw = {} if sd == "default" else {"std_dev": sd}
    data, p = EP.load_poisson_prob("poisson.pkl", seed=7, **kw)
    check("samples", p.lam, arr("X", n, k))
    check("outputs", p.data, arr("Y", n, s))
    check("domain", p.domain, domain(k))
    check("sensors", p.sensors, arr("sensors", s, 2))
    check("true values", p.true_vals, np.reshape(arr("true", s), (s, 1)))
    check("deviation", p.std_dev, 0.05)
    np.random.seed(7)
    check("measurements", p.measurements, np.reshape(arr("true", s) + 0.05 * np.random.randn(s), (s, 1)))


def ob_poisson_deviation():
    n, k, s = D("n k s")
    assume(exists("poisson.pkl"))
    file_content("poisson.pkl", stored(n, k, s, 1))
    data, p = EP.load_poisson_prob("poisson.pkl", std_dev=positive("sd"))
    check("requested deviation", p.std_dev, positive("sd"), known=0.05)


def ob_adcirc_load(sd=["default", 0.05]):
    n, k, t = D("n k t")
    assume(exists("adcirc.nc"))
    file_content("adcirc.nc", stored(n, k, 1, t))
    kw = {} if sd == "default" else {"std_dev": sd}
    data, p = EA.load_adcirc_prob("adcirc.nc", seed=7, **kw)
    check("samples", p.lam, arr("X", n, k))
    check("outputs", p.data, arr("Y", n, t))
    check("domain", p.domain, domain(k))
    check("times", p.times, arr("times", t))
    check("sensors", p.sensors, np.array([[0, 0]]))
    check("true values", p.true_vals, np.reshape(arr("true", t), (t, 1)))
    np.random.seed(7)
    check("measurements", p.measurements, np.reshape(arr("true", t) + 0.05 * np.random.randn(t), (t, 1)))


def ob_adcirc_deviation():
    n, k, t = D("n k t")
    assume(exists("adcirc.nc"))
    file_content("adcirc.nc", stored(n, k, 1, t))
    data, p = EA.load_adcirc_prob("adcirc.nc", std_dev=positive("sd"))
    check("requested deviation", p.std_dev, positive("sd"), known=0.05)


# ---- comparison study --------------------------------------------------------------------------------------------
def ob_comparison(N=[1, 3], p=[1, 5]):
    n = D("n")
    box = [-1, 1]
    np.random.seed(3)
    lam, q, data = SI.polynomial_1D_data(p=p, num_samples=n, N=N, mu=real("mu"), sigma=positive("sd"))
    e = DensityProblem(lam, q, box)
    e.set_observed(norm(loc=np.mean(data), scale=positive("sd")))
    f = BayesProblem(lam, q, box)
    f.set_likelihood(norm(loc=data, scale=positive("sd")))
    f.set_prior()
    assume(np.sum(f._pr * f._ll) != 0)
    np.random.seed(3)
    (d, b, ax), = EC.run_comparison_example(p=p, num_samples=n, mu=real("mu"), sigma=positive("sd"), domain=box, N_vals=[N])
    check("MUD estimate", d.mud_point(), e.estimate())
    check("MAP estimate", b.map_point(), f.estimate())
    check("domains", (d.domain, b.domain), (np.array([box]), np.array([box])))
    check("samples", (d.X, b.X), (lam, lam))
