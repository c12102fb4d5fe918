# Loaded data and the functional data-constructed solver
STP = SpatioTemporalProblem
NAMES = ["sample_dist", "domain", "sensors", "times", "lam", "data", "lam_ref", "std_dev", "true_vals", "measurements"]


def complete(n, k, s, t):
    return {
        "sample_dist": "n",
        "domain": domain(k),
        "sensors": arr("sensors", s, 2),
        "times": arr("times", t),
        "lam": arr("X", n, k),
        "data": arr("Y", n, s * t),
        "lam_ref": middle(k),
        "std_dev": positive("sd"),
        "true_vals": arr("true", s * t),
        "measurements": arr("meas", s * t),
    }


def middle(k):
    lo, w = arr("dom_lo", k), posarr("dom_width", k)
    return lo + w / 2


def expected(ds, s, t):
    e = dict(ds)
    e["true_vals"] = ds["true_vals"].reshape(s * t, 1)
    e["measurements"] = ds["measurements"].reshape(s * t, 1)
    return e


def flat_times(v):
    return v


def inside_box(p, X):
    dm = domain(p)
    assume(np.all(dm[:, 0] <= np.min(X, axis=0)))
    assume(np.all(dm[:, 1] >= np.max(X, axis=0)))


def same(p, ds, s, t, skip=()):
    for f in NAMES:
        if f in skip:
            continue
        v = ds[f] if f in ds else None
        if v is not None and f in ("true_vals", "measurements"):
            v = v.reshape(s * t, 1)
        check(f, getattr(p, f), v)


def ob_all(how=["load", "construct"], k=["k", 1]):
    n, s, t, k = D("n s t") + (D(k),)
    ds = complete(n, k, s, t)
    if how == "load":
        p = STP()
        r = p.load(ds)
        check("data set returned", r, complete(n, k, s, t))
    else:
        p = STP(ds)
    same(p, complete(n, k, s, t), s, t)


def ob_absent(name=["lam_ref", "std_dev", "true_vals", "measurements", "sample_dist"], how=["absent", "empty"]):
    # an entry that is absent or empty leaves its attribute alone and every other one set
    n, k, s, t = D("n k s t")
    ds = complete(n, k, s, t)
    if how == "absent":
        del ds[name]
    else:
        ds[name] = None
    p = STP()
    if name == "std_dev":
        p.std_dev = 7
    p.load(ds)
    want = complete(n, k, s, t)
    want[name] = 7 if name == "std_dev" else "u" if name == "sample_dist" else None
    if name == "sample_dist":
        # inferred by the parameters
        want[name] = "u"
    same(p, want, s, t)


def ob_custom_key(name=["lam", "data", "measurements", "true_vals", "std_dev", "times", "sensors", "domain", "lam_ref", "sample_dist"]):
    # an attribute asked for under another key takes that entry, and only that one
    n, k, s, t = D("n k s t")
    ds = complete(n, k, s, t)
    good = ds[name]
    ds["custom"] = good
    if name == "std_dev":
        ds[name] = 5
    elif name == "sample_dist":
        ds[name] = "u"
    elif name == "times":
        ds[name] = arr("other_times", t)
    else:
        del ds[name]
    p = STP()
    p.load(ds, **{name: "custom"})
    same(p, complete(n, k, s, t), s, t)


def ob_direct(name=["measurements", "true_vals", "std_dev", "lam_ref", "lam", "data", "times", "sensors", "domain"]):
    # an attribute supplied directly
    n, k, s, t = D("n k s t")
    ds = complete(n, k, s, t)
    good = ds[name]
    del ds[name]
    p = STP()
    p.load(ds, **{name: good})
    same(p, complete(n, k, s, t), s, t)


def ob_missing_custom():
    n, k, s, t = D("n k s t")
    p = STP()
    p.load(complete(n, k, s, t), measurements="no such entry")
    check("not taken from elsewhere", p.measurements, None)
    check("the others are set", p.data, arr("Y", n, s * t))


def ob_extra_attribute():
    n, k, s, t = D("n k s t")
    ds = complete(n, k, s, t)
    ds["note"] = arr("note", 5)
    p = STP()
    p.load(ds, qoi="note")
    same(p, complete(n, k, s, t), s, t)
    check("extra", p.qoi, arr("note", 5))


def ob_twice():
    # loading again replaces what the second set contains and keeps the rest
    n, k, s, t = D("n k s t")
    p = STP()
    p.load(complete(n, k, s, t))
    p.load({"measurements": arr("newer", s * t), "std_dev": positive("newer_sd")})
    want = complete(n, k, s, t)
    want["measurements"] = arr("newer", s * t)
    want["std_dev"] = positive("newer_sd")
    same(p, want, s, t)


def ob_unreadable(name=["nowhere.pkl", "nowhere.nc", "dir/nowhere"]):
    p = STP()
    assume(not exists(name))
    raises("unreadable file", lambda: p.load(name), FileNotFoundError)


def ob_file(name=["data.pkl", "data.nc", "dir/data"], how=["load", "construct"]):
    n, k, s, t = D("n k s t")
    assume(exists(name))
    file_content(name, complete(n, k, s, t))
    if how == "load":
        p = STP()
        p.load(name)
    else:
        p = STP(name)
    same(p, complete(n, k, s, t), s, t)


# ---- functional solver
def residuals(n, m):
    return (arr("meas", m) - arr("Y", n, m)) / positive("sd")


def the_map(method, R, m, n):
    if method == "wme":
        return np.sum(R, axis=1).reshape(n, 1) / np.sqrt(m)
    if method == "pca":
        return R @ PP.pca(R, n_components=2)[0].components_.T
    return R @ PP.svd(R)[2][0:2, :].T


def solved(X, Q, dm, init):
    d = DensityProblem(X, Q, dm)
    d.set_initial(init)
    d.set_observed(stats_dist.norm(0, 1))
    d.estimate()
    return d


def ob_data_prob(method=["wme", "default", "pca", "svd"], init=["given", "default"]):
    n, k, s, t = D("n k s t")
    kw = {}
    if method != "default":
        kw["method"] = method
    if init == "given":
        kw["init_dist"] = Dist("init")
    d = F.data_prob(arr("X", n, k), arr("Y", n, s * t), measurements=arr("meas", s * t), std_dev=positive("sd"),
                    domain=domain(k), times=arr("times", t), sensors=arr("sensors", s, 2), **kw)
    Q = the_map("wme" if method == "default" else method, residuals(n, s * t), s * t, n)
    e = solved(arr("X", n, k), Q, domain(k), Dist("init") if init == "given" else stats_dist.uniform(loc=0, scale=1))
    check("parameters", d.X, arr("X", n, k))
    check("map", d.y, Q)
    check("domain", d.domain, domain(k))
    check("estimate", d.estimate(), e.estimate())
    check("updated density", d._up, e._up)
    check("expected ratio", d.expected_ratio(), e.expected_ratio())


def ob_data_prob_positional():
    n, k, s, t = D("n k s t")
    d = F.data_prob(arr("X", n, k), arr("Y", n, s * t), arr("true", s * t), arr("meas", s * t), positive("sd"), "n", domain(k), middle(k),
                    arr("times", t), arr("sensors", s, 2), None, "wme", Dist("init"))
    e = solved(arr("X", n, k), the_map("wme", residuals(n, s * t), s * t, n), domain(k), Dist("init"))
    check("estimate", d.estimate(), e.estimate())
    check("updated density", d._up, e._up)
    check("domain", d.domain, domain(k))


def ob_data_prob_inferred():
    # sensors, times and domain from the arrays
    n, k, m = D("n k m")
    X = arr("X", n, k)
    d = F.data_prob(X, arr("Y", n, m), measurements=arr("meas", m), std_dev=positive("sd"))
    check("domain", d.domain, np.stack([np.min(X, axis=0), np.max(X, axis=0)], axis=1))
    check("map", d.y, the_map("wme", residuals(n, m), m, n))


def ob_data_prob_rejects():
    n, k, s, t = D("n k s t")
    f = lambda **kw: F.data_prob(arr("X", n, k), arr("Y", n, s * t), std_dev=positive("sd"), domain=domain(k), times=arr("times", t), sensors=arr("sensors", s, 2), **kw)
    raises("unknown map", lambda: f(measurements=arr("meas", s * t), method="mean"), ValueError)
    raises("measurements of another size", lambda: f(measurements=arr("meas", s * t + 1)), ValueError)
    raises("reference outside", lambda: f(measurements=arr("meas", s * t), lam_ref=middle(k) + posarr("dom_width", k)), ValueError)
