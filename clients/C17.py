STP = SpatioTemporalProblem


def bounds(X):
    return np.stack([np.min(X, axis=0), np.max(X, axis=0)], axis=1)


def with_grid(s, t):
    p = STP()
    p.sensors, p.times = arr("sensors", s, 2), arr("times", t)
    return p


def ob_empty():
    p = STP()
    check("nothing set", (p.lam, p.domain, p.data, p.measurements, p.true_vals, p.lam_ref, p.sample_dist, p.sensors, p.times, p.std_dev), (None,) * 10)


def ob_lam(shape=["matrix", "flat", "column"]):
    n, k = D("n k")
    X = arr("X", n, k) if shape == "matrix" else arr("X", n) if shape == "flat" else arr("X", n, 1)
    X2 = X if shape != "flat" else X.reshape(n, 1)
    p = STP()
    p.lam = X
    check("parameters", p.lam, X2)
    check("domain inferred", p.domain, bounds(X2))
    check("sampling type inferred", p.sample_dist, "u")
    check("sizes", (p.n_samples, p.n_params), (n, k if shape == "matrix" else 1))


def ob_lam_list():
    p = STP()
    p.lam = [[real("a"), real("b")], [real("c"), real("d")], [real("e"), real("f")]]
    check("parameters", p.lam, np.array([[real("a"), real("b")], [real("c"), real("d")], [real("e"), real("f")]]))


def ob_lam_domain(shape=["matrix", "flat"], k=["k", 1, 2], m=["m", 1, 2, 3]):
    n, k, m = D("n"), D(k), D(m)
    if shape == "flat" and k != 1:
        return
    X = arr("X", n, k) if shape == "matrix" else arr("X", n)
    p = STP()
    p.domain = domain(m)
    if k == m:
        p.lam = X
        check("parameters", p.lam, X.reshape(n, k))
        check("domain kept", p.domain, domain(m))
    else:
        def f():
            p.lam = X

        raises("parameters of other dimension than the domain", f, ValueError)
        check("nothing stored", p.lam, None)


def ob_lam_keeps_type():
    n, k = D("n k")
    p = STP()
    p.sample_dist = "n"
    p.lam = arr("X", n, k)
    check("sampling type kept", p.sample_dist, "n")


def ob_domain_shape(shape=["matrix", "flat", "list", "nested"]):
    p = STP()
    a, b, c, d = real("a"), real("b"), real("c"), real("d")
    given = np.array([[a, b], [c, d]]) if shape == "matrix" else np.array([a, b, c, d]) if shape == "flat" else [a, b, c, d] if shape == "list" else [[a, b], [c, d]]
    p.domain = given
    check("rows of bounds", p.domain, np.array([[a, b], [c, d]]))
    check("parameters", p.n_params, 2)


def ob_domain_one(given=["flat", "nested"]):
    p = STP()
    p.domain = [real("a"), real("b")] if given == "flat" else [[real("a"), real("b")]]
    check("one row", p.domain, np.array([[real("a"), real("b")]]))


def ob_domain_after(k=["k", 1, 2], m=["m", 1, 3, "k"]):
    n, k, m = D("n"), D(k), D(m)
    if k != m:
        p = STP()
        p.lam = arr("X", n, k)

        def f():
            p.domain = domain(m)

        raises("domain of other dimension than the parameters", f, ValueError)
        check("domain kept", p.domain, bounds(arr("X", n, k)))


def ob_domain_contains(k=["k", 1, 2]):
    n, k = D("n"), D(k)
    X, dm = arr("X", n, k), domain(k)
    p = STP()
    p.lam = X

    def f():
        try:
            p.domain = dm
            return "set"
        except ValueError:
            return "rejected"

    inside = np.all(dm[:, 0] <= np.min(X, axis=0)) and np.all(dm[:, 1] >= np.max(X, axis=0))
    check("set when it contains the parameters", f(), "set" if inside else "rejected")
    check("domain", p.domain, dm if inside else bounds(X))


def ob_domain_wider():
    # every wider domain is accepted, a narrower one refused
    n, k = D("n k")
    X = arr("X", n, k)
    p = STP()
    p.lam = X
    b = bounds(X)
    w = posarr("w", k)
    p.domain = np.stack([b[:, 0] - w, b[:, 1] + w], axis=1)
    check("wider", p.domain, np.stack([b[:, 0] - w, b[:, 1] + w], axis=1))

    def lower():
        p.domain = np.stack([b[:, 0] + w, b[:, 1] + w], axis=1)

    def upper():
        p.domain = np.stack([b[:, 0] - w, b[:, 1] - w], axis=1)

    raises("lower bound above a parameter", lower, ValueError)
    raises("upper bound below a parameter", upper, ValueError)


def ob_lam_ref(k=["k", 1, 2], shape=["flat", "column", "row"]):
    k = D(k)
    r, dm = arr("r", k), domain(k)
    p = STP()
    p.domain = dm

    def f():
        try:
            p.lam_ref = r if shape == "flat" else r.reshape(k, 1) if shape == "column" else r.reshape(1, k)
            return "set"
        except ValueError:
            return "rejected"

    inside = np.all(dm[:, 0] <= r) and np.all(r <= dm[:, 1])
    check("set when inside the domain", f(), "set" if inside else "rejected")
    check("reference", p.lam_ref, r if inside else None)


def ob_lam_ref_number():
    p = STP()
    p.domain = [0, 1]
    p.lam_ref = 0.5
    check("number", p.lam_ref, np.array([0.5]))
    p.lam_ref = [1]
    check("on the upper bound", p.lam_ref, np.array([1]))
    p.lam_ref = [0]
    check("on the lower bound", p.lam_ref, np.array([0]))

    def above():
        p.lam_ref = 1.5

    def below():
        p.lam_ref = [-0.5]

    raises("above", above, ValueError)
    raises("below", below, ValueError)
    check("kept", p.lam_ref, np.array([0]))


def ob_lam_ref_unset():
    p = STP()

    def f():
        p.lam_ref = 0.5

    raises("no domain", f, AttributeError, ValueError)


def ob_lam_ref_length(m=[1, 3], k=[2]):
    p = STP()
    p.domain = [[0, 1], [0, 1]]

    def f():
        p.lam_ref = [0.5] * m

    raises("reference of other dimension than the domain", f, ValueError, IndexError)


def ob_lam_ref_inferred_domain():
    n, k = D("n k")
    X = arr("X", n, k)
    p = STP()
    p.lam = X
    w = posarr("w", k)

    def f():
        p.lam_ref = np.max(X, axis=0) + w

    raises("above the inferred domain", f, ValueError)


def ob_data(shape=["matrix", "cube", "flat"], known=["none", "sensors", "times", "both"]):
    n, s, t = D("n s t")
    k = D("k")
    p = STP()
    if shape == "flat":
        Y, cols = arr("Y", n), 1
        s = t = 1
    elif known in ("none",):
        Y, cols = arr("Y", n, k), k
        if shape == "cube":
            Y, cols = arr("Y", n, s, t), s * t
    elif known == "sensors":
        Y, cols = arr("Y", n, s), s
        if shape == "cube":
            Y = Y.reshape(n, s, 1)
    elif known == "times":
        Y, cols = arr("Y", n, t), t
        if shape == "cube":
            Y = Y.reshape(n, 1, t)
    else:
        Y, cols = arr("Y", n, s * t), s * t
        if shape == "cube":
            Y = arr("Y", n, s, t)
    if known in ("sensors", "both"):
        p.sensors = arr("sensors", s, 2)
    if known in ("times", "both"):
        p.times = arr("times", t)
    p.data = Y
    check("data", p.data, Y.reshape(n, cols))
    check("sensors", p.sensors, arr("sensors", s, 2) if known in ("sensors", "both") else np.array([0]))
    check("times", p.times, arr("times", t) if known in ("times", "both") else np.array([0]) if known == "sensors" else np.arange(cols))
    check("sizes", (p.n_sensors, p.n_ts), (s if known in ("sensors", "both") else 1, t if known in ("times", "both") else 1 if known == "sensors" else cols))


def ob_data_mismatch(known=["sensors", "times", "both", "both cube"]):
    n, s, t, k = D("n s t k")
    p = STP()
    if known in ("sensors", "both", "both cube"):
        p.sensors = arr("sensors", s, 2)
    if known in ("times", "both", "both cube"):
        p.times = arr("times", t)

    def f():
        p.data = arr("Y", n, s, k) if known == "both cube" else arr("Y", n, k)

    raises("columns other than sensors x times", f, ValueError)
    check("nothing stored", p.data, None)


def ob_data_mismatch_numbers(c=[1, 2, 3, 4, 5, 6, 7]):
    n = D("n")
    p = STP()
    p.sensors, p.times = arr("sensors", 2, 2), arr("times", 3)

    def f():
        p.data = arr("Y", n, c)

    if c == 6:
        f()
        check("data", p.data, arr("Y", n, 6))
    else:
        raises("columns other than sensors x times", f, ValueError)


def ob_data_again():
    # the inferred sensors and times bind later arrays
    n, k, m = D("n k m")
    p = STP()
    p.data = arr("Y", n, k)
    p.data = arr("Z", n, k)
    check("replaced", p.data, arr("Z", n, k))

    def f():
        p.data = arr("Y", n, m)

    raises("columns other than inferred", f, ValueError)
    check("kept", p.data, arr("Z", n, k))


def ob_vectors(which=["measurements", "true_vals"], shape=["flat", "column", "row", "grid"], s=["s", 1], t=["t", 1]):
    s, t = D(s), D(t)
    p = with_grid(s, t)
    v = arr("v", s * t) if shape == "flat" else arr("v", s * t, 1) if shape == "column" else arr("v", 1, s * t) if shape == "row" else arr("v", s, t)
    setattr(p, which, v)
    check("one per sensor and time", getattr(p, which), v.reshape(s * t, 1))


def ob_vectors_mismatch(which=["measurements", "true_vals"], shape=["flat", "grid"]):
    s, t, k = D("s t k")
    p = with_grid(s, t)
    raises("other number of values", lambda: setattr(p, which, arr("v", k) if shape == "flat" else arr("v", s, k)), ValueError)
    check("nothing stored", getattr(p, which), None)


def ob_vectors_mismatch_numbers(which=["measurements", "true_vals"], k=[1, 2, 3, 5, 7]):
    p = with_grid(2, 3)
    raises("other number of values", lambda: setattr(p, which, arr("v", k)), ValueError)


def ob_vectors_unset(which=["measurements", "true_vals"], known=["none", "sensors", "times"]):
    p = STP()
    if known == "sensors":
        p.sensors = arr("sensors", 2, 2)
    if known == "times":
        p.times = arr("times", 3)
    raises("no sensors or times", lambda: setattr(p, which, arr("v", 6)), AttributeError, ValueError)


def ob_vectors_list(which=["measurements", "true_vals"]):
    p = with_grid(2, 1)
    setattr(p, which, [real("a"), real("b")])
    check("column", getattr(p, which), np.array([[real("a")], [real("b")]]))


def ob_sample_dist(kind=["u", "n"]):
    p = STP()
    p.sample_dist = kind
    check("sampling type", p.sample_dist, kind)


def ob_sample_dist_bad(kind=["uniform", "normal", "U", "", "x", None, 1]):
    p = STP()

    def f():
        p.sample_dist = kind

    raises("unknown sampling type", f, ValueError)
    check("nothing stored", p.sample_dist, None)


def ob_sample_dist_any():
    p = STP()
    kind = text("kind")
    assume(kind != "u")
    assume(kind != "n")

    def f():
        p.sample_dist = kind

    raises("any other sampling type", f, ValueError)


def ob_unset_sizes(what=["n_samples", "n_qoi", "n_sensors", "n_ts"]):
    p = STP()
    raises("size of something not set", lambda: getattr(p, what), AttributeError)


def ob_validate(missing=["domain", "lam", "data", "measurements", "none"]):
    n, k, s, t = D("n k s t")
    p = with_grid(s, t)
    if missing == "domain":
        pass
    elif missing == "lam":
        p.domain = domain(k)
    else:
        p.lam = arr("X", n, k)
    if missing != "data":
        p.data = arr("Y", n, s * t)
    if missing != "measurements":
        p.measurements = arr("v", s * t)
    if missing == "none":
        check("complete", p.validate(), None)
        check("complete without measurements", p.validate(check_meas=False), None)
    elif missing == "measurements":
        check("complete without measurements", p.validate(check_meas=False), None)
        raises("incomplete", lambda: p.validate(), ValueError)
    else:
        raises("incomplete", lambda: p.validate(), ValueError)
        raises("incomplete either way", lambda: p.validate(check_meas=False), ValueError)


def ob_validate_true(missing=["lam_ref", "true_vals", "none"]):
    n, s, t = D("n s t")
    p = with_grid(s, t)
    p.domain = [[0, 1], [0, 1]]
    p.lam = arr("X", n, 2)
    p.data = arr("Y", n, s * t)
    p.measurements = arr("v", s * t)
    if missing != "lam_ref":
        p.lam_ref = [0.5, 0.25]
    if missing != "true_vals":
        p.true_vals = arr("u", s * t)
    if missing == "none":
        check("complete", p.validate(True, True), None)
    else:
        raises("incomplete", lambda: p.validate(check_true=True), ValueError)


def ob_reference_values_of_measurements(size=["longer", "shorter", "one", "more rows"], std=["given", "set"]):
    # reference values handed to measurements_from_reference are set like any others
    s, t, k = D("s t k")
    p = with_grid(s, t)
    kw = {"std_dev": 0.1} if std == "given" else {}
    if std == "set":
        p.std_dev = 0.1
    ref = arr("ref", s * t + k) if size == "longer" else arr("ref", s * t + 1) if size == "one" else arr("ref", s, t + 1) if size == "more rows" else arr("ref", 2, s * t)
    raises("reference of other length", lambda: p.measurements_from_reference(ref, **kw), ValueError)
    q = with_grid(s, t)
    if std == "set":
        q.std_dev = 0.1
    q.measurements_from_reference(arr("ref", s, t), **kw)
    check("true values", q.true_vals, np.reshape(arr("ref", s, t), (s * t, 1)))


def ob_load_mismatch(known=["sensors", "times", "both"], how=["load", "construct"]):
    # a data set whose arrays do not fit together is refused
    n, s, t, k, q = D("n s t k q")
    ds = {"domain": domain(k), "lam": arr("X", n, k), "data": arr("Y", n, q)}
    assume(np.all(domain(k)[:, 0] <= np.min(arr("X", n, k), axis=0)))
    assume(np.all(domain(k)[:, 1] >= np.max(arr("X", n, k), axis=0)))
    if known != "times":
        ds["sensors"] = arr("sensors", s, 2)
    if known != "sensors":
        ds["times"] = arr("times", t)

    def f():
        if how == "construct":
            STP(ds)
        else:
            STP().load(ds)

    raises("columns other than sensors x times", f, ValueError)
