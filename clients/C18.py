STP = SpatioTemporalProblem


def problem(n, k, s, t, meas=True, sens="plane"):
    p = STP()
    p.sensors = arr("sensors", s, 2) if sens == "plane" else arr("sensors", s)
    p.times = arr("times", t)
    p.lam = arr("X", n, k)
    p.data = arr("Y", n, s * t)
    if meas:
        p.measurements = arr("meas", s * t)
    return p


def grid(Y, n, s, t):
    return np.reshape(Y, (n, s, t))


def ob_whole(meas=[0, 1], how=["default", "none"], sens=["plane", "line"], s=["s", 1], t=["t", 1]):
    n, k, s, t = D("n k") + (D(s), D(t))
    p = problem(n, k, s, t, meas, sens)
    lam, times, sensors, data, m = p.sample_data() if how == "default" else p.sample_data(None, None, None)
    check("parameters", lam, arr("X", n, k))
    check("times", np.ravel(times), arr("times", t))
    check("sensors", sensors, arr("sensors", s, 2) if sens == "plane" else arr("sensors", s))
    check("data", data, arr("Y", n, s * t))
    check("measurements", m, arr("meas", s * t) if meas else None)


def masks(size, kind, name):
    """an index list over the axis and the entries it selects"""
    if kind == "all":
        return None, list(range(size))
    if kind == "first":
        return [0], [0]
    if kind == "swap":
        return [size - 1, 0], [size - 1, 0]
    if kind == "array":
        return np.array([1, size - 1]), [1, size - 1]
    if kind == "boolean":
        m = [i % 2 == 0 for i in range(size)]
        return np.array(m), [i for i in range(size) if i % 2 == 0]


def ob_select(sm=["all", "swap", "boolean"], tm=["all", "first", "swap", "array", "boolean"], xm=["all", "first", "swap", "array", "boolean"], meas=[1]):
    k = D("k")
    N, s, t = 3, 4, 3
    p = problem(N, k, s, t, meas)
    (a, ai), (b, bi), (c, ci) = masks(N, sm, "samples"), masks(t, tm, "times"), masks(s, xm, "sensors")
    lam, times, sensors, data, m = p.sample_data(samples_mask=a, times_mask=b, sensors_mask=c)
    Y = grid(arr("Y", N, s * t), N, s, t)
    M = np.reshape(arr("meas", s * t), (s, t))
    check("parameters", lam, np.stack([arr("X", N, k)[i, :] for i in ai]))
    check("times", np.ravel(times), np.array([arr("times", t)[i] for i in bi]))
    check("sensors", sensors, np.stack([arr("sensors", s, 2)[i, :] for i in ci]))
    check("data", data, np.array([[Y[i, j, l] for j in ci for l in bi] for i in ai]))
    check("measurements", m, np.array([M[j, l] for j in ci for l in bi]))


def ob_select_samples(mask=["index", "boolean"], meas=[0, 1]):
    # any number of samples
    n, k, s, t, h = D("n k s t h")
    p = problem(n, k, s, t, meas)
    a = indices("mask", h, n)
    lam, times, sensors, data, m = p.sample_data(samples_mask=a)
    check("parameters", lam, arr("X", n, k)[a, :])
    check("data", data, arr("Y", n, s * t)[a, :])
    check("measurements", m, arr("meas", s * t) if meas else None)


def ob_select_times():
    n, k, s, t, h = D("n k s t h")
    p = problem(n, k, s, t)
    a = indices("mask", h, t)
    lam, times, sensors, data, m = p.sample_data(times_mask=a)
    check("parameters", lam, arr("X", n, k))
    check("times", np.ravel(times), arr("times", t)[a])
    check("sensors", sensors, arr("sensors", s, 2))
    check("data", data, grid(arr("Y", n, s * t), n, s, t)[:, :, a].reshape(n, s * h))
    check("measurements", m, arr("meas", s * t).reshape(s, t)[:, a].reshape(s * h))


def ob_select_sensors(sens=["plane", "line"]):
    n, k, s, t, h = D("n k s t h")
    p = problem(n, k, s, t, True, sens)
    a = indices("mask", h, s)
    lam, times, sensors, data, m = p.sample_data(sensors_mask=a)
    check("parameters", lam, arr("X", n, k))
    check("times", np.ravel(times), arr("times", t))
    check("sensors", sensors, (arr("sensors", s, 2) if sens == "plane" else arr("sensors", s))[a])
    check("data", data, grid(arr("Y", n, s * t), n, s, t)[:, a, :].reshape(n, h * t))
    check("measurements", m, arr("meas", s * t).reshape(s, t)[a, :].reshape(h * t))


def ob_select_all_axes():
    n, k, s, t, h, g, f = D("n k s t h g f")
    p = problem(n, k, s, t)
    a, b, c = indices("ma", h, n), indices("mb", g, t), indices("mc", f, s)
    lam, times, sensors, data, m = p.sample_data(a, b, c)
    check("parameters", lam, arr("X", n, k)[a, :])
    check("data", data, grid(arr("Y", n, s * t), n, s, t)[a, :, :][:, :, b][:, c, :].reshape(h, f * g))
    check("measurements", m, arr("meas", s * t).reshape(s, t)[:, b][c, :].reshape(f * g))


def ob_one_sensor(j=[0, 2]):
    # a single sensor by its number
    n, k, t = D("n k t")
    p = problem(n, k, 3, t)
    lam, times, sensors, data, m = p.sample_data(sensors_mask=j)
    check("sensors", sensors, arr("sensors", 3, 2)[j : j + 1, :])
    check("data", data, grid(arr("Y", n, 3 * t), n, 3, t)[:, j, :])
    check("measurements", m, arr("meas", 3 * t).reshape(3, t)[j, :])


def ob_one_time(j=[0, 2]):
    n, k, s = D("n k s")
    p = problem(n, k, s, 3)
    lam, times, sensors, data, m = p.sample_data(times_mask=[j])
    check("times", np.ravel(times), arr("times", 3)[j : j + 1])
    check("data", data, grid(arr("Y", n, s * 3), n, s, 3)[:, :, j])
    check("measurements", m, arr("meas", s * 3).reshape(s, 3)[:, j])


def ob_slices():
    n, k, s, t = D("n k s t")
    p = problem(n, k, s, t)
    lam, times, sensors, data, m = p.sample_data(slice(0, 2), slice(1, 2), slice(0, 1))
    Y = grid(arr("Y", n, s * t), n, s, t)
    check("parameters", lam, arr("X", n, k)[0:2, :])
    check("data", data, Y[0:2, 0:1, 1:2].reshape(2, 1))
    check("measurements", m, arr("meas", s * t).reshape(s, t)[0:1, 1:2].reshape(1))


def ob_no_data():
    n, k = D("n k")
    p = STP()
    p.lam = arr("X", n, k)
    raises("no data", lambda: p.sample_data(), AttributeError)
    raises("no data for the nearest sample", lambda: p.get_closest_to_measurements(), AttributeError)


def nearest(X, Y, m):
    return X[np.argmin(np.sqrt(np.sum((Y - m) ** 2, axis=1))), :]


def ob_closest_measured():
    n, k, s, t = D("n k s t")
    p = problem(n, k, s, t)
    check("nearest", p.get_closest_to_measurements(), nearest(arr("X", n, k), arr("Y", n, s * t), arr("meas", s * t)))


def ob_closest_measured_selected(sel=["samples", "times", "sensors", "all"]):
    n, k, s, t, h, g, f = D("n k s t h g f")
    p = problem(n, k, s, t)
    X, Y, M = arr("X", n, k), grid(arr("Y", n, s * t), n, s, t), arr("meas", s * t).reshape(s, t)
    kw = {}
    if sel in ("samples", "all"):
        kw["samples_mask"] = a = indices("ma", h, n)
        X, Y, n = X[a, :], Y[a, :, :], h
    if sel in ("times", "all"):
        kw["times_mask"] = b = indices("mb", g, t)
        Y, M, t = Y[:, :, b], M[:, b], g
    if sel in ("sensors", "all"):
        kw["sensors_mask"] = c = indices("mc", f, s)
        Y, M, s = Y[:, c, :], M[c, :], f
    check("nearest of the selection", p.get_closest_to_measurements(**kw), nearest(X, Y.reshape(n, s * t), M.reshape(s * t)))


def ob_closest_true():
    n, k, s, t = D("n k s t")
    p = problem(n, k, s, t, False)
    p.true_vals = arr("true", s * t)
    check("nearest to the true values", p.get_closest_to_true_vals(), nearest(arr("X", n, k), arr("Y", n, s * t), arr("true", s * t)))
    q = problem(n, k, s, t)
    raises("no true values", lambda: q.get_closest_to_true_vals(), AttributeError)


def ob_generated(how=["stored", "given", "given later"], seed=["none", 0, 21]):
    s, t = D("s t")
    p = STP()
    p.sensors, p.times = arr("sensors", s, 2), arr("times", t)
    sd = positive("sd")
    kw = {} if seed == "none" else {"seed": seed}
    np.random.seed(3)
    if how == "stored":
        p.true_vals, p.std_dev = arr("ref", s * t), sd
        p.measurements_from_reference(**kw)
    elif how == "given":
        p.measurements_from_reference(arr("ref", s * t), sd, **kw)
    else:
        p.true_vals, p.std_dev = arr("old", s * t), positive("old_sd")
        p.measurements_from_reference(ref=arr("ref", s * t).reshape(s, t), std_dev=sd, **kw)
    np.random.seed(3 if seed == "none" else seed)
    check("measurements", p.measurements, (arr("ref", s * t) + np.random.randn(s * t) * sd).reshape(s * t, 1))
    check("reference", p.true_vals, arr("ref", s * t).reshape(s * t, 1))
    check("deviation", p.std_dev, sd)


def ob_generated_rejects():
    s, t = D("s t")
    p = STP()
    p.sensors, p.times = arr("sensors", s, 2), arr("times", t)
    raises("neither", lambda: p.measurements_from_reference(), AttributeError)
    raises("no deviation", lambda: p.measurements_from_reference(arr("ref", s * t)), AttributeError)
    q = STP()
    q.sensors, q.times = arr("sensors", s, 2), arr("times", t)
    raises("no reference", lambda: q.measurements_from_reference(std_dev=0.1), AttributeError)
