SETTERS = "IJONPKBVQWSU"
QUERIES = "ferup"


def counter(m, k):
    m["c"] = m["c"] + 1
    return k + str(m["c"])


def weights_of(m):
    n = D("n")
    w = m["w"]
    if w is None:
        return np.ones(n)
    if w[0] == "S":
        v = np.prod(arr(w, 2, n), axis=0)
        return v / np.linalg.norm(v)
    return arr(w, n)


def reference(m):
    """initial, observed, ratio and updated density of the inputs in force"""
    n, p, q = (D("n"), 2, 2)
    X, Y = arr("X", n, p), arr("Y", n, q)
    if m["i"] is None or m["i"] == "default":
        mn, mx = np.min(arr("dom", p, 2), axis=1), np.max(arr("dom", p, 2), axis=1)
        i = product(stats_dist.uniform(loc=mn, scale=mx - mn).pdf(X))
    else:
        i = product(pdf(m["i"], X))
    o = product(stats_dist.norm().pdf(Y)) if m["o"] is None else product(pdf(m["o"], Y))
    w = weights_of(m)
    if m["p"] is None:
        pr = kde(Y, w).pdf(Y.T)
    elif m["p"][0] == "P":
        pr = product(pdf(m["p"], Y))
    else:
        pr = kde(Y, w, m["p"][3:] if m["p"][3:] else None).pdf(Y.T)
    r = o / pr
    return i, o, r, i * w * r, w


def fitted(m, bw=None):
    if m["i"] is None:
        m["i"] = "default"
        m["p"] = None
    if m["p"] is None:
        m["p"] = "kde" + (bw if bw else "")


def step(d, m, k):
    n, p, q = (D("n"), 2, 2)
    if k == "I":
        m["i"] = counter(m, "I")
        m["p"] = None
        d.set_initial(Dist(m["i"]))
    elif k == "J":
        m["i"] = "default"
        m["p"] = None
        d.set_initial()
    elif k == "O":
        m["o"] = counter(m, "O")
        d.set_observed(Dist(m["o"]))
    elif k == "N":
        m["o"] = None
        d.set_observed()
    elif k == "P":
        m["p"] = counter(m, "P")
        d.set_predicted(Dist(m["p"]))
    elif k == "K":
        m["p"] = "kde"
        d.set_predicted()
    elif k == "B":
        m["p"] = "kdesilverman"
        d.set_predicted(bw_method="silverman")
    elif k == "V":
        m["w"] = counter(m, "W")
        m["p"] = "kde"
        d.set_predicted(weights=arr(m["w"], n))
    elif k == "Q":
        m["w"] = counter(m, "W")
        m["p"] = counter(m, "P")
        d.set_predicted(Dist(m["p"]), weights=arr(m["w"], n))
    elif k == "W":
        m["w"] = counter(m, "W")
        m["p"] = None
        d.set_weights(arr(m["w"], n))
    elif k == "S":
        m["w"] = counter(m, "S")
        m["p"] = None
        d.set_weights(arr(m["w"], 2, n), normalize=True)
    elif k == "U":
        m["w"] = None
        m["p"] = None
        d.set_weights(None)
    elif k == "f":
        fitted(m, "scott")
        d.fit(bw_method="scott")
    elif k == "p":
        if m["i"] is not None:
            d.plot_param_space(ax=Axes("a"))
            fitted(m)
    elif k == "q":
        if m["o"] is not None:
            d.plot_obs_space(ax=Axes("a"))
            fitted(m)
    elif k == "e":
        got = d.estimate()
        fitted(m)
        i, o, r, up, w = reference(m)
        check("estimate", got, arr("X", n, p)[np.argmax(up), :])
    elif k == "r":
        got = d.expected_ratio()
        fitted(m)
        i, o, r, up, w = reference(m)
        check("expected ratio", got, np.average(r, weights=w))
    elif k == "u":
        d.fit()
        fitted(m)
        i, o, r, up, w = reference(m)
        check("updated density", d._up, up)


def history(h):
    n, p, q = (D("n"), 2, 2)
    d = DensityProblem(arr("X", n, p), arr("Y", n, q), arr("dom", p, 2))
    m = {"i": None, "o": None, "p": None, "w": None, "c": 0}
    for k in h:
        note(h)
        step(d, m, k)


def ob_one_step(query=["e", "r", "u"], op=["I", "J", "O", "N", "P", "K", "B", "V", "Q", "W", "S", "U"]):
    for full in ("IOWP", "WJNK", "IWOB", "IOQ", ""):
        history(full + op + query)
        for seen in ("f", "e", "r", "p", "q", "er", "re", "ep", "rq"):
            history(full + seen + op + query)


def ob_two_steps(op=["I", "J", "O", "N", "P", "K", "B", "V", "Q", "W", "S", "U"], query=["e", "r"]):
    for op2 in "IJONPKBVQWSU":
        history("IOWPer" + op + op2 + query)
        history("IOWPer" + op + "e" + op2 + query)
        history("IOWP" + op + "f" + op2 + query)
        history("JNK" + op + "r" + op2 + query)


@thorough
def ob_three_steps(a=["I", "J", "O", "N", "P", "K", "B", "V", "Q", "W", "S", "U"], b=["I", "J", "O", "N", "P", "K", "B", "V", "Q", "W", "S", "U"], query=["e", "r", "u"]):
    for c in "IJONPKBVQWSU":
        for s in ("", "e", "r", "p"):
            history("IOWPe" + a + s + b + s + c + query)
            history("r" + a + s + b + c + query)
