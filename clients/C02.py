def reference(m):
    n, p, q = D("n"), 2, 2
    X, Y = arr("X", n, p), arr("Y", n, q)
    if m["i"] is None or m["i"] == "default":
        mn, mx = np.min(arr("dom", p, 2), axis=1), np.max(arr("dom", p, 2), axis=1)
        pr = product(stats_dist.uniform(loc=mn, scale=mx - mn).pdf(X))
    else:
        pr = product(pdf(m["i"], X))
    if m["log"]:
        ps = np.log(pr) + log_product(m["l"], Y)
    else:
        ps = pr * product(pdf(m["l"], Y))
    return ps


def usable(m):
    """estimates exist where the posterior does not vanish"""
    has_mass(reference(m), m["log"])


def step(b, m, k):
    n, p, q = D("n"), 2, 2
    m["c"] = m["c"] + 1
    if k == "I":
        m["i"] = "I" + str(m["c"])
        b.set_prior(Dist(m["i"]))
    elif k == "J":
        m["i"] = "default"
        b.set_prior()
    elif k == "L":
        m["l"] = "L" + str(m["c"])
        m["log"] = False
        b.set_likelihood(Dist(m["l"]))
    elif k == "G":
        m["l"] = "L" + str(m["c"])
        m["log"] = True
        b.set_likelihood(Dist(m["l"]), log=True)
    elif m["l"] is None:
        pass
    else:
        usable(m)
        if k == "f":
            b.fit()
        elif k == "p":
            b.plot_param_space(ax=Axes("a"))
        elif k == "q":
            b.plot_obs_space(ax=Axes("a"))
        elif k == "e":
            check("estimate", b.estimate(), arr("X", n, p)[np.argmax(reference(m)), :])
        elif k == "m":
            check("MAP point", b.map_point(), arr("X", n, p)[np.argmax(reference(m)), :])
        elif k == "u":
            b.estimate()
            check("posterior", b._ps, reference(m))


def history(h):
    n, p, q = D("n"), 2, 2
    b = BayesProblem(arr("X", n, p), arr("Y", n, q), arr("dom", p, 2))
    m = {"i": None, "l": None, "log": False, "c": 0}
    for k in h:
        note(h)
        step(b, m, k)


def ob_one_step(query=["e", "m", "u"], op=["I", "J", "L", "G"]):
    for full in ("IL", "JL", "IG", "JG", "L", "G", "LI", "GJ"):
        history(full + op + query)
        for seen in ("f", "e", "m", "p", "q", "ep", "fq"):
            history(full + seen + op + query)


def ob_two_steps(op=["I", "J", "L", "G"], query=["e", "m", "u"]):
    for op2 in "IJLG":
        for full in ("IL", "JG"):
            for seen in ("", "e", "f", "q"):
                history(full + "e" + op + seen + op2 + query)


@thorough
def ob_three_steps(op=["I", "J", "L", "G"], op2=["I", "J", "L", "G"], query=["e", "u"]):
    for op3 in "IJLG":
        for seen in ("", "e", "f", "p", "q"):
            history("IL" + op + seen + op2 + seen + op3 + query)
            history("Ge" + op + op2 + seen + op3 + query)
