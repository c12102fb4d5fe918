def grid(rng, p, aff):
    """the points of the grid, first axis slowest; each a list of coordinates"""
    axes = [[rng[k, 0] + i * (rng[k, 1] - rng[k, 0]) / (aff - 1) for i in range(aff - 1)] for k in range(p)]
    pts = [[]]
    for a in axes:
        pts = [q + [v] for q in pts for v in a]
    return axes, pts


def position(j, k, p, m):
    """index along axis k of the j-th point"""
    return j // m ** (p - 1 - k) % m


def marginal(f, rng, p, k, aff, scaled=True):
    """grid of the axis and sums of the density over all other axes, of unit area when scaled"""
    axes, pts = grid(rng, p, aff)
    m = aff - 1
    v = f(np.array(pts))
    y = []
    for i in range(m):
        y.append(sum([v[j] for j in range(len(pts)) if position(j, k, p, m) == i]))
    x = np.array(axes[k])
    y = np.array(y)
    if scaled:
        y = y / np.sum(y * np.abs(rng[k, 1] - rng[k, 0]) / (aff - 1))
    return x, y


def same_curve(label, drawn, want):
    check(label + ": drawn once", len(drawn), 1)
    check(label + ": range", drawn[0][0], want[0])
    check(label + ": values", drawn[0][1], want[1])


def each(dist):
    return lambda pts: np.prod(dist.pdf(pts), axis=1)


def at(k):
    return lambda pts: k(pts.T)


def ob_plot_dist(source=["pdf", "kde", "default", "joint"], p=[1, 2, 3], idx=[0, 1, 2], aff=[3, 4], form=["array", "list"]):
    if idx < p and not (p == 3 and aff == 4):
        dm = domain(p)
        rng = dm if form == "array" else [[dm[k, 0], dm[k, 1]] for k in range(p)]
        ax = Axes("ax")
        X, w = arr("X", D("n"), p), posarr("w", D("n"))
        if source == "pdf":
            P.plot_dist(Dist("d"), rng, ax, idx, "pdf", aff, label="it")
            f = each(Dist("d"))
        elif source == "joint":
            dist = stats_dist.norm(loc=arr("m", p), scale=posarr("s", p))
            P.plot_dist(dist, rng, ax=ax, idx=idx, source="pdf", aff=aff, label="it")
            f = each(dist)
        else:
            kw = {} if source == "default" else {"source": "kde"}
            P.plot_dist(kde(X, w), rng, ax=ax, idx=idx, aff=aff, label="it", **kw)
            f = at(kde(X, w))
        same_curve("curve", curves(ax, "it"), marginal(f, dm, p, idx, aff))
        check("nothing else", len(curves(ax)), 1)


def ob_plot_dist_flat(source=["pdf", "kde"]):
    # one axis given as a flat pair
    a, b = real("a"), real("a") + positive("w")
    ax = Axes("ax")
    d = Dist("d") if source == "pdf" else kde(arr("X", D("n"), 1), posarr("v", D("n")))
    P.plot_dist(d, [a, b], ax, source=source, aff=4)
    same_curve("curve", curves(ax), marginal(each(d) if source == "pdf" else at(d), np.array([[a, b]]), 1, 0, 4))


def ob_vertical_line(ylim=[0, 1]):
    ax = Axes("ax")
    lo, hi = ax.get_ylim()
    top = positive("top")
    P.plot_vert_line(ax, real("x"), top if ylim else None, label="l")
    check("position", marks(ax, "l"), [np.array([real("x"), real("x")])])
    x, y = curves(ax, "l")[0]
    check("extent", y, np.array([lo, top if ylim else hi]))


def ob_mesh(p=[1, 2, 3], aff=[2, 3]):
    dm = domain(p)
    m, pts = P.build_nd_mesh_grid(dm, aff)
    axes, want = grid(dm, p, aff)
    check("points", pts.T, np.array(want))
    check("parts", len(m), p)
    for k in range(p):
        check("shape of part %d" % k, m[k].shape, (aff - 1,) * p)
        check("part %d" % k, m[k].ravel(), np.array([q[k] for q in want]))


OPT = {"in_opts": {"label": "IN"}, "up_opts": {"label": "UP"}, "win_opts": {"label": "WIN"}, "mud_opts": {"label": "MUD"}, "true_opts": {"label": "TRUE"}}
OBS = {"ob_opts": {"label": "OB"}, "pr_opts": {"label": "PR"}, "pf_opts": {"label": "PF"}}


def problem(n, p, q, w, how="setters", late=False):
    d = DensityProblem(arr("X", n, p), arr("Y", n, q), domain(p), weights=None if late else w)
    if late and how == "defaults":
        d.estimate()
    if late:
        d.set_weights(w)
    if how in ("setters", "fitted", "estimated"):
        d.set_initial(Dist("I"))
        d.set_observed(Dist("O"))
        d.set_predicted(Dist("P"))
    if how == "fitted":
        d.fit()
    elif how in ("estimated", "defaults"):
        d.estimate()
    elif how == "bandwidth":
        d.set_initial(Dist("I"))
        d.set_observed(Dist("O"))
        d.set_predicted(bw_method=0.5)
    elif how == "unset":
        d.set_initial(Dist("I"))
        d.set_observed(Dist("O"))
    return d


def parts(n, p, q, w, how):
    """densities at the samples, the distributions and the ratio"""
    X, Y = arr("X", n, p), arr("Y", n, q)
    wv = np.ones(n) if w is None else w
    if how == "defaults":
        i, o = uniform_over(domain(p)), stats_dist.norm(loc=0, scale=1)
        pr = at(kde(Y, wv))
    elif how == "bandwidth":
        i, o = Dist("I"), Dist("O")
        pr = at(kde(Y, wv, 0.5))
    elif how == "unset":
        i, o = Dist("I"), Dist("O")
        pr = at(kde(Y, wv))
    else:
        i, o, pr = Dist("I"), Dist("O"), each(Dist("P"))
    r = product(o.pdf(Y)) / pr(Y)
    return i, o, pr, r, wv


HOW = ["setters", "fitted", "estimated", "defaults", "bandwidth", "unset"]


def ob_parameter_space(p=[1, 2, 3], idx=[0, 1, 2], weights=[0, 1, 2], how=["setters", "fitted", "estimated", "defaults", "bandwidth", "unset"], x_range=["array", "list"]):
    if idx < p and not (x_range == "list" and (weights or how != "setters")):
        n, q = D("n q")
        w = None if weights == 0 else posarr("w", n)
        d = problem(n, p, q, w, how, weights == 2)
        i, o, pr, r, wv = parts(n, p, q, w, how)
        rg = domain(p, "range")
        ax = Axes("ax")
        given = rg if x_range == "array" else [[rg[k, 0], rg[k, 1]] for k in range(p)]
        t = arr("t", p)
        d.plot_param_space(param_idx=idx, true_val=t, ax=ax, x_range=given, aff=3, **OPT)
        X = arr("X", n, p)
        same_curve("initial", curves(ax, "IN"), marginal(each(i), rg, p, idx, 3))
        same_curve("updated", curves(ax, "UP"), marginal(at(kde(X, wv * r)), rg, p, idx, 3))
        same_curve("weighted initial", curves(ax, "WIN"), marginal(at(kde(X, wv)), rg, p, idx, 3))
        e = d.estimate()
        check("estimate", marks(ax, "MUD"), [np.array([e[idx], e[idx]])])
        check("true value", marks(ax, "TRUE"), [np.array([t[idx], t[idx]])])


def ob_parameter_estimate(p=[1, 2], how=["setters", "fitted", "defaults"], weights=[0, 1]):
    # the estimate marked is that of a problem nobody plotted
    n, q = D("n q")
    w = posarr("w", n) if weights else None
    d, other = problem(n, p, q, w, how), problem(n, p, q, w, how)
    ax = Axes("ax")
    d.plot_param_space(p - 1, ax=ax, x_range=domain(p, "range"), aff=3, **OPT)
    e = other.estimate()
    check("estimate", marks(ax, "MUD"), [np.array([e[p - 1], e[p - 1]])])
    check("no true value", marks(ax, "TRUE"), [])


def ob_parameter_suppressed(opt=["in_opts", "up_opts", "win_opts", "mud_opts", "true_opts"]):
    n, p, q = D("n"), 2, D("q")
    d = problem(n, p, q, None, "setters")
    ax = Axes("ax")
    o = dict(OPT)
    o[opt] = None
    d.plot_param_space(0, arr("t", p), ax, domain(p, "range"), aff=3, **o)
    names = ["IN", "UP", "WIN", "MUD", "TRUE"]
    drawn = [len(curves(ax, x)) for x in names]
    check("curves", drawn, [0 if OPT[opt]["label"] == x else 1 for x in names])


def ob_parameter_default_options(weights=[0, 1]):
    # without options: initial, updated, estimate, and the true value when given
    n, p, q = D("n"), 2, D("q")
    d = problem(n, p, q, posarr("w", n) if weights else None, "setters")
    a, b = Axes("a"), Axes("b")
    d.plot_param_space(0, ax=a, x_range=domain(p, "range"), aff=3)
    check("curves", len(curves(a)), 3)
    d.plot_param_space(0, [real("t"), real("u")], b, x_range=domain(p, "range"), aff=3)
    check("curves with true value", len(curves(b)), 4)
    check("true value", marks(b)[3][0], real("t"))


def ob_parameter_range(p=[1, 2], pad=["default", 0.25]):
    # default range: the domain, padded
    n, q = D("n q")
    d = problem(n, p, q, None, "setters")
    ax = Axes("ax")
    kw = {} if pad == "default" else {"pad_ratio": pad}
    d.plot_param_space(0, ax=ax, aff=3, **{**OPT, **kw})
    k = 0.05 if pad == "default" else pad
    dm = domain(p)
    wd = dm[:, 1] - dm[:, 0]
    rg = np.stack([dm[:, 0] - k * wd, dm[:, 1] + k * wd], axis=1)
    same_curve("initial", curves(ax, "IN"), marginal(each(Dist("I")), rg, p, 0, 3))


def ob_parameter_refit(how=["fitted", "estimated"], change=["weights", "observed", "predicted", "initial"]):
    # the fit in force: an input set again is what is drawn
    n, p, q = D("n"), 1, D("q")
    d = problem(n, p, q, None, how)
    X, Y = arr("X", n, p), arr("Y", n, q)
    o, pr, wv, i = Dist("O"), Dist("P"), np.ones(n), Dist("I")
    if change == "weights":
        wv = posarr("w", n)
        d.set_weights(wv)
    elif change == "observed":
        o = Dist("O2")
        d.set_observed(o)
    elif change == "predicted":
        pr = Dist("P2")
        d.set_predicted(pr)
    else:
        i = Dist("I2")
        d.set_initial(i)
        d.set_predicted(pr)
    d.fit()
    ax = Axes("ax")
    rg = domain(p, "range")
    d.plot_param_space(0, ax=ax, x_range=rg, aff=3, **OPT)
    r = product(o.pdf(Y)) / product(pr.pdf(Y)) if change != "weights" else None
    same_curve("initial", curves(ax, "IN"), marginal(each(i), rg, p, 0, 3))
    if r is not None:
        same_curve("updated", curves(ax, "UP"), marginal(at(kde(X, wv * r)), rg, p, 0, 3))
    same_curve("weighted initial", curves(ax, "WIN"), marginal(at(kde(X, wv)), rg, p, 0, 3))


def ob_observable_space(q=[1, 2, 3], idx=[0, 1, 2], weights=[0, 1, 2], how=["setters", "fitted", "estimated", "defaults", "bandwidth", "unset"], y_range=["array", "list"]):
    if idx < q and not (y_range == "list" and (weights or how != "setters")):
        n, p = D("n p")
        w = None if weights == 0 else posarr("w", n)
        d = problem(n, p, q, w, how, weights == 2)
        i, o, pr, r, wv = parts(n, p, q, w, how)
        rg = domain(q, "range")
        ax = Axes("ax")
        given = rg if y_range == "array" else [[rg[k, 0], rg[k, 1]] for k in range(q)]
        d.plot_obs_space(idx, ax, given, 3, **OBS)
        Y = arr("Y", n, q)
        same_curve("observed", curves(ax, "OB"), marginal(each(o), rg, q, idx, 3))
        same_curve("predicted", curves(ax, "PR"), marginal(pr, rg, q, idx, 3))
        same_curve("push-forward", curves(ax, "PF"), marginal(at(kde(Y, wv * r)), rg, q, idx, 3))


def ob_observable_suppressed(opt=["ob_opts", "pr_opts", "pf_opts"]):
    n, p, q = D("n"), D("p"), 2
    d = problem(n, p, q, None, "setters")
    ax = Axes("ax")
    o = dict(OBS)
    o[opt] = None
    d.plot_obs_space(0, ax, domain(q, "range"), 3, **o)
    names = ["OB", "PR", "PF"]
    check("curves", [len(curves(ax, x)) for x in names], [0 if OBS[opt]["label"] == x else 1 for x in names])


def ob_observable_scatter(idx=["01", "10", "02", "default"]):
    n, p, q = D("n p q")
    d = DensityProblem(arr("X", n, p), arr("Y", n, 3), domain(p))
    ax = Axes("ax")
    Y = arr("Y", n, 3)
    if idx == "default":
        d.plot_qoi(ax=ax)
        a, b = 0, 1
    else:
        a, b = int(idx[0]), int(idx[1])
        d.plot_qoi(a, b, ax)
    check("points", points(ax), [(Y[:, a], Y[:, b])])


def ob_parameter_scatter(x=["01", "10", "20", "default"], y=[0, 1], contours=[False, True], own=[0, 1]):
    n = D("n")
    d = DensityProblem(arr("X", n, 3), arr("Y", n, 2), domain(3))
    X, Y = arr("X", n, 3), arr("Y", n, 2)
    ax = Axes("ax")
    kw = {"c": arr("own", n)} if own else {}
    if x == "default":
        a, b = 0, 1
        d.plot_params_2d(y=y, contours=contours, ax=ax, **kw)
    else:
        a, b = int(x[0]), int(x[1])
        d.plot_params_2d(a, b, y, contours, ax=ax, **kw)
    check("points", points(ax), [(X[:, a], X[:, b])])
    check("colours", colours(ax), [arr("own", n) if own else Y[:, y]])
    s = surfaces(ax)
    check("contours", len(s), 1 if contours else 0)
    if contours:
        check("contoured", s[0][1:], (X[:, a], X[:, b], Y[:, y]))


def bayes(n, p, q, log, how):
    b = BayesProblem(arr("X", n, p), arr("Y", n, q), domain(p))
    if how not in ("default prior", "unset prior"):
        b.set_prior(Dist("PRIOR"))
    b.set_likelihood(Dist("LL"), log=log)
    if how in ("fitted", "default prior"):
        b.fit()
    if how == "estimated":
        b.estimate()
    return b


def posterior(n, p, q, log, how):
    """weights of the samples, up to a factor"""
    X, Y = arr("X", n, p), arr("Y", n, q)
    pr = uniform_over(domain(p)) if how in ("default prior", "unset prior") else Dist("PRIOR")
    if log:
        s = np.sum(pr.logpdf(X), axis=1) + np.sum(Dist("LL").logpdf(Y), axis=1)
        has_mass(s, True)
        return pr, np.exp(s - np.max(s))
    return pr, product(pr.pdf(X)) * product(Dist("LL").pdf(Y))


BAY = {"pr_opts": {"label": "PR"}, "ps_opts": {"label": "PS"}, "map_opts": {"label": "MAP"}, "true_opts": {"label": "TRUE"}}


def ob_bayes_parameter_space(p=[1, 2, 3], idx=[0, 1, 2], log=[False, True], how=["given", "fitted", "estimated", "default prior", "unset prior"], x_range=[0, 1]):
    if idx < p:
        n, q = D("n q")
        pr, w = posterior(n, p, q, log, how)
        assume(np.sum(w) != 0)
        b = bayes(n, p, q, log, how)
        rg = domain(p, "range") if x_range else domain(p)
        ax = Axes("ax")
        t = arr("t", p)
        b.plot_param_space(idx, ax, domain(p, "range") if x_range else None, 3, true_val=t, **BAY)
        X = arr("X", n, p)
        same_curve("prior", curves(ax, "PR"), marginal(each(pr), rg, p, idx, 3))
        same_curve("posterior", curves(ax, "PS"), marginal(at(kde(X, w)), rg, p, idx, 3))
        e = bayes(n, p, q, log, how).estimate()
        check("estimate", marks(ax, "MAP"), [np.array([e[idx], e[idx]])])
        check("true value", marks(ax, "TRUE"), [np.array([t[idx], t[idx]])])


def ob_bayes_suppressed(opt=["pr_opts", "ps_opts", "map_opts", "true_opts"]):
    n, p, q = D("n"), 2, D("q")
    assume(np.sum(posterior(n, p, q, False, "given")[1]) != 0)
    b = bayes(n, p, q, False, "given")
    ax = Axes("ax")
    o = dict(BAY)
    o[opt] = None
    b.plot_param_space(0, ax, aff=3, true_val=arr("t", p), **o)
    names = ["PR", "PS", "MAP", "TRUE"]
    check("curves", [len(curves(ax, x)) for x in names], [0 if BAY[opt]["label"] == x else 1 for x in names])


def ob_bayes_observable_space(q=[1, 2, 3], idx=[0, 1, 2], log=[False, True], how=["given", "fitted", "estimated", "default prior", "unset prior"], y_range=["array", "list", "default"]):
    if idx < q:
        n, p = D("n p")
        pr, w = posterior(n, p, q, log, how)
        assume(np.sum(w) != 0)
        b = bayes(n, p, q, log, how)
        rg = np.array([[-1, 1] for k in range(q)]) if y_range == "default" else domain(q, "range")
        given = None if y_range == "default" else rg if y_range == "array" else [[rg[k, 0], rg[k, 1]] for k in range(q)]
        ax = Axes("ax")
        b.plot_obs_space(idx, ax, given, 3, {"label": "LL"}, {"label": "PF"})
        Y = arr("Y", n, q)
        same_curve("likelihood", curves(ax, "LL"), marginal(each(Dist("LL")), rg, q, idx, 3, False))
        same_curve("push-forward", curves(ax, "PF"), marginal(at(kde(Y, w)), rg, q, idx, 3, False))
