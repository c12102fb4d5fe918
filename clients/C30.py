def row(k, sign):
    """a row that is not zero"""
    if sign == "pos":
        return np.array([positive("a%d" % k), real("b%d" % k)])
    if sign == "neg":
        return np.array([-positive("a%d" % k), real("b%d" % k)])
    return np.array([real("a%d" % k), -positive("b%d" % k)])


def rows(m, signs):
    return np.vstack([row(k, signs[k]) for k in range(m)])


SIGNS = [["pos", "neg", "second"], ["second", "pos", "neg"], ["neg", "neg", "pos"]]


def through(label, line, a, r, w):
    """the line passes through r along the null direction of a, w to both sides"""
    x, y = line
    dx, dy = x - r[0], y - r[1]
    check(label + ": two points", (x.shape, y.shape), ((2,), (2,)))
    check(label + ": middle", (dx[0] + dx[1], dy[0] + dy[1]), (0, 0))
    check(label + ": direction", a[0] * dx + a[1] * dy, np.zeros(2))
    check(label + ": half-length", dx**2 + dy**2, np.array([w * w, w * w]))


def ob_linear_contours(m=[1, 2, 3], subset=["all", "list", "array", "tuple", "last", "reversed", "twice"], signs=[0, 1, 2], ref=["column", "flat", "list"], w=["default", "given"], annotate=[False, True]):
    A = rows(m, SIGNS[signs])
    lp = LinearGaussianProblem(A, arr("b", m, 1), arr("y", m, 1), arr("mu", 2, 1))
    idx = {"all": list(range(m)), "last": [m - 1], "reversed": list(range(m))[::-1], "twice": [0, m - 1, 0]}.get(subset, [0, m - 1][:m])
    given = None if subset == "all" else np.array(idx) if subset == "array" else tuple(idx) if subset == "tuple" else idx
    r = np.array([real("r0"), real("r1")])
    rv = r.reshape(2, 1) if ref == "column" else r if ref == "flat" else [real("r0"), real("r1")]
    ax = Axes("ax")
    wv = 1 if w == "default" else positive("w")
    kw = {} if w == "default" else {"w": wv}
    lp.plot_contours(rv, given, ax, annotate, **kw)
    ls = curves(ax)
    check("lines", len(ls), len(idx))
    for j in range(len(idx)):
        through("line %d" % j, ls[j], A[idx[j], :], r, wv)
    ts = notes(ax)
    check("annotations", [t[0] for t in ts], [str(i + 1) for i in idx] if annotate else [])
    if annotate:
        for j in range(len(idx)):
            check("annotation %d stands at an end" % j, ((ts[j][1] - ls[j][0][0]) * (ts[j][1] - ls[j][0][1]), (ts[j][2] - ls[j][1][0]) * (ts[j][2] - ls[j][1][1])), (0, 0))


def ob_contour_labels(label=["q_{i}", "{i:d}", "row"], where=[0, 1]):
    A = rows(3, SIGNS[0])
    lp = LinearGaussianProblem(A, arr("b", 3, 1), arr("y", 3, 1), arr("mu", 2, 1))
    ax = Axes("ax")
    lp.plot_contours(arr("r", 2, 1), [2, 0], ax, True, (real("u"), real("v")) if where else None, label=label)
    ts = notes(ax)
    check("texts", [t[0] for t in ts], [label.format(i=3), label.format(i=1)])
    if where:
        check("positions", [(t[1], t[2]) for t in ts], [(real("u"), real("v")), (real("u"), real("v"))])


def ob_default_reference(m=[1, 2]):
    A = rows(m, SIGNS[0])
    b, y = arr("b", m, 1), arr("y", m, 1)
    ax = Axes("ax")
    lp = LinearGaussianProblem(A, b, y, arr("mu", 2, 1), arr("S", 2, 2), arr("R", m, m))
    lp.plot_contours(None, None, ax)
    ls = curves(ax)
    x = np.linalg.pinv(A) @ (y - b)
    if m == 2:
        x = LinearGaussianProblem(A, b, y).solve("ls")
    for j in range(m):
        check("middle of line %d" % j, (ls[j][0][0] + ls[j][0][1], ls[j][1][0] + ls[j][1][1]), (2 * x[0, 0], 2 * x[1, 0]))


def ob_plain_contours(m=[1, 2, 3], subset=["all", "list", "array", "last"], signs=[0, 1, 2], ref=["column", "flat"], w=["default", "given"]):
    A = rows(m, SIGNS[signs])
    idx = {"all": list(range(m)), "last": [m - 1]}.get(subset, [0, m - 1][:m])
    given = None if subset == "all" else np.array(idx) if subset == "array" else idx
    r = np.array([real("r0"), real("r1")])
    wv = 1 if w == "default" else positive("w")
    kw = {} if w == "default" else {"w": wv}
    P.plot_contours(A, r.reshape(2, 1) if ref == "column" else r, given, **kw)
    ls, ts = curves(None), notes(None)
    check("lines", (len(ls), len(ts)), (len(idx), len(idx)))
    for j in range(len(idx)):
        through("line %d" % j, ls[j], A[idx[j], :], r, wv)
        check("annotation %d" % j, ts[j][0], "%d" % (idx[j] + 1))
        check("annotation %d stands at an end" % j, ((ts[j][1] - ls[j][0][0]) * (ts[j][1] - ls[j][0][1]), (ts[j][2] - ls[j][1][0]) * (ts[j][2] - ls[j][1][1])), (0, 0))


def solution(lp, point):
    return lp.mean_i if point == "initial" else lp.solve(method=point)


def ob_solution(point=["mud", "mud_alt", "map", "ls", "initial"], first=[0, 1], mean=[0, 1], label=[0, 1, 2], line=[0, 1]):
    m = D("m")
    build = lambda: LinearGaussianProblem(arr("A", m, 2), arr("b", m, 1), arr("y", m, 1), arr("mu", 2, 1) if mean else None, arr("S", 2, 2), arr("R", m, m))
    lp = build()
    if first:
        lp.solve("ls" if point == "mud" else "mud")
    ax = Axes("ax")
    kw = {} if line else {"ln_opts": None}
    if label == 0:
        lp.plot_sol(point, ax, **kw)
    elif label == 1:
        lp.plot_sol(point, ax, "here", **kw)
    else:
        lp.plot_sol(point, ax, "here", (real("u"), real("v")), **kw)
    s = solution(build(), point)
    ps, ls, ts = points(ax), curves(ax), notes(ax)
    check("marked", ps, [(s[0], s[1])])
    if line and point != "initial":
        mu = arr("mu", 2, 1) if mean else np.zeros((2, 1))
        check("joined", len(ls), 1)
        x, y = ls[0]
        check("ends", (x[0] + x[1], y[0] + y[1], x.shape), (s[0, 0] + mu[0, 0], s[1, 0] + mu[1, 0], (2,)))
        check("an end is the solution", ((x[0] - s[0, 0]) * (x[1] - s[0, 0]), (y[0] - s[1, 0]) * (y[1] - s[1, 0])), (0, 0))
        check("the same end", (x[0] - s[0, 0]) * (y[1] - s[1, 0]), 0)
    else:
        check("joined", len(ls), 0)
    check("annotations", [t[0] for t in ts], ["here"] if label else [])
    if label == 2:
        check("annotated at", (ts[0][1], ts[0][2]), (real("u"), real("v")))


def joined(label, ls, pts):
    """the lines lead through the points in order (lines between equal points do not count)"""
    segs = [(x, y) for x, y in ls]
    X, Y = [segs[0][0][0]], [segs[0][1][0]]
    for x, y in segs:
        check(label + ": continues", (x[0], y[0]), (X[-1], Y[-1]))
        for k in range(1, len(x)):
            X.append(x[k])
            Y.append(y[k])
    # drop the repeated start
    if len(X) == len(pts) + 1:
        check(label + ": start", (X[0], Y[0]), (X[1], Y[1]))
        X, Y = X[1:], Y[1:]
    check(label + ": points", [X, Y], [[p[0] for p in pts], [p[1] for p in pts]])


def ob_plain_chain(k=[1, 2, 4], shape=["column", "flat", "list"]):
    pts = [np.array([real("x%d" % j), real("y%d" % j)]) for j in range(k)]
    given = [p.reshape(2, 1) if shape == "column" else p if shape == "flat" else [real("x%d" % j), real("y%d" % j)] for j, p in enumerate(pts)]
    r = [real("r0"), real("r1")]
    P.plotChain(given, r)
    joined("chain", curves(None), pts)
    ps = [(x[0], y[0]) for x, y in points(None)]
    check("marked", ps, [(pts[0][0], pts[0][1]), (real("r0"), real("r1"))])


def chain(epochs, order, ref, annotate=0):
    A = rows(2, SIGNS[0])
    build = lambda: IterativeLinearProblem(A, arr("b", 2, 1), arr("y", 2, 1), arr("mu", 2, 1), arr("S", 2, 2), arr("R", 2, 2), order)
    return A, build


def ob_chain(epochs=[1, 2, 3], order=["default", "reversed", "one", "long"], calls=[1, 2], ref=["column", "list"]):
    A = rows(2, SIGNS[0])
    idx = {"default": None, "reversed": [1, 0], "one": [1], "long": [0, 1, 0]}[order]
    ip = IterativeLinearProblem(A, arr("b", 2, 1), arr("y", 2, 1), arr("mu", 2, 1), None, None, idx)
    # any recorded chains of solutions
    ids = [0, 1] if idx is None else idx
    chains = []
    for e in range(epochs):
        chains.append([arr("s%d_%d" % (e, j), 2, 1) for j in range(len(ids) + 1)])
    ip.solution_chains = [list(c) for c in chains]
    r = arr("r", 2, 1)
    ax = Axes("ax")
    ip.plot_chain(r if ref == "column" else [r[0, 0], r[1, 0]], ax)
    ls = curves(ax)
    n = (len(ls) - len(ids)) // epochs
    for e in range(epochs):
        joined("chain %d" % e, ls[e * n : (e + 1) * n], [(c[0, 0], c[1, 0]) for c in chains[e]])
    for j in range(len(ids)):
        through("line %d" % j, ls[epochs * n + j], A[ids[j], :], r.ravel(), 1)
    ps = [(x[0], y[0]) for x, y in points(ax)]
    want = []
    for c in chains:
        want += [(c[0][0, 0], c[0][1, 0]), (c[-1][0, 0], c[-1][1, 0]), (r[0, 0], r[1, 0])]
    check("marked", ps, want)


def ob_chain_of_solve(epochs=[1, 2], method=["mud", "map", "ls"], repeat=[0, 1]):
    # what is drawn is what was solved
    A = rows(1, SIGNS[0])
    build = lambda: IterativeLinearProblem(A, arr("b", 1, 1), arr("y", 1, 1), arr("mu", 2, 1), None, None)
    ip, other = build(), build()
    ip.solve(epochs, method)
    if repeat:
        ip.solve(1, method)
    ax = Axes("ax")
    ip.plot_chain(arr("r", 2, 1), ax)
    want, last = [], arr("mu", 2, 1)
    for e in range(epochs + repeat):
        new = LinearGaussianProblem(A, arr("b", 1, 1), arr("y", 1, 1), last).solve(method)
        want.append([(last[0, 0], last[1, 0]), (new[0, 0], new[1, 0])])
        last = new
    ls = curves(ax)
    n = (len(ls) - 1) // (epochs + repeat)
    for e in range(epochs + repeat):
        joined("chain %d" % e, ls[e * n : (e + 1) * n], want[e])


def ob_chain_error(k=[1, 2], epochs=[1, 2], ref=["column", "flat"]):
    ip = IterativeLinearProblem(arr("A", 2, 2), arr("b", 2, 1), arr("y", 2, 1), arr("mu", 2, 1))
    chains = [[arr("s%d_%d" % (e, j), 2, 1) for j in range(k + 1)] for e in range(epochs)]
    ip.solution_chains = [list(c) for c in chains]
    r = arr("r", 2, 1)
    ax = Axes("ax")
    ip.plot_chain_error(r if ref == "column" else r.ravel(), ax)
    want = [np.sqrt((s[0, 0] - r[0, 0]) ** 2 + (s[1, 0] - r[1, 0]) ** 2) for c in chains for s in c[1:]]
    ls = curves(ax)
    check("curve", (len(ls), ls[0][0], ls[0][1]), (1, np.arange(k * epochs), np.array(want)))


def ob_functionals(terms=["dc", "bayes", "data", "reg"], mesh=["given", "default"]):
    m = D("m")
    lp = LinearGaussianProblem(arr("A", m, 2), arr("b", m, 1), arr("y", m, 1), arr("mu", 2, 1), arr("S", 2, 2), arr("R", m, m))
    ax = Axes("ax")
    if mesh == "given":
        M = arr("M", 9, 2)
        lp.plot_fun_contours(M, terms, ax, 3)
    else:
        lp.plot_fun_contours(terms=terms, ax=ax, N=3, r=2)
        g = [(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (2, 1), (0, 2), (1, 2), (2, 2)]
        M = np.array(g)
    v = lp.compute_functionals(M, terms)
    kind, x, y, z = surfaces(ax)[0]
    check("surface", (x.ravel(), y.ravel(), z.ravel()), (M[:, 0], M[:, 1], v.ravel()))
