def ob_shapes(A=["matrix", "vector", "list"], y=["flat", "column", "row"], b=["flat", "column", "row"], m=["flat", "column", "row"]):
    d, p = D("d p")
    if A == "matrix":
        a = a2 = arr("A", d, p)
    elif A == "vector":
        d = 1
        a, a2 = arr("A", p), arr("A", p).reshape(1, p)
    else:
        d, p = 2, 3
        a = [[real("a"), real("b"), real("c")], [real("e"), real("f"), real("g")]]
        a2 = np.array(a)
    sh = {"flat": lambda nm, k: arr(nm, k), "column": lambda nm, k: arr(nm, k, 1), "row": lambda nm, k: arr(nm, 1, k)}
    Y, B, M = sh[y]("y", d), sh[b]("b", d), sh[m]("m", p)
    lp = LinearGaussianProblem(a, B, Y, M, arr("S", p, p), arr("R", d, d), positive("alpha"))
    check("map", lp.A, a2)
    check("offset", lp.b, B.reshape(d, 1))
    check("data", lp.y, Y.reshape(d, 1))
    check("mean", lp.mean_i, M.reshape(p, 1))
    check("initial covariance", lp.cov_i, arr("S", p, p))
    check("data covariance", lp.cov_o, arr("R", d, d))
    check("factor", lp.alpha, positive("alpha"))


def ob_defaults(given=["none", "b", "y", "mean_i", "cov_i", "cov_o", "alpha", "alpha_none"], d=["d", 1], p=["p", 1]):
    d, p = D(d), D(p)
    A = arr("A", d, p)
    kw = {}
    if given == "b":
        kw["b"] = arr("b", d, 1)
    if given == "y":
        kw["y"] = arr("y", d, 1)
    if given == "mean_i":
        kw["mean_i"] = arr("m", p, 1)
    if given == "cov_i":
        kw["cov_i"] = arr("S", p, p)
    if given == "cov_o":
        kw["cov_o"] = arr("R", d, d)
    if given == "alpha":
        kw["alpha"] = positive("alpha")
    if given == "alpha_none":
        kw["alpha"] = None
    lp = LinearGaussianProblem(A, **kw)
    check("map", lp.A, A)
    check("offset", lp.b, arr("b", d, 1) if given == "b" else np.zeros((d, 1)))
    check("data", lp.y, arr("y", d, 1) if given == "y" else np.zeros((d, 1)))
    check("mean", lp.mean_i, arr("m", p, 1) if given == "mean_i" else np.zeros((p, 1)))
    check("initial covariance", lp.cov_i, arr("S", p, p) if given == "cov_i" else np.eye(p))
    check("data covariance", lp.cov_o, arr("R", d, d) if given == "cov_o" else np.eye(d))
    check("factor", lp.alpha, positive("alpha") if given == "alpha" else 1.0)


def ob_factor(given=["any", "zero", "whole", "one", "half", "negative"], d=["d", 1], how=["keyword", "position"]):
    # the factor is kept as it is given, whatever its value
    d, p = D(d), D("p")
    a = {"any": lambda: real("alpha"), "zero": lambda: 0.0, "whole": lambda: 0, "one": lambda: 1, "half": lambda: 0.5, "negative": lambda: -2.0}[given]()
    A = arr("A", d, p)
    lp = LinearGaussianProblem(A, alpha=a) if how == "keyword" else LinearGaussianProblem(A, None, None, None, None, None, a)
    check("factor", lp.alpha, a)


def ob_sizes(d=["d", 1], p=["p", 1]):
    d, p = D(d), D(p)
    lp = LinearGaussianProblem(arr("A", d, p), y=arr("y", d))
    check("sizes", (lp.n_params, lp.n_samples, lp.n_features), (p, d, 1))


def ob_lists():
    lp = LinearGaussianProblem([real("a"), real("b")], [real("c")], [real("d")], [real("e"), real("f")], [[real("g"), real("h")], [real("i"), real("j")]], [[real("k")]])
    check("map", lp.A, np.array([[real("a"), real("b")]]))
    check("offset", lp.b, np.array([[real("c")]]))
    check("data", lp.y, np.array([[real("d")]]))
    check("mean", lp.mean_i, np.array([[real("e")], [real("f")]]))
    check("initial covariance", lp.cov_i, np.array([[real("g"), real("h")], [real("i"), real("j")]]))
    check("data covariance", lp.cov_o, np.array([[real("k")]]))


def ob_numbers():
    # numbers for a single row
    p = D("p")
    lp = LinearGaussianProblem(arr("A", 1, p), real("b"), real("y"), arr("m", p))
    check("offset", lp.b, np.array([[real("b")]]))
    check("data", lp.y, np.array([[real("y")]]))


def ob_data_mismatch(d=["d", 1, 2], k=["k", 1, 3], shape=["flat", "column", "row"]):
    p, d, k = D("p"), D(d), D(k)
    if d != k:
        y = arr("y", k) if shape == "flat" else arr("y", k, 1) if shape == "column" else arr("y", 1, k)
        raises("data of other length", lambda: LinearGaussianProblem(arr("A", d, p), y=y), ValueError)
        raises("data of other length, all given", lambda: LinearGaussianProblem(arr("A", d, p), arr("b", d, 1), y, arr("m", p, 1), arr("S", p, p), arr("R", d, d)), ValueError)


def ob_vector_mismatch():
    p, k = D("p k")
    raises("two data for one row", lambda: LinearGaussianProblem(arr("A", p), y=arr("y", k)), ValueError)
    raises("as many data as parameters for one row", lambda: LinearGaussianProblem(arr("A", p), y=arr("y", p)), ValueError)


def ob_wrappers_reject(f=["lin_prob", "mud_sol", "mud_sol_with_cov", "map_sol", "map_sol_with_cov", "iter_lin_solve"]):
    d, k, p = D("d k p")
    raises("data of other length", lambda: getattr(F, f)(arr("A", d, p), arr("b", d, 1), arr("y", k)), ValueError)


def ob_unknown_method(name=["unknown", "A", "y", "mean_i", "sol", "solve", "up_cov", "cov_p", "", "MUD", "mud ", "all_"], cls=["plain", "iterative"]):
    p = D("p")
    if cls == "plain":
        lp = LinearGaussianProblem(arr("A", 2, p), arr("b", 2, 1), arr("y", 2, 1), arr("m", p, 1))
        lp.solve("all")
    else:
        lp = IterativeLinearProblem(arr("A", 2, p), arr("b", 2, 1), arr("y", 2, 1), arr("m", p, 1))
    raises("unknown method", lambda: lp.solve(method=name), Exception)


def ob_unknown_method_any():
    d, p = D("d p")
    name = text("method")
    assume(name != "mud")
    assume(name != "mud_alt")
    assume(name != "map")
    assume(name != "ls")
    assume(name != "all")
    lp = LinearGaussianProblem(arr("A", d, p))
    raises("any other name", lambda: lp.solve(method=name), Exception)


def ob_known_method(name=["mud", "mud_alt", "map", "ls"]):
    d, p = D("d p")
    check("solution shape", LinearGaussianProblem(arr("A", d, p)).solve(name).shape, (p, 1))


def ob_shared_offset(b=["number", "list", "row", "none"], y=["none", "given"], d=["d", 3]):
    # one offset for all rows leaves the other defaults as they are
    d, p = D(d), D("p")
    A = arr("A", d, p)
    given = {"number": lambda: arr("b", 1)[0], "list": lambda: [arr("b", 1)[0]], "row": lambda: arr("b", 1, 1), "none": lambda: None}[b]()
    lp = LinearGaussianProblem(A, given, arr("y", d, 1) if y == "given" else None)
    check("offset", lp.b, np.zeros((d, 1)) if b == "none" else arr("b", 1, 1) if b == "row" else arr("b", 1).reshape(1, 1))
    check("data", lp.y, arr("y", d, 1) if y == "given" else np.zeros((d, 1)))
    check("mean", lp.mean_i, np.zeros((p, 1)))
    check("data covariance", lp.cov_o, np.eye(d))
