def quad(v, C):
    """one value per column of v"""
    return np.sum(v * (np.linalg.inv(C) @ v), axis=0)


def terms(A, b, y, m, S_, R, X):
    d = quad(A @ X.T + b - y, R)
    r = quad((X - m.T).T, S_)
    c = quad(A @ (X - m.T).T, A @ S_ @ A.T)
    return {"data": d, "reg": r, "dc_term": c, "bayes": d + r, "dc": d + r - c, "reg_m": r - c}


def problem(d, p, a):
    return LinearGaussianProblem(arr("A", d, p), arr("b", d, 1), arr("y", d, 1), arr("m", p, 1), arr("S", p, p), arr("R", d, d), a)


def given(d, p):
    return arr("A", d, p), arr("b", d, 1), arr("y", d, 1), arr("m", p, 1)


def ob_term(term=["data", "reg", "dc_term", "reg_m", "bayes", "dc"], d=["d", 1], p=["p", 1], n=["n", 1], a=["alpha", 1.0]):
    d, p, n = D(d), D(p), D(n)
    a = positive("alpha") if a == "alpha" else a
    X = arr("X", n, p)
    A, b, y, m = given(d, p)
    want = terms(A, b, y, m, a * arr("S", p, p), arr("R", d, d), X)[term]
    got = problem(d, p, a).compute_functionals(X, terms=term)
    check(term, got, want)
    check("one value per row", got.shape, (n,))
    check("by position", problem(d, p, a).compute_functionals(X, term), want)


def ob_all(d=["d", 1], p=["p", 1], a=["alpha", 1.0], how=["default", "all"]):
    d, p, n = D(d), D(p), D("n")
    a = positive("alpha") if a == "alpha" else a
    X = arr("X", n, p)
    A, b, y, m = given(d, p)
    w = terms(A, b, y, m, a * arr("S", p, p), arr("R", d, d), X)
    lp = problem(d, p, a)
    got = lp.compute_functionals(X) if how == "default" else lp.compute_functionals(X, "all")
    check("number of terms", len(got), 5)
    check("data", got[0], w["data"])
    check("regularisation", got[1], w["reg"])
    check("predicted", got[2], w["dc_term"])
    check("bayes", got[3], w["bayes"])
    check("data-consistent", got[4], w["dc"])


def ob_same_sizes(term=["data", "reg", "dc_term", "reg_m", "bayes", "dc"]):
    # as many inputs as parameters and outputs
    d = D("d")
    a = positive("alpha")
    A, b, y, m = given(d, d)
    X = arr("X", d, d)
    check(term, problem(d, d, a).compute_functionals(X, term), terms(A, b, y, m, a * arr("S", d, d), arr("R", d, d), X)[term])


def ob_input(cov=["matrix", "float", "int"], d=["p", 1]):
    n, p = D("n"), D(d)
    m, X = arr("m", p, 1), arr("X", n, p)
    c, C = (arr("C", p, p), arr("C", p, p)) if cov == "matrix" else (0.5, 0.5 * np.eye(p)) if cov == "float" else (2, 2 * np.eye(p))
    check("regularisation", NM.norm_input(X, m, c), quad((X - m.T).T, C))


def vec(name, d, shape):
    return arr(name, d, 1) if shape == "column" else arr(name, d)


def as_column(v, d):
    return np.reshape(v, (d, 1))


def ob_data(cov=["matrix", "float", "int"], d=["d", 1], p=["p", 1], shape=["column", "flat"]):
    n, d, p = D("n"), D(d), D(p)
    A, X = arr("A", d, p), arr("X", n, p)
    b, y = vec("b", d, shape), vec("y", d, shape)
    c, C = (arr("R", d, d), arr("R", d, d)) if cov == "matrix" else (0.25, 0.25 * np.eye(d)) if cov == "float" else (3, 3 * np.eye(d))
    check("data mismatch", NM.norm_data(A, X, b, y, c), quad(A @ X.T + as_column(b, d) - as_column(y, d), C))


def ob_full(d=["d", 1], p=["p", 1], shape=["column", "flat"], covs=["matrix", "number"]):
    n, d, p = D("n"), D(d), D(p)
    A, X = arr("A", d, p), arr("X", n, p)
    b, y, m = vec("b", d, shape), vec("y", d, shape), vec("m", p, shape)
    S_, R = (arr("S", p, p), arr("R", d, d)) if covs == "matrix" else (2.0 * np.eye(p), 3.0 * np.eye(d))
    c, r = (S_, R) if covs == "matrix" else (2.0, 3.0)
    w = terms(A, as_column(b, d), as_column(y, d), as_column(m, p), S_, R, X)
    check("data-consistent", NM.full_functional(A, X, b, m, c, y, r), w["dc"])


def ob_full_defaults(d=["d", 1], shape=["column", "flat"]):
    n, d, p = D("n"), D(d), D("p")
    A, X = arr("A", d, p), arr("X", n, p)
    b, m = vec("b", d, shape), vec("m", p, shape)
    w = terms(A, as_column(b, d), np.zeros((d, 1)), as_column(m, p), arr("S", p, p), np.eye(d), X)
    check("zero mean, unit covariance", NM.full_functional(A, X, b, m, arr("S", p, p)), w["dc"])


def ob_flat_mean(cov=["matrix", "float"]):
    n, p, d = D("n p d")
    m, X, A = arr("m", p), arr("X", n, p), arr("A", d, p)
    c, C = (arr("C", p, p), arr("C", p, p)) if cov == "matrix" else (0.5, 0.5 * np.eye(p))
    check("regularisation", NM.norm_input(X, m, c), quad((X - m).T, C))
    check("predicted", NM.norm_predicted(A, X, m, c), quad(A @ (X - m).T, A @ C @ A.T))


def ob_predicted(cov=["matrix", "float", "int"], d=["d", 1], p=["p", 1]):
    n, d, p = D("n"), D(d), D(p)
    A, b, y, m = given(d, p)
    X = arr("X", n, p)
    c, C = (arr("C", p, p), arr("C", p, p)) if cov == "matrix" else (0.5, 0.5 * np.eye(p)) if cov == "float" else (2, 2 * np.eye(p))
    check("predicted", NM.norm_predicted(A, X, m, c), quad(A @ (X - m.T).T, A @ C @ A.T))


def ob_inner_product(n=["n", 1], d=["d", 1]):
    n, d = D(n), D(d)
    check("columns", NM.inner_product(arr("V", d, n), arr("C", d, d)), quad(arr("V", d, n), arr("C", d, d)))
