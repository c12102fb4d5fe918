def closed(method, A, b, y, m, S_, R, a=1.0):
    """the closed-form solutions"""
    S2 = a * S_
    r = y - b - A @ m
    if method == "ls":
        return np.linalg.pinv(A) @ (y - b)
    if method == "map":
        return m + np.linalg.inv(A.T @ np.linalg.inv(R) @ A + np.linalg.inv(S2)) @ A.T @ np.linalg.inv(R) @ r
    pred = A @ S2 @ A.T
    gain = S2 @ A.T @ np.linalg.pinv(pred)
    if method == "mud":
        return m + gain @ r
    up = S2 - gain @ (pred - R) @ gain.T
    return m + up @ A.T @ np.linalg.inv(R) @ r


def col(a):
    return np.reshape(a, (-1, 1))


def data(y, d):
    return arr("y", d) if y == "flat" else arr("y", d, 1) if y == "column" else arr("y", 1, d)


def shaped(y, p, sol):
    return sol.reshape(p) if y == "flat" else sol


def ob_mud_sol(d=["d", 1], p=["p", 1], y=["flat", "column", "row"], b=["flat", "column"], m=["flat", "column"], covs=["given", "default"]):
    d, p = D(d), D(p)
    A, Y = arr("A", d, p), data(y, d)
    B = arr("b", d) if b == "flat" else arr("b", d, 1)
    M = arr("m", p) if m == "flat" else arr("m", p, 1)
    if covs == "given":
        S_, R = arr("S", p, p), arr("R", d, d)
        got = F.mud_sol(A, B, Y, M, S_, R)
    else:
        S_, R = np.eye(p), np.eye(d)
        got = F.mud_sol(A, B, y=Y, mean=M)
    check("mud", got, shaped(y, p, closed("mud", A, col(B), col(Y), col(M), S_, R)))


def ob_mud_sol_with_cov(d=["d", 1], p=["p", 1], y=["flat", "column"], covs=["given", "default"]):
    d, p = D(d), D(p)
    A, B, Y, M = arr("A", d, p), arr("b", d, 1), data(y, d), arr("m", p, 1)
    if covs == "given":
        S_, R = arr("S", p, p), arr("R", d, d)
        got, cov = F.mud_sol_with_cov(A, B, Y, M, S_, R)
    else:
        S_, R = np.eye(p), np.eye(d)
        got, cov = F.mud_sol_with_cov(A, B, Y, M)
    K = S_ @ A.T @ np.linalg.pinv(A @ S_ @ A.T)
    check("mud", got, shaped(y, p, closed("mud_alt", A, B, col(Y), M, S_, R)))
    check("covariance", cov, S_ - K @ (A @ S_ @ A.T - R) @ K.T)


def ob_map_sol(d=["d", 1], p=["p", 1], y=["flat", "column"], covs=["given", "default"], w=["given", "default"]):
    d, p = D(d), D(p)
    A, B, Y, M = arr("A", d, p), arr("b", d, 1), data(y, d), arr("m", p, 1)
    S_, R = (arr("S", p, p), arr("R", d, d)) if covs == "given" else (np.eye(p), np.eye(d))
    c, r = (S_, R) if covs == "given" else (None, None)
    if w == "given":
        a = positive("w")
        got = F.map_sol(A, B, Y, M, c, r, a)
        got2, cov = F.map_sol_with_cov(A, B, y=Y, mean=M, cov=c, data_cov=r, w=a)
    else:
        a = 1
        got = F.map_sol(A, B, Y, M, c, r)
        got2, cov = F.map_sol_with_cov(A, B, Y, M, c, r)
    want = shaped(y, p, closed("map", A, B, col(Y), M, S_, R, a))
    check("map", got, want)
    check("map with covariance", got2, want)
    check("covariance", cov, np.linalg.inv(A.T @ np.linalg.inv(R) @ A + np.linalg.inv(a * S_)))


def ob_no_data(f=["mud_sol", "mud_sol_with_cov", "map_sol", "map_sol_with_cov"]):
    # without data the data is zero and the solution flat
    d, p = D("d p")
    A, B, M, S_, R = arr("A", d, p), arr("b", d, 1), arr("m", p, 1), arr("S", p, p), arr("R", d, d)
    method = "mud" if f == "mud_sol" else "mud_alt" if f == "mud_sol_with_cov" else "map"
    got = getattr(F, f)(A, B, mean=M, cov=S_, data_cov=R)
    got = got[0] if f.endswith("cov") else got
    check("solution", got, closed(method, A, B, np.zeros((d, 1)), M, S_, R).reshape(p))


def ob_lists(f=["mud_sol", "mud_sol_with_cov", "map_sol", "map_sol_with_cov"]):
    # data as a list
    p = D("p")
    A, B, M, S_, R = arr("A", 2, p), arr("b", 2, 1), arr("m", p, 1), arr("S", p, p), arr("R", 2, 2)
    method = "mud" if f == "mud_sol" else "mud_alt" if f == "mud_sol_with_cov" else "map"
    got = getattr(F, f)(A, B, [real("u"), real("v")], M, S_, R)
    got = got[0] if f.endswith("cov") else got
    check("solution", got, closed(method, A, B, np.array([[real("u")], [real("v")]]), M, S_, R).reshape(p))


def ob_lin_prob(a=["given", "default", "none"]):
    d, p = D("d p")
    A, B, Y, M, S_, R = arr("A", d, p), arr("b", d, 1), arr("y", d, 1), arr("m", p, 1), arr("S", p, p), arr("R", d, d)
    if a == "given":
        lp = F.lin_prob(A, B, Y, M, S_, R, positive("alpha"))
        check("factor", lp.alpha, positive("alpha"))
    elif a == "none":
        lp = F.lin_prob(A, B, Y, M, S_, R, alpha=None)
        check("factor", lp.alpha, 1.0)
    else:
        lp = F.lin_prob(A, B, y=Y, mean=M, cov=S_, data_cov=R)
        check("factor", lp.alpha, 1.0)
    check("map", lp.A, A)
    check("offset", lp.b, B)
    check("data", lp.y, Y)
    check("mean", lp.mean_i, M)
    check("initial covariance", lp.cov_i, S_)
    check("data covariance", lp.cov_o, R)


def ob_lin_prob_defaults():
    d, p = D("d p")
    lp = F.lin_prob(arr("A", d, p), arr("b", d, 1))
    check("data", lp.y, np.zeros((d, 1)))
    check("mean", lp.mean_i, np.zeros((p, 1)))
    check("initial covariance", lp.cov_i, np.eye(p))
    check("data covariance", lp.cov_o, np.eye(d))


def ob_iter_lin_solve(method=["mud", "mud_alt", "map", "ls", "default"], epochs=[1, 2, 0], order=["given", "default"]):
    # the solver by iteration: same as chaining the single rows in order
    p = D("p")
    A, B, Y, M, S_, R = arr("A", 2, p), arr("b", 2, 1), arr("y", 2, 1), arr("m", p, 1), arr("S", p, p), arr("R", 2, 2)
    idx = [1, 0, 1] if order == "given" else [0, 1]
    kw = {} if order == "default" else {"idx_order": idx}
    meth = "mud" if method == "default" else method
    if method != "default":
        kw["method"] = method
    if epochs > 0:
        kw["num_epochs"] = epochs
    got = F.iter_lin_solve(A, B, Y, M, S_, R, **kw)
    x = M
    for e in range(max(epochs, 1)):
        for i in idx:
            x = closed(meth, A[i : i + 1, :], B[i : i + 1, :], Y[i : i + 1, :], x, S_, R[i : i + 1, i : i + 1])
    check("last solution", got, x)


def ob_iter_lin_solve_positional(order=["given", "default"]):
    p = D("p")
    A, B, Y, M, S_, R = arr("A", 2, p), arr("b", 2, 1), arr("y", 2, 1), arr("m", p, 1), arr("S", p, p), arr("R", 2, 2)
    idx = [1, 0] if order == "given" else [0, 1]
    got = F.iter_lin_solve(A, B, Y, M, S_, R, "map", 1, None if order == "default" else idx)
    x = M
    for i in idx:
        x = closed("map", A[i : i + 1, :], B[i : i + 1, :], Y[i : i + 1, :], x, S_, R[i : i + 1, i : i + 1])
    check("last solution", got, x)


def ob_iter_lin_solve_order(order=["array", "tuple", "range", "empty", "last", "zero"], epochs=[1, 2]):
    # any sequence of rows is taken as it is
    p = D("p")
    A, B, Y, M, S_, R = arr("A", 3, p), arr("b", 3, 1), arr("y", 3, 1), arr("m", p, 1), arr("S", p, p), arr("R", 3, 3)
    idx = {"array": np.array([2, 0]), "tuple": (2, 0), "range": range(2), "empty": [], "last": np.array([2]), "zero": [0]}[order]
    used = {"array": [2, 0], "tuple": [2, 0], "range": [0, 1], "empty": [], "last": [2], "zero": [0]}[order]
    got = F.iter_lin_solve(A, B, Y, M, S_, R, num_epochs=epochs, idx_order=idx)
    x = M
    for e in range(epochs):
        for i in used:
            x = closed("mud", A[i : i + 1, :], B[i : i + 1, :], Y[i : i + 1, :], x, S_, R[i : i + 1, i : i + 1])
    check("last solution", got, x)


def ob_iter_lin_solve_defaults():
    p = D("p")
    A, B, Y = arr("A", 2, p), arr("b", 2, 1), arr("y", 2, 1)
    x = np.zeros((p, 1))
    for i in range(2):
        x = closed("mud", A[i : i + 1, :], B[i : i + 1, :], Y[i : i + 1, :], x, np.eye(p), np.eye(1))
    check("last solution", F.iter_lin_solve(A, B, Y), x)


def ob_iterate(order=["default", "all", "reverse", "one", "array"], epochs=[1, 2, 3], how=["keyword", "position"]):
    # every argument of the function form reaches the chain, in every epoch
    rows = {"default": [0, 1, 2], "all": [0, 1, 2], "reverse": [2, 1, 0], "one": [1], "array": [2, 0]}[order]
    given = {"default": None, "all": [0, 1, 2], "reverse": [2, 1, 0], "one": [1], "array": np.array([2, 0])}[order]
    p = D("p")
    A, S_, b, y, m = arr("A", 3, p), arr("S", p, p), arr("b", 3, 1), arr("y", 3, 1), arr("m", p, 1)
    got = F.iterate(A, b, y, m, S_, num_epochs=epochs, idx=given) if how == "keyword" else F.iterate(A, b, y, m, S_, None, epochs, given)
    k = len(rows)
    check("length", len(got), epochs * (k + 1))
    x = m
    for e in range(epochs):
        check("epoch start", col(got[e * (k + 1)]), x)
        for j, i in enumerate(rows):
            x = closed("mud", A[i : i + 1, :], b[i : i + 1, :], y[i : i + 1, :], x, S_, np.eye(1))
            check("solution", col(got[e * (k + 1) + j + 1]), x)
