def closed(method, A, b, y, m, S_, R, a):
    """the closed-form solutions"""
    S2 = a * S_
    r = y - b - A @ m
    if method == "ls":
        return np.linalg.pinv(A) @ (y - b)
    if method == "map":
        return m + np.linalg.inv(A.T @ np.linalg.inv(R) @ A + np.linalg.inv(S2)) @ A.T @ np.linalg.inv(R) @ r
    pred = A @ S2 @ A.T
    gain = S2 @ A.T @ np.linalg.pinv(pred)
    if method == "mud":
        return m + gain @ r
    up = S2 - gain @ (pred - R) @ gain.T
    return m + up @ A.T @ np.linalg.inv(R) @ r


def problem(d, p, a):
    A, b, y, m = arr("A", d, p), arr("b", d, 1), arr("y", d, 1), arr("m", p, 1)
    S_, R = arr("S", p, p), arr("R", d, d)
    return A, b, y, m, S_, R, LinearGaussianProblem(A, b, y, m, S_, R, a)


def ob_solve(method=["mud", "mud_alt", "map", "ls"], d=["d", 1], p=["p", 1], a=["alpha", 1.0]):
    d, p = D(d), D(p)
    a = positive("alpha") if a == "alpha" else a
    A, b, y, m, S_, R, lp = problem(d, p, a)
    check(method, lp.solve(method), closed(method, A, b, y, m, S_, R, a))
    check("again", lp.solve(method=method), closed(method, A, b, y, m, S_, R, a))


def ob_equal_sizes(method=["mud", "mud_alt", "map", "ls"]):
    # as many outputs as parameters
    d = D("d")
    a = positive("alpha")
    A, b, y, m, S_, R, lp = problem(d, d, a)
    check(method, lp.solve(method), closed(method, A, b, y, m, S_, R, a))


def ob_default_method():
    d, p = D("d p")
    A, b, y, m, S_, R, lp = problem(d, p, 1.0)
    check("mud by default", lp.solve(), closed("mud", A, b, y, m, S_, R, 1.0))


def ob_default_problem(method=["mud", "mud_alt", "map", "ls"]):
    # everything but the map and the data left to its default
    d, p = D("d p")
    A, y = arr("A", d, p), arr("y", d, 1)
    lp = LinearGaussianProblem(A, y=y)
    check(method, lp.solve(method), closed(method, A, np.zeros((d, 1)), y, np.zeros((p, 1)), np.eye(p), np.eye(d), 1.0))


def ob_all(d=["d", 1], p=["p", 1]):
    d, p = D(d), D(p)
    a = positive("alpha")
    A, b, y, m, S_, R, lp = problem(d, p, a)
    c = (A, b, y, m, S_, R, a)
    mud, mp, ls = lp.solve("all")
    check("mud", mud, closed("mud", *c))
    check("map", mp, closed("map", *c))
    check("least squares", ls, closed("ls", *c))
    check("stored alternative mud", lp.mud_alt, closed("mud_alt", *c))


def ob_all_stored():
    d, p = D("d p")
    a = positive("alpha")
    A, b, y, m, S_, R, lp = problem(d, p, a)
    c = (A, b, y, m, S_, R, a)
    lp.solve("all")
    check("mud attribute", lp.mud, closed("mud", *c))
    check("mud_alt attribute", lp.mud_alt, closed("mud_alt", *c))
    check("map attribute", lp.map, closed("map", *c))
    check("ls attribute", lp.ls, closed("ls", *c))


def ob_output_dim(method=["mud", "mud_alt", "map", "ls"], k=[1, "k"]):
    k, j, p = D(k), D("j"), D("p")
    d = k + j
    a = positive("alpha")
    A, b, y, m, S_, R, lp = problem(d, p, a)
    c = (A[:k, :], b[:k, :], y[:k, :], m, S_, R[:k, :k], a)
    check(method, lp.solve(method, output_dim=k), closed(method, *c))
    check("whole problem afterwards", lp.solve(method), closed(method, A, b, y, m, S_, R, a))


def ob_output_dim_all(k=[1, "k"]):
    k, j, p = D(k), D("j"), D("p")
    d = k + j
    a = positive("alpha")
    A, b, y, m, S_, R, lp = problem(d, p, a)
    c = (A[:k, :], b[:k, :], y[:k, :], m, S_, R[:k, :k], a)
    mud, mp, ls = lp.solve("all", k)
    check("mud", mud, closed("mud", *c))
    check("map", mp, closed("map", *c))
    check("least squares", ls, closed("ls", *c))


def ob_output_dim_full(method=["mud", "mud_alt", "map", "ls"]):
    d, p = D("d p")
    A, b, y, m, S_, R, lp = problem(d, p, 1.0)
    check("all outputs", lp.solve(method, d), closed(method, A, b, y, m, S_, R, 1.0))


def ob_sequence(first=["mud", "mud_alt", "map", "ls", "all"], then=["mud", "mud_alt", "map", "ls"]):
    # what was solved before, and with how many outputs, does not matter
    d, p = 2, D("p")
    a = positive("alpha")
    A, b, y, m, S_, R, lp = problem(d, p, a)
    lp.solve(first, 1)
    check(then, lp.solve(then), closed(then, A, b, y, m, S_, R, a))


def ob_attributes_replaced(method=["mud", "mud_alt", "map", "ls"]):
    # a problem changed after it was solved is solved anew
    d, p = D("d p")
    A, b, y, m, S_, R, lp = problem(d, p, positive("alpha"))
    lp.solve(method)
    lp.y, lp.b, lp.mean_i = arr("y2", d, 1), arr("b2", d, 1), arr("m2", p, 1)
    lp.cov_i, lp.cov_o, lp.alpha, lp.A = arr("S2", p, p), arr("R2", d, d), positive("alpha2"), arr("A2", d, p)
    c = (arr("A2", d, p), arr("b2", d, 1), arr("y2", d, 1), arr("m2", p, 1), arr("S2", p, p), arr("R2", d, d), positive("alpha2"))
    check(method, lp.solve(method), closed(method, *c))


def ob_output_dim_all_stored(k=[1, "k"], before=["new", "mud_alt", "map"]):
    # what solving by all methods with fewer outputs leaves behind
    k, j, p = D(k), D("j"), D("p")
    d = k + j
    a = positive("alpha")
    A, b, y, m, S_, R, lp = problem(d, p, a)
    c = (A[:k, :], b[:k, :], y[:k, :], m, S_, R[:k, :k], a)
    if before != "new":
        lp.solve(before)
    lp.solve("all", k)
    check("mud_alt attribute", lp.mud_alt, closed("mud_alt", *c))
    check("mud attribute", lp.mud, closed("mud", *c))
    check("map attribute", lp.map, closed("map", *c))
    check("ls attribute", lp.ls, closed("ls", *c))
    A, R, S2 = A[:k, :], R[:k, :k], a * S_
    K = S2 @ A.T @ np.linalg.pinv(A @ S2 @ A.T)
    check("updated covariance", lp.up_cov, S2 - K @ (A @ S2 @ A.T - R) @ K.T)
    check("posterior covariance", lp.cov_p, np.linalg.inv(A.T @ np.linalg.inv(R) @ A + np.linalg.inv(S2)))
