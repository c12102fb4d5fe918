def closed(A, S_, R):
    pred = A @ S_ @ A.T
    K = S_ @ A.T @ np.linalg.pinv(pred)
    return S_ - K @ (pred - R) @ K.T


def posterior(A, S_, R):
    return np.linalg.inv(A.T @ np.linalg.inv(R) @ A + np.linalg.inv(S_))


def problem(d, p, a=1.0):
    return LinearGaussianProblem(arr("A", d, p), arr("b", d, 1), arr("y", d, 1), arr("m", p, 1), arr("S", p, p), arr("R", d, d), a)


def ob_function(d=["d", 1], p=["p", 1], S_=[0, 1], R=[0, 1]):
    d, p = D(d), D(p)
    A = arr("A", d, p)
    s = arr("S", p, p) if S_ else None
    r = arr("R", d, d) if R else None
    want = closed(A, arr("S", p, p) if S_ else np.eye(p), arr("R", d, d) if R else np.eye(d))
    check("by position", F.updated_cov(A, s, r), want)
    check("by name", F.updated_cov(X=A, data_cov=r, init_cov=s), want)


def ob_function_defaults():
    d, p = D("d p")
    check("identity covariances", F.updated_cov(arr("A", d, p)), closed(arr("A", d, p), np.eye(p), np.eye(d)))
    check("square", F.updated_cov(arr("A", d, d)), closed(arr("A", d, d), np.eye(d), np.eye(d)))


def ob_method(d=["d", 1], p=["p", 1], A=[0, 1], S_=[0, 1], R=[0, 1]):
    d, p = D(d), D(p)
    lp = problem(d, p)
    a = arr("A2", d, p) if A else None
    s = arr("S2", p, p) if S_ else None
    r = arr("R2", d, d) if R else None
    want = closed(arr("A2" if A else "A", d, p), arr("S2" if S_ else "S", p, p), arr("R2" if R else "R", d, d))
    check("by position", lp.updated_cov(a, s, r), want)
    check("by name", lp.updated_cov(data_cov=r, A=a, init_cov=s), want)


def ob_method_other_size(what=["outputs", "parameters", "both"]):
    d, p, e, r = D("d p e r")
    lp = problem(d, p)
    e = d if what == "parameters" else e
    r = p if what == "outputs" else r
    check("given map", lp.updated_cov(arr("A2", e, r), arr("S2", r, r), arr("R2", e, e)), closed(arr("A2", e, r), arr("S2", r, r), arr("R2", e, e)))


def ob_method_regularised():
    # the method's own covariance is the problem's initial covariance
    d, p = D("d p")
    lp = problem(d, p, positive("alpha"))
    check("own covariances", lp.updated_cov(), closed(arr("A", d, p), arr("S", p, p), arr("R", d, d)))
    check("own map and data covariance", lp.updated_cov(init_cov=arr("S2", p, p)), closed(arr("A", d, p), arr("S2", p, p), arr("R", d, d)))


def ob_mismatch(entry=["function", "method"], which=["init", "data"], k=["k", 1]):
    d, p = D("d p")
    k = D(k)
    A = arr("A", d, p)
    f = F.updated_cov if entry == "function" else problem(d, p).updated_cov
    if which == "init":
        raises("initial covariance of other size", lambda: f(A, init_cov=arr("C", k, k)), AssertionError, ValueError)
        raises("initial covariance of other size, data covariance given", lambda: f(A, arr("C", k, k), arr("R", d, d)), AssertionError, ValueError)
    else:
        raises("data covariance of other size", lambda: f(A, data_cov=arr("C", k, k)), AssertionError, ValueError)
        raises("data covariance of other size, initial covariance given", lambda: f(A, arr("S", p, p), arr("C", k, k)), AssertionError, ValueError)


def ob_mismatch_one(entry=["function", "method"], which=["init", "data"]):
    # one parameter or one output
    k, e = D("k e")
    f = F.updated_cov if entry == "function" else problem(k, k).updated_cov
    if which == "init":
        raises("initial covariance larger than the single parameter", lambda: f(arr("A", e, 1), arr("C", k, k)), AssertionError, ValueError)
    else:
        raises("data covariance larger than the single output", lambda: f(arr("A", 1, e), arr("S", e, e), arr("C", k, k)), AssertionError, ValueError)


def ob_alongside(method=["mud_alt", "all"], d=["d", 1], p=["p", 1], a=["alpha", 1.0]):
    d, p = D(d), D(p)
    a = positive("alpha") if a == "alpha" else a
    lp = problem(d, p, a)
    lp.solve(method)
    check("updated covariance", lp.up_cov, closed(arr("A", d, p), a * arr("S", p, p), arr("R", d, d)))


def ob_posterior(method=["map", "all"], d=["d", 1], p=["p", 1], a=["alpha", 1.0]):
    d, p = D(d), D(p)
    a = positive("alpha") if a == "alpha" else a
    lp = problem(d, p, a)
    lp.solve(method)
    check("posterior covariance", lp.cov_p, posterior(arr("A", d, p), a * arr("S", p, p), arr("R", d, d)))


def ob_alongside_output_dim(k=[1, "k"]):
    k, j, p = D(k), D("j"), D("p")
    d = k + j
    a = positive("alpha")
    lp = problem(d, p, a)
    lp.solve("mud_alt", k)
    lp.solve("map", k)
    check("updated covariance", lp.up_cov, closed(arr("A", d, p)[:k, :], a * arr("S", p, p), arr("R", d, d)[:k, :k]))
    check("posterior covariance", lp.cov_p, posterior(arr("A", d, p)[:k, :], a * arr("S", p, p), arr("R", d, d)[:k, :k]))


def ob_wrappers(S_=[0, 1], R=[0, 1], y=["flat", "column"]):
    d, p = D("d p")
    A = arr("A", d, p)
    s, r = arr("S", p, p) if S_ else None, arr("R", d, d) if R else None
    s2, r2 = s if S_ else np.eye(p), r if R else np.eye(d)
    Y = arr("y", d) if y == "flat" else arr("y", d, 1)
    check("mud", F.mud_sol_with_cov(A, arr("b", d, 1), Y, arr("m", p, 1), s, r)[1], closed(A, s2, r2))
    w = positive("w")
    check("map", F.map_sol_with_cov(A, arr("b", d, 1), Y, arr("m", p, 1), s, r, w)[1], posterior(A, w * s2, r2))
    check("map, default weight", F.map_sol_with_cov(A, arr("b", d, 1), Y, arr("m", p, 1), cov=s, data_cov=r)[1], posterior(A, s2, r2))


def ob_agree():
    # function and method agree whatever is given
    d, p = D("d p")
    lp = problem(d, p)
    check("same arguments", lp.updated_cov(arr("A2", d, p), arr("S2", p, p), arr("R2", d, d)), F.updated_cov(arr("A2", d, p), arr("S2", p, p), arr("R2", d, d)))
    check("own problem", lp.updated_cov(), F.updated_cov(arr("A", d, p), arr("S", p, p), arr("R", d, d)))
