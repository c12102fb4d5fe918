# Linear solutions do not depend on the units of outputs or parameters


def given(d, p, shape="column"):
    if shape == "flat":
        return arr("A", d, p), arr("b", d), arr("y", d), arr("m", p), arr("S", p, p), arr("R", d, d)
    return arr("A", d, p), arr("b", d, 1), arr("y", d, 1), arr("m", p, 1), arr("S", p, p), arr("R", d, d)


def rescaled(which, c, A, b, y, m, S_, R):
    """the same problem in other units, and the factor of its solution"""
    if which == "outputs":
        return (c * A, c * b, c * y, m, S_, c * c * R), 1.0
    return (A / c, b, y, c * m, c * c * S_, R), c



def ob_solve(which=["outputs", "parameters"], method=["mud", "mud_alt", "map", "ls"], d=["d", 1], p=["p", 1], a=["alpha", 1.0], shape=["column", "flat"]):
    d, p = D(d), D(p)
    a = positive("alpha") if a == "alpha" else a
    g = given(d, p, shape)
    s, k = rescaled(which, positive("c"), *g)
    check(method, LinearGaussianProblem(*s, a).solve(method), k * LinearGaussianProblem(*g, a).solve(method))


def ob_solve_square(which=["outputs", "parameters"], method=["mud", "mud_alt", "map", "ls"]):
    # as many outputs as parameters
    d = D("d")
    g = given(d, d)
    s, k = rescaled(which, positive("c"), *g)
    check(method, LinearGaussianProblem(*s, positive("alpha")).solve(method), k * LinearGaussianProblem(*g, positive("alpha")).solve(method))


def ob_solve_all(which=["outputs", "parameters"], d=["d", 1], p=["p", 1]):
    d, p = D(d), D(p)
    g = given(d, p)
    s, k = rescaled(which, positive("c"), *g)
    one, two = LinearGaussianProblem(*g, positive("alpha")), LinearGaussianProblem(*s, positive("alpha"))
    u, v = one.solve("all"), two.solve("all")
    check("mud", v[0], k * u[0])
    check("map", v[1], k * u[1])
    check("least squares", v[2], k * u[2])
    check("updated covariance", two.up_cov, k * k * one.up_cov)
    check("posterior covariance", two.cov_p, k * k * one.cov_p)


def ob_solve_output_dim(which=["outputs", "parameters"], method=["mud", "mud_alt", "map", "ls"], n=[1, "k"]):
    n, j, p = D(n), D("j"), D("p")
    g = given(n + j, p)
    s, k = rescaled(which, positive("c"), *g)
    check(method, LinearGaussianProblem(*s).solve(method, n), k * LinearGaussianProblem(*g).solve(method, n))


def ob_covariances(which=["outputs", "parameters"], d=["d", 1], p=["p", 1], how=["own", "given", "function"]):
    d, p = D(d), D(p)
    g = given(d, p)
    s, k = rescaled(which, positive("c"), *g)
    if how == "own":
        u, v = LinearGaussianProblem(*g).updated_cov(), LinearGaussianProblem(*s).updated_cov()
    elif how == "given":
        lp = LinearGaussianProblem(arr("A0", d, p), arr("b", d, 1), arr("y", d, 1))
        u, v = lp.updated_cov(g[0], g[4], g[5]), lp.updated_cov(s[0], s[4], s[5])
    else:
        u, v = F.updated_cov(g[0], g[4], g[5]), F.updated_cov(s[0], s[4], s[5])
    check("updated covariance", v, k * k * u)


def ob_functionals(which=["outputs", "parameters"], term=["data", "reg", "dc_term", "reg_m", "bayes", "dc"], d=["d", 1], p=["p", 1], n=["n", 1]):
    d, p, n = D(d), D(p), D(n)
    g = given(d, p)
    s, k = rescaled(which, positive("c"), *g)
    X = arr("X", n, p)
    u = LinearGaussianProblem(*g, positive("alpha")).compute_functionals(X, term)
    check(term, LinearGaussianProblem(*s, positive("alpha")).compute_functionals(k * X, term), u)


def ob_functionals_all(which=["outputs", "parameters"]):
    d, p, n = D("d p n")
    g = given(d, p)
    s, k = rescaled(which, positive("c"), *g)
    X = arr("X", n, p)
    u, v = LinearGaussianProblem(*g).compute_functionals(X), LinearGaussianProblem(*s).compute_functionals(k * X)
    check("all terms", v, u)


def ob_norms(which=["outputs", "parameters"], d=["d", 1], p=["p", 1], shape=["column", "flat"]):
    d, p, n = D(d), D(p), D("n")
    g = given(d, p, shape)
    (A, b, y, m, S_, R), k = rescaled(which, positive("c"), *g)
    X = arr("X", n, p)
    check("data mismatch", NM.norm_data(A, k * X, b, y, R), NM.norm_data(g[0], X, g[1], g[2], g[5]))
    check("regularisation", NM.norm_input(k * X, m, S_), NM.norm_input(X, g[3], g[4]))
    check("predicted", NM.norm_predicted(A, k * X, m, S_), NM.norm_predicted(g[0], X, g[3], g[4]))
    check("data-consistent", NM.full_functional(A, k * X, b, m, S_, y, R), NM.full_functional(g[0], X, g[1], g[3], g[4], g[2], g[5]))


def ob_functions(which=["outputs", "parameters"], d=["d", 1], p=["p", 1], shape=["column", "flat"]):
    d, p = D(d), D(p)
    g = given(d, p, shape)
    s, k = rescaled(which, positive("c"), *g)
    check("mud", F.mud_sol(*s), k * F.mud_sol(*g))
    check("map", F.map_sol(*s), k * F.map_sol(*g))
    w = positive("w")
    check("weighted map", F.map_sol(*s, w=w), k * F.map_sol(*g, w=w))


def ob_functions_with_cov(which=["outputs", "parameters"], d=["d", 1], p=["p", 1]):
    d, p = D(d), D(p)
    g = given(d, p)
    s, k = rescaled(which, positive("c"), *g)
    (u, cu), (v, cv) = F.mud_sol_with_cov(*g), F.mud_sol_with_cov(*s)
    check("mud", v, k * u)
    check("updated covariance", cv, k * k * cu)
    w = positive("w")
    (u, cu), (v, cv) = F.map_sol_with_cov(*g, w), F.map_sol_with_cov(*s, w)
    check("map", v, k * u)
    check("posterior covariance", cv, k * k * cu)
