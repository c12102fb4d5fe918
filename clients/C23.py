# Component analyses
from sklearn.decomposition import PCA
from sklearn.preprocessing import StandardScaler


def standardised(X):
    return StandardScaler().fit_transform(X)


def ob_pca(nc=["c", 1, 3, "default", "positional"], n=["n", 1], k=["k", 1], opts=["", "whiten", "solver"]):
    n, k = D(n), D(k)
    X = arr("X", n, k)
    kw = {"whiten": True} if opts == "whiten" else {"svd_solver": "full", "tol": real("tol")} if opts == "solver" else {}
    if nc == "default":
        c, (res, scores) = 2, PP.pca(X, **kw)
    elif nc == "positional":
        c, (res, scores) = D("c"), PP.pca(X, D("c"), **kw)
    else:
        c, (res, scores) = D(nc), PP.pca(X, n_components=D(nc), **kw)
    want = PCA(n_components=c, **kw)
    S = want.fit_transform(standardised(X))
    check("scores", scores, S)
    check("directions", res.components_, want.components_)
    check("variances", res.explained_variance_, want.explained_variance_)
    check("variance ratios", res.explained_variance_ratio_, want.explained_variance_ratio_)
    check("centre", res.mean_, want.mean_)
    check("number of components", res.n_components_, c)


def ob_svd(n=["n", 1], k=["k", 1]):
    n, k = D(n), D(k)
    X = arr("X", n, k)
    u, s, v = PP.svd(X)
    U_, S_, V_ = np.linalg.svd(standardised(X))
    check("left vectors", u, U_)
    check("singular values", s, S_)
    check("right vectors", v, V_)


def ob_svd_options():
    n, k = D("n k")
    X = arr("X", n, k)
    u, s, v = PP.svd(X, full_matrices=False)
    U_, S_, V_ = np.linalg.svd(standardised(X), full_matrices=False)
    check("left vectors", u, U_)
    check("singular values", s, S_)
    check("right vectors", v, V_)


def ob_list(which=["pca", "svd"]):
    X = [[real("a"), real("b")], [real("c"), real("d")]]
    Y = np.array(X)
    if which == "pca":
        check("scores", PP.pca(X)[1], PP.pca(Y)[1])
    else:
        check("singular values", PP.svd(X)[1], PP.svd(Y)[1])


def ob_constant_column():
    # a constant column is centred and not scaled
    n = D("n")
    X = np.stack([arr("x", n), np.ones(n) * real("c")], axis=1)
    u, s, v = PP.svd(X)
    Z = standardised(X)
    check("decomposition", s, np.linalg.svd(Z)[1])


def ob_rejects(which=["pca", "svd"]):
    n, k, j = D("n k j")
    f = PP.pca if which == "pca" else PP.svd
    raises("vector", lambda: f(arr("v", n)), ValueError)
    raises("three axes", lambda: f(arr("T", n, k, j)), ValueError)
    raises("single row of three axes", lambda: f(arr("T", 1, k, j)), ValueError)
    raises("number", lambda: f(3.0), ValueError)
