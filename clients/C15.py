def formula(q, d, s, n):
    """weighted mean error of the rows of q"""
    return np.sum((q - d) / (s * np.sqrt(n)), axis=1)


def ob_wme(n=["n", 1], N=["N", 1], shape=["flat", "column", "row"]):
    n, N = D(n), D(N)
    q, d, s = arr("q", n, N), arr("d", N), positive("s")
    given = arr("d", N) if shape == "flat" else arr("d", N).reshape(N, 1) if shape == "column" else arr("d", N).reshape(1, N)
    if shape == "row" and N != 1:
        raises("data is one row", lambda: F.wme(q, given, s), ValueError)
    else:
        check("weighted mean error", F.wme(q, given, s), formula(q, d, s, N))
        check("by name", F.wme(predictions=q, data=given, sd=s), formula(q, d, s, N))


def ob_wme_default_sd(shape=["flat", "column"]):
    n, N = D("n N")
    q, d = arr("q", n, N), arr("d", N)
    given = d if shape == "flat" else d.reshape(N, 1)
    check("deviation of the data", F.wme(q, given), formula(q, d, np.std(d), N))
    check("deviation given as None", F.wme(q, given, None), formula(q, d, np.std(d), N))


def ob_wme_flat_prediction():
    N = D("N")
    check("one prediction", F.wme(arr("q", N), arr("d", N), positive("s")), formula(arr("q", N).reshape(1, N), arr("d", N), positive("s"), N))


def ob_wme_lists():
    d = [real("a"), real("b"), real("c")]
    q = arr("q", D("n"), 3)
    check("list", F.wme(q, d, positive("s")), formula(q, np.array(d), positive("s"), 3))
    check("list, deviation of the data", F.wme(q, d), formula(q, np.array(d), np.std(d), 3))


def ob_wme_same_sizes():
    n = D("n")
    q, d, s = arr("q", n, n), arr("d", n, 1), positive("s")
    check("as many samples as observations", F.wme(q, d, s), formula(q, d.reshape(n), s, n))


def ob_wme_mismatch(N=["N", 1], k=["k", 1], pred=["matrix", "flat"], sd=[0, 1], shape=["flat", "column"]):
    n, N, k = D("n"), D(N), D(k)
    s = positive("s") if sd else None
    if N != k:
        q = arr("q", n, N) if pred == "matrix" else arr("q", N)
        raises("lengths differ", lambda: F.wme(q, arr("d", k) if shape == "flat" else arr("d", k, 1), s), ValueError)


def row(A, s, N):
    """row of the map; s one deviation per observation"""
    return np.sum(A / (s * np.sqrt(N)).reshape(N, 1), axis=0)


def transform(where):
    if where == "function":
        return U.transform_linear_map

    def through_class(A, d, s):
        lp = LinearWMEProblem([A], [d], [s])
        return lp.A[0, :], lp.b[0, 0]

    return through_class


def deviation(std):
    """s: any deviation above the smallest one accepted"""
    if std == "any":
        assume(positive("s") > 1e-10)
        return positive("s")
    return std


def deviations(N):
    return 1e-8 + posarr("s", N)


def ob_map(where=["function", "class"], shape=["flat", "column", "row"], N=["N", 2], p=["p", 1]):
    N, p = D(N), D(p)
    A, d, s = arr("A", N, p), arr("d", N), deviations(N)
    a, b = transform(where)(A, d if shape == "flat" else d.reshape(N, 1) if shape == "column" else d.reshape(1, N), s)
    check("row", np.ravel(a), row(A, s, N))
    check("offset", b, -np.sum(d / s) / np.sqrt(N))


def ob_map_list(where=["function", "class"], kind=["list", "tuple", "float", "int"]):
    p = D("p")
    A, d = arr("A", 3, p), arr("d", 3)
    std = [1.0, 0.5, 1e-6] if kind == "list" else (1.0, 0.5, 1e-6) if kind == "tuple" else 0.5 if kind == "float" else 2
    s = np.array([1.0, 0.5, 1e-6]) if kind in ("list", "tuple") else std * np.ones(3)
    a, b = transform(where)(A, d, std)
    check("row", np.ravel(a), row(A, s, 3))
    check("offset", b, -np.sum(d / s) / np.sqrt(3))


def ob_map_number(where=["function", "class"], std=[0.5, 2, 1e-3, 2e5, "any"]):
    std = deviation(std)
    N, p = D("N p")
    A, d = arr("A", N, p), arr("d", N, 1)
    a, b = transform(where)(A, d, std)
    check("row", np.ravel(a), row(A, std * np.ones(N), N))
    check("offset", b, -np.sum(d) / (std * np.sqrt(N)))


def ob_map_data_list(where=["function", "class"]):
    p = D("p")
    A, d = arr("A", 2, p), [real("a"), real("b")]
    a, b = transform(where)(A, d, 0.5)
    check("row", np.ravel(a), row(A, 0.5 * np.ones(2), 2))
    check("offset", b, -(real("a") + real("b")) / (0.5 * np.sqrt(2)))


def ob_map_repeated(where=["function", "class"], N=["N", 1], p=["p", 1], shape=["flat", "column"], std=[0.5, 2, 1e-3, 2e5, "any"]):
    std = deviation(std)
    # one row for all observations
    N, p = D(N), D(p)
    A, d = arr("A", 1, p), arr("d", N) if shape == "flat" else arr("d", N, 1)
    a, b = transform(where)(A, d, std)
    check("row", np.reshape(a, (p,)), np.sqrt(N) / std * A.reshape(p))
    check("offset", b, -np.sum(d) / (std * np.sqrt(N)))


def ob_map_rejects(where=["function", "class"]):
    N, k, p = D("N k p")
    f = transform(where)
    A, d, s = arr("A", N, p), arr("d", N), deviations(N)
    raises("other number of observations", lambda: f(A, arr("d", k), s), AssertionError, ValueError)
    raises("other number of observations, one deviation", lambda: f(A, arr("d", k), 0.5), AssertionError, ValueError)
    raises("other number of deviations", lambda: f(A, d, posarr("s", k)), AssertionError, ValueError)
    raises("zero deviation", lambda: f(A, d, 0), AssertionError, ValueError)
    raises("zero deviation, repeated", lambda: f(arr("A", 1, p), d, 0.0), AssertionError, ValueError)
    raises("negative deviation, repeated", lambda: f(arr("A", 1, p), d, -1.0), AssertionError, ValueError)
    raises("several deviations for one repeated row", lambda: f(arr("A", 1, p), d, s), AssertionError, ValueError)
    raises("list of deviations for one repeated row", lambda: f(arr("A", 1, p), arr("d", 2), [0.5, 0.5]), AssertionError, ValueError)
    raises("a zero among the deviations", lambda: f(arr("A", 2, p), arr("d", 2), [0.5, 0.0]), AssertionError, ValueError)


def ob_map_rejects_negative(where=["function", "class"]):
    N, p = D("N p")
    f = transform(where)
    raises("negative deviation", lambda: f(arr("A", N, p), arr("d", N), -0.5), AssertionError, ValueError)
    raises("negative integer deviation", lambda: f(arr("A", N, p), arr("d", N), -1), AssertionError, ValueError)
    raises("a negative one among the deviations", lambda: f(arr("A", 2, p), arr("d", 2), [0.5, -1.0]), AssertionError, ValueError)


def ob_setup(std=["float", "int", "list"]):
    p = D("p")
    N, M = D("N M")
    As = [arr("A", N, p), arr("B", M, p)]
    ds = [arr("d", N), arr("e", M, 1)]
    s = 0.5 if std == "float" else 2 if std == "int" else [0.5, 0.25]
    s1, s2 = (s[0], s[1]) if std == "list" else (s, s)
    A, b = U.transform_linear_setup(As, ds, s)
    check("rows", A, np.vstack([row(arr("A", N, p), s1 * np.ones(N), N), row(arr("B", M, p), s2 * np.ones(M), M)]))
    check("offsets", b, np.array([[-np.sum(arr("d", N)) / (s1 * np.sqrt(N))], [-np.sum(arr("e", M, 1)) / (s2 * np.sqrt(M))]]))


def ob_setup_arrays():
    # one array of deviations per quantity, and a repeated row
    p, N, M = D("p N M")
    s = deviations(N)
    A, b = U.transform_linear_setup([arr("A", N, p), arr("B", 1, p)], [arr("d", N), arr("e", M)], [s, 0.5])
    check("rows", A, np.vstack([row(arr("A", N, p), s, N), np.sqrt(M) / 0.5 * arr("B", 1, p).reshape(p)]))
    check("offsets", b, np.array([[-np.sum(arr("d", N) / s) / np.sqrt(N)], [-np.sum(arr("e", M)) / (0.5 * np.sqrt(M))]]))


def ob_class(std=["float", "int", "list"], rest=["default", "given"]):
    p, N, M = D("p N M")
    As = [arr("A", N, p), arr("B", M, p)]
    ds = [arr("d", N), arr("e", M, 1)]
    s = 0.5 if std == "float" else 2 if std == "int" else [0.5, 0.25]
    s1, s2 = (s[0], s[1]) if std == "list" else (s, s)
    if rest == "given":
        lp = LinearWMEProblem(As, ds, s, arr("y", 2, 1), arr("m", p, 1), arr("S", p, p), arr("R", 2, 2), positive("alpha"))
        check("data", lp.y, arr("y", 2, 1))
        check("mean", lp.mean_i, arr("m", p, 1))
        check("initial covariance", lp.cov_i, arr("S", p, p))
        check("data covariance", lp.cov_o, arr("R", 2, 2))
        check("factor", lp.alpha, positive("alpha"))
    else:
        lp = LinearWMEProblem(As, ds, s)
        check("data", lp.y, np.zeros((2, 1)))
        check("mean", lp.mean_i, np.zeros((p, 1)))
        check("initial covariance", lp.cov_i, np.eye(p))
        check("data covariance", lp.cov_o, np.eye(2))
    check("rows", lp.A, np.vstack([row(arr("A", N, p), s1 * np.ones(N), N), row(arr("B", M, p), s2 * np.ones(M), M)]))
    check("offsets", lp.b, np.array([[-np.sum(arr("d", N)) / (s1 * np.sqrt(N))], [-np.sum(arr("e", M, 1)) / (s2 * np.sqrt(M))]]))


def ob_shared(where=["function", "class"], std=[0.5, 2], repeated=[0, 1], K=[1, 3], N=["N", 1, 2]):
    # one deviation for any number of quantities, each of any length
    p, N = D("p"), D(N)
    names = ["A", "B", "C"][:K]
    As = [arr(a, 1 if repeated else N, p) for a in names]
    ds = [arr("d" + a, N) for a in names]
    if where == "class":
        lp = LinearWMEProblem(As, ds, std)
        rows, offsets = lp.A, lp.b
        check("data", lp.y, np.zeros((K, 1)))
    else:
        rows, offsets = U.transform_linear_setup(As, ds, std)
    check("number of rows", rows.shape, (K, p))
    if repeated or N == 1:
        check("rows", rows, np.vstack([np.sqrt(N) / std * arr(a, 1, p) for a in names]))
    else:
        check("rows", rows, np.vstack([row(arr(a, N, p), std * np.ones(N), N) for a in names]))
    check("offsets", offsets, np.array([[-np.sum(arr("d" + a, N)) / (std * np.sqrt(N))] for a in names]))

def ob_class_arrays():
    p, N, M = D("p N M")
    s = deviations(N)
    lp = LinearWMEProblem([arr("A", N, p), arr("B", 1, p)], [arr("d", N), arr("e", M)], [s, 0.5])
    check("rows", lp.A, np.vstack([row(arr("A", N, p), s, N), np.sqrt(M) / 0.5 * arr("B", 1, p).reshape(p)]))
    check("offsets", lp.b, np.array([[-np.sum(arr("d", N) / s) / np.sqrt(N)], [-np.sum(arr("e", M)) / (0.5 * np.sqrt(M))]]))


def ob_class_per_observation():
    # one deviation per observation, as a list, repeated row rejected
    p = D("p")
    lp = LinearWMEProblem([arr("A", 2, p)], [arr("d", 2)], [[0.5, 0.25]])
    check("row", lp.A, row(arr("A", 2, p), np.array([0.5, 0.25]), 2).reshape(1, p))
    check("offset", lp.b, np.array([[-(arr("d", 2)[0] / 0.5 + arr("d", 2)[1] / 0.25) / np.sqrt(2)]]))


def ob_class_rejects():
    N, k, p = D("N k p")
    raises("other number of observations", lambda: LinearWMEProblem([arr("A", N, p)], [arr("d", k)], 0.5), AssertionError, ValueError)
    raises("other number of deviations", lambda: LinearWMEProblem([arr("A", N, p)], [arr("d", N)], [posarr("s", k)]), AssertionError, ValueError)
    raises("zero deviation", lambda: LinearWMEProblem([arr("A", N, p)], [arr("d", N)], 0), AssertionError, ValueError)
    raises("zero deviation, repeated", lambda: LinearWMEProblem([arr("A", 1, p)], [arr("d", N)], 0.0), AssertionError, ValueError)
    raises("list of deviations for one repeated row", lambda: LinearWMEProblem([arr("A", 1, p)], [arr("d", 2)], [[0.5, 0.5]]), AssertionError, ValueError)


def ob_agree(std=[0.5, 2, 1e-3, 2e5, "any"]):
    std = deviation(std)
    # the class and the function state the same map
    p, N, M = D("p N M")
    A, b = U.transform_linear_setup([arr("A", N, p), arr("B", 1, p)], [arr("d", N), arr("e", M)], std)
    lp = LinearWMEProblem([arr("A", N, p), arr("B", 1, p)], [arr("d", N), arr("e", M)], std)
    check("rows", lp.A, A)
    check("offsets", lp.b, b)


def ob_wme_of_linear(std=[0.5, 2, 1e-3, 2e5, "any"]):
    std = deviation(std)
    # the map of the transform is the weighted mean error of the predictions of the linear model
    n, N, p = D("n N p")
    A, d, X = arr("A", N, p), arr("d", N), arr("X", n, p)
    a, b = U.transform_linear_map(A, d, std)
    check("affine map", X @ np.ravel(a) + b, F.wme(X @ A.T, d, std))
