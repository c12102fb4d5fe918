def step(method, A, b, y, m, S_, r):
    """solution of the single-row problem A (1 x p), b, y, r (1 x 1)"""
    if method == "ls":
        return np.linalg.pinv(A) @ (y - b)
    z = y - b - A @ m
    if method == "map":
        return m + np.linalg.inv(A.T @ np.linalg.inv(r) @ A + np.linalg.inv(S_)) @ A.T @ np.linalg.inv(r) @ z
    pred = A @ S_ @ A.T
    gain = S_ @ A.T @ np.linalg.pinv(pred)
    if method == "mud":
        return m + gain @ z
    up = S_ - gain @ (pred - r) @ gain.T
    return m + up @ A.T @ np.linalg.inv(r) @ z


def problem(d, p, order):
    return IterativeLinearProblem(arr("A", d, p), arr("b", d, 1), arr("y", d, 1), arr("m", p, 1), arr("S", p, p), arr("R", d, d), order)


def row(i, method, x, d, p):
    return step(method, arr("A", d, p)[i : i + 1, :], arr("b", d, 1)[i : i + 1, :], arr("y", d, 1)[i : i + 1, :], x, arr("S", p, p), arr("R", d, d)[i : i + 1, i : i + 1])


def chain(d, p, order, epochs, method, start):
    """all solutions, first to last, without the start"""
    out = []
    x = start
    for e in range(epochs):
        for i in order:
            x = row(i, method, x, d, p)
            out.append(x)
    return out


ORDERS = {"all": None, "reverse": [2, 1, 0], "repeat": [1, 1, 0], "one": [2], "tuple": (2, 0), "array": np.array([1, 2]), "range": range(1, 3), "empty": [], "long": [0, 1, 2, 0, 1]}
USED = {"all": [0, 1, 2], "reverse": [2, 1, 0], "repeat": [1, 1, 0], "one": [2], "tuple": [2, 0], "array": [1, 2], "range": [1, 2], "empty": [], "long": [0, 1, 2, 0, 1]}


def ob_result(method=["mud", "map", "ls", "mud_alt"], epochs=[1, 2], order=["all", "reverse", "repeat", "one", "tuple", "array", "range", "empty"]):
    p = D("p")
    lp = problem(3, p, ORDERS[order])
    want = [arr("m", p, 1)] + chain(3, p, USED[order], epochs, method, arr("m", p, 1))
    check("last solution", lp.solve(epochs, method), want[-1])


def ob_defaults():
    p = D("p")
    check("one epoch of mud", problem(3, p, None).solve(), chain(3, p, [0, 1, 2], 1, "mud", arr("m", p, 1))[-1])
    lp = IterativeLinearProblem(arr("A", 2, p), arr("b", 2, 1), arr("y", 2, 1))
    x = np.zeros((p, 1))
    for i in [0, 1]:
        x = step("mud", arr("A", 2, p)[i : i + 1, :], arr("b", 2, 1)[i : i + 1, :], arr("y", 2, 1)[i : i + 1, :], x, np.eye(p), np.eye(1))
    check("identity covariances, zero mean", lp.solve(), x)


def ob_recorded(order=["all", "repeat", "one"], epochs=[1, 2, 3]):
    p = D("p")
    lp = problem(3, p, ORDERS[order])
    lp.solve(num_epochs=epochs)
    want = chain(3, p, USED[order], epochs, "mud", arr("m", p, 1))
    k = len(USED[order])
    check("one chain per epoch", len(lp.solution_chains), epochs)
    for e in range(epochs):
        note("epoch", e)
        c = lp.solution_chains[e]
        check("length", len(c), k + 1)
        check("start", c[0], arr("m", p, 1) if e == 0 else want[e * k - 1])
        for j in range(k):
            check("solution", c[j + 1], want[e * k + j])


def ob_continues(first=["mud", "map"], then=["mud", "map", "ls"], e1=[1, 2], e2=[1, 2]):
    p = D("p")
    lp = problem(2, p, None)
    a = chain(2, p, [0, 1], e1, first, arr("m", p, 1))
    check("first", lp.solve(e1, first), a[-1])
    b = chain(2, p, [0, 1], e2, then, a[-1])
    check("second", lp.solve(num_epochs=e2, method=then), b[-1])
    check("third", lp.solve(), chain(2, p, [0, 1], 1, "mud", b[-1])[-1])


def dist(x, ref):
    return np.sqrt(np.sum((x - ref) ** 2))


ORDERS["back and forth"] = USED["back and forth"] = [2, 0]


def ob_errors(order=["all", "repeat", "one", "back and forth"], epochs=[1, 2], ref=["column", "flat"]):
    if len(USED[order]) * epochs <= 4:
        errors(order, epochs, ref)


def errors(order, epochs, ref):
    p = D("p")
    lp = problem(3, p, ORDERS[order])
    lp.solve(epochs)
    want = chain(3, p, USED[order], epochs, "mud", arr("m", p, 1))
    r = arr("ref", p, 1)
    got = lp.get_errors(r if ref == "column" else arr("ref", p, 1).reshape(p))
    check("number of errors", len(got), len(want))
    for i in range(len(want)):
        check("distance", got[i], dist(want[i], r))
    check("recorded", len(lp.errors), len(want))
    check("recorded last", lp.errors[-1], dist(want[-1], r))


def ob_many_epochs(epochs=[12]):
    # a row visited often: every solution is recorded and measured
    p = D("p")
    lp = problem(2, p, [1])
    x = arr("m", p, 1)
    want = []
    for e in range(epochs):
        x = row(1, "ls", x, 2, p)
        want.append(x)
    check("last", lp.solve(epochs, "ls"), want[-1])
    check("chains", len(lp.solution_chains), epochs)
    got = lp.get_errors(arr("ref", p, 1))
    check("number of errors", len(got), epochs)
    check("errors", got, [dist(w, arr("ref", p, 1)) for w in want])

def ob_errors_again():
    # another reference, and more solutions, since the last time
    p = D("p")
    lp = problem(2, p, None)
    lp.solve()
    lp.get_errors(arr("ref", p, 1))
    r = arr("ref2", p, 1)
    want = chain(2, p, [0, 1], 1, "mud", arr("m", p, 1))
    got = lp.get_errors(r)
    check("other reference", (len(got), got[0], got[1]), (2, dist(want[0], r), dist(want[1], r)))
    lp.solve()
    want = chain(2, p, [0, 1], 2, "mud", arr("m", p, 1))
    got = lp.get_errors(r)
    check("all solutions so far", (len(got), got[0], got[1], got[2], got[3]), (4, dist(want[0], r), dist(want[1], r), dist(want[2], r), dist(want[3], r)))
    check("recorded", len(lp.errors), 4)


def ob_epoch_function(order=["all", "reverse", "one", "array", "range", "empty", "long"], shape=["column", "flat"]):
    # performEpoch starts at the mean and lists every solution
    p = D("p")
    A, S_ = arr("A", 3, p), arr("S", p, p)
    b, y = (arr("b", 3, 1), arr("y", 3, 1)) if shape == "column" else (arr("b", 3), arr("y", 3))
    m = arr("m", p, 1)
    got = F.performEpoch(A, b, y, m, S_, idx=ORDERS[order])
    x = m
    check("length", len(got), len(USED[order]) + 1)
    check("start", got[0], m)
    for k, i in enumerate(USED[order]):
        x = step("mud", A[i : i + 1, :], b.reshape(3, 1)[i : i + 1, :], y.reshape(3, 1)[i : i + 1, :], x, S_, np.eye(1))
        check("solution", np.reshape(got[k + 1], (p, 1)), x)


def ob_iterate(order=["all", "reverse", "one", "array", "empty"], epochs=[1, 2, 3]):
    p = D("p")
    A, S_, b, y, m = arr("A", 3, p), arr("S", p, p), arr("b", 3, 1), arr("y", 3, 1), arr("m", p, 1)
    got = F.iterate(A, b, y, m, S_, num_epochs=epochs, idx=ORDERS[order])
    k = len(USED[order])
    check("length", len(got), epochs * (k + 1))
    x = m
    for e in range(epochs):
        note("epoch", e)
        check("epoch start", np.reshape(got[e * (k + 1)], (p, 1)), x)
        for j, i in enumerate(USED[order]):
            x = step("mud", A[i : i + 1, :], b[i : i + 1, :], y[i : i + 1, :], x, S_, np.eye(1))
            check("solution", np.reshape(got[e * (k + 1) + j + 1], (p, 1)), x)


def ob_iterate_default():
    p = D("p")
    got = F.iterate(arr("A", 2, p), arr("b", 2, 1), arr("y", 2, 1), arr("m", p, 1), arr("S", p, p))
    check("one epoch", len(got), 3)
    check("start", got[0], arr("m", p, 1))
    x = step("mud", arr("A", 2, p)[0:1, :], arr("b", 2, 1)[0:1, :], arr("y", 2, 1)[0:1, :], arr("m", p, 1), arr("S", p, p), np.eye(1))
    check("first", np.reshape(got[1], (p, 1)), x)


def ob_shared_offset(order=["all", "reverse", "one"], how=["mud", "map", "ls"], offset=["row", "number", "none"]):
    # an offset of one row belongs to every row of the map, as it does for other linear problems
    p = D("p")
    b = arr("b", 1, 1) if offset == "row" else [real("o")] if offset == "number" else None
    given = {"row": arr("b", 1, 1)[0, 0], "number": real("o"), "none": 0}[offset]
    lp = IterativeLinearProblem(arr("A", 3, p), b, arr("y", 3, 1), arr("m", p, 1), arr("S", p, p), arr("R", 3, 3), ORDERS[order])
    full = IterativeLinearProblem(arr("A", 3, p), given * np.ones((3, 1)), arr("y", 3, 1), arr("m", p, 1), arr("S", p, p), arr("R", 3, 3), ORDERS[order])
    check("solution", lp.solve(2 if how == "ls" else 1, how), full.solve(2 if how == "ls" else 1, how))
    check("errors", lp.get_errors(arr("ref", p, 1)), full.get_errors(arr("ref", p, 1)))
