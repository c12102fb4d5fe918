# Null-space bases and rank expansions
EPS = np.finfo(float).eps


def ob_null_space(how=["given", "positional", "default", "none"], m=["m", 1], n=["n", 1]):
    m, n = D(m), D(n)
    M = arr("A", m, n)
    if how == "given":
        r, Z = real("rcond"), U.null_space(M, rcond=real("rcond"))
    elif how == "positional":
        r, Z = real("rcond"), U.null_space(M, real("rcond"))
    else:
        r = EPS * max(m, n)
        Z = U.null_space(M) if how == "default" else U.null_space(M, rcond=None)
    u, s, vh = np.linalg.svd(M)
    rank = np.sum(s > np.amax(s) * r, dtype=int)
    check("basis", Z, np.transpose(vh[rank:, :]))


def ob_null_space_zero():
    # a zero tolerance is a tolerance
    m, n = D("m n")
    u, s, vh = np.linalg.svd(arr("A", m, n))
    check("basis", U.null_space(arr("A", m, n), rcond=0), vh[np.sum(s > 0, dtype=int) :, :].T)


def ob_null_space_tall():
    n, j = D("n j")
    u, s, vh = np.linalg.svd(arr("A", n + j, n))
    check("basis", U.null_space(arr("A", n + j, n), rcond=real("rcond")), vh[np.sum(s > np.amax(s) * real("rcond"), dtype=int) :, :].T)


def ob_null_space_wide():
    n, j = D("n j")
    u, s, vh = np.linalg.svd(arr("A", n, n + j))
    check("basis", U.null_space(arr("A", n, n + j), rcond=real("rcond")), vh[np.sum(s > np.amax(s) * real("rcond"), dtype=int) :, :].T)


def component(M, i):
    u, s, vh = np.linalg.svd(M)
    return s[i] * np.outer(u[:, i], vh[i, :])


def ob_rank_decomposition(m=[1, 2, 3, 4, "more"], n=[1, 2, 3, 4, "more"]):
    # the smaller side is fixed, the larger one may be anything
    if m == "more" and n == "more":
        return check("both sides larger", 1, 1)
    k = m if n == "more" else n if m == "more" else min(m, n)
    M = arr("A", k + D("j") if m == "more" else m, k + D("j") if n == "more" else n)
    R = U.rank_decomposition(M)
    check("number of expansions", len(R), k)
    S = 0
    for i in range(k):
        S = S + component(M, i)
        check("expansion of rank %d" % (i + 1), R[i], S)


def ob_rank_decomposition_list():
    R = U.rank_decomposition([[real("a"), real("b")], [real("c"), real("d")]])
    M = np.array([[real("a"), real("b")], [real("c"), real("d")]])
    check("number of expansions", len(R), 2)
    check("first", R[0], component(M, 0))
    check("second", R[1], component(M, 0) + component(M, 1))


