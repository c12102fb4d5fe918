def setup(n, p, q, weights, how):
    w = None if weights == 0 else arr("w", n) if weights == 1 else arr("w", D("m"), n) if weights == 2 else arr("w", n)
    wv = np.ones(n) if weights == 0 else np.prod(arr("w", D("m"), n), axis=0) if weights == 2 else arr("w", n)
    if weights == 3:
        wv = wv / np.linalg.norm(wv)
    norm = weights == 3
    if how == "constructor":
        d = DensityProblem(arr("X", n, p), arr("Y", n, q), domain(p), weights=w, normalize=norm)
    else:
        d = DensityProblem(arr("X", n, p), arr("Y", n, q), domain(p))
        d.set_weights(w, normalize=norm)
    return d, wv


def ob_weighted_average(p=["p", 1], q=["q", 1], weights=[0, 1, 2, 3], how=["constructor", "setter"], pred=["given", "kde"], fitted=[0, 1]):
    n, p, q = D("n"), D(p), D(q)
    d, w = setup(n, p, q, weights, how)
    Y = arr("Y", n, q)
    d.set_initial(Dist("I"))
    d.set_observed(Dist("O"))
    if pred == "given":
        d.set_predicted(Dist("P"))
        pr = product(pdf("P", Y))
    else:
        d.set_predicted()
        pr = kde(Y, w).pdf(Y.T)
    if fitted:
        d.fit()
    r = product(pdf("O", Y)) / pr
    check("expected ratio", d.expected_ratio(), np.sum(r * w) / np.sum(w))
    check("expected ratio asked again", d.expected_ratio(), np.sum(r * w) / np.sum(w))


def ob_after_estimate(weights=[0, 1, 2, 3]):
    n, p, q = D("n p q")
    d, w = setup(n, p, q, weights, "constructor")
    Y = arr("Y", n, q)
    d.set_initial(Dist("I"))
    d.set_observed(Dist("O"))
    d.estimate()
    r = product(pdf("O", Y)) / kde(Y, w).pdf(Y.T)
    check("expected ratio after an estimate", d.expected_ratio(), np.sum(r * w) / np.sum(w))


def ob_after_replacing(what=["observed", "weights", "predicted", "initial"], weights=[0, 1], first=["ratio", "estimate", "fit"]):
    # the ratio belongs to the distributions and weights now set, whatever was asked before
    n, p, q = D("n p q")
    d, w = setup(n, p, q, weights, "constructor")
    Y = arr("Y", n, q)
    d.set_initial(Dist("I"))
    d.set_observed(Dist("O"))
    if first == "ratio":
        d.expected_ratio()
    elif first == "estimate":
        d.estimate()
    else:
        d.fit()
    ob, pr = product(pdf("O", Y)), None
    if what == "observed":
        d.set_observed(Dist("O2"))
        ob = product(pdf("O2", Y))
    elif what == "weights":
        w = posarr("w2", n)
        d.set_weights(w)
    elif what == "predicted":
        d.set_predicted(Joint("P2"))
        pr = Joint("P2").pdf(Y)
    else:
        d.set_initial(Dist("I2"))
    r = ob / (kde(Y, w).pdf(Y.T) if pr is None else pr)
    check("expected ratio", d.expected_ratio(), np.sum(r * w) / np.sum(w))
    check("expected ratio asked again", d.expected_ratio(), np.sum(r * w) / np.sum(w))
