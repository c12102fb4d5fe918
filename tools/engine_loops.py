import numpy as np

def X():
    return arr("X", d0, q)

def ob_sum():
    q = dims("q")
    v = arr("v", dims("q"))
    q = dims("q")
    t = 0.0
    for i in range(q):
        t += v[i]
    check("sum", t, np.sum(v))
    t = v[0]
    for i in range(1, q):
        t = t + v[i]
    check("peeled sum", t, np.sum(v))
    t = 0
    for x in v:
        if x > 0:
            t += 1
    check("count", t, np.sum(v > 0))
    t = 0
    for x in v:
        if x > 0:
            t += x
    check("masked", t, np.sum(v * (v > 0)))
    check("masked where", t, np.sum(np.where(v > 0, v, 0)))
    t = 1
    for x in v:
        t *= x
    check("prod", t, np.prod(v))

def ob_max():
    q = dims("q")
    v = arr("v", q)
    m = v[0]
    for x in v:
        if x > m:
            m = x
    check("max1", m, np.max(v))
    m = v[0]
    for x in v[1:]:
        m = max(m, x)
    check("max2", m, np.max(v))
    m = np.inf
    for x in v:
        m = min(m, x)
    check("min", m, v.min())
    k = 0
    for i in range(q):
        if v[i] > v[k]:
            k = i
    check("argmax", k, np.argmax(v))
    k = 0
    for i in range(1, q):
        if v[i] < v[k]:
            k = i
    check("argmin", k, np.argmin(v))
    best, k = -np.inf, 0
    for i, x in enumerate(v):
        if x > best:
            best, k = x, i
    check("argmax2", k, np.argmax(v))
    check("best2", best, np.max(v))
    best, k = v[0], 0
    for i in range(1, q):
        if v[i] > best:
            best = v[i]
            k = i
    check("argmax3", k, np.argmax(v))
    check("best3", best, np.max(v))

def ob_rows():
    q, n = dims("q n")
    M = arr("M", n, q)
    p = M[:, 0]
    for k in range(1, q):
        p = p * M[:, k]
    check("rowprod", p, np.prod(M, axis=1))
    p = np.zeros(n)
    for k in range(q):
        p += M[:, k] ** 2
    check("rowsum", p, np.sum(M ** 2, axis=1))
    out = np.empty(n)
    for i in range(n):
        out[i] = M[i, :].sum()
    check("scatter", out, M.sum(axis=1))
    out = np.zeros((n, 2))
    for i in range(n):
        out[i, 0] = M[i, 0]
        out[i, 1] = M[i, 1]
    check("scatter2", out, M[:, :2])
    out = np.zeros(n + 1)
    for i in range(n):
        out[i + 1] = M[i, 0]
    check("shift", out[1:], M[:, 0])
    check("shift0", out[0], 0)
    out = np.zeros(n)
    for i in range(n):
        for k in range(q):
            out[i] += M[i, k]
    check("nested", out, M.sum(axis=1))
    cols = []
    for k in range(q):
        cols.append(M[:, k] * 2)
    check("cols", np.column_stack(cols), M * 2)
    cols = [M[:, 0]]
    for k in range(1, q):
        cols.append(M[:, k])
    check("cols prefix", np.column_stack(cols), M)
    best = M[0, :]
    top = M[0, 0]
    for i in range(1, n):
        if M[i, 0] > top:
            top = M[i, 0]
            best = M[i, :]
    check("best row", best, M[np.argmax(M[:, 0]), :])
    r = np.zeros((n, q))
    for i in range(n):
        for j in range(q):
            r[i, j] = M[i, j] + 1
    check("nested scatter", r, M + 1)
    r = [[M[i, j] for j in range(q)] for i in range(n)]
    check("nested comp", np.array(r), M)

def ok(v):
    for x in v:
        if x < 0:
            return False
    return True

def find(v):
    for i, x in enumerate(v):
        if x > 3:
            return i
    return -1

def ob_early():
    q = dims("q")
    v = arr("v", q)
    check("all", ok(v), np.all(v >= 0))
    flag = True
    for x in v:
        if not x > 0:
            flag = False
            break
    check("flag", flag, np.all(v > 0))
    flag = True
    for x in v:
        flag = flag and x > 0
    check("and", flag, np.all(v > 0))
    flag = False
    for x in v:
        if x > 0:
            flag = True
    check("or", flag, np.any(v > 0))
    k = find(v)
    check("find", k, (np.argmax(v > 3) if np.any(v > 3) else -1))
    for x in v:
        if x > 2:
            break
    else:
        x = 5
    check("for else", (x == 5) or np.any(v > 2), True)
