"""Behaviour-preserving edits used to look for false alarms: python3 tools/refactors.py OUTDIR BATCH [name...]

Writes a copy of /repo/src/mud with the edits of the batch applied; checks are then run on it with
MUDLINT_SRC=OUTDIR (see tools/quiet.sh).  Nothing here is used by a registered check."""
import os
import shutil
import sys

B = {}


def r(batch, name, file, old, new):
    B.setdefault(batch, []).append((name, file, old, new))


# ---------------------------------------------------------------- batch 1: helpers, reordering, spelling
r(1, "weights-helper", "base.py", """            # Multiply weights column wise for stacked weights
            w = np.prod(w, axis=0)

            if normalize:
                w = np.divide(w, np.linalg.norm(w))

        self._weights = w
        self._pr = None
        self._up = None
        self._pr_dist = None
""", """            w = self._combine(w, normalize)

        self._reset_predicted()
        self._weights = w

    def _combine(self, w, normalize):
        out = np.ones(w.shape[1])
        for row in w:
            out = out * row
        return out / np.sqrt(np.sum(out**2)) if normalize else out

    def _reset_predicted(self):
        self._up = self._pr = self._pr_dist = None
""")
r(1, "observed-order", "base.py", """        self._ob_dist = distribution
        self._ob = distribution.pdf(self.y).prod(axis=1)
        self._up = None
""", """        densities = distribution.pdf(self.y)
        self._up = None
        self._ob, self._ob_dist = np.prod(densities, axis=1), distribution
""")
r(1, "initial-default", "base.py", """            if self.domain is not None:  # assume uniform if domain specified
                mn = np.min(self.domain, axis=1)
                mx = np.max(self.domain, axis=1)
                distribution = dist.uniform(loc=mn, scale=mx - mn)
            else:
                distribution = dist.norm()

        self._in = distribution.pdf(self.X).prod(axis=1)
        self._in_dist = distribution
""", """            distribution = self._default_initial()

        self._in_dist = distribution
        self._in = np.prod(self._in_dist.pdf(self.X), axis=-1)
""")
r(1, "initial-default-2", "base.py", """    def set_predicted(
        self,
        distribution: Optional[rv_continuous] = None,
""", """    def _default_initial(self):
        if self.domain is None:
            return dist.norm()
        low, high = self.domain.min(axis=1), self.domain.max(axis=1)
        return dist.uniform(low, high - low)

    def set_predicted(
        self,
        distribution: Optional[rv_continuous] = None,
""")
r(1, "fit-names", "base.py", """        self._r = np.divide(self._ob, self._pr)

        # Multiply by initial to get updated pdf
        up_pdf = np.multiply(self._in * self._weights, self._r)
        self._up = up_pdf
""", """        ratio = self._ob / self._pr
        self._up = self._weights * ratio * self._in
        self._r = ratio
""")
r(1, "mud-argmax", "base.py", """        m = np.argmax(self._up)
        return self.X[m, :]
""", """        return self.X[self._up.argmax()]
""")
r(1, "average", "base.py", """        return np.average(self._r, weights=self._weights)
""", """        total = np.sum(self._weights)
        return np.sum(self._r * self._weights) / total
""")
r(1, "bayes-shape", "base.py", """        def set_shape(x, y):
            return x.reshape(y) if x.ndim < 2 else x

        self.X = set_shape(np.array(X), (1, -1))
        self.y = set_shape(np.array(y), (1, -1))

        if domain is not None:
            # Assert domain passed in is consistent with data array
            self.domain = set_shape(np.array(domain), (1, -1))
            assert self.domain.shape[0] == self.n_params
        else:
            self.domain = fit_domain(self.X)
""", """        self.X = np.atleast_2d(np.array(X))
        self.y = np.atleast_2d(np.array(y))

        if domain is None:
            self.domain = fit_domain(self.X)
        else:
            self.domain = np.atleast_2d(np.array(domain))
            if self.domain.shape[0] != self.X.shape[1]:
                raise AssertionError
""")
r(1, "likelihood-common", "base.py", """        self._ll_dist = distribution
        if log:
            self._log = True
            self._ll = distribution.logpdf(self.y).sum(axis=1)
            # equivalent evaluation (demonstrating the expected symmetry)
            # std, mean = distribution.std(), distribution.mean()
            # self._ll = dist.norm(self.y, std).logpdf(mean).sum(axis=1)
        else:
            self._log = False
            self._ll = distribution.pdf(self.y).prod(axis=1)
            # equivalent
            # self._ll = dist.norm(self.y).pdf(distribution.mean())/distribution.std()
            # self._ll = self._ll.prod(axis=1)
        self._ps = None
""", """        self._ps = None
        self._log = bool(log)
        self._ll_dist = distribution
        values = distribution.logpdf(self.y) if log else distribution.pdf(self.y)
        combine = np.sum if log else np.prod
        self._ll = combine(values, axis=1)
""")
r(1, "bayes-fit", "base.py", """        if self._log:
            ps_pdf = np.add(np.log(self._pr), self._ll)
        else:
            ps_pdf = np.multiply(self._pr, self._ll)

        assert ps_pdf.shape[0] == self.X.shape[0]
        if np.sum(ps_pdf) == 0:
            raise ValueError("Posterior numerically unstable.")
        self._ps = ps_pdf
""", """        prior = np.log(self._pr) if self._log else self._pr
        posterior = prior + self._ll if self._log else prior * self._ll
        if posterior.sum() == 0:
            raise ValueError("Posterior numerically unstable.")
        self._ps = posterior
""")
r(1, "lgp-columns", "base.py", """        self.b = np.zeros((ns, 1)) if b is None else np.array(b).reshape(-1, 1)
        self.y = np.zeros((ns, 1)) if y is None else np.array(y).reshape(-1, 1)
        self.mean_i = (
            np.zeros((di, 1)) if mean_i is None else np.array(mean_i).reshape(-1, 1)
        )
        self.cov_i = np.eye(di) if cov_i is None else np.array(cov_i)
        self.cov_o = np.eye(ns) if cov_o is None else np.array(cov_o)
""", """        def column(v, n):
            if v is None:
                v = np.zeros(n)
            return np.array(v).reshape((-1, 1))

        def covariance(c, n):
            return np.array(c) if c is not None else np.identity(n)

        self.b, self.y = column(b, ns), column(y, ns)
        self.mean_i = column(mean_i, di)
        self.cov_i = covariance(cov_i, di)
        self.cov_o = covariance(cov_o, ns)
""")
r(1, "solve-dispatch", "base.py", """        # Compute observed mean
        mean_o = _y - _b

        # Compute residual
        z = mean_o - _A @ self.mean_i

        # Weight initial covariance to use according to alpha parameter
        a_cov_i = self.alpha * self.cov_i

        # Solve according to given method, or solve all methods
        if method == "mud" or method == "all":
            inv_pred_cov = np.linalg.pinv(_A @ a_cov_i @ _A.T)
            update = a_cov_i @ _A.T @ inv_pred_cov
            self.mud = self.mean_i + update @ z
""", """        # Weight initial covariance to use according to alpha parameter
        a_cov_i = np.multiply(self.alpha, self.cov_i)
        mean_o = np.subtract(_y, _b)
        z = mean_o - np.dot(_A, self.mean_i)

        # Solve according to given method, or solve all methods
        if method in ("mud", "all"):
            cross = np.matmul(a_cov_i, _A.T)
            self.mud = self.mean_i + cross.dot(np.linalg.pinv(_A.dot(cross)).dot(z))
""")
r(1, "solve-map", "base.py", """            co_inv = np.linalg.inv(_cov_o)
            cov_p = np.linalg.inv(_A.T @ co_inv @ _A + np.linalg.inv(a_cov_i))
            update = cov_p @ _A.T @ co_inv
            self.map = self.mean_i + update @ z
            self.cov_p = cov_p
""", """            precision = np.linalg.inv(_cov_o)
            back = _A.T @ precision
            self.cov_p = np.linalg.inv(np.linalg.inv(a_cov_i) + back @ _A)
            self.map = self.cov_p @ (back @ z) + self.mean_i
""")
r(1, "updated-cov", "base.py", """        pred_cov = X @ init_cov @ X.T
        inv_pred_cov = np.linalg.pinv(pred_cov)
        # pinv b/c inv unstable for rank-deficient A

        # Form derived via Hua's identity + Woodbury
        K = init_cov @ X.T @ inv_pred_cov
        up_cov = init_cov - K @ (pred_cov - data_cov) @ K.T

        return up_cov

    def plot_sol(""", """        cross = init_cov @ X.T
        pred_cov = X @ cross
        K = cross @ np.linalg.pinv(pred_cov)
        return init_cov + K @ (data_cov - pred_cov) @ K.T

    def plot_sol(""")
r(1, "functionals-ip", "base.py", """        def ip(X, mat):
            return np.sum(X * (np.linalg.inv(mat) @ X), axis=0)
""", """        def ip(X, mat):
            precision = np.linalg.inv(mat)
            return np.einsum("ij,ik,kj->j", X, precision, X)
""")
r(1, "functionals-dict", "base.py", """        bayes_fun = data_term + reg_term
        if terms == "bayes":
            return bayes_fun

        dc_fun = bayes_fun - dc_term
        if terms == "dc":
            return dc_fun

        return (data_term, reg_term, dc_term, bayes_fun, dc_fun)
""", """        bayes_fun = reg_term + data_term
        dc_fun = data_term + reg_m_terms
        named = {"bayes": bayes_fun, "dc": dc_fun}
        if terms in named:
            return named[terms]

        return data_term, reg_term, dc_term, bayes_fun, dc_fun
""")
r(1, "iter-loop", "base.py", """        m_init = (
            self.mu_i
            if len(self.solution_chains) == 0
            else self.solution_chains[-1][-1]
        )
        solutions = [m_init]
        for _ in range(0, num_epochs):
            epoch = []
            solutions = [solutions[-1]]
            for i in self.idx_order:
                # Add next sub-problem to chain
                epoch.append(
                    LinearGaussianProblem(
                        self.A[i, :],
                        self.b[i],
                        self.y[i],
                        mean_i=solutions[-1],
                        cov_i=self.cov,
                        cov_o=[[self.data_cov[i][i]]],
                    )
                )

                # Solve next mud problem
                solutions.append(epoch[-1].solve(method=method))

            self.epochs.append(epoch)
            self.solution_chains.append(solutions)

        return self.solution_chains[-1][-1]
""", """        current = self.mu_i if not self.solution_chains else self.solution_chains[-1][-1]
        for _ in range(num_epochs):
            epoch, chain = [], [current]
            for i in self.idx_order:
                problem = self._row_problem(i, current)
                current = problem.solve(method=method)
                epoch.append(problem)
                chain.append(current)
            self.epochs.append(epoch)
            self.solution_chains.append(chain)

        return current

    def _row_problem(self, i, start):
        return LinearGaussianProblem(
            A=self.A[i],
            b=self.b[i],
            y=self.y[i],
            mean_i=start,
            cov_i=self.cov,
            cov_o=np.array([[self.data_cov[i, i]]]),
        )
""")
r(1, "lam-setter", "base.py", """        lam = np.array(lam)
        lam = lam.reshape(-1, 1) if lam.ndim == 1 else lam

        if self.domain is not None:
            if lam.shape[1] != self.n_params:
                raise ValueError("Parameter dimensions do not match domain specified.")
        else:
            # TODO: Determine domain from min max in parameters
            self.domain = np.vstack([lam.min(axis=0), lam.max(axis=0)]).T
""", """        lam = np.array(lam)
        if lam.ndim == 1:
            lam = lam[:, np.newaxis]

        if self.domain is None:
            self.domain = np.column_stack([lam.min(axis=0), lam.max(axis=0)])
        elif self.n_params != lam.shape[1]:
            raise ValueError("Parameter dimensions do not match domain specified.")
""")
r(1, "lamref-any", "base.py", """        for idx, lam in enumerate(lam_ref):
            if (lam < self.domain[idx][0]) or (lam > self.domain[idx][1]):
                raise ValueError(
                    f"lam_ref at idx {idx} must be inside {self.domain[idx]}."
                )
""", """        low, high = self.domain[:, 0], self.domain[:, 1]
        if np.any(lam_ref < low) or np.any(lam_ref > high):
            raise ValueError(f"lam_ref must be inside {self.domain}.")
""")
r(1, "domain-setter", "base.py", """            min_max = np.vstack([self.lam.min(axis=0), self.lam.max(axis=0)]).T
            if not all(
                [all(domain[:, 0] <= min_max[:, 0]), all(domain[:, 1] >= min_max[:, 1])]
            ):
                raise ValueError("Parameter values exist outside of specified domain")
""", """            too_low = np.any(self.lam.min(axis=0) < domain[:, 0])
            too_high = np.any(self.lam.max(axis=0) > domain[:, 1])
            if too_low or too_high:
                raise ValueError("Parameter values exist outside of specified domain")
""")
r(1, "closest", "base.py", """        closest_idx = np.argmin(np.linalg.norm(sub_data - sub_meas.T, axis=1))
        closest_lam = lam[closest_idx, :].ravel()

        return closest_lam
""", """        distances = np.linalg.norm(sub_data - sub_meas, axis=1)
        return lam[distances.argmin()]
""")
r(1, "closest-true", "base.py", """        closest_idx = np.argmin(np.linalg.norm(self.data - self.true_vals.T, axis=1))
        closest_lam = self.lam[closest_idx, :].ravel()

        return closest_lam
""", """        difference = self.data - self.true_vals.ravel()
        return self.lam[np.argmin(np.sum(difference**2, axis=1)), :]
""")
r(1, "sample-data", "base.py", """        if samples_mask is not None:
            sub_lam = self.lam[samples_mask, :]
            sub_data = sub_data[samples_mask, :, :]
        if times_mask is not None:
            sub_times = np.reshape(self.times[times_mask], (-1, 1))
            sub_data = sub_data[:, :, times_mask]
            if sub_meas is not None:
                sub_meas = sub_meas[:, times_mask]
        if sensors_mask is not None:
            sub_sensors = np.reshape(
                self.sensors[sensors_mask], (-1,) + self.sensors.shape[1:]
            )
            sub_data = sub_data[:, sensors_mask, :]
            if sub_meas is not None:
                sub_meas = sub_meas[sensors_mask, :]
""", """        if sensors_mask is not None:
            sub_sensors = np.reshape(
                self.sensors[sensors_mask], (-1,) + self.sensors.shape[1:]
            )
            sub_data = sub_data[:, sensors_mask]
            sub_meas = None if sub_meas is None else sub_meas[sensors_mask]
        if samples_mask is not None:
            sub_data = sub_data[samples_mask]
            sub_lam = sub_lam[samples_mask]
        if times_mask is not None:
            sub_times = np.reshape(self.times[times_mask], (-1, 1))
            sub_data = sub_data[..., times_mask]
            sub_meas = None if sub_meas is None else sub_meas[..., times_mask]
""")
r(1, "mud-problem-wme", "base.py", """            data_weights = data_weights / np.linalg.norm(data_weights)
            residuals = data_weights * residuals

        if method == "wme":
            qoi = np.sum(residuals, axis=1) / np.sqrt(residuals.shape[1])
""", """            residuals = residuals * (data_weights / np.sqrt(np.sum(np.square(data_weights))))

        if method == "wme":
            qoi = residuals.sum(axis=1) / residuals.shape[1] ** 0.5
""")
r(1, "load-loop", "base.py", """        field_names.update(kwargs)
        for f, v in field_names.items():
            get_set_val(f, v)
""", """        for f, v in {**field_names, **kwargs}.items():
            get_set_val(f, v)
""")
r(1, "load-setattr", "base.py", """            if isinstance(v, str):
                v = ds[v] if v in ds.keys() else None
            if v is not None:
                self.__setattr__(f, v)
""", """            value = v
            if isinstance(v, str):
                value = ds[v] if v in ds else None
            if value is None:
                return
            setattr(self, f, value)
""")
r(1, "wme", "funs.py", """    return np.sum((1 / (sd * np.sqrt(N))) * (predictions - np.ravel(data)), axis=1)
""", """    residual = (predictions - np.ravel(data)) / sd
    return residual.sum(axis=1) / np.sqrt(N)
""")
r(1, "flat-helper", "funs.py", """    mud_pt = lp.solve(method="mud")
    mud_pt = mud_pt if np.array(y).ndim > 1 else mud_pt.ravel()

    return mud_pt
""", """    return _as_data(lp.solve(method="mud"), y)


def _as_data(point, y):
    if np.ndim(y) > 1:
        return point
    return point.ravel()
""")
r(1, "map-problem-noise", "funs.py", """    data = qoi_true[0:num_obs] + np.random.randn(num_obs) * sd
    likelihood = dists.norm(loc=data, scale=sd)
    b = BayesProblem(lam, qoi[:, 0:num_obs], domain)
    b.set_likelihood(likelihood, log=log)
    return b
""", """    used = slice(None, num_obs)
    noise = sd * np.random.randn(num_obs)
    problem = BayesProblem(lam, qoi[:, used], domain)
    problem.set_likelihood(dists.norm(loc=qoi_true[used] + noise, scale=sd), log)
    return problem
""")
r(1, "mud-problem-split", "funs.py", """        q = []
        for qoi_indices in split:
            _q = qoi_indices[qoi_indices < num_obs]
            _qoi = qoi[:, _q]
            _data = np.array(qoi_true)[_q] + noise[_q]
            _newqoi = wme(_qoi, _data, sd)
            q.append(_newqoi)
        q = np.vstack(q).T
""", """        truth = np.array(qoi_true)
        groups = [g[g < num_obs] for g in split]
        q = np.stack([wme(qoi[:, g], truth[g] + noise[g], sd) for g in groups], axis=1)
""")
r(1, "perform-epoch", "funs.py", """    dim_out = A.shape[0]
    mud_chain = []

    _mean = initial_mean
    mud_chain.append(_mean)
    if idx is None:
        idx = range(dim_out)
    for i in idx:
        _A = A[i, :].reshape(1, -1)
        _b = b[i]
        _y = y[i]
        _mud_sol = mud_sol(_A, _b, _y, _mean, initial_cov, data_cov=None)
        mud_chain.append(_mud_sol)
        _mean = mud_chain[-1]
    return mud_chain
""", """    rows = range(A.shape[0]) if idx is None else idx
    chain = [initial_mean]
    for i in rows:
        chain.append(mud_sol(A[i : i + 1, :], b[i], y[i], mean=chain[-1], cov=initial_cov))
    return chain
""")
r(1, "iterate", "funs.py", """    chain = performEpoch(A, b, y, initial_mean, initial_cov, data_cov, idx)
    for _ in range(1, num_epochs):
        chain += performEpoch(A, b, y, chain[-1], initial_cov, data_cov, idx)

    return chain
""", """    chain = performEpoch(A, b, y, initial_mean, initial_cov, data_cov, idx)
    for _ in range(num_epochs - 1):
        chain.extend(performEpoch(A, b, y, chain[-1], initial_cov, data_cov, idx))
    return chain
""")
r(1, "norm", "norm.py", """    Y = np.linalg.inv(mat) @ X
    result = np.sum(X * Y, axis=0)
    return result
""", """    return (X * np.linalg.solve(mat, X)).sum(axis=0)
""")
r(1, "norm-scalar", "norm.py", """    if isinstance(observed_cov, int) or isinstance(observed_cov, float):
        observed_cov = observed_cov * np.eye(len(data))
    X = (inputs @ operator.T + np.ravel(data) - np.ravel(observed_mean)).T
    return inner_product(X, observed_cov)
""", """    if isinstance(observed_cov, (int, float)):
        observed_cov = np.diag(np.full(len(data), observed_cov))
    shift = np.ravel(data) - np.ravel(observed_mean)
    return inner_product((np.dot(inputs, operator.T) + shift).T, observed_cov)
""")
r(1, "transform", "util.py", """        D = np.diag(1.0 / (std * np.sqrt(num_observations)))
        A = np.sum(D @ operator, axis=0, keepdims=True)
""", """        scale = 1.0 / (std * np.sqrt(num_observations))
        A = (scale @ operator).reshape(1, -1)
""")
r(1, "transform-class", "base.py", """        D = np.diag(1.0 / (std * np.sqrt(num_observations)))
            A = np.sum(D @ operator, axis=0)
""".replace("        D = ", "            D = ", 1), """            weights = 1.0 / (std * np.sqrt(num_observations))
            A = np.sum(weights[:, None] * operator, axis=0)
""")
r(1, "setup", "util.py", """    operators = [r[0] for r in results]
    datas = [r[1] for r in results]
    return np.vstack(operators), np.vstack(datas)
""", """    operators, datas = zip(*results)
    return np.vstack(operators), np.vstack(datas)
""")
r(1, "rank", "util.py", """    A_ranks = []
    rank_1_updates = []
    u, s, vh = np.linalg.svd(A)
    for i in range(min(A.shape)):
        rank_1_updates.append(s[i] * (u[:, i].reshape(-1, 1)) @ vh[i, :].reshape(1, -1))
        A_ranks.append(sum(rank_1_updates[0 : i + 1]))

    return A_ranks
""", """    ranks = []
    u, s, vh = np.linalg.svd(A)
    total = 0
    for i in range(min(A.shape)):
        total = total + s[i] * np.outer(u[:, i], vh[i])
        ranks.append(total)

    return ranks
""")
r(1, "fit-domain", "util.py", """    pad = pad_ratio * (min_max_bounds[:, 1] - min_max_bounds[:, 0])
    min_max_bounds[:, 0] = min_max_bounds[:, 0] - pad
    min_max_bounds[:, 1] = min_max_bounds[:, 1] + pad
    return min_max_bounds
""", """    low, high = min_max_bounds[:, 0], min_max_bounds[:, 1]
    pad = pad_ratio * (high - low)
    return np.column_stack((low - pad, high + pad))
""")
r(1, "mesh", "util.py", """    X = np.linspace(0, window, N)
    Y = np.linspace(0, window, N)
    X, Y = np.meshgrid(X, Y)
    XX = np.vstack([X.ravel(), Y.ravel()]).T
    return (X, Y, XX)
""", """    side = np.linspace(0, window, N)
    X, Y = np.meshgrid(side, side)
    XX = np.column_stack([X.ravel(), Y.ravel()])
    return X, Y, XX
""")
r(1, "noise", "util.py", """    noise = np.random.randn(*signal.shape) * sd

    return signal + noise
""", """    draw = np.random.randn(*np.shape(signal))
    return signal + sd * draw
""")
r(1, "pca", "preprocessing.py", """    sc = StandardScaler()
    pca = PCA(n_components=n_components, **kwargs)
    X_train = pca.fit_transform(sc.fit_transform(data))

    return pca, X_train
""", """    standardised = StandardScaler().fit_transform(data)
    model = PCA(n_components=n_components, **kwargs)
    scores = model.fit_transform(standardised)

    return model, scores
""")
r(1, "svd-check", "preprocessing.py", """    # Standarize and perform SVD
    sc = StandardScaler()
    X = sc.fit_transform(data)
    U, S, V = np.linalg.svd(X, **kwargs)

    return (U, S, V)
""", """    return tuple(np.linalg.svd(StandardScaler().fit_transform(data), **kwargs))
""")
r(1, "plot-dist", "plot.py", """    total = np.sum(plot_y * np.abs(plot_x[1] - plot_x[0]))
    plot_y = plot_y / total
""", """    step = np.abs(plot_x[1] - plot_x[0])
    plot_y = plot_y / (plot_y.sum() * step)
""")


for _n in (2, 3, 4, 5, 6):
    try:
        __import__("refactors_%d" % _n).add(r)
    except ImportError:
        pass


def main():
    out, batch = sys.argv[1], int(sys.argv[2])
    only = sys.argv[3:]
    src = "/repo/src/mud"
    shutil.rmtree(out, ignore_errors=True)
    shutil.copytree(src, out, ignore=shutil.ignore_patterns("__pycache__"))
    for name, f, old, new in B[batch]:
        if only and name not in only:
            continue
        p = os.path.join(out, f)
        s = open(p).read()
        if s.count(old) < 1:
            print("no match:", name)
            continue
        if s.count(old) > 1:
            print("several matches:", name, s.count(old))
        open(p, "w").write(s.replace(old, new))


if __name__ == "__main__":
    main()
