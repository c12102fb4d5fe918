"""Fourth batch of behaviour-preserving edits: generators, dispatch tables, solves in place of inverses, module helpers."""


def add(r):
    # ---------------------------------------------------------------- density and Bayes
    r(4, "w-reduce", "base.py", """            # Multiply weights column wise for stacked weights
            w = np.prod(w, axis=0)
""", """            # Multiply weights column wise for stacked weights
            w = np.multiply.reduce(w, axis=0)
""")
    r(4, "w-reset", "base.py", """        self._weights = w
        self._pr = None
        self._up = None
        self._pr_dist = None
""", """        for stale in ("_pr", "_up", "_pr_dist"):
            setattr(self, stale, None)
        self._weights = w
""")
    r(4, "init-uniform", "base.py", """            if self.domain is not None:  # assume uniform if domain specified
                mn = np.min(self.domain, axis=1)
                mx = np.max(self.domain, axis=1)
                distribution = dist.uniform(loc=mn, scale=mx - mn)
            else:
                distribution = dist.norm()

        self._in = distribution""", """            distribution = self._uniform_over_domain()

        self._in = distribution""")
    r(4, "init-uniform-b", "base.py", """    def set_initial(self, distribution: Optional[rv_continuous] = None):
""", """    def _uniform_over_domain(self):
        if self.domain is None:
            return dist.norm()
        lower, upper = self.domain.min(axis=1), self.domain.max(axis=1)
        return dist.uniform(lower, upper - lower)

    def set_initial(self, distribution: Optional[rv_continuous] = None):
""")
    r(4, "pred-split", "base.py", """        if distribution is None:
            # Reweight kde of predicted by weights if present
            distribution = gkde(self.y.T, bw_method=bw_method, weights=self._weights)
            pred_pdf_values = distribution.pdf(self.y.T).T
        else:
            pred_pdf_values = np.asarray(distribution.pdf(self.y, **kwargs))
            if pred_pdf_values.ndim > 1:
                pred_pdf_values = pred_pdf_values.prod(axis=1)

        self._pr_dist = distribution
        self._pr = pred_pdf_values.ravel()
        self._up = None
""", """        self._up = None
        if distribution is not None:
            self._pr_dist = distribution
            values = np.asarray(distribution.pdf(self.y, **kwargs))
            self._pr = np.ravel(values if values.ndim <= 1 else np.prod(values, axis=-1))
            return

        # Reweight kde of predicted by weights if present
        samples = np.transpose(self.y)
        self._pr_dist = gkde(samples, weights=self._weights, bw_method=bw_method)
        self._pr = np.ravel(self._pr_dist(samples))
""")
    r(4, "fit-one", "base.py", """        self._r = np.divide(self._ob, self._pr)

        # Multiply by initial to get updated pdf
        up_pdf = np.multiply(self._in * self._weights, self._r)
        self._up = up_pdf
""", """        ratio = self._ob / self._pr
        self._r, self._up = ratio, self._in * ratio * self._weights
""")
    r(4, "mud-walrus", "base.py", """        if self._up is None:
            self.fit()
        m = np.argmax(self._up)
        return self.X[m, :]
""", """        if (updated := self._up) is None:
            self.fit()
            updated = self._up
        return self.X[max(range(len(updated)), key=lambda k: updated[k])]
""")
    r(4, "er-dot", "base.py", """        return np.average(self._r, weights=self._weights)
""", """        w = self._weights
        return np.dot(w, self._r) / np.add.reduce(w)
""")
    r(4, "lik-dispatch", "base.py", """        self._ll_dist = distribution
        if log:
            self._log = True
            self._ll = distribution.logpdf(self.y).sum(axis=1)
""", """        self._ll_dist = distribution
        self._log = bool(log)
        if self._log:
            self._ll = np.add.reduce(self._ll_dist.logpdf(self.y), axis=1)
""")
    r(4, "b-fit4", "base.py", """        if self._log:
            ps_pdf = np.add(np.log(self._pr), self._ll)
        else:
            ps_pdf = np.multiply(self._pr, self._ll)

        assert ps_pdf.shape[0] == self.X.shape[0]
        # A log posterior vanishes where it is minus infinity
        no_mass = np.all(np.isneginf(ps_pdf)) if self._log else np.sum(ps_pdf) == 0
        if no_mass:
            raise ValueError("Posterior numerically unstable.")
        self._ps = ps_pdf
""", """        combine = (
            (lambda p, q: np.log(p) + q) if self._log else (lambda p, q: p * q)
        )
        ps_pdf = combine(self._pr, self._ll)
        assert len(ps_pdf) == len(self.X)
        self._check_mass(ps_pdf)
        self._ps = ps_pdf

    def _check_mass(self, values):
        # A log posterior vanishes where it is minus infinity
        if self._log:
            empty = np.isneginf(values).all()
        else:
            empty = values.sum() == 0
        if empty:
            raise ValueError("Posterior numerically unstable.")
""")
    # ---------------------------------------------------------------- linear
    r(4, "lin-col", "base.py", """        self.b = np.zeros((ns, 1)) if b is None else np.array(b).reshape(-1, 1)
        self.y = np.zeros((ns, 1)) if y is None else np.array(y).reshape(-1, 1)
        self.mean_i = (
            np.zeros((di, 1)) if mean_i is None else np.array(mean_i).reshape(-1, 1)
        )
""", """        def column(values, n):
            return np.array(values).reshape(-1, 1) if values is not None else np.zeros((n, 1))

        self.b, self.y, self.mean_i = (column(v, n) for v, n in ((b, ns), (y, ns), (mean_i, di)))
""")
    r(4, "fun-gen", "base.py", """        def ip(X, mat):
            return np.sum(X * (np.linalg.inv(mat) @ X), axis=0)
""", """        def ip(X, mat):
            return np.einsum("ij,ij->j", X, np.linalg.solve(mat, X))
""")
    r(4, "solve-table", "base.py", """        if method == "mud" or method == "all":
            inv_pred_cov = np.linalg.pinv(_A @ a_cov_i @ _A.T)
            update = a_cov_i @ _A.T @ inv_pred_cov
            self.mud = self.mean_i + update @ z
""", """        if method in {"mud", "all"}:
            cross = a_cov_i @ _A.T
            gain = np.linalg.multi_dot([cross, np.linalg.pinv(_A @ cross)])
            self.mud = np.add(self.mean_i, gain.dot(z))
""")
    r(4, "solve-map", "base.py", """            co_inv = np.linalg.inv(_cov_o)
            cov_p = np.linalg.inv(_A.T @ co_inv @ _A + np.linalg.inv(a_cov_i))
            update = cov_p @ _A.T @ co_inv
            self.map = self.mean_i + update @ z
            self.cov_p = cov_p
""", """            scaled = np.linalg.solve(_cov_o.T, _A).T
            self.cov_p = np.linalg.inv(scaled @ _A + np.linalg.inv(a_cov_i))
            self.map = self.mean_i + self.cov_p @ scaled @ z
""")
    r(4, "solve-ret", "base.py", """        if method == "all":
            return (self.mud, self.map, self.ls)
            # return (self.mud, self.mud_alt, self.map, self.ls)
        else:
            return self.__getattribute__(method)
""", """        wanted = ("mud", "map", "ls") if method == "all" else (method,)
        answers = tuple(getattr(self, name) for name in wanted)
        return answers if method == "all" else answers[0]
""")
    r(4, "cov-eye", "base.py", """        K = init_cov @ X.T @ inv_pred_cov
        up_cov = init_cov - K @ (pred_cov - data_cov) @ K.T

        return up_cov

    def plot_sol(""", """        K = (inv_pred_cov.T @ X @ init_cov.T).T
        return init_cov - (K @ pred_cov @ K.T - K @ data_cov @ K.T)

    def plot_sol(""")
    r(4, "cont-gen", "base.py", """        for i, contour in enumerate(subset):
            xloc = [ref[0] - w * AA[i, 0], ref[0] + w * AA[i, 0]]
            yloc = [ref[1] - w * AA[i, 1], ref[1] + w * AA[i, 1]]
            ax.plot(xloc, yloc, **plot_opts)
""", """        for contour, direction in zip(subset, AA):
            xloc, yloc = ([ref[k] - w * direction[k], ref[k] + w * direction[k]] for k in (0, 1))
            ax.plot(xloc, yloc, **plot_opts)
""")
    r(4, "wme-gen", "base.py", """        results = [
            self._transform_linear_map(o, d, s)
            for o, d, s in zip(operators, data, sigma)
        ]
        operators = [r[0] for r in results]
        datas = [r[1] for r in results]
        A, B = np.vstack(operators), np.vstack(datas)
""", """        rows, offsets = zip(*map(self._transform_linear_map, operators, data, sigma))
        A, B = np.vstack(rows), np.vstack(offsets)
""")
    r(4, "it-sub", "base.py", """                epoch.append(
                    LinearGaussianProblem(
                        self.A[i, :],
                        # One offset may be shared by all rows
                        self.b[i] if self.b.shape[0] > 1 else self.b[0],
                        self.y[i],
                        mean_i=solutions[-1],
                        cov_i=self.cov,
                        cov_o=[[self.data_cov[i][i]]],
                    )
                )

                # Solve next mud problem
                solutions.append(epoch[-1].solve(method=method))
""", """                sub = self._row_problem(i, solutions[-1])
                epoch += [sub]
                solutions += [sub.solve(method=method)]
""")
    r(4, "it-sub-b", "base.py", """    def get_errors(self, ref_param):
""", """    def _row_problem(self, i, mean):
        shared = self.b.shape[0] == 1  # One offset may be shared by all rows
        return LinearGaussianProblem(
            A=self.A[i],
            b=self.b[0 if shared else i],
            y=self.y[i],
            mean_i=mean,
            cov_i=self.cov,
            cov_o=np.array(self.data_cov[i, i]).reshape(1, 1),
        )

    def get_errors(self, ref_param):
""")
    r(4, "err-gen", "base.py", """        solutions = np.concatenate([x[1:] for x in self.solution_chains])
        ref_param = np.reshape(ref_param, (-1, 1))
        self.errors = [np.linalg.norm(s - ref_param) for s in solutions]
        return self.errors
""", """        ref_param = np.reshape(ref_param, (-1, 1))

        def distances():
            for chain in self.solution_chains:
                for point in chain[1:]:
                    yield np.linalg.norm(point - ref_param)

        self.errors = list(distances())
        return self.errors
""")
    # ---------------------------------------------------------------- spatio-temporal
    r(4, "lam-minmax", "base.py", """            self.domain = np.vstack([lam.min(axis=0), lam.max(axis=0)]).T
        if self.sample_dist""", """            self.domain = np.c_[lam.min(axis=0), lam.max(axis=0)]
        if self.sample_dist""")
    r(4, "ref-any", "base.py", """        for idx, lam in enumerate(lam_ref):
            if (lam < self.domain[idx][0]) or (lam > self.domain[idx][1]):
                raise ValueError(
                    f"lam_ref at idx {idx} must be inside {self.domain[idx]}."
                )
""", """        outside = (lam_ref < self.domain[:, 0]) | (lam_ref > self.domain[:, 1])
        if np.any(outside):
            idx = int(np.argmax(outside))
            raise ValueError(f"lam_ref at idx {idx} must be inside {self.domain[idx]}.")
""")
    r(4, "dom-all", "base.py", """            min_max = np.vstack([self.lam.min(axis=0), self.lam.max(axis=0)]).T
            if not all(
                [all(domain[:, 0] <= min_max[:, 0]), all(domain[:, 1] >= min_max[:, 1])]
            ):
""", """            below = self.lam < domain[:, 0]
            above = self.lam > domain[:, 1]
            if np.any(below | above):
""")
    r(4, "meas-shape", "base.py", """        measurements = np.reshape(measurements, (self.n_sensors * self.n_ts, 1))
        self._measurements = measurements
""", """        n_values = self.n_sensors * self.n_ts
        self._measurements = np.asarray(measurements).reshape(n_values, 1)
""")
    r(4, "close-sum", "base.py", """        closest_idx = np.argmin(np.linalg.norm(sub_data - sub_meas.T, axis=1))
        closest_lam = lam[closest_idx, :].ravel()

        return closest_lam
""", """        misfit = np.sum(np.square(sub_data - sub_meas.T), axis=1)
        return lam[misfit.argmin()].ravel()
""")
    r(4, "load-loop", "base.py", """        def get_set_val(f, v):
            if isinstance(v, str):
                v = ds[v] if v in ds.keys() else None
            if v is not None:
                self.__setattr__(f, v)

""", """        def values(fields):
            for name, v in fields.items():
                found = ds[v] if isinstance(v, str) and v in ds.keys() else v
                if found is not None and not (isinstance(v, str) and found is v):
                    yield name, found

""")
    r(4, "load-loop-b", "base.py", """        for f, v in field_names.items():
            get_set_val(f, v)
""", """        for name, v in values(field_names):
            setattr(self, name, v)
""")
    r(4, "qoi-match", "base.py", """        if method == "wme":
            qoi = np.sum(residuals, axis=1) / np.sqrt(residuals.shape[1])
        elif method == "pca":
            # Learn qoi to use using PCA
            pca_res, X_train = pca(residuals, n_components=num_components)
            self.pca = {
                "X_train": X_train,
                "vecs": pca_res.components_,
                "var": pca_res.explained_variance_,
            }

            # Compute WME
            qoi = residuals @ pca_res.components_.T
        elif method == "svd":
            # Learn qoi to use using SVD
            u, s, v = svd(residuals)
            self.svd = {"u": u, "singular_values": s, "singular_vectors": v}
            qoi = residuals @ (v[0:num_components, :]).T
        else:
            raise ValueError(f"Unrecognized QoI Map type {method}")
""", """        maps = {"wme": self._wme_map, "pca": self._pca_map, "svd": self._svd_map}
        if method not in maps:
            raise ValueError(f"Unrecognized QoI Map type {method}")
        qoi = maps[method](residuals, num_components)
""")
    r(4, "qoi-match-b", "base.py", """    def mud_problem(
        self,
        method="pca",
""", """    @staticmethod
    def _wme_map(residuals, num_components):
        return residuals.sum(axis=1) / residuals.shape[1] ** 0.5

    def _pca_map(self, residuals, num_components):
        # Learn qoi to use using PCA
        fitted, X_train = pca(residuals, num_components)
        self.pca = dict(X_train=X_train, vecs=fitted.components_, var=fitted.explained_variance_)
        return residuals @ fitted.components_.T

    def _svd_map(self, residuals, num_components):
        # Learn qoi to use using SVD
        u, s, v = svd(residuals)
        self.svd = dict(u=u, singular_values=s, singular_vectors=v)
        return np.dot(residuals, v[:num_components].T)

    def mud_problem(
        self,
        method="pca",
""")
    # ---------------------------------------------------------------- functions
    r(4, "wme-res", "funs.py", """    return np.sum((1 / (sd * np.sqrt(N))) * (predictions - np.ravel(data)), axis=1)
""", """    residuals = (predictions - np.ravel(data)) / sd
    return residuals.sum(axis=-1) / np.sqrt(N)
""")
    r(4, "sols", "funs.py", """    lp = lin_prob(A, b, y=y, mean=mean, cov=cov, data_cov=data_cov)
    mud_pt = lp.solve(method="mud")
    mud_pt = mud_pt if np.array(y).ndim > 1 else mud_pt.ravel()

    return mud_pt
""", """    lp = lin_prob(A, b, y=y, mean=mean, cov=cov, data_cov=data_cov)
    return _shaped(lp.solve(method="mud"), y)


def _shaped(point, y):
    if np.ndim(y) > 1:
        return point
    return point.ravel()
""")
    r(4, "epoch-gen", "funs.py", """    for _ in range(1, num_epochs):
        chain += performEpoch(A, b, y, chain[-1], initial_cov, data_cov, idx)

    return chain
""", """    epoch = 1
    while epoch < num_epochs:
        chain.extend(performEpoch(A, b, y, chain[-1], initial_cov, data_cov, idx))
        epoch += 1
    return chain
""")
    r(4, "split-gen", "funs.py", """        q = []
        for qoi_indices in split:
            _q = qoi_indices[qoi_indices < num_obs]
            _qoi = qoi[:, _q]
            _data = np.array(qoi_true)[_q] + noise[_q]
            _newqoi = wme(_qoi, _data, sd)
            q.append(_newqoi)
        q = np.vstack(q).T
""", """        noisy = np.array(qoi_true)[:num_obs] + noise
        kept = (rows[np.flatnonzero(rows < num_obs)] for rows in split)
        q = np.column_stack([wme(qoi[:, rows], noisy[rows], sd) for rows in kept])
""")
    r(4, "numobs", "funs.py", """    dim_output = qoi.shape[1]
    if num_obs is None:
        num_obs = dim_output
    elif num_obs < 1:
        raise ValueError("num_obs must be >= 1")
    elif num_obs > dim_output:
        raise ValueError("num_obs must be <= dim(qoi)")

    data = qoi_true""", """    num_obs = _checked_num_obs(num_obs, qoi.shape[1])
    data = qoi_true""")
    r(4, "numobs-b", "funs.py", """def map_problem(lam""", """def _checked_num_obs(num_obs, available):
    if num_obs is None:
        return available
    if num_obs < 1:
        raise ValueError("num_obs must be >= 1")
    if num_obs > available:
        raise ValueError("num_obs must be <= dim(qoi)")
    return num_obs


def map_problem(lam""")
    # ---------------------------------------------------------------- norms, helpers
    r(4, "norm-solve", "norm.py", """    Y = np.linalg.inv(mat) @ X
    result = np.sum(X * Y, axis=0)
    return result
""", """    return np.add.reduce(np.linalg.solve(mat, X) * X)
""")
    r(4, "norm-cov", "norm.py", """    if isinstance(initial_cov, int) or isinstance(initial_cov, float):
        initial_cov = initial_cov * np.eye(len(initial_mean))
    X = (inputs - initial_mean.T).T
""", """    if isinstance(initial_cov, (int, float)):
        initial_cov = np.diag(np.full(len(initial_mean), initial_cov))
    X = np.transpose(inputs - initial_mean.T)
""")
    r(4, "null-count", "util.py", """    tol = np.amax(s) * rcond
    num = np.sum(s > tol, dtype=int)
    Q = vh[num:, :].T.conj()
    return Q
""", """    rank = np.count_nonzero(s > s.max() * rcond)
    return vh[rank:].conj().T
""")
    r(4, "rank-acc", "util.py", """    for i in range(min(A.shape)):
        rank_1_updates.append(s[i] * (u[:, i].reshape(-1, 1)) @ vh[i, :].reshape(1, -1))
        A_ranks.append(sum(rank_1_updates[0 : i + 1]))

    return A_ranks
""", """    total = 0
    for sigma, left, right in zip(s, u.T, vh):
        total = total + sigma * np.outer(left, right)
        A_ranks.append(total)
    return A_ranks
""")
    r(4, "mesh-c", "util.py", """    X, Y = np.meshgrid(X, Y)
    XX = np.vstack([X.ravel(), Y.ravel()]).T
    return (X, Y, XX)
""", """    X, Y = np.meshgrid(X, Y)
    return X, Y, np.c_[X.ravel(), Y.ravel()]
""")
    r(4, "dom-scale", "util.py", """        min_max_bounds = np.array(min_max_bounds)
    pad = pad_ratio * (min_max_bounds[:, 1] - min_max_bounds[:, 0])
    min_max_bounds[:, 0] = min_max_bounds[:, 0] - pad
    min_max_bounds[:, 1] = min_max_bounds[:, 1] + pad
    return min_max_bounds
""", """        min_max_bounds = np.array(min_max_bounds)
    pad = pad_ratio * np.diff(min_max_bounds, axis=1)[:, 0]
    for column, sign in ((0, -1), (1, 1)):
        min_max_bounds[:, column] = min_max_bounds[:, column] + sign * pad
    return min_max_bounds
""")
    r(4, "pca-pipe", "preprocessing.py", """    sc = StandardScaler()
    pca = PCA(n_components=n_components, **kwargs)
    X_train = pca.fit_transform(sc.fit_transform(data))

    return pca, X_train
""", """    standardised = StandardScaler().fit(data).transform(data)
    model = PCA(n_components=n_components, **kwargs)
    return model, model.fit_transform(standardised)
""")
    # ---------------------------------------------------------------- plots
    r(4, "dist-norm", "plot.py", """    total = np.sum(plot_y * np.abs(plot_x[1] - plot_x[0]))
    plot_y = plot_y / total
""", """    step = abs(plot_x[1] - plot_x[0])
    plot_y = plot_y / (plot_y.sum() * step)
""")
    r(4, "dist-eval", "plot.py", """    if source == "pdf":
        # Compute observed distribution using stored pdf
        plot_y = margins(np.reshape(dist.pdf(grid.T).prod(axis=1), mesh[idx].shape))[
            idx
        ].reshape(-1)
    elif source == "kde":
        # Compute observed distribution using kernel density estimate
        plot_y = margins(np.reshape(dist(grid), mesh[idx].shape))[idx].reshape(-1)
    else:
        raise ValueError("Source must be one of pdf or kde.")
""", """    if source not in ("pdf", "kde"):
        raise ValueError("Source must be one of pdf or kde.")
    if source == "pdf":
        values = np.prod(dist.pdf(grid.T), axis=1)
    else:
        values = dist.evaluate(grid)
    values = values.reshape(mesh[0].shape)
    others = tuple(k for k in range(values.ndim) if k != idx)
    plot_y = values.sum(axis=others)
""")
    r(4, "chain-plot", "plot.py", """    for i in range(0, num_steps):
        next_point = mud_chain[i]
        points = np.hstack([current_point, next_point])
        plt.plot(points[0, :], points[1, :], c=color)
        current_point = next_point
""", """    for current, following in zip([current_point] + mud_chain[:-1], mud_chain):
        xs, ys = np.concatenate((current, following), axis=1)[:2]
        plt.plot(xs, ys, c=color)
""")
    r(4, "vert", "plot.py", """    ylims = list(ax.get_ylim())
    ylims[1] = ylim if ylim is not None else ylims[1]
    ax.plot([x_loc, x_loc], [ylims[0], ylims[1]], **kwargs)
    ax.set_ylim(ylims)
""", """    bottom, top = ax.get_ylim()
    top = top if ylim is None else ylim
    ax.plot([x_loc] * 2, [bottom, top], **kwargs)
    ax.set_ylim([bottom, top])
""")
