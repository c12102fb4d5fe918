"""Second batch of behaviour-preserving edits (see refactors.py)."""


def add(r):
    # ---------------------------------------------------------------- base.py: density
    r(2, "d-init", "base.py", """        # These will be updated in set_ and fit() functions
        self._r = None  # Ratio of observed to predicted
        self._up = None  # Updated values
        self._in = None  # Initial values
        self._pr = None  # Predicted values
        self._ob = None  # Observed values
        self._in_dist = None  # Initial distribution
        self._pr_dist = None  # Predicted distribution
        self._ob_dist = None  # Observed distribution
""", """        for name in ("r", "up", "in", "pr", "ob"):
            setattr(self, "_" + name, None)
        for name in ("in", "pr", "ob"):
            setattr(self, f"_{name}_dist", None)
""")
    r(2, "d-domain", "base.py", """            self.domain = set_shape(np.array(domain), (1, -1))
            assert (
                self.domain.shape[0] == self.n_params
            ), f"Size mismatch: domain: {self.domain.shape}, params: {self.X.shape}"

        else:
            self.domain = fit_domain(self.X, pad_ratio=pad_domain)
""", """            bounds = np.array(domain)
            if bounds.ndim < 2:
                bounds = bounds[np.newaxis, :]
            self.domain = bounds
            rows, _ = bounds.shape
            if rows != self.n_params:
                raise AssertionError(
                    f"Size mismatch: domain: {self.domain.shape}, params: {self.X.shape}"
                )
        else:
            self.domain = fit_domain(self.X, None, pad_domain)
""")
    r(2, "d-weights", "base.py", """            w = np.array(weights)

            # Reshape to 2D
            w = w.reshape(1, -1) if w.ndim == 1 else w

            # assert appropriate size
            assert self.n_samples == w.shape[1], f"`weights` must size {self.n_samples}"

            # Multiply weights column wise for stacked weights
            w = np.prod(w, axis=0)

            if normalize:
                w = np.divide(w, np.linalg.norm(w))
""", """            w = np.atleast_2d(np.array(weights))
            expected, (_, got) = self.n_samples, w.shape
            assert expected == got, f"`weights` must size {expected}"
            w = np.multiply.reduce(w, axis=0)
            if normalize:
                length = np.sqrt(w @ w)
                w = w / length
""")
    r(2, "d-pred", "base.py", """        if distribution is None:
            # Reweight kde of predicted by weights if present
            distribution = gkde(self.y.T, bw_method=bw_method, weights=self._weights)
            pred_pdf_values = distribution.pdf(self.y.T).T
        else:
            pred_pdf_values = np.asarray(distribution.pdf(self.y, **kwargs))
            if pred_pdf_values.ndim > 1:
                pred_pdf_values = pred_pdf_values.prod(axis=1)

        self._pr_dist = distribution
        self._pr = pred_pdf_values.ravel()
        self._up = None
""", """        if distribution is not None:
            vals = np.asarray(distribution.pdf(self.y, **kwargs))
            pdf_values = vals if vals.ndim <= 1 else np.prod(vals, axis=1)
        else:
            # Reweight kde of predicted by weights if present
            points = self.y.transpose()
            distribution = gkde(points, bw_method, self._weights)
            pdf_values = distribution.evaluate(points)

        self._up = None
        self._pr = np.ravel(pdf_values)
        self._pr_dist = distribution
""")
    r(2, "d-fit", "base.py", """        self._r = np.divide(self._ob, self._pr)

        # Multiply by initial to get updated pdf
        up_pdf = np.multiply(self._in * self._weights, self._r)
        self._up = up_pdf
""", """        ratio = self._ob / self._pr
        updated = self._weights * self._in
        updated *= ratio
        self._r, self._up = ratio, updated
""")
    r(2, "d-mud", "base.py", """        if self._up is None:
            self.fit()
        m = np.argmax(self._up)
        return self.X[m, :]

    def estimate(self):
        \"\"\"Estimate
""", """        self._ensure_fit()
        return self.X[int(self._up.argmax())]

    def _ensure_fit(self):
        if self._up is not None:
            return
        self.fit()

    def estimate(self):
        \"\"\"Estimate
""")
    r(2, "d-ratio", "base.py", """        return np.average(self._r, weights=self._weights)
""", """        w = self._weights
        return np.dot(w, self._r) / np.sum(w)
""")
    r(2, "d-plot-param", "base.py", """        # Create plot if one isn't passed in
        _, ax = plt.subplots(1, 1) if ax is None else (None, ax)

        # Default x_range to full domain of all parameters
        if x_range is None:
            x_range = fit_domain(min_max_bounds=self.domain, pad_ratio=pad_ratio)

        # Plot distributions for all not set to None
        assert self._in_dist is not None
        if in_opts is not None:
            io.update(in_opts)
            plot_dist(
                self._in_dist,
                x_range,
                idx=param_idx,
                ax=ax,
                source="pdf",
                aff=aff,
                **io,
            )
        if up_opts is not None:
            uo.update(up_opts)
            if self._up is None:
                self.fit()
            up_kde = gkde(self.X.T, weights=self._r * self._weights)
            plot_dist(
                up_kde, x_range, idx=param_idx, ax=ax, source="kde", aff=aff, **uo
            )
        if win_opts is not None:
            wo.update(win_opts)
            w_kde = gkde(self.X.T, weights=self._weights)
            plot_dist(w_kde, x_range, idx=param_idx, ax=ax, source="kde", aff=aff, **wo)
        if mud_opts is not None:
            mo.update(mud_opts)
            mud_pt = self.estimate()
            plot_vert_line(ax, mud_pt[param_idx], ylim=ylim, **mo)
        if true_val is not None and true_opts:
            true_val = np.array(true_val)
            to.update(true_opts)
            plot_vert_line(ax, true_val[param_idx], ylim=ylim, **to)

        ax.set_xlabel(rf"$\\lambda_{param_idx+1}$")

        return ax

    def plot_obs_space(
        self,
        obs_idx: int = 0,
""", """        # Create plot if one isn't passed in
        if ax is None:
            fig = plt.figure()
            ax = fig.add_subplot()

        # Default x_range to full domain of all parameters
        x_range = (
            fit_domain(min_max_bounds=self.domain, pad_ratio=pad_ratio)
            if x_range is None
            else x_range
        )

        def draw(distribution, source, options):
            return plot_dist(
                distribution, x_range, ax, param_idx, source, aff, **options
            )

        # Plot distributions for all not set to None
        assert self._in_dist is not None
        if in_opts is not None:
            draw(self._in_dist, "pdf", {**io, **in_opts})
        if up_opts is not None:
            self._ensure_fit()
            draw(
                gkde(self.X.T, weights=np.multiply(self._weights, self._r)),
                "kde",
                {**uo, **up_opts},
            )
        if win_opts is not None:
            draw(gkde(self.X.T, weights=self._weights), "kde", dict(wo, **win_opts))
        if mud_opts is not None:
            mo |= mud_opts
            plot_vert_line(ax, self.mud_point()[param_idx], ylim, **mo)
        if true_val is not None and true_opts:
            to = {**to, **true_opts}
            plot_vert_line(ax, np.asarray(true_val)[param_idx], ylim, **to)

        ax.set_xlabel("$\\\\lambda_" + str(param_idx + 1) + "$")

        return ax

    def plot_obs_space(
        self,
        obs_idx: int = 0,
""")
    r(2, "d-plot-obs", "base.py", """        if ob_opts:
            oo.update(ob_opts)
            plot_dist(
                self._ob_dist, y_range, idx=obs_idx, ax=ax, source="pdf", aff=aff, **oo
            )
        if pr_opts:
            po.update(pr_opts)
            source = "kde" if isinstance(self._pr_dist, gkde) else "pdf"
            plot_dist(
                self._pr_dist, y_range, idx=obs_idx, ax=ax, source=source, aff=aff, **po
            )
        if pf_opts:
            fo.update(pf_opts)

            # Compute PF of updated
            pf_kde = gkde(self.y.T, weights=self._weights * self._r)
            plot_dist(pf_kde, y_range, idx=obs_idx, ax=ax, source="kde", aff=aff, **fo)
""", """        todo = []
        if ob_opts:
            todo.append((self._ob_dist, "pdf", {**oo, **ob_opts}))
        if pr_opts:
            is_kde = isinstance(self._pr_dist, gkde)
            todo.append((self._pr_dist, ("pdf", "kde")[is_kde], {**po, **pr_opts}))
        if pf_opts:
            pf_kde = gkde(self.y.T, weights=self._r * self._weights)
            todo.append((pf_kde, "kde", {**fo, **pf_opts}))
        for density, source, options in todo:
            plot_dist(
                density, y_range, idx=obs_idx, ax=ax, source=source, aff=aff, **options
            )
""")
    r(2, "d-qoi", "base.py", """        if ax is None:
            fig = plt.figure(figsize=(5, 5))
            ax = fig.add_subplot(1, 1, 1)
        ax.scatter(self.y[:, idx_x], self.y[:, idx_y], **kwargs)

        return ax
""", """        if ax is None:
            _, ax = plt.subplots(figsize=(5, 5))
        outputs = self.y.T
        ax.scatter(outputs[idx_x], outputs[idx_y], **kwargs)

        return ax
""")
    r(2, "d-2d", "base.py", """        c = None
        if y >= self.n_features:
            raise ValueError(f"index {y+1} > dim {self.n_features}")
        c = self.y[:, y]

        if ax is None:
            fig = plt.figure(figsize=(5, 5))
            ax = fig.add_subplot(1, 1, 1)

        sp = ax.scatter(self.X[:, x_1], self.X[:, x_2], **{"c": c, **kwargs})

        if contours:
            ax.tricontour(self.X[:, x_1], self.X[:, x_2], c, levels=20)
            ax.set_title(f"$q_{y+1}$")

        if colorbar and c is not None:
            ax.figure.colorbar(sp, ax=ax)
""", """        if self.n_features <= y:
            raise ValueError(f"index {y+1} > dim {self.n_features}")
        colours = self.y[:, y]
        first, second = self.X[:, x_1], self.X[:, x_2]

        if ax is None:
            fig, ax = plt.subplots(1, 1, figsize=(5, 5))

        kwargs.setdefault("c", colours)
        points = ax.scatter(first, second, **kwargs)

        if contours:
            ax.tricontour(first, second, colours, levels=20)
            ax.set_title("$q_{}$".format(y + 1))

        if colorbar:
            figure = ax.get_figure()
            figure.colorbar(points, ax=ax)
""")
    # ---------------------------------------------------------------- base.py: Bayes
    r(2, "b-fit", "base.py", """        if self._log:
            ps_pdf = np.add(np.log(self._pr), self._ll)
        else:
            ps_pdf = np.multiply(self._pr, self._ll)

        assert ps_pdf.shape[0] == self.X.shape[0]
        if np.sum(ps_pdf) == 0:
            raise ValueError("Posterior numerically unstable.")
        self._ps = ps_pdf
""", """        ps_pdf = self._ll + np.log(self._pr) if self._log else self._ll * self._pr

        assert len(ps_pdf) == len(self.X)
        total = ps_pdf.sum()
        if total == 0:
            raise ValueError("Posterior numerically unstable.")
        else:
            self._ps = ps_pdf
""")
    r(2, "b-prior", "base.py", """                mn = np.min(self.domain, axis=1)
                mx = np.max(self.domain, axis=1)
                distribution = dist.uniform(loc=mn, scale=mx - mn)
            else:
                distribution = dist.norm()
        self._pr_dist = distribution
        self._pr = self._pr_dist.pdf(self.X).prod(axis=1)
        self._ps = None
""", """                low = self.domain.min(axis=1)
                distribution = dist.uniform(low, np.ptp(self.domain, axis=1))
            else:
                distribution = dist.norm()
        self._ps = None
        self._pr_dist = distribution
        self._pr = np.prod(distribution.pdf(self.X), axis=1)
""")
    r(2, "b-plot-obs", "base.py", """        # Build grid of points over range to compute marginals
        axes = [np.linspace(i, j, aff)[:-1] for i, j in y_range]
        XXX = np.meshgrid(*axes, indexing="ij")
        grid_points = np.vstack([x.ravel() for x in XXX])
        y_plot = np.linspace(y_range[obs_idx, 0], y_range[obs_idx, 1], aff)[: aff - 1]
""", """        # Build grid of points over range to compute marginals
        XXX, grid_points = build_nd_mesh_grid(y_range, aff=aff)
        lower, upper = y_range[obs_idx]
        y_plot = np.linspace(lower, upper, aff)[:-1]
""")
    r(2, "b-plot-obs-2", "base.py", """from mud.plot import plot_dist, plot_vert_line
""", """from mud.plot import build_nd_mesh_grid, plot_dist, plot_vert_line
""")
    r(2, "b-plot-obs-3", "base.py", """            ll_plot = margins(
                np.reshape(self._ll_dist.pdf(grid_points.T).prod(axis=1), XXX[0].shape)
            )[obs_idx].reshape(-1)

            # Plot pf of initial
            ax.plot(y_plot, ll_plot, **lo)
""", """            heights = np.prod(self._ll_dist.pdf(grid_points.T), axis=1)
            heights = heights.reshape(XXX[0].shape)
            other = tuple(i for i in range(heights.ndim) if i != obs_idx)

            # Plot pf of initial
            ax.plot(y_plot, heights.sum(axis=other), **lo)
""")
    # ---------------------------------------------------------------- base.py: linear
    r(2, "l-init", "base.py", """        self.b = np.zeros((ns, 1)) if b is None else np.array(b).reshape(-1, 1)
        self.y = np.zeros((ns, 1)) if y is None else np.array(y).reshape(-1, 1)
        self.mean_i = (
            np.zeros((di, 1)) if mean_i is None else np.array(mean_i).reshape(-1, 1)
        )
        self.cov_i = np.eye(di) if cov_i is None else np.array(cov_i)
        self.cov_o = np.eye(ns) if cov_o is None else np.array(cov_o)

        # How much to scale regularization terms
        self.alpha = alpha if alpha is not None else 1.0
""", """        def column(values, size):
            if values is None:
                return np.zeros((size, 1))
            return np.array(values).ravel()[:, None]

        def square(values, size):
            return np.identity(size) if values is None else np.array(values)

        self.b, self.y, self.mean_i = column(b, ns), column(y, ns), column(mean_i, di)
        self.cov_i, self.cov_o = square(cov_i, di), square(cov_o, ns)

        # How much to scale regularization terms
        self.alpha = 1.0 if alpha is None else alpha
""")
    r(2, "l-ip", "base.py", """        def ip(X, mat):
            return np.sum(X * (np.linalg.inv(mat) @ X), axis=0)

        # First compute data mismatch norm
        data_term = ip(self.A @ X.T + self.b - self.y, self.cov_o)
""", """        def ip(V, mat):
            return np.einsum("ij,ij->j", V, np.linalg.solve(mat, V))

        # First compute data mismatch norm
        data_term = ip(self.A.dot(X.T) - (self.y - self.b), self.cov_o)
""")
    r(2, "l-solve", "base.py", """        # Solve according to given method, or solve all methods
        if method == "mud" or method == "all":
            inv_pred_cov = np.linalg.pinv(_A @ a_cov_i @ _A.T)
            update = a_cov_i @ _A.T @ inv_pred_cov
            self.mud = self.mean_i + update @ z

        if method == "mud_alt" or method == "all":
            up_cov = self.updated_cov(A=_A, init_cov=a_cov_i, data_cov=_cov_o)
            update = up_cov @ _A.T @ np.linalg.inv(_cov_o)
            self.mud_alt = self.mean_i + update @ z
            self.up_cov = up_cov

        if method == "map" or method == "all":
            co_inv = np.linalg.inv(_cov_o)
            cov_p = np.linalg.inv(_A.T @ co_inv @ _A + np.linalg.inv(a_cov_i))
            update = cov_p @ _A.T @ co_inv
            self.map = self.mean_i + update @ z
            self.cov_p = cov_p

        if method == "ls" or method == "all":
            # Compute ls solution from pinv method
            self.ls = np.linalg.pinv(_A) @ mean_o

        # Return solution or all solutions
        if method == "all":
            return (self.mud, self.map, self.ls)
            # return (self.mud, self.mud_alt, self.map, self.ls)
        else:
            return self.__getattribute__(method)
""", """        wanted = ("mud", "mud_alt", "map", "ls") if method == "all" else (method,)
        prior = self.mean_i
        for name in wanted:
            if name == "mud":
                half = a_cov_i @ _A.T
                self.mud = prior + half @ (np.linalg.pinv(_A @ half) @ z)
            elif name == "mud_alt":
                self.up_cov = self.updated_cov(_A, a_cov_i, _cov_o)
                gain = np.linalg.multi_dot([self.up_cov, _A.T, np.linalg.inv(_cov_o)])
                self.mud_alt = prior + gain @ z
            elif name == "map":
                precision = np.linalg.inv(_cov_o)
                hessian = np.linalg.inv(a_cov_i) + _A.T @ precision @ _A
                self.cov_p = np.linalg.inv(hessian)
                self.map = prior + self.cov_p @ (_A.T @ (precision @ z))
            else:
                self.ls = np.matmul(np.linalg.pinv(_A), mean_o)

        if method == "all":
            return (self.mud, self.map, self.ls)
        return getattr(self, method)
""")
    r(2, "l-upcov", "base.py", """        pred_cov = X @ init_cov @ X.T
        inv_pred_cov = np.linalg.pinv(pred_cov)
        # pinv b/c inv unstable for rank-deficient A

        # Form derived via Hua's identity + Woodbury
        K = init_cov @ X.T @ inv_pred_cov
        up_cov = init_cov - K @ (pred_cov - data_cov) @ K.T

        return up_cov
""", """        cross = init_cov @ X.T
        pred_cov = X @ cross
        gain = cross @ np.linalg.pinv(pred_cov)
        return init_cov - gain @ pred_cov @ gain.T + gain @ data_cov @ gain.T
""")
    r(2, "l-plot-sol", "base.py", """        # Plot line connecting initial value and solution
        if ln_opts is not None and point != "initial":
            ax.plot(
                [self.mean_i.ravel()[0], pt.ravel()[0]],
                [self.mean_i.ravel()[1], pt.ravel()[1]],
                **ln_opts,
            )
""", """        # Plot line connecting initial value and solution
        if not (ln_opts is None or point == "initial"):
            path = np.hstack([self.mean_i, pt])
            ax.plot(path[0], path[1], **ln_opts)
""")
    r(2, "l-contours", "base.py", """        A = self.A[np.array(subset), :]
        numQoI = A.shape[0]
        AA = np.hstack([null_space(A[i, :].reshape(1, -1)) for i in range(numQoI)]).T

        # Plot each contour line going through ref point
        for i, contour in enumerate(subset):
            xloc = [ref[0] - w * AA[i, 0], ref[0] + w * AA[i, 0]]
            yloc = [ref[1] - w * AA[i, 1], ref[1] + w * AA[i, 1]]
            ax.plot(xloc, yloc, **plot_opts)
""", """        basis = np.hstack([null_space(row[None, :]) for row in self.A[np.array(subset)]])

        # Plot each contour line going through ref point
        for contour, (dx, dy) in zip(subset, basis.T):
            dx, dy = w * dx, w * dy
            xloc, yloc = [ref[0] - dx, ref[0] + dx], [ref[1] - dy, ref[1] + dy]
            ax.plot(xloc, yloc, **plot_opts)
""")
    r(2, "l-funs", "base.py", """        _ = ax.contour(
            mesh[:, 0].reshape(N, N),
            mesh[:, 1].reshape(N, N),
            term.reshape(N, N),
            **kwargs,
        )
""", """        grids = [v.reshape((N, N)) for v in (mesh[:, 0], mesh[:, 1], term)]
        ax.contour(*grids, **kwargs)
""")
    r(2, "w-init", "base.py", """        if isinstance(sigma, (float, int)):
            sigma = [sigma] * len(data)

        results = [
            self._transform_linear_map(o, d, s)
            for o, d, s in zip(operators, data, sigma)
        ]
        operators = [r[0] for r in results]
        datas = [r[1] for r in results]
        A, B = np.vstack(operators), np.vstack(datas)
""", """        if isinstance(sigma, (float, int)):
            sigma = len(data) * [sigma]

        rows, shifts = [], []
        for o, d, s in zip(operators, data, sigma):
            row, shift = self._transform_linear_map(o, d, s)
            rows.append(row)
            shifts.append(shift)
        A, B = np.vstack(rows), np.vstack(shifts)
""")
    r(2, "w-map", "base.py", """            D = np.diag(1.0 / (std * np.sqrt(num_observations)))
            A = np.sum(D @ operator, axis=0)
        else:
            if isinstance(std, (list, tuple, np.ndarray)):
                raise ValueError("For repeated measurements, pass a float for std")
            assert std > 1e-14, "Std must be > 1E-14"
            A = np.sqrt(num_observations) / std * operator

        b = -1.0 / np.sqrt(num_observations) * np.sum(np.divide(data, std))
        return A, b
""", """            A = (1.0 / std) @ operator / np.sqrt(num_observations)
        else:
            if isinstance(std, (list, tuple, np.ndarray)):
                raise ValueError("For repeated measurements, pass a float for std")
            assert std > 1e-14, "Std must be > 1E-14"
            A = operator * (np.sqrt(num_observations) / std)

        return A, -(np.divide(data, std).sum() / num_observations**0.5)
""")
    r(2, "i-solve", "base.py", """        m_init = (
            self.mu_i
            if len(self.solution_chains) == 0
            else self.solution_chains[-1][-1]
        )
        solutions = [m_init]
        for _ in range(0, num_epochs):
            epoch = []
            solutions = [solutions[-1]]
            for i in self.idx_order:
                # Add next sub-problem to chain
                epoch.append(
                    LinearGaussianProblem(
                        self.A[i, :],
                        self.b[i],
                        self.y[i],
                        mean_i=solutions[-1],
                        cov_i=self.cov,
                        cov_o=[[self.data_cov[i][i]]],
                    )
                )

                # Solve next mud problem
                solutions.append(epoch[-1].solve(method=method))

            self.epochs.append(epoch)
            self.solution_chains.append(solutions)
""", """        current = self.solution_chains[-1][-1] if self.solution_chains else self.mu_i
        done = 0
        while done < num_epochs:
            epoch, solutions = [], [current]
            for i in self.idx_order:
                # Add next sub-problem to chain
                row = slice(i, i + 1)
                sub = LinearGaussianProblem(
                    A=self.A[i],
                    b=self.b[i],
                    y=self.y[i],
                    mean_i=current,
                    cov_i=self.cov,
                    cov_o=np.array([[self.data_cov[i, i]]]),
                )
                current = sub.solve(method)
                epoch += [sub]
                solutions += [current]
            self.epochs.append(epoch)
            self.solution_chains.append(solutions)
            done += 1
""")
    r(2, "i-errors", "base.py", """        solutions = np.concatenate([x[1:] for x in self.solution_chains])
        ref_param = np.reshape(ref_param, (-1, 1))
        self.errors = [np.linalg.norm(s - ref_param) for s in solutions]
        return self.errors
""", """        ref_param = np.ravel(ref_param)[:, np.newaxis]
        errors = []
        for chain in self.solution_chains:
            for point in chain[1:]:
                errors.append(np.sqrt(np.sum((point - ref_param) ** 2)))
        self.errors = errors
        return errors
""")
    r(2, "i-plot", "base.py", """            num_steps = len(chain)
            current_point = chain[0]
            ax.scatter(current_point[0], current_point[1], c="b", s=s)
            for i in range(0, num_steps):
                next_point = chain[i]
                points = np.hstack([current_point, next_point])
                ax.plot(points[0, :], points[1, :], c=color)
                current_point = next_point
            ax.scatter(current_point[0], current_point[1], c="g", s=s)
            ax.scatter(ref_param[0], ref_param[1], c="r", s=s)
""", """            start, end = chain[0], chain[-1]
            ax.scatter(start[0], start[1], c="b", s=s)
            for before, after in zip([start] + list(chain), chain):
                xs, ys = np.hstack([before, after])[:2]
                ax.plot(xs, ys, c=color)
            for place, shade in ((end, "g"), (ref_param, "r")):
                ax.scatter(place[0], place[1], c=shade, s=s)
""")
    # ---------------------------------------------------------------- base.py: spatio-temporal
    r(2, "s-props", "base.py", """    @property
    def n_sensors(self) -> int:
        if self.sensors is None:
            raise AttributeError("sensors not yet set.")
        return self.sensors.shape[0]

    @property
    def n_ts(self) -> int:
        if self.times is None:
            raise AttributeError("times not yet set.")
        return self.times.shape[0]
""", """    def _count(self, name):
        values = getattr(self, name)
        if values is None:
            raise AttributeError(f"{name} not yet set.")
        return values.shape[0]

    @property
    def n_sensors(self) -> int:
        return self._count("sensors")

    @property
    def n_ts(self) -> int:
        return self._count("times")
""")
    r(2, "s-lamref", "base.py", """        for idx, lam in enumerate(lam_ref):
            if (lam < self.domain[idx][0]) or (lam > self.domain[idx][1]):
                raise ValueError(
                    f"lam_ref at idx {idx} must be inside {self.domain[idx]}."
                )
""", """        for idx, (lam, (low, high)) in enumerate(zip(lam_ref, self.domain)):
            if lam < low or lam > high:
                raise ValueError(
                    f"lam_ref at idx {idx} must be inside {self.domain[idx]}."
                )
""")
    r(2, "s-domain", "base.py", """            if not all(
                [all(domain[:, 0] <= min_max[:, 0]), all(domain[:, 1] >= min_max[:, 1])]
            ):
                raise ValueError("Parameter values exist outside of specified domain")
""", """            below = np.any(min_max[:, 0] < domain[:, 0])
            above = np.any(min_max[:, 1] > domain[:, 1])
            if below or above:
                raise ValueError("Parameter values exist outside of specified domain")
""")
    r(2, "s-data", "base.py", """        if ndim == 1:
            data = np.reshape(data, (-1, 1))
        if ndim == 3:
            # Expected to be in (# samples x # sensors # # timesteps)
            data = np.reshape(data, (dim[0], -1))
""", """        if ndim == 1:
            data = data[:, None]
        elif ndim == 3:
            n, sensors, steps = dim
            data = data.reshape(n, sensors * steps)
""")
    r(2, "s-data-2", "base.py", """        if self.sensors is None and self.times is None:
            self.sensors = np.array([0])
            self.times = np.arange(0, dim[1])
        if self.sensors is not None and self.times is None:
""", """        columns = data.shape[1]
        if self.sensors is None and self.times is None:
            self.sensors, self.times = np.zeros(1, dtype=int), np.arange(columns)
        if self.sensors is not None and self.times is None:
""")
    r(2, "s-meas", "base.py", """        measurements = np.reshape(measurements, (self.n_sensors * self.n_ts, 1))
        self._measurements = measurements
""", """        size = self.n_ts * self.n_sensors
        self._measurements = np.asarray(measurements).reshape((size, 1))
""")
    r(2, "s-meas-ref", "base.py", """        self.measurements = np.reshape(
            add_noise(self.true_vals.ravel(), self.std_dev, seed=seed),
            self.true_vals.shape,
        )
""", """        noisy = add_noise(np.ravel(self.true_vals), sd=self.std_dev, seed=seed)
        self.measurements = noisy.reshape(self.true_vals.shape)
""")
    r(2, "s-load", "base.py", """        def get_set_val(f, v):
            if isinstance(v, str):
                v = ds[v] if v in ds.keys() else None
            if v is not None:
                self.__setattr__(f, v)
""", """        def lookup(v):
            if not isinstance(v, str):
                return v
            return ds[v] if v in ds else None
""")
    r(2, "s-load-2", "base.py", """        field_names.update(kwargs)
        for f, v in field_names.items():
            get_set_val(f, v)

        return ds
""", """        for f, v in {**field_names, **kwargs}.items():
            found = lookup(v)
            if found is None:
                continue
            setattr(self, f, found)

        return ds
""")
    r(2, "s-validate", "base.py", """        req_attrs = ["domain", "lam", "data"]
        if check_meas:
            req_attrs.append("measurements")
        if check_true:
            req_attrs.append("lam_ref")
            req_attrs.append("true_vals")

        missing = [x for x in req_attrs if self.__getattribute__(x) is None]
        if len(missing) > 0:
            raise ValueError(f"Missing attributes {missing}")
""", """        needed = ["domain", "lam", "data"]
        needed += ["measurements"] if check_meas else []
        needed += ["lam_ref", "true_vals"] if check_true else []
        missing = list(filter(lambda name: getattr(self, name) is None, needed))
        if missing:
            raise ValueError("Missing attributes {}".format(missing))
""")
    r(2, "s-sample", "base.py", """        if samples_mask is not None:
            sub_lam = self.lam[samples_mask, :]
            sub_data = sub_data[samples_mask, :, :]
        if times_mask is not None:
            sub_times = np.reshape(self.times[times_mask], (-1, 1))
            sub_data = sub_data[:, :, times_mask]
            if sub_meas is not None:
                sub_meas = sub_meas[:, times_mask]
        if sensors_mask is not None:
            sub_sensors = np.reshape(
                self.sensors[sensors_mask], (-1,) + self.sensors.shape[1:]
            )
            sub_data = sub_data[:, sensors_mask, :]
            if sub_meas is not None:
                sub_meas = sub_meas[sensors_mask, :]
""", """        if samples_mask is not None:
            sub_lam, sub_data = self.lam[samples_mask], sub_data[samples_mask]
        if times_mask is not None:
            sub_times = self.times[times_mask].reshape(-1, 1)
            sub_data = sub_data[..., times_mask]
            sub_meas = None if sub_meas is None else sub_meas[..., times_mask]
        if sensors_mask is not None:
            sub_sensors = self.sensors[sensors_mask].reshape(
                -1, *self.sensors.shape[1:]
            )
            sub_data = sub_data[:, sensors_mask]
            sub_meas = None if sub_meas is None else sub_meas[sensors_mask]
""")
    r(2, "s-contour", "base.py", """        sensors = self.sensors[mask, :] if mask is not None else self.sensors
        if c_vals is not None:
            contours = c_vals
        else:
            contours = self.data[idx, :].ravel()
            contours = contours[mask] if mask is not None else contours

        if fill:
            tc = ax.tricontourf(sensors[:, 0], sensors[:, 1], contours, **kwargs)
        else:
            tc = ax.tricontour(sensors[:, 0], sensors[:, 1], contours, **kwargs)

        if colorbar:
            ax.figure.colorbar(tc, ax=ax)
""", """        sensors = self.sensors if mask is None else self.sensors[mask]
        contours = c_vals
        if contours is None:
            contours = self.data[idx].ravel() if mask is None else self.data[idx].ravel()[mask]

        draw = ax.tricontourf if fill else ax.tricontour
        tc = draw(*sensors[:, :2].T, contours, **kwargs)

        if colorbar:
            plt.colorbar(tc, ax=ax)
""")
    r(2, "s-scatter", "base.py", """        if colorbar and "c" in kwargs.keys():
            ax.figure.colorbar(sp, ax=ax)
""", """        if "c" in kwargs and colorbar:
            fig = ax.figure
            fig.colorbar(sp, ax=ax)
""")
    r(2, "s-ts", "base.py", """        def_kwargs = {
            "color": "k",
            "marker": "^",
            "label": "$\\\\zeta_{obs}$",
            "zorder": 50,
            "s": 2,
        }
        def_kwargs.update(meas_kwargs)
        _ = ax.scatter(times, sub_meas, **def_kwargs)

        # Plot simulated data time series
        def_sample_kwargs = {"color": "r", "linestyle": "-", "zorder": 1, "alpha": 0.1}
        def_sample_kwargs.update(samples_kwargs)
        for i, idx in enumerate(np.random.choice(num_samples, max_plot)):
            if i != (max_plot - 1):
                _ = ax.plot(times, sub_data[idx, :], **def_sample_kwargs)
            else:
                _ = ax.plot(
                    times,
                    sub_data[idx, :],
                    "r-",
                    alpha=alpha,
                    label=f"Sensor {sensor_idx}",
                )
""", """        look = dict(color="k", marker="^", label="$\\\\zeta_{obs}$", zorder=50, s=2)
        look = {**look, **meas_kwargs}
        ax.scatter(times, sub_meas, **look)

        # Plot simulated data time series
        style = {"color": "r", "linestyle": "-", "zorder": 1, "alpha": 0.1}
        style.update(samples_kwargs)
        chosen = np.random.choice(num_samples, size=max_plot)
        last = max_plot - 1
        for i in range(max_plot):
            series = sub_data[chosen[i]]
            if i == last:
                label = f"Sensor {sensor_idx}"
                ax.plot(times, series, "r-", alpha=alpha, label=label)
            else:
                ax.plot(times, series, **style)
""")
    r(2, "s-mud", "base.py", """        if data_weights is not None:
            data_weights = np.reshape(data_weights, (1, -1))
            if data_weights.shape[1] != residuals.shape[1]:
                raise ValueError(
                    "Data weights vector and dimension of data space does not match"
                )
            data_weights = data_weights / np.linalg.norm(data_weights)
            residuals = data_weights * residuals

        if method == "wme":
            qoi = np.sum(residuals, axis=1) / np.sqrt(residuals.shape[1])
        elif method == "pca":
            # Learn qoi to use using PCA
            pca_res, X_train = pca(residuals, n_components=num_components)
            self.pca = {
                "X_train": X_train,
                "vecs": pca_res.components_,
                "var": pca_res.explained_variance_,
            }

            # Compute WME
            qoi = residuals @ pca_res.components_.T
        elif method == "svd":
            # Learn qoi to use using SVD
            u, s, v = svd(residuals)
            self.svd = {"u": u, "singular_values": s, "singular_vectors": v}
            qoi = residuals @ (v[0:num_components, :]).T
        else:
            raise ValueError(f"Unrecognized QoI Map type {method}")

        # One column per component of the map
        self.qoi = np.reshape(qoi, (residuals.shape[0], -1))

        d = DensityProblem(lam, qoi, self.domain, weights=sample_weights)

        return d
""", """        if data_weights is not None:
            wts = np.ravel(data_weights)
            if len(wts) != residuals.shape[1]:
                raise ValueError(
                    "Data weights vector and dimension of data space does not match"
                )
            residuals = residuals * (wts / np.linalg.norm(wts))

        maps = {
            "wme": self._wme_map,
            "pca": self._pca_map,
            "svd": self._svd_map,
        }
        if method not in maps:
            raise ValueError(f"Unrecognized QoI Map type {method}")
        qoi = maps[method](residuals, num_components)
        self.qoi = qoi.reshape(len(residuals), -1)
        return DensityProblem(
            X=lam, y=qoi, domain=self.domain, weights=sample_weights
        )

    def _wme_map(self, residuals, num_components):
        return residuals.sum(axis=1) * residuals.shape[1] ** -0.5

    def _pca_map(self, residuals, num_components):
        fitted, scores = pca(residuals, num_components)
        vectors = fitted.components_
        self.pca = dict(X_train=scores, vecs=vectors, var=fitted.explained_variance_)
        return np.dot(residuals, np.transpose(vectors))

    def _svd_map(self, residuals, num_components):
        u, s, v = svd(residuals)
        self.svd = dict(zip(("u", "singular_values", "singular_vectors"), (u, s, v)))
        return residuals @ v[:num_components].T
""")
    # ---------------------------------------------------------------- funs.py
    r(2, "f-wme", "funs.py", """    sd = np.std(data) if sd is None else sd
    predictions = predictions.reshape(1, -1) if predictions.ndim == 1 else predictions
    N = predictions.shape[1]
    if N != len(data):
        raise ValueError(f"Predictions and data dim mismatch {N} != {len(data)}")

    return np.sum((1 / (sd * np.sqrt(N))) * (predictions - np.ravel(data)), axis=1)
""", """    if sd is None:
        sd = np.std(data)
    if predictions.ndim == 1:
        predictions = predictions[None]
    _, N = predictions.shape
    if len(data) != N:
        raise ValueError(f"Predictions and data dim mismatch {N} != {len(data)}")

    errors = predictions - np.asarray(data).reshape(1, -1)
    return errors.sum(axis=-1) / (sd * N**0.5)
""")
    r(2, "f-flat", "funs.py", """    lp = lin_prob(A, b, y=y, mean=mean, cov=cov, data_cov=data_cov, alpha=w)
    map_pt = lp.solve(method="map")
    map_pt = map_pt if np.array(y).ndim > 1 else map_pt.ravel()

    return map_pt


def map_sol_with_cov""", """    return map_sol_with_cov(A, b, y, mean, cov, data_cov, w)[0]


def map_sol_with_cov""")
    r(2, "f-mud", "funs.py", """    lp = lin_prob(A, b, y=y, mean=mean, cov=cov, data_cov=data_cov)
    mud_pt = lp.solve(method="mud")
    mud_pt = mud_pt if np.array(y).ndim > 1 else mud_pt.ravel()

    return mud_pt
""", """    kwargs = dict(y=y, mean=mean, cov=cov, data_cov=data_cov)
    mud_pt = lin_prob(A, b, **kwargs).solve()
    if np.ndim(y) <= 1:
        return mud_pt.ravel()
    return mud_pt
""")
    r(2, "f-epoch", "funs.py", """    dim_out = A.shape[0]
    mud_chain = []

    _mean = initial_mean
    mud_chain.append(_mean)
    if idx is None:
        idx = range(dim_out)
    for i in idx:
        _A = A[i, :].reshape(1, -1)
        _b = b[i]
        _y = y[i]
        _mud_sol = mud_sol(_A, _b, _y, _mean, initial_cov, data_cov=None)
        mud_chain.append(_mud_sol)
        _mean = mud_chain[-1]
    return mud_chain
""", """    chain = [initial_mean]
    for i in range(len(A)) if idx is None else idx:
        step = mud_sol(A[[i], :], b[i], y[i], mean=chain[-1], cov=initial_cov)
        chain.append(step)
    return chain
""")
    r(2, "f-iterate", "funs.py", """    chain = performEpoch(A, b, y, initial_mean, initial_cov, data_cov, idx)
    for _ in range(1, num_epochs):
        chain += performEpoch(A, b, y, chain[-1], initial_cov, data_cov, idx)

    return chain
""", """    chain = list(performEpoch(A, b, y, initial_mean, initial_cov, data_cov, idx))
    for _ in range(num_epochs - 1):
        chain.extend(performEpoch(A, b, y, chain[-1], initial_cov, data_cov, idx))
    return chain
""")
    r(2, "f-map", "funs.py", """    dim_output = qoi.shape[1]
    if num_obs is None:
        num_obs = dim_output
    elif num_obs < 1:
        raise ValueError("num_obs must be >= 1")
    elif num_obs > dim_output:
        raise ValueError("num_obs must be <= dim(qoi)")

    data = qoi_true[0:num_obs] + np.random.randn(num_obs) * sd
    likelihood = dists.norm(loc=data, scale=sd)
    b = BayesProblem(lam, qoi[:, 0:num_obs], domain)
    b.set_likelihood(likelihood, log=log)
    return b
""", """    num_obs = _number_observed(num_obs, qoi.shape[1])
    noise = sd * np.random.randn(num_obs)
    data = noise + qoi_true[:num_obs]
    problem = BayesProblem(X=lam, y=qoi[:, :num_obs], domain=domain)
    problem.set_likelihood(dists.norm(data, sd), log)
    return problem


def _number_observed(num_obs, available):
    if num_obs is None:
        return available
    if num_obs < 1:
        raise ValueError("num_obs must be >= 1")
    if num_obs > available:
        raise ValueError("num_obs must be <= dim(qoi)")
    return num_obs
""")
    r(2, "f-mudp", "funs.py", """        q = []
        for qoi_indices in split:
            _q = qoi_indices[qoi_indices < num_obs]
            _qoi = qoi[:, _q]
            _data = np.array(qoi_true)[_q] + noise[_q]
            _newqoi = wme(_qoi, _data, sd)
            q.append(_newqoi)
        q = np.vstack(q).T
""", """        truth = np.asarray(qoi_true)
        columns = []
        for group in split:
            keep = group[np.less(group, num_obs)]
            columns.append(wme(qoi[:, keep], (truth[keep] + noise[keep]), sd=sd))
        q = np.column_stack(columns)
""")
    r(2, "f-data", "funs.py", """    sp_prob = SpatioTemporalProblem()
    sp_prob.load(data)
    D = sp_prob.mud_problem(method=method)
    D.set_initial(init_dist)
    D.set_observed(dists.norm(0, 1))  # always N(0,1) for WME map
    D.estimate()

    return D
""", """    problem = SpatioTemporalProblem(data).mud_problem(method)
    problem.set_initial(init_dist)
    problem.set_observed()
    problem.fit()

    return problem
""")
    # ---------------------------------------------------------------- norm.py
    r(2, "n-ip", "norm.py", """    Y = np.linalg.inv(mat) @ X
    result = np.sum(X * Y, axis=0)
    return result
""", """    return (np.linalg.solve(mat, X) * X).sum(axis=0)
""")
    r(2, "n-full", "norm.py", """    return (
        norm_input(inputs, initial_mean, initial_cov)
        + norm_data(operator, inputs, data, observed_mean, observed_cov)
        - norm_predicted(operator, inputs, initial_mean, initial_cov)
    )


def norm_input(inputs, initial_mean, initial_cov):
    if isinstance(initial_cov, int) or isinstance(initial_cov, float):
        initial_cov = initial_cov * np.eye(len(initial_mean))
    X = (inputs - initial_mean.T).T
    return inner_product(X, initial_cov)
""", """    total = norm_data(operator, inputs, data, observed_mean, observed_cov)
    total = total + norm_input(inputs, initial_mean, initial_cov)
    total -= norm_predicted(operator, inputs, initial_mean, initial_cov)
    return total


def _matrix(cov, size):
    return np.eye(size) * cov if isinstance(cov, (int, float)) else cov


def norm_input(inputs, initial_mean, initial_cov):
    shifted = np.transpose(inputs - np.transpose(initial_mean))
    return inner_product(shifted, _matrix(initial_cov, len(initial_mean)))
""")
    # ---------------------------------------------------------------- util.py
    r(2, "u-std", "util.py", """    standard_deviation = tolerance / (erfinv(probability) * np.sqrt(2))
    return standard_deviation
""", """    z = np.sqrt(2.0) * erfinv(probability)
    return tolerance / z
""")
    r(2, "u-null", "util.py", """    u, s, vh = np.linalg.svd(A, full_matrices=True)
    M, N = u.shape[0], vh.shape[1]
    if rcond is None:
        rcond = np.finfo(s.dtype).eps * max(M, N)
    tol = np.amax(s) * rcond
    num = np.sum(s > tol, dtype=int)
    Q = vh[num:, :].T.conj()
    return Q
""", """    u, s, vh = np.linalg.svd(A)
    if rcond is None:
        rcond = max(u.shape[0], vh.shape[1]) * np.finfo(s.dtype).eps
    rank = np.count_nonzero(s > s.max() * rcond)
    return vh[rank:].conj().T
""")
    r(2, "u-mesh", "util.py", """    X = np.linspace(0, window, N)
    Y = np.linspace(0, window, N)
    X, Y = np.meshgrid(X, Y)
    XX = np.vstack([X.ravel(), Y.ravel()]).T
    return (X, Y, XX)
""", """    ticks = np.linspace(0, window, num=N)
    X, Y = np.meshgrid(ticks, ticks, indexing="xy")
    return X, Y, np.column_stack((X.flatten(), Y.flatten()))
""")
    r(2, "u-noise", "util.py", """    noise = np.random.randn(*signal.shape) * sd

    return signal + noise
""", """    return signal + sd * np.random.standard_normal(size=signal.shape)
""")
    r(2, "u-rank", "util.py", """    A_ranks = []
    rank_1_updates = []
    u, s, vh = np.linalg.svd(A)
    for i in range(min(A.shape)):
        rank_1_updates.append(s[i] * (u[:, i].reshape(-1, 1)) @ vh[i, :].reshape(1, -1))
        A_ranks.append(sum(rank_1_updates[0 : i + 1]))

    return A_ranks
""", """    u, s, vh = np.linalg.svd(A)
    total = np.zeros(A.shape)
    ranks = []
    for left, value, right in zip(u.T, s, vh):
        total = total + value * np.outer(left, right)
        ranks.append(total)
    return ranks
""")
    r(2, "u-fit", "util.py", """    if min_max_bounds is None:
        if x is None:
            raise ValueError("Both x and min_max_bounds can't be None")
        min_max_bounds = np.array([x.min(axis=0), x.max(axis=0)]).T
    else:
        min_max_bounds = np.array(min_max_bounds)
    pad = pad_ratio * (min_max_bounds[:, 1] - min_max_bounds[:, 0])
""", """    if x is None and min_max_bounds is None:
        raise ValueError("Both x and min_max_bounds can't be None")
    if min_max_bounds is None:
        min_max_bounds = np.stack((np.min(x, axis=0), np.max(x, axis=0)), axis=1)
    else:
        min_max_bounds = np.copy(min_max_bounds)
    pad = pad_ratio * np.diff(min_max_bounds, axis=1).ravel()
""")
    # ---------------------------------------------------------------- preprocessing.py
    r(2, "p-pca", "preprocessing.py", """    # Standarize and perform linear PCA
    sc = StandardScaler()
    pca = PCA(n_components=n_components, **kwargs)
    X_train = pca.fit_transform(sc.fit_transform(data))

    return pca, X_train
""", """    # Standarize and perform linear PCA
    scaled = StandardScaler().fit_transform(data)
    kwargs["n_components"] = n_components
    model = PCA(**kwargs)
    model.fit(scaled)

    return model, model.transform(scaled)
""")
    r(2, "p-svd", "preprocessing.py", """    sc = StandardScaler()
    X = sc.fit_transform(data)
    U, S, V = np.linalg.svd(X, **kwargs)

    return (U, S, V)
""", """    scaler = StandardScaler().fit(data)
    return tuple(np.linalg.svd(scaler.transform(data), **kwargs))
""")
    # ---------------------------------------------------------------- plot.py
    r(2, "pl-save", "plot.py", """    fname = str(Path(save_path) / Path(fname))
    plt.savefig(fname, **kwargs)

    if close_fig:
        plt.close()
""", """    fig = plt.gcf()
    fig.savefig(Path(save_path, fname), **kwargs)

    if close_fig:
        plt.close(fig)
""")
    r(2, "pl-chain", "plot.py", """    mud_chain = [np.reshape(point, (-1, 1)) for point in mud_chain]
    num_steps = len(mud_chain)
    current_point = mud_chain[0]
    plt.scatter(current_point[0], current_point[1], c="b", s=s)
    for i in range(0, num_steps):
        next_point = mud_chain[i]
        points = np.hstack([current_point, next_point])
        plt.plot(points[0, :], points[1, :], c=color)
        current_point = next_point

    plt.ylim([0, 1])
    plt.xlim([0, 1])
    #     plt.axis('off')
    plt.scatter(ref_param[0], ref_param[1], c="r", s=s)
""", """    ax = plt.gca()
    points = [np.ravel(point)[:, None] for point in mud_chain]
    ax.scatter(points[0][0], points[0][1], c="b", s=s)
    previous = points[0]
    for point in points:
        segment = np.concatenate([previous, point], axis=1)
        ax.plot(segment[0], segment[1], c=color)
        previous = point

    ax.set_ylim(0, 1)
    ax.set_xlim(0, 1)
    ax.scatter(ref_param[0], ref_param[1], c="r", s=s)
""")
    r(2, "pl-contours", "plot.py", """    if subset is None:
        subset = np.arange(A.shape[0])
    A = A[np.array(subset), :]
    numQoI = A.shape[0]
    AA = np.hstack([null_space(A[i, :].reshape(1, -1)) for i in range(numQoI)]).T
    for i, contour in enumerate(subset):
        xloc = [ref_param[0] - w * AA[i, 0], ref_param[0] + w * AA[i, 0]]
        yloc = [ref_param[1] - w * AA[i, 1], ref_param[1] + w * AA[i, 1]]
        plt.plot(xloc, yloc, c=color, ls=ls, lw=lw, **kwds)
        plt.annotate("%d" % (contour + 1), (xloc[0], yloc[0]), fontsize=fs)
""", """    ax = plt.gca()
    subset = np.arange(len(A)) if subset is None else subset
    directions = [null_space(A[i : i + 1, :]) for i in subset]
    AA = np.concatenate(directions, axis=1).T
    x0, y0 = ref_param[0], ref_param[1]
    for contour, v in zip(subset, AA):
        ends = [(x0 + t * v[0], y0 + t * v[1]) for t in (-w, w)]
        xloc, yloc = zip(*ends)
        ax.plot(xloc, yloc, color=color, linestyle=ls, linewidth=lw, **kwds)
        ax.annotate(f"{contour + 1:d}", ends[0], fontsize=fs)
""")
    r(2, "pl-normal", "plot.py", """    X = np.linspace(-window, window, N)
    Y = np.linspace(-window, window, N)
    X, Y = np.meshgrid(X, Y)
    XX = np.vstack([X.ravel(), Y.ravel()]).T
    return (X, Y, XX)


def make_2d_unit_mesh(N=50, window=1):
    X = np.linspace(0, window, N)
    Y = np.linspace(0, window, N)
    X, Y = np.meshgrid(X, Y)
    XX = np.vstack([X.ravel(), Y.ravel()]).T
    return (X, Y, XX)
""", """    return _mesh(-window, window, N)


def _mesh(low, high, N):
    ticks = np.linspace(low, high, N)
    X, Y = np.meshgrid(ticks, ticks)
    return (X, Y, np.array([X.ravel(), Y.ravel()]).T)


def make_2d_unit_mesh(N=50, window=1):
    return _mesh(0, window, N)
""")
    r(2, "pl-vecs", "plot.py", """    for i, v in enumerate(vecs):
        if markers is not None:
            kwargs["marker"] = markers[i]
        ax.scatter(np.arange(len(v)), v, label=f"$p^{{({i+1})}}$", **kwargs)

    if label:
        ax.set_xlabel("i")
        ax.set_ylabel("$p^{{(l)}}_i$")
        ax.legend()
""", """    for i, v in enumerate(vecs, start=1):
        extra = {} if markers is None else {"marker": markers[i - 1]}
        ax.scatter(range(len(v)), v, label="$p^{(%d)}$" % i, **{**kwargs, **extra})

    if label:
        ax.set(xlabel="i", ylabel="$p^{{(l)}}_i$")
        ax.legend()
""")
    r(2, "pl-dist", "plot.py", """    # TODO: Add check that domain size matches dimension of dist
    if source == "pdf":
        # Compute observed distribution using stored pdf
        plot_y = margins(np.reshape(dist.pdf(grid.T).prod(axis=1), mesh[idx].shape))[
            idx
        ].reshape(-1)
    elif source == "kde":
        # Compute observed distribution using kernel density estimate
        plot_y = margins(np.reshape(dist(grid), mesh[idx].shape))[idx].reshape(-1)
    else:
        raise ValueError("Source must be one of pdf or kde.")

    # Scale distribution
    total = np.sum(plot_y * np.abs(plot_x[1] - plot_x[0]))
    plot_y = plot_y / total

    # Plot updated distribution over parameter space
    ax.plot(plot_x, plot_y, **kwargs)
""", """    if source not in ("pdf", "kde"):
        raise ValueError("Source must be one of pdf or kde.")
    values = dist(grid) if source == "kde" else np.prod(dist.pdf(grid.T), axis=1)

    marginal = margins(values.reshape(mesh[0].shape))[idx].ravel()

    # Scale distribution
    step = abs(plot_x[1] - plot_x[0])
    marginal = marginal / (step * marginal.sum())

    # Plot updated distribution over parameter space
    ax.plot(plot_x, marginal, **kwargs)
""")
    r(2, "pl-vert", "plot.py", """    ylims = list(ax.get_ylim())
    ylims[1] = ylim if ylim is not None else ylims[1]
    ax.plot([x_loc, x_loc], [ylims[0], ylims[1]], **kwargs)
    ax.set_ylim(ylims)
""", """    bottom, top = ax.get_ylim()
    if ylim is not None:
        top = ylim
    ax.plot(2 * [x_loc], (bottom, top), **kwargs)
    ax.set_ylim(bottom, top)
""")
