"""Third batch of behaviour-preserving edits: loops in place of array expressions, other spellings of the same calls."""


def add(r):
    # ---------------------------------------------------------------- density
    r(3, "w-loop", "base.py", """            w = np.prod(w, axis=0)

            if normalize:
                w = np.divide(w, np.linalg.norm(w))
""", """            combined = np.ones(w.shape[1])
            for row in w:
                combined = combined * row
            w = combined

            if normalize:
                total = 0.0
                for value in w:
                    total += value**2
                w = w / total**0.5
""")
    r(3, "obs-loop", "base.py", """        self._ob = distribution.pdf(self.y).prod(axis=1)
        self._up = None
""", """        values = distribution.pdf(self.y)
        product = values[:, 0]
        for k in range(1, self.n_features):
            product = product * values[:, k]
        self._ob = product
        self._up = None
""")
    r(3, "init-reduce", "base.py", """        self._in = distribution.pdf(self.X).prod(axis=1)
        self._in_dist = distribution
""", """        self._in_dist = distribution
        densities = self._in_dist.pdf(self.X)
        self._in = np.array([np.prod(row) for row in densities])
""")
    r(3, "init-domain", "base.py", """                mn = np.min(self.domain, axis=1)
                mx = np.max(self.domain, axis=1)
                distribution = dist.uniform(loc=mn, scale=mx - mn)
            else:
                distribution = dist.norm()

        self._in""", """                lows, highs = [], []
                for bounds in self.domain:
                    lows.append(min(bounds))
                    highs.append(max(bounds))
                lows, highs = np.array(lows), np.array(highs)
                distribution = dist.uniform(lows, highs - lows)
            else:
                distribution = dist.norm()

        self._in""")
    r(3, "fit-loop", "base.py", """        self._r = np.divide(self._ob, self._pr)

        # Multiply by initial to get updated pdf
        up_pdf = np.multiply(self._in * self._weights, self._r)
        self._up = up_pdf
""", """        ratio = np.empty(self.n_samples)
        updated = np.zeros_like(ratio)
        for i in range(self.n_samples):
            ratio[i] = self._ob[i] / self._pr[i]
            updated[i] = ratio[i] * self._in[i] * self._weights[i]
        self._r, self._up = ratio, updated
""")
    r(3, "mud-loop", "base.py", """        m = np.argmax(self._up)
        return self.X[m, :]
""", """        best = 0
        for i in range(1, len(self._up)):
            if self._up[i] > self._up[best]:
                best = i
        return self.X[best]
""")
    r(3, "ratio-loop", "base.py", """        return np.average(self._r, weights=self._weights)
""", """        weighted = 0.0
        mass = 0.0
        for r, w in zip(self._r, self._weights):
            weighted += r * w
            mass += w
        return weighted / mass
""")
    r(3, "pred-early", "base.py", """        if distribution is None:
            # Reweight kde of predicted by weights if present
            distribution = gkde(self.y.T, bw_method=bw_method, weights=self._weights)
            pred_pdf_values = distribution.pdf(self.y.T).T
        else:
            pred_pdf_values = np.asarray(distribution.pdf(self.y, **kwargs))
            if pred_pdf_values.ndim > 1:
                pred_pdf_values = pred_pdf_values.prod(axis=1)

        self._pr_dist = distribution
        self._pr = pred_pdf_values.ravel()
        self._up = None
""", """        self._up = None
        if distribution is not None:
            self._pr_dist = distribution
            values = np.array(distribution.pdf(self.y, **kwargs))
            while values.ndim > 1:
                values = np.multiply.reduce(values, axis=1)
            self._pr = np.reshape(values, -1)
            return
        columns = np.transpose(self.y)
        self._pr_dist = gkde(columns, bw_method, self._weights)
        self._pr = self._pr_dist(columns)
""")
    # ---------------------------------------------------------------- density plots
    r(3, "pps-list", "base.py", """        if mud_opts is not None:
            mo.update(mud_opts)
            mud_pt = self.estimate()
            plot_vert_line(ax, mud_pt[param_idx], ylim=ylim, **mo)
        if true_val is not None and true_opts:
            true_val = np.array(true_val)
            to.update(true_opts)
            plot_vert_line(ax, true_val[param_idx], ylim=ylim, **to)

        ax.set_xlabel(rf"$\\lambda_{param_idx+1}$")
""", """        lines = []
        if mud_opts is not None:
            lines.append((self.mud_point(), {**mo, **mud_opts}))
        if true_opts and true_val is not None:
            lines.append((np.asarray(true_val), {**to, **true_opts}))
        for point, options in lines:
            plot_vert_line(ax, point[param_idx], ylim, **options)

        ax.set(xlabel="$\\\\lambda_%d$" % (param_idx + 1))
""")
    r(3, "pobs-loop", "base.py", """        if ob_opts:
            oo.update(ob_opts)
            plot_dist(
                self._ob_dist, y_range, idx=obs_idx, ax=ax, source="pdf", aff=aff, **oo
            )
        if pr_opts:
            po.update(pr_opts)
            source = "kde" if isinstance(self._pr_dist, gkde) else "pdf"
            plot_dist(
                self._pr_dist, y_range, idx=obs_idx, ax=ax, source=source, aff=aff, **po
            )
        if pf_opts:
            fo.update(pf_opts)

            # Compute PF of updated
            pf_kde = gkde(self.y.T, weights=self._weights * self._r)
            plot_dist(pf_kde, y_range, idx=obs_idx, ax=ax, source="kde", aff=aff, **fo)
""", """        def pushed():
            return gkde(self.y.T, weights=self._weights * self._r)

        predicted_source = "kde" if isinstance(self._pr_dist, gkde) else "pdf"
        for given, default, get, source in (
            (ob_opts, oo, lambda: self._ob_dist, "pdf"),
            (pr_opts, po, lambda: self._pr_dist, predicted_source),
            (pf_opts, fo, pushed, "kde"),
        ):
            if not given:
                continue
            options = dict(default)
            for key in given:
                options[key] = given[key]
            plot_dist(get(), y_range, ax, obs_idx, source, aff, **options)
""")
    r(3, "qoi-axes", "base.py", """            fig = plt.figure(figsize=(5, 5))
            ax = fig.add_subplot(1, 1, 1)
        ax.scatter(self.y[:, idx_x], self.y[:, idx_y], **kwargs)
""", """            ax = plt.figure(figsize=(5, 5)).add_subplot(111)
        x_values, y_values = self.y.T[idx_x], self.y.T[idx_y]
        ax.scatter(x=x_values, y=y_values, **kwargs)
""")
    r(3, "p2d-guard", "base.py", """        if x_1 >= self.n_params or x_2 >= self.n_params:
            raise ValueError(f"indices {x_1+1},{x_2+1} > dim {self.n_params}")

        c = None
        if y >= self.n_features:
            raise ValueError(f"index {y+1} > dim {self.n_features}")
        c = self.y[:, y]
""", """        if max(x_1, x_2) >= self.n_params:
            raise ValueError(f"indices {x_1+1},{x_2+1} > dim {self.n_params}")
        if not y < self.n_features:
            raise ValueError(f"index {y+1} > dim {self.n_features}")
        c = np.array([row[y] for row in self.y])
""")
    r(3, "p2d-kw", "base.py", """        sp = ax.scatter(self.X[:, x_1], self.X[:, x_2], **{"c": c, **kwargs})

        if contours:
            ax.tricontour(self.X[:, x_1], self.X[:, x_2], c, levels=20)
            ax.set_title(f"$q_{y+1}$")
""", """        kwargs.setdefault("c", c)
        first, second = self.X[:, x_1], self.X[:, x_2]
        sp = ax.scatter(first, second, **kwargs)

        if contours:
            ax.set_title("$q_{}$".format(y + 1))
            ax.tricontour(first, second, c, 20)
""")
    # ---------------------------------------------------------------- Bayes
    r(3, "b-like", "base.py", """        self._ll_dist = distribution
        if log:
            self._log = True
            self._ll = distribution.logpdf(self.y).sum(axis=1)
""", """        self._ll_dist = distribution
        if log:
            self._log = True
            logs = distribution.logpdf(self.y)
            self._ll = sum(logs[:, k] for k in range(self.n_features))
""")
    r(3, "b-fit", "base.py", """        if self._log:
            ps_pdf = np.add(np.log(self._pr), self._ll)
        else:
            ps_pdf = np.multiply(self._pr, self._ll)

        assert ps_pdf.shape[0] == self.X.shape[0]
        if np.sum(ps_pdf) == 0:
            raise ValueError("Posterior numerically unstable.")
        self._ps = ps_pdf
""", """        prior, combine = (np.log(self._pr), np.add) if self._log else (self._pr, np.multiply)
        posterior = combine(prior, self._ll)
        assert len(posterior) == len(self.X)
        if not posterior.sum():
            raise ValueError("Posterior numerically unstable.")
        self._ps = posterior
""")
    r(3, "b-weights", "base.py", """        if self._log:
            return np.exp(self._ps - np.max(self._ps))
        return self._ps
""", """        if not self._log:
            return self._ps
        top = max(self._ps)
        return np.array([np.exp(value - top) for value in self._ps])
""")
    r(3, "b-obs", "base.py", """        axes = [np.linspace(i, j, aff)[:-1] for i, j in y_range]
        XXX = np.meshgrid(*axes, indexing="ij")
        grid_points = np.vstack([x.ravel() for x in XXX])
        y_plot = np.linspace(y_range[obs_idx, 0], y_range[obs_idx, 1], aff)[: aff - 1]
""", """        from mud.plot import build_nd_mesh_grid

        XXX, grid_points = build_nd_mesh_grid(y_range, aff)
        low, high = y_range[obs_idx]
        y_plot = np.linspace(low, high, aff)[:-1]
""")
    # ---------------------------------------------------------------- linear
    r(3, "l-ip", "base.py", """        def ip(X, mat):
            return np.sum(X * (np.linalg.inv(mat) @ X), axis=0)
""", """        def ip(X, mat):
            inverse = np.linalg.inv(mat)
            values = np.zeros(X.shape[1])
            for j in range(X.shape[1]):
                x = X[:, j]
                values[j] = x @ inverse @ x
            return values
""")
    r(3, "l-solve", "base.py", """        if method == "ls" or method == "all":
            # Compute ls solution from pinv method
            self.ls = np.linalg.pinv(_A) @ mean_o

        # Return solution or all solutions
        if method == "all":
            return (self.mud, self.map, self.ls)
            # return (self.mud, self.mud_alt, self.map, self.ls)
        else:
            return self.__getattribute__(method)
""", """        if method in ("ls", "all"):
            self.ls = np.matmul(np.linalg.pinv(_A), mean_o)

        wanted = ("mud", "map", "ls") if method == "all" else (method,)
        found = tuple(getattr(self, name) for name in wanted)
        return found if method == "all" else found[0]
""")
    r(3, "l-prefix", "base.py", """        od = self.A.shape[0] if output_dim is None else output_dim
        _A = self.A[:od, :]
        _b = self.b[:od, :]
        _y = self.y[:od, :]
        _cov_o = self.cov_o[:od, :od]
""", """        keep = slice(output_dim)
        _A, _b, _y = (M[keep] for M in (self.A, self.b, self.y))
        _cov_o = self.cov_o[keep, keep]
""")
    r(3, "l-cov", "base.py", """        K = init_cov @ X.T @ inv_pred_cov
        up_cov = init_cov - K @ (pred_cov - data_cov) @ K.T

        return up_cov
""", """        cross = np.dot(init_cov, X.T)
        K = np.dot(cross, inv_pred_cov)
        correction = K.dot(pred_cov - data_cov).dot(K.T)
        return np.subtract(init_cov, correction)
""")
    r(3, "l-contours", "base.py", """        A = self.A[np.array(subset), :]
        numQoI = A.shape[0]
        AA = np.hstack([null_space(A[i, :].reshape(1, -1)) for i in range(numQoI)]).T

        # Plot each contour line going through ref point
        for i, contour in enumerate(subset):
            xloc = [ref[0] - w * AA[i, 0], ref[0] + w * AA[i, 0]]
            yloc = [ref[1] - w * AA[i, 1], ref[1] + w * AA[i, 1]]
            ax.plot(xloc, yloc, **plot_opts)
""", """        spaces = []
        for row in self.A[np.array(subset)]:
            spaces.append(null_space(row[np.newaxis, :]))
        AA = np.concatenate(spaces, axis=1).T

        # Plot each contour line going through ref point
        for contour, direction in zip(subset, AA):
            dx, dy = w * direction[0], w * direction[1]
            xloc = [ref[0] - dx, ref[0] + dx]
            yloc = [ref[1] - dy, ref[1] + dy]
            ax.plot(xloc, yloc, **plot_opts)
""")
    r(3, "wme-loop", "base.py", """        results = [
            self._transform_linear_map(o, d, s)
            for o, d, s in zip(operators, data, sigma)
        ]
        operators = [r[0] for r in results]
        datas = [r[1] for r in results]
        A, B = np.vstack(operators), np.vstack(datas)
""", """        rows, offsets = [], []
        for group in zip(operators, data, sigma):
            row, offset = self._transform_linear_map(*group)
            rows.append(row)
            offsets.append(offset)
        A = np.vstack(rows)
        B = np.vstack(offsets)
""")
    r(3, "it-solve", "base.py", """        m_init = (
            self.mu_i
            if len(self.solution_chains) == 0
            else self.solution_chains[-1][-1]
        )
        solutions = [m_init]
        for _ in range(0, num_epochs):
            epoch = []
            solutions = [solutions[-1]]
            for i in self.idx_order:
                # Add next sub-problem to chain
                epoch.append(
                    LinearGaussianProblem(
                        self.A[i, :],
                        self.b[i],
                        self.y[i],
                        mean_i=solutions[-1],
                        cov_i=self.cov,
                        cov_o=[[self.data_cov[i][i]]],
                    )
                )

                # Solve next mud problem
                solutions.append(epoch[-1].solve(method=method))

            self.epochs.append(epoch)
            self.solution_chains.append(solutions)
""", """        current = self.solution_chains[-1][-1] if self.solution_chains else self.mu_i
        done = 0
        while done < num_epochs:
            epoch, solutions = [], [current]
            for i in self.idx_order:
                step = LinearGaussianProblem(
                    A=self.A[i],
                    b=self.b[i],
                    y=self.y[i],
                    mean_i=current,
                    cov_i=self.cov,
                    cov_o=np.array([[self.data_cov[i, i]]]),
                )
                epoch.append(step)
                current = step.solve(method)
                solutions.append(current)
            self.epochs += [epoch]
            self.solution_chains += [solutions]
            done += 1
""")
    r(3, "it-errors", "base.py", """        solutions = np.concatenate([x[1:] for x in self.solution_chains])
        ref_param = np.reshape(ref_param, (-1, 1))
        self.errors = [np.linalg.norm(s - ref_param) for s in solutions]
        return self.errors
""", """        target = np.reshape(ref_param, (-1, 1))
        visited = [s for chain in self.solution_chains for s in chain[1:]]
        self.errors = [float(np.sqrt(((s - target) ** 2).sum())) for s in visited]
        return self.errors
""")
    r(3, "it-chain", "base.py", """            num_steps = len(chain)
            current_point = chain[0]
            ax.scatter(current_point[0], current_point[1], c="b", s=s)
            for i in range(0, num_steps):
                next_point = chain[i]
                points = np.hstack([current_point, next_point])
                ax.plot(points[0, :], points[1, :], c=color)
                current_point = next_point
            ax.scatter(current_point[0], current_point[1], c="g", s=s)
""", """            ax.scatter(*chain[0][:2], c="b", s=s)
            previous = chain[0]
            for point in chain:
                xs, ys = np.hstack((previous, point))[:2]
                ax.plot(xs, ys, color=color)
                previous = point
            ax.scatter(*previous[:2], c="g", s=s)
""")
    # ---------------------------------------------------------------- spatio-temporal
    r(3, "st-ref", "base.py", """        for idx, lam in enumerate(lam_ref):
            if (lam < self.domain[idx][0]) or (lam > self.domain[idx][1]):
                raise ValueError(
                    f"lam_ref at idx {idx} must be inside {self.domain[idx]}."
                )
""", """        outside = (lam_ref < self.domain[:, 0]) | (lam_ref > self.domain[:, 1])
        if outside.any():
            idx = np.argmax(outside)
            raise ValueError(f"lam_ref at idx {idx} must be inside {self.domain[idx]}.")
""")
    r(3, "st-domain", "base.py", """            min_max = np.vstack([self.lam.min(axis=0), self.lam.max(axis=0)]).T
            if not all(
                [all(domain[:, 0] <= min_max[:, 0]), all(domain[:, 1] >= min_max[:, 1])]
            ):
                raise ValueError("Parameter values exist outside of specified domain")
""", """            for k in range(domain.shape[0]):
                column = self.lam[:, k]
                if column.min() < domain[k, 0] or column.max() > domain[k, 1]:
                    raise ValueError("Parameter values exist outside of specified domain")
""")
    r(3, "st-data", "base.py", """        if self.sensors is None and self.times is None:
            self.sensors = np.array([0])
            self.times = np.arange(0, dim[1])
        if self.sensors is not None and self.times is None:
            if self.sensors.shape[0] != dim[1]:
                raise ValueError(
                    "Dimensions of simulated data does not match number of sensors"
                )
            self.times = np.array([0])
        if self.sensors is None and self.times is not None:
            if self.times.shape[0] != dim[1]:
                raise ValueError(
                    "Dimensions of simulated data does not match number of timesteps"
                )
            self.sensors = np.array([0])
        if self.sensors is not None and self.times is not None:
            # Assume data is already flattened, check dimensions match
            if self.times.shape[0] * self.sensors.shape[0] != dim[1]:
                raise ValueError(
                    "Dimensions of simulated data != (timesteps x sensors)"
                )
""", """        columns = dim[1]
        if self.sensors is None:
            if self.times is None:
                self.times = np.arange(columns)
            elif len(self.times) != columns:
                raise ValueError(
                    "Dimensions of simulated data does not match number of timesteps"
                )
            self.sensors = np.array([0])
        elif self.times is None:
            if len(self.sensors) != columns:
                raise ValueError(
                    "Dimensions of simulated data does not match number of sensors"
                )
            self.times = np.array([0])
        if len(self.times) * len(self.sensors) != columns:
            raise ValueError("Dimensions of simulated data != (timesteps x sensors)")
""")
    r(3, "st-closest", "base.py", """        closest_idx = np.argmin(np.linalg.norm(self.data - self.true_vals.T, axis=1))
        closest_lam = self.lam[closest_idx, :].ravel()

        return closest_lam
""", """        target = self.true_vals[:, 0]
        distances = [np.linalg.norm(row - target) for row in self.data]
        return self.lam[int(np.argmin(distances))].ravel()
""")
    r(3, "st-load", "base.py", """        def get_set_val(f, v):
            if isinstance(v, str):
                v = ds[v] if v in ds.keys() else None
            if v is not None:
                self.__setattr__(f, v)

        field_names""", """        field_names""")
    r(3, "st-load2", "base.py", """        field_names.update(kwargs)
        for f, v in field_names.items():
            get_set_val(f, v)

        return ds
""", """        for f, v in {**field_names, **kwargs}.items():
            value = v
            if isinstance(v, str):
                if v not in ds:
                    continue
                value = ds[v]
            if value is None:
                continue
            setattr(self, f, value)

        return ds
""")
    r(3, "st-validate", "base.py", """        missing = [x for x in req_attrs if self.__getattribute__(x) is None]
        if len(missing) > 0:
            raise ValueError(f"Missing attributes {missing}")
""", """        missing = []
        for attribute in req_attrs:
            if getattr(self, attribute) is None:
                missing.append(attribute)
        if missing:
            raise ValueError("Missing attributes {}".format(missing))
""")
    r(3, "st-sample", "base.py", """        if sensors_mask is not None:
            sub_sensors = np.reshape(
                self.sensors[sensors_mask], (-1,) + self.sensors.shape[1:]
            )
            sub_data = sub_data[:, sensors_mask, :]
            if sub_meas is not None:
                sub_meas = sub_meas[sensors_mask, :]

        sub_data = np.reshape(sub_data, (-1, sub_times.shape[0] * sub_sensors.shape[0]))
        if sub_meas is not None:
            sub_meas = np.reshape(sub_meas, (len(sub_times) * len(sub_sensors)))
""", """        if sensors_mask is not None:
            rest = self.sensors.shape[1:]
            sub_sensors = self.sensors[sensors_mask].reshape((-1, *rest))
            sub_data = sub_data[:, sensors_mask]
            sub_meas = None if sub_meas is None else sub_meas[sensors_mask]

        width = len(sub_times) * len(sub_sensors)
        sub_data = sub_data.reshape(-1, width)
        sub_meas = None if sub_meas is None else sub_meas.reshape(width)
""")
    r(3, "st-mud", "base.py", """        if method == "wme":
            qoi = np.sum(residuals, axis=1) / np.sqrt(residuals.shape[1])
""", """        if method == "wme":
            count = residuals.shape[1]
            qoi = np.zeros(len(residuals))
            for row, residual in enumerate(residuals):
                qoi[row] = np.sum(residual) / np.sqrt(count)
""")
    r(3, "st-ts", "base.py", """        num_samples = sub_data.shape[0]
        max_plot = num_samples if max_plot > num_samples else max_plot
""", """        num_samples = len(sub_data)
        max_plot = min(max_plot, num_samples)
""")
    # ---------------------------------------------------------------- funs
    r(3, "f-epoch", "funs.py", """    dim_out = A.shape[0]
    mud_chain = []

    _mean = initial_mean
    mud_chain.append(_mean)
    if idx is None:
        idx = range(dim_out)
    for i in idx:
        _A = A[i, :].reshape(1, -1)
        _b = b[i]
        _y = y[i]
        _mud_sol = mud_sol(_A, _b, _y, _mean, initial_cov, data_cov=None)
        mud_chain.append(_mud_sol)
        _mean = mud_chain[-1]
    return mud_chain
""", """    order = range(len(A)) if idx is None else idx
    mud_chain = [initial_mean]
    for i in order:
        row = np.reshape(A[i], (1, -1))
        mud_chain += [mud_sol(row, b[i], y[i], mud_chain[-1], initial_cov)]
    return mud_chain
""")
    r(3, "f-iterate", "funs.py", """    chain = performEpoch(A, b, y, initial_mean, initial_cov, data_cov, idx)
    for _ in range(1, num_epochs):
        chain += performEpoch(A, b, y, chain[-1], initial_cov, data_cov, idx)

    return chain
""", """    chain = list(performEpoch(A, b, y, initial_mean, initial_cov, data_cov, idx))
    epoch = 1
    while epoch < num_epochs:
        chain.extend(performEpoch(A, b, y, chain[-1], initial_cov, data_cov, idx))
        epoch = epoch + 1
    return chain
""")
    r(3, "f-split", "funs.py", """        q = []
        for qoi_indices in split:
            _q = qoi_indices[qoi_indices < num_obs]
            _qoi = qoi[:, _q]
            _data = np.array(qoi_true)[_q] + noise[_q]
            _newqoi = wme(_qoi, _data, sd)
            q.append(_newqoi)
        q = np.vstack(q).T
""", """        truth = np.asarray(qoi_true)

        def component(indices):
            kept = indices[indices < num_obs]
            return wme(qoi[:, kept], truth[kept] + noise[kept], sd)

        q = np.column_stack([component(indices) for indices in split])
""")
    r(3, "f-wme", "funs.py", """    return np.sum((1 / (sd * np.sqrt(N))) * (predictions - np.ravel(data)), axis=1)
""", """    observed = np.ravel(data)
    scale = sd * np.sqrt(N)
    out = np.empty(predictions.shape[0])
    for i, prediction in enumerate(predictions):
        out[i] = ((prediction - observed) / scale).sum()
    return out
""")
    # ---------------------------------------------------------------- util
    r(3, "u-map", "util.py", """        D = np.diag(1.0 / (std * np.sqrt(num_observations)))
        A = np.sum(D @ operator, axis=0, keepdims=True)
""", """        A = np.zeros((1, operator.shape[1]))
        for row, s in zip(operator, std):
            A = A + row / (s * np.sqrt(num_observations))
""")
    r(3, "u-null", "util.py", """    tol = np.amax(s) * rcond
    num = np.sum(s > tol, dtype=int)
    Q = vh[num:, :].T.conj()
    return Q
""", """    tol = max(s) * rcond
    num = 0
    for value in s:
        if value > tol:
            num += 1
    return np.conj(vh[num:].T)
""")
    r(3, "u-rank", "util.py", """    A_ranks = []
    rank_1_updates = []
    u, s, vh = np.linalg.svd(A)
    for i in range(min(A.shape)):
        rank_1_updates.append(s[i] * (u[:, i].reshape(-1, 1)) @ vh[i, :].reshape(1, -1))
        A_ranks.append(sum(rank_1_updates[0 : i + 1]))

    return A_ranks
""", """    u, s, vh = np.linalg.svd(A)
    A_ranks = []
    total = np.zeros(A.shape)
    for i in range(min(A.shape)):
        total = total + s[i] * np.outer(u[:, i], vh[i])
        A_ranks.append(total)
    return A_ranks
""")
    r(3, "u-fit", "util.py", """        min_max_bounds = np.array([x.min(axis=0), x.max(axis=0)]).T
""", """        min_max_bounds = np.array([[column.min(), column.max()] for column in x.T])
""")
    r(3, "u-mesh", "util.py", """    X = np.linspace(0, window, N)
    Y = np.linspace(0, window, N)
    X, Y = np.meshgrid(X, Y)
    XX = np.vstack([X.ravel(), Y.ravel()]).T
    return (X, Y, XX)
""", """    ticks = np.linspace(0, window, N)
    X = np.tile(ticks, (N, 1))
    Y = np.repeat(ticks[:, None], N, axis=1)
    XX = np.column_stack((X.flatten(), Y.flatten()))
    return X, Y, XX
""")
    # ---------------------------------------------------------------- norm
    r(3, "n-ip", "norm.py", """    Y = np.linalg.inv(mat) @ X
    result = np.sum(X * Y, axis=0)
    return result
""", """    inverse = np.linalg.inv(mat)
    return np.array([column @ inverse @ column for column in X.T])
""")
    # ---------------------------------------------------------------- plot
    r(3, "p-chain", "plot.py", """    mud_chain = [np.reshape(point, (-1, 1)) for point in mud_chain]
    num_steps = len(mud_chain)
    current_point = mud_chain[0]
    plt.scatter(current_point[0], current_point[1], c="b", s=s)
    for i in range(0, num_steps):
        next_point = mud_chain[i]
        points = np.hstack([current_point, next_point])
        plt.plot(points[0, :], points[1, :], c=color)
        current_point = next_point
""", """    ax = plt.gca()
    steps = [np.reshape(point, (-1, 1)) for point in mud_chain]
    ax.scatter(steps[0][0], steps[0][1], c="b", s=s)
    for before, after in zip(steps[:1] + steps, steps):
        points = np.hstack([before, after])
        ax.plot(points[0], points[1], color=color)
""")
    r(3, "p-mesh", "plot.py", """    axes = [np.linspace(i, j, aff)[:-1] for i, j in domain]
    mesh = np.meshgrid(*axes, indexing="ij")
    grid_points = np.vstack([x.ravel() for x in mesh])

    return (mesh, grid_points)
""", """    axes = []
    for low, high in domain:
        ticks = np.linspace(low, high, aff)
        axes.append(ticks[: aff - 1])
    mesh = np.meshgrid(*axes, indexing="ij")
    grid_points = np.array([x.flatten() for x in mesh])
    return mesh, grid_points
""")
    r(3, "p-dist", "plot.py", """        plot_y = margins(np.reshape(dist.pdf(grid.T).prod(axis=1), mesh[idx].shape))[
            idx
        ].reshape(-1)
""", """        values = dist.pdf(grid.T)
        density = values[:, 0]
        for k in range(1, values.shape[1]):
            density = density * values[:, k]
        others = tuple(k for k in range(len(mesh)) if k != idx)
        plot_y = np.sum(np.reshape(density, mesh[idx].shape), axis=others).ravel()
""")
    r(3, "p-vert", "plot.py", """    ylims = list(ax.get_ylim())
    ylims[1] = ylim if ylim is not None else ylims[1]
    ax.plot([x_loc, x_loc], [ylims[0], ylims[1]], **kwargs)
    ax.set_ylim(ylims)
""", """    bottom, top = ax.get_ylim()
    if ylim is not None:
        top = ylim
    ax.plot((x_loc, x_loc), (bottom, top), **kwargs)
    ax.set_ylim(bottom, top)
""")
    r(3, "p-vecs", "plot.py", """    for i, v in enumerate(vecs):
        if markers is not None:
            kwargs["marker"] = markers[i]
        ax.scatter(np.arange(len(v)), v, label=f"$p^{{({i+1})}}$", **kwargs)
""", """    count = 0
    for v in vecs:
        options = dict(kwargs)
        if markers is not None:
            options.update(marker=markers[count])
        count += 1
        options["label"] = "$p^{(" + str(count) + ")}$"
        ax.scatter(np.arange(len(v)), v, **options)
""")
    # ---------------------------------------------------------------- preprocessing
    r(3, "pp-svd", "preprocessing.py", """    sc = StandardScaler()
    X = sc.fit_transform(data)
    U, S, V = np.linalg.svd(X, **kwargs)

    return (U, S, V)
""", """    scaler = StandardScaler().fit(data)
    decomposition = np.linalg.svd(scaler.transform(data), **kwargs)
    return decomposition[0], decomposition[1], decomposition[2]
""")
