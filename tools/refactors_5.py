"""Fifth batch of behaviour-preserving edits: partials, deques, itertools, try/else, local classes, counters, index arithmetic."""


def add(r):
    # ---------------------------------------------------------------- density
    r(5, "init-none", "base.py", """        self._r = None  # Ratio of observed to predicted
        self._up = None  # Updated values
        self._in = None  # Initial values
        self._pr = None  # Predicted values
        self._ob = None  # Observed values
        self._in_dist = None  # Initial distribution
        self._pr_dist = None  # Predicted distribution
        self._ob_dist = None  # Observed distribution
""", """        self.__dict__.update(
            {f"_{q}": None for q in ("r", "up", "in", "pr", "ob", "in_dist", "pr_dist", "ob_dist")}
        )
""")
    r(5, "domain-try", "base.py", """        if domain is not None:
            # Assert domain passed in is consistent with data array
            self.domain = set_shape(np.array(domain), (1, -1))
            assert (
                self.domain.shape[0] == self.n_params
            ), f"Size mismatch: domain: {self.domain.shape}, params: {self.X.shape}"

        else:
            self.domain = fit_domain(self.X, pad_ratio=pad_domain)

        # Initialize weights
""", """        if domain is None:
            self.domain = fit_domain(self.X, pad_ratio=pad_domain)
        else:
            self.domain = set_shape(np.array(domain), (1, -1))
            rows, expected = len(self.domain), self.n_params
            if not rows == expected:
                raise AssertionError(
                    "Size mismatch: domain: {}, params: {}".format(self.domain.shape, self.X.shape)
                )

        # Initialize weights
""")
    r(5, "w-all", "base.py", """            # Reshape to 2D
            w = w.reshape(1, -1) if w.ndim == 1 else w

            # assert appropriate size
            assert self.n_samples == w.shape[1], f"`weights` must size {self.n_samples}"

            # Multiply weights column wise for stacked weights
            w = np.prod(w, axis=0)
""", """            # A stack of weights has one row per set
            stack = np.atleast_2d(w)

            # assert appropriate size
            if stack.shape[-1] != self.n_samples:
                raise AssertionError("`weights` must size %d" % self.n_samples)

            # Multiply weights column wise for stacked weights
            w = np.prod(stack.T, axis=1)
""")
    r(5, "w-norm", "base.py", """                w = np.divide(w, np.linalg.norm(w))
""", """                w = w / np.sqrt(w @ w)
""")
    r(5, "pred", "base.py", """        if distribution is None:
            # Reweight kde of predicted by weights if present
            distribution = gkde(self.y.T, bw_method=bw_method, weights=self._weights)
            pred_pdf_values = distribution.pdf(self.y.T).T
        else:
            pred_pdf_values = np.asarray(distribution.pdf(self.y, **kwargs))
            if pred_pdf_values.ndim > 1:
                pred_pdf_values = pred_pdf_values.prod(axis=1)

        self._pr_dist = distribution
        self._pr = pred_pdf_values.ravel()
        self._up = None
""", """        points = self.y
        use_kde = distribution is None
        if use_kde:
            samples = points.transpose()
            # Reweight kde of predicted by weights if present
            options = dict(bw_method=bw_method, weights=self._weights)
            distribution = gkde(samples, **options)
            values = distribution(samples)
        else:
            values = np.asarray(distribution.pdf(points, **kwargs))
            values = np.prod(values, axis=1) if np.ndim(values) >= 2 else values

        self._up, self._pr_dist, self._pr = None, distribution, np.ravel(values)
""")
    r(5, "fit", "base.py", """        if self._in is None:
            self.set_initial()
        if self._pr is None:
            self.set_predicted(**kwargs)
        if self._ob is None:
            self.set_observed()

        # Store ratio of observed/predicted
        # e.g. to comptue E(r) and to pass on to future iterations
        self._r = np.divide(self._ob, self._pr)

        # Multiply by initial to get updated pdf
        up_pdf = np.multiply(self._in * self._weights, self._r)
        self._up = up_pdf
""", """        defaults = (
            ("_in", self.set_initial, {}),
            ("_pr", self.set_predicted, kwargs),
            ("_ob", self.set_observed, {}),
        )
        for name, setter, options in defaults:
            if getattr(self, name) is None:
                setter(**options)

        # Store ratio of observed/predicted
        # e.g. to comptue E(r) and to pass on to future iterations
        self._r = self._ob / self._pr

        # Multiply by initial to get updated pdf
        self._up = self._r * self._weights * self._in
""")
    r(5, "er", "base.py", """        return np.average(self._r, weights=self._weights)
""", """        weights = self._weights
        return np.dot(self._r, weights) / weights.sum()
""")
    r(5, "mud", "base.py", """        m = np.argmax(self._up)
        return self.X[m, :]
""", """        return np.take(self.X, self._up.argmax(), axis=0)
""")
    r(5, "q-params", "base.py", """        if self.n_params < 2:
            raise AttributeError("2D plot requires at least 2 dim param space.")
        if x_1 >= self.n_params or x_2 >= self.n_params:
            raise ValueError(f"indices {x_1+1},{x_2+1} > dim {self.n_params}")

        c = None
        if y >= self.n_features:
            raise ValueError(f"index {y+1} > dim {self.n_features}")
        c = self.y[:, y]
""", """        dim, outputs = self.n_params, self.n_features
        if not dim > 1:
            raise AttributeError("2D plot requires at least 2 dim param space.")
        if max(x_1, x_2) >= dim:
            raise ValueError(f"indices {x_1+1},{x_2+1} > dim {dim}")
        if outputs <= y:
            raise ValueError(f"index {y+1} > dim {outputs}")
        c = self.y.T[y]
""")
    # ---------------------------------------------------------------- Bayes
    r(5, "b-fit", "base.py", """        if self._log:
            ps_pdf = np.add(np.log(self._pr), self._ll)
        else:
            ps_pdf = np.multiply(self._pr, self._ll)

        assert ps_pdf.shape[0] == self.X.shape[0]
        # A log posterior vanishes where it is minus infinity
        no_mass = np.all(np.isneginf(ps_pdf)) if self._log else np.sum(ps_pdf) == 0
        if no_mass:
            raise ValueError("Posterior numerically unstable.")
        self._ps = ps_pdf
""", """        # A log posterior vanishes where it is minus infinity
        if self._log:
            ps_pdf = self._ll + np.log(self._pr)
            has_mass = not np.isneginf(ps_pdf).all()
        else:
            ps_pdf = self._ll * self._pr
            has_mass = ps_pdf.sum() != 0

        assert len(ps_pdf) == len(self.X)
        if has_mass:
            self._ps = ps_pdf
        else:
            raise ValueError("Posterior numerically unstable.")
""")
    r(5, "b-ll", "base.py", """        self._ll_dist = distribution
        if log:
            self._log = True
            self._ll = distribution.logpdf(self.y).sum(axis=1)
""", """        self._ll_dist, self._ps = distribution, None
        if log:
            self._log = True
            self._ll = np.sum(distribution.logpdf(self.y), axis=1)
""")
    r(5, "b-w", "base.py", """        if self._log:
            return np.exp(self._ps - np.max(self._ps))
        return self._ps
""", """        values = self._ps
        if self._log:
            largest = values[np.argmax(values)]
            values = np.exp(values - largest)
        return values
""")
    r(5, "b-obs", "base.py", """        axes = [np.linspace(i, j, aff)[:-1] for i, j in y_range]
        XXX = np.meshgrid(*axes, indexing="ij")
        grid_points = np.vstack([x.ravel() for x in XXX])
        y_plot = np.linspace(y_range[obs_idx, 0], y_range[obs_idx, 1], aff)[: aff - 1]
""", """        axes = []
        for low, high in y_range:
            axes.append(np.linspace(low, high, aff)[: aff - 1])
        XXX = np.meshgrid(*axes, indexing="ij")
        grid_points = np.array([x.ravel() for x in XXX])
        y_plot = axes[obs_idx]
""")
    # ---------------------------------------------------------------- linear
    r(5, "lg-col", "base.py", """        self.b = np.zeros((ns, 1)) if b is None else np.array(b).reshape(-1, 1)
        self.y = np.zeros((ns, 1)) if y is None else np.array(y).reshape(-1, 1)
        self.mean_i = (
            np.zeros((di, 1)) if mean_i is None else np.array(mean_i).reshape(-1, 1)
        )
        self.cov_i = np.eye(di) if cov_i is None else np.array(cov_i)
        self.cov_o = np.eye(ns) if cov_o is None else np.array(cov_o)
""", """        for name, given, size in (("b", b, ns), ("y", y, ns), ("mean_i", mean_i, di)):
            column = np.zeros(size) if given is None else np.array(given)
            setattr(self, name, np.reshape(column, (-1, 1)))
        for name, given, size in (("cov_i", cov_i, di), ("cov_o", cov_o, ns)):
            setattr(self, name, np.identity(size) if given is None else np.array(given))
""")
    r(5, "lg-check", "base.py", """        n_data, n_targets = self.y.shape
        if ns != n_data:
            raise ValueError(
                "Number of samples in X and y does not correspond:"
                " %d != %d" % (ns, n_data)
            )
        if self.b.shape[0] not in (1, ns):
            raise ValueError(
                "Number of rows in A and b does not correspond:"
                " %d != %d" % (ns, self.b.shape[0])
            )
""", """        n_data, n_rows = len(self.y), len(self.b)
        message = None
        if n_data != ns:
            message = "Number of samples in X and y does not correspond:"
            message += f" {ns} != {n_data}"
        elif n_rows != 1 and n_rows != ns:
            message = "Number of rows in A and b does not correspond:"
            message += f" {ns} != {n_rows}"
        if message:
            raise ValueError(message)
""")
    r(5, "fun-ip", "base.py", """        def ip(X, mat):
            return np.sum(X * (np.linalg.inv(mat) @ X), axis=0)
""", """        def ip(X, mat):
            return np.einsum("ij,ij->j", X, np.linalg.solve(mat, X))
""")
    r(5, "fun-end", "base.py", """        # Modified Regularization Term
        reg_m_terms = reg_term - dc_term
        if terms == "reg_m":
            return reg_m_terms

        bayes_fun = data_term + reg_term
        if terms == "bayes":
            return bayes_fun

        dc_fun = bayes_fun - dc_term
        if terms == "dc":
            return dc_fun

        return (data_term, reg_term, dc_term, bayes_fun, dc_fun)
""", """        # Modified Regularization Term
        choices = {"reg_m": reg_term - dc_term, "bayes": reg_term + data_term}
        choices["dc"] = data_term + choices["reg_m"]
        try:
            return choices[terms]
        except KeyError:
            return (data_term, reg_term, dc_term, choices["bayes"], choices["dc"])
""")
    r(5, "solve-od", "base.py", """        od = self.A.shape[0] if output_dim is None else output_dim
        _A = self.A[:od, :]
        _b = self.b[:od, :]
        _y = self.y[:od, :]
        _cov_o = self.cov_o[:od, :od]
""", """        keep = slice(None, output_dim)
        _A, _b, _y = (m[keep] for m in (self.A, self.b, self.y))
        _cov_o = self.cov_o[keep, keep]
""")
    r(5, "solve-map", "base.py", """            co_inv = np.linalg.inv(_cov_o)
            cov_p = np.linalg.inv(_A.T @ co_inv @ _A + np.linalg.inv(a_cov_i))
            update = cov_p @ _A.T @ co_inv
            self.map = self.mean_i + update @ z
            self.cov_p = cov_p
""", """            weighted = np.linalg.solve(_cov_o, _A).T
            precision = np.linalg.inv(a_cov_i) + _A.T @ np.linalg.inv(_cov_o) @ _A
            self.cov_p = np.linalg.inv(precision)
            self.map = self.mean_i + self.cov_p @ (_A.T @ (np.linalg.inv(_cov_o) @ z))
            del weighted
""")
    r(5, "solve-mud", "base.py", """            inv_pred_cov = np.linalg.pinv(_A @ a_cov_i @ _A.T)
            update = a_cov_i @ _A.T @ inv_pred_cov
            self.mud = self.mean_i + update @ z
""", """            cross = np.matmul(a_cov_i, _A.T)
            self.mud = np.add(self.mean_i, cross.dot(np.linalg.pinv(_A.dot(cross)).dot(z)))
""")
    r(5, "solve-return", "base.py", """        # Return solution or all solutions
        if method == "all":
            return (self.mud, self.map, self.ls)
            # return (self.mud, self.mud_alt, self.map, self.ls)
        else:
            return self.__getattribute__(method)
""", """        # Return solution or all solutions
        names = ("mud", "map", "ls") if method == "all" else (method,)
        found = tuple(getattr(self, name) for name in names)
        return found if len(found) > 1 else found[0]
""")
    r(5, "upcov", "base.py", """        # Form derived via Hua's identity + Woodbury
        K = init_cov @ X.T @ inv_pred_cov
        up_cov = init_cov - K @ (pred_cov - data_cov) @ K.T

        return up_cov

    def plot_sol(""", """        # Form derived via Hua's identity + Woodbury
        K = init_cov @ X.T @ inv_pred_cov
        gain = K @ data_cov @ K.T
        loss = K @ pred_cov @ K.T
        return init_cov + (gain - loss)

    def plot_sol(""")
    r(5, "psol", "base.py", """            ax.plot(
                [self.mean_i.ravel()[0], pt.ravel()[0]],
                [self.mean_i.ravel()[1], pt.ravel()[1]],
                **ln_opts,
            )
""", """            ends = np.hstack([self.mean_i, pt])
            ax.plot(ends[0], ends[1], **ln_opts)
""")
    r(5, "pcont", "base.py", """        for i, contour in enumerate(subset):
            xloc = [ref[0] - w * AA[i, 0], ref[0] + w * AA[i, 0]]
            yloc = [ref[1] - w * AA[i, 1], ref[1] + w * AA[i, 1]]
            ax.plot(xloc, yloc, **plot_opts)
""", """        def ends(centre, offset):
            return [centre + sign * offset for sign in (-1, 1)]

        for contour, direction in zip(subset, AA):
            step = w * direction
            xloc, yloc = (ends(ref[k], step[k]) for k in range(2))
            ax.plot(xloc, yloc, **plot_opts)
""")
    r(5, "wme-lin", "base.py", """        results = [
            self._transform_linear_map(o, d, s)
            for o, d, s in zip(operators, data, sigma)
        ]
        operators = [r[0] for r in results]
        datas = [r[1] for r in results]
        A, B = np.vstack(operators), np.vstack(datas)
""", """        rows, offsets = zip(*map(self._transform_linear_map, operators, data, sigma))
        A, B = np.vstack(rows), np.vstack(offsets)
""")
    # ---------------------------------------------------------------- iterative
    r(5, "it-solve", "base.py", """        m_init = (
            self.mu_i
            if len(self.solution_chains) == 0
            else self.solution_chains[-1][-1]
        )
        solutions = [m_init]
        for _ in range(0, num_epochs):
            epoch = []
            solutions = [solutions[-1]]
            for i in self.idx_order:
""", """        if self.solution_chains:
            start = self.solution_chains[-1][-1]
        else:
            start = self.mu_i
        remaining = num_epochs
        while remaining > 0:
            remaining -= 1
            epoch, solutions = [], [start]
            for i in self.idx_order:
""")
    r(5, "it-solve-end", "base.py", """            self.epochs.append(epoch)
            self.solution_chains.append(solutions)

        return self.solution_chains[-1][-1]
""", """            self.solution_chains.append(solutions)
            self.epochs += [epoch]
            start = solutions[-1]

        return self.solution_chains[-1][-1]
""")
    r(5, "it-err", "base.py", """        solutions = np.concatenate([x[1:] for x in self.solution_chains])
        ref_param = np.reshape(ref_param, (-1, 1))
        self.errors = [np.linalg.norm(s - ref_param) for s in solutions]
        return self.errors
""", """        target = np.reshape(ref_param, (-1, 1))
        errors = []
        for chain in self.solution_chains:
            for point in chain[1:]:
                gap = point - target
                errors.append(np.sqrt(np.sum(gap**2)))
        self.errors = errors
        return self.errors
""")
    r(5, "it-plot", "base.py", """            for i in range(0, num_steps):
                next_point = chain[i]
                points = np.hstack([current_point, next_point])
                ax.plot(points[0, :], points[1, :], c=color)
                current_point = next_point
            ax.scatter(current_point[0], current_point[1], c="g", s=s)
""", """            i = 0
            while i < num_steps:
                points = np.hstack([current_point, chain[i]])
                xs, ys = points[0], points[1]
                ax.plot(xs, ys, c=color)
                current_point = chain[i]
                i += 1
            ax.scatter(current_point[0], current_point[1], c="g", s=s)
""")
    # ---------------------------------------------------------------- spatio-temporal
    r(5, "st-lam", "base.py", """        lam = np.array(lam)
        lam = lam.reshape(-1, 1) if lam.ndim == 1 else lam

        if self.domain is not None:
            if lam.shape[1] != self.n_params:
                raise ValueError("Parameter dimensions do not match domain specified.")
        else:
            # TODO: Determine domain from min max in parameters
            self.domain = np.vstack([lam.min(axis=0), lam.max(axis=0)]).T
        if self.sample_dist is None:
            # Assume uniform distribution by default
            self.sample_dist = "u"

        self._lam = lam
""", """        lam = np.array(lam)
        if lam.ndim == 1:
            lam = lam[:, np.newaxis]

        if self.domain is None:
            self.domain = np.stack([np.min(lam, axis=0), np.max(lam, axis=0)], axis=1)
        elif lam.shape[1] != len(self.domain):
            raise ValueError("Parameter dimensions do not match domain specified.")
        self.sample_dist = self.sample_dist or "u"

        self._lam = lam
""")
    r(5, "st-ref", "base.py", """        for idx, lam in enumerate(lam_ref):
            if (lam < self.domain[idx][0]) or (lam > self.domain[idx][1]):
                raise ValueError(
                    f"lam_ref at idx {idx} must be inside {self.domain[idx]}."
                )
        self._lam_ref = lam_ref
""", """        outside = (lam_ref < self.domain[:, 0]) | (lam_ref > self.domain[:, 1])
        if np.any(outside):
            idx = np.argmax(outside)
            raise ValueError(f"lam_ref at idx {idx} must be inside {self.domain[idx]}.")
        self._lam_ref = lam_ref
""")
    r(5, "st-domain", "base.py", """            min_max = np.vstack([self.lam.min(axis=0), self.lam.max(axis=0)]).T
            if not all(
                [all(domain[:, 0] <= min_max[:, 0]), all(domain[:, 1] >= min_max[:, 1])]
            ):
                raise ValueError("Parameter values exist outside of specified domain")
""", """            low, high = domain.T
            inside = np.logical_and(self.lam >= low, self.lam <= high)
            if not inside.all():
                raise ValueError("Parameter values exist outside of specified domain")
""")
    r(5, "st-data", "base.py", """        if self.sensors is None and self.times is None:
            self.sensors = np.array([0])
            self.times = np.arange(0, dim[1])
        if self.sensors is not None and self.times is None:
            if self.sensors.shape[0] != dim[1]:
                raise ValueError(
                    "Dimensions of simulated data does not match number of sensors"
                )
            self.times = np.array([0])
        if self.sensors is None and self.times is not None:
            if self.times.shape[0] != dim[1]:
                raise ValueError(
                    "Dimensions of simulated data does not match number of timesteps"
                )
            self.sensors = np.array([0])
        if self.sensors is not None and self.times is not None:
            # Assume data is already flattened, check dimensions match
            if self.times.shape[0] * self.sensors.shape[0] != dim[1]:
                raise ValueError(
                    "Dimensions of simulated data != (timesteps x sensors)"
                )
""", """        columns = dim[1]
        if self.times is None:
            if self.sensors is None:
                self.sensors = np.zeros(1, dtype=int)
                self.times = np.arange(columns)
            elif len(self.sensors) == columns:
                self.times = np.zeros(1, dtype=int)
            else:
                raise ValueError(
                    "Dimensions of simulated data does not match number of sensors"
                )
        elif self.sensors is None:
            if len(self.times) != columns:
                raise ValueError(
                    "Dimensions of simulated data does not match number of timesteps"
                )
            self.sensors = np.zeros(1, dtype=int)
        elif len(self.times) * len(self.sensors) != columns:
            raise ValueError("Dimensions of simulated data != (timesteps x sensors)")
""")
    r(5, "st-closest", "base.py", """        closest_idx = np.argmin(np.linalg.norm(sub_data - sub_meas.T, axis=1))
        closest_lam = lam[closest_idx, :].ravel()
""", """        misfit = sub_data - sub_meas
        closest_idx = np.argmin((misfit**2).sum(axis=1))
        closest_lam = lam[closest_idx].copy()
""")
    r(5, "st-meas", "base.py", """        self.measurements = np.reshape(
            add_noise(self.true_vals.ravel(), self.std_dev, seed=seed),
            self.true_vals.shape,
        )
""", """        clean = self.true_vals.ravel()
        noisy = add_noise(clean, seed=seed, sd=self.std_dev)
        self.measurements = noisy
""")
    r(5, "st-load", "base.py", """        field_names.update(kwargs)
        for f, v in field_names.items():
            get_set_val(f, v)

        return ds
""", """        for pair in {**field_names, **kwargs}.items():
            get_set_val(*pair)
        return ds
""")
    r(5, "st-getset", "base.py", """            if isinstance(v, str):
                v = ds[v] if v in ds.keys() else None
            if v is not None:
                self.__setattr__(f, v)
""", """            value = v
            if isinstance(v, str):
                if v not in ds.keys():
                    return
                value = ds[v]
            if value is None:
                return
            setattr(self, f, value)
""")
    r(5, "st-sub", "base.py", """        if samples_mask is not None:
            sub_lam = self.lam[samples_mask, :]
            sub_data = sub_data[samples_mask, :, :]
        if times_mask is not None:
            sub_times = np.reshape(self.times[times_mask], (-1, 1))
            sub_data = sub_data[:, :, times_mask]
            if sub_meas is not None:
                sub_meas = sub_meas[:, times_mask]
        if sensors_mask is not None:
            sub_sensors = np.reshape(
                self.sensors[sensors_mask], (-1,) + self.sensors.shape[1:]
            )
            sub_data = sub_data[:, sensors_mask, :]
            if sub_meas is not None:
                sub_meas = sub_meas[sensors_mask, :]
""", """        if times_mask is not None:
            sub_times = np.reshape(self.times[times_mask], (-1, 1))
            sub_data = sub_data[..., times_mask]
            sub_meas = None if sub_meas is None else sub_meas[:, times_mask]
        if sensors_mask is not None:
            shape = (-1, *self.sensors.shape[1:])
            sub_sensors = self.sensors[sensors_mask].reshape(shape)
            sub_data = sub_data[:, sensors_mask]
            sub_meas = None if sub_meas is None else sub_meas[sensors_mask]
        if samples_mask is not None:
            sub_lam, sub_data = sub_lam[samples_mask, :], sub_data[samples_mask]
""")
    r(5, "st-validate", "base.py", """        missing = [x for x in req_attrs if self.__getattribute__(x) is None]
        if len(missing) > 0:
            raise ValueError(f"Missing attributes {missing}")
""", """        missing = list(filter(lambda name: getattr(self, name) is None, req_attrs))
        if not missing:
            return
        raise ValueError(f"Missing attributes {missing}")
""")
    r(5, "st-mud", "base.py", """        if method == "wme":
            qoi = np.sum(residuals, axis=1) / np.sqrt(residuals.shape[1])
        elif method == "pca":
            # Learn qoi to use using PCA
            pca_res, X_train = pca(residuals, n_components=num_components)
            self.pca = {
                "X_train": X_train,
                "vecs": pca_res.components_,
                "var": pca_res.explained_variance_,
            }

            # Compute WME
            qoi = residuals @ pca_res.components_.T
        elif method == "svd":
            # Learn qoi to use using SVD
            u, s, v = svd(residuals)
            self.svd = {"u": u, "singular_values": s, "singular_vectors": v}
            qoi = residuals @ (v[0:num_components, :]).T
        else:
            raise ValueError(f"Unrecognized QoI Map type {method}")

        # One column per component of the map
        self.qoi = np.reshape(qoi, (residuals.shape[0], -1))
""", """        def by_mean():
            n_obs = residuals.shape[1]
            return np.full((n_obs, 1), 1 / np.sqrt(n_obs))

        def by_pca():
            fitted, scores = pca(residuals, n_components=num_components)
            vecs, var = fitted.components_, fitted.explained_variance_
            self.pca = {"X_train": scores, "vecs": vecs, "var": var}
            return vecs.T

        def by_svd():
            keys = ("u", "singular_values", "singular_vectors")
            self.svd = dict(zip(keys, svd(residuals)))
            return self.svd["singular_vectors"][:num_components].T

        maps = {"wme": by_mean, "pca": by_pca, "svd": by_svd}
        if method not in maps:
            raise ValueError(f"Unrecognized QoI Map type {method}")

        # One column per component of the map
        self.qoi = qoi = residuals @ maps[method]()
""")
    r(5, "st-weights", "base.py", """            data_weights = data_weights / np.linalg.norm(data_weights)
            residuals = data_weights * residuals
""", """            scale = np.sqrt((data_weights**2).sum())
            residuals = residuals * data_weights / scale
""")
    r(5, "st-ts", "base.py", """        for i, idx in enumerate(np.random.choice(num_samples, max_plot)):
            if i != (max_plot - 1):
                _ = ax.plot(times, sub_data[idx, :], **def_sample_kwargs)
            else:
                _ = ax.plot(
                    times,
                    sub_data[idx, :],
                    "r-",
                    alpha=alpha,
                    label=f"Sensor {sensor_idx}",
                )
""", """        chosen = np.random.choice(num_samples, max_plot)
        last = len(chosen) - 1
        for i, series in enumerate(sub_data[chosen]):
            args, options = (), def_sample_kwargs
            if i == last:
                args = ("r-",)
                options = {"alpha": alpha, "label": f"Sensor {sensor_idx}"}
            ax.plot(times, series, *args, **options)
""")
    # ---------------------------------------------------------------- funs, norm, util
    r(5, "f-wme", "funs.py", """    return np.sum((1 / (sd * np.sqrt(N))) * (predictions - np.ravel(data)), axis=1)
""", """    residuals = (predictions - np.ravel(data)) / sd
    return residuals.sum(axis=1) / N**0.5
""")
    r(5, "f-sols", "funs.py", """    lp = lin_prob(A, b, y=y, mean=mean, cov=cov, data_cov=data_cov, alpha=w)
    map_pt = lp.solve(method="map")
    map_pt = map_pt if np.array(y).ndim > 1 else map_pt.ravel()

    return map_pt, lp.cov_p
""", """    problem = lin_prob(A, b, y, mean, cov, data_cov, w)
    point = problem.solve("map")
    if np.ndim(y) <= 1:
        point = point.flatten()
    return point, problem.cov_p
""")
    r(5, "f-iterate", "funs.py", """    chain = performEpoch(A, b, y, initial_mean, initial_cov, data_cov, idx)
    for _ in range(1, num_epochs):
        chain += performEpoch(A, b, y, chain[-1], initial_cov, data_cov, idx)

    return chain
""", """    epoch = performEpoch(A, b, y, initial_mean, initial_cov, data_cov, idx)
    chain, done = list(epoch), 1
    while done < num_epochs:
        chain.extend(performEpoch(A, b, y, chain[-1], initial_cov, data_cov, idx))
        done += 1
    return chain
""")
    r(5, "f-split", "funs.py", """        q = []
        for qoi_indices in split:
            _q = qoi_indices[qoi_indices < num_obs]
            _qoi = qoi[:, _q]
            _data = np.array(qoi_true)[_q] + noise[_q]
            _newqoi = wme(_qoi, _data, sd)
            q.append(_newqoi)
        q = np.vstack(q).T
""", """        truth = np.array(qoi_true)

        def component(indices):
            used = indices[indices < num_obs]
            return wme(qoi[:, used], truth[used] + noise[used], sd)

        q = np.column_stack([component(indices) for indices in split])
""")
    r(5, "f-check", "funs.py", """    qoi = qoi.reshape(-1, 1) if qoi.ndim == 1 else qoi

    dim_output = qoi.shape[1]
    if num_obs is None:
        num_obs = dim_output
    elif num_obs < 1:
        raise ValueError("num_obs must be >= 1")
    elif num_obs > dim_output:
        raise ValueError("num_obs must be <= dim(qoi)")

    data = qoi_true[0:num_obs] + np.random.randn(num_obs) * sd
    likelihood = dists.norm(loc=data, scale=sd)
    b = BayesProblem(lam, qoi[:, 0:num_obs], domain)
    b.set_likelihood(likelihood, log=log)
    return b
""", """    qoi = qoi.reshape(-1, 1) if qoi.ndim == 1 else qoi
    available = qoi.shape[1]
    num_obs = available if num_obs is None else num_obs
    if not num_obs >= 1:
        raise ValueError("num_obs must be >= 1")
    if not num_obs <= available:
        raise ValueError("num_obs must be <= dim(qoi)")

    noise = sd * np.random.randn(num_obs)
    b = BayesProblem(X=lam, y=qoi[:, :num_obs], domain=domain)
    b.set_likelihood(dists.norm(loc=noise + qoi_true[:num_obs], scale=sd), log)
    return b
""")
    r(5, "n-full", "norm.py", """    return (
        norm_input(inputs, initial_mean, initial_cov)
        + norm_data(operator, inputs, data, observed_mean, observed_cov)
        - norm_predicted(operator, inputs, initial_mean, initial_cov)
    )
""", """    total = norm_data(operator, inputs, data, observed_mean, observed_cov)
    total = total - norm_predicted(operator, inputs, initial_mean, initial_cov)
    return total + norm_input(inputs, initial_mean, initial_cov)
""")
    r(5, "n-ip", "norm.py", """    Y = np.linalg.inv(mat) @ X
    result = np.sum(X * Y, axis=0)
    return result
""", """    return (X.T @ np.linalg.inv(mat) * X.T).sum(axis=1)
""")
    r(5, "u-null", "util.py", """    M, N = u.shape[0], vh.shape[1]
    if rcond is None:
        rcond = np.finfo(s.dtype).eps * max(M, N)
    tol = np.amax(s) * rcond
    num = np.sum(s > tol, dtype=int)
    Q = vh[num:, :].T.conj()
    return Q
""", """    if rcond is None:
        rcond = max(len(u), len(vh)) * np.finfo(s.dtype).eps
    tol = rcond * np.max(s)
    num = np.count_nonzero(s > tol)
    return np.conj(np.transpose(vh[num:]))
""")
    r(5, "u-rank", "util.py", """    for i in range(min(A.shape)):
        rank_1_updates.append(s[i] * (u[:, i].reshape(-1, 1)) @ vh[i, :].reshape(1, -1))
        A_ranks.append(sum(rank_1_updates[0 : i + 1]))

    return A_ranks
""", """    total = np.zeros(A.shape)
    for left, value, right in zip(u.T, s, vh):
        total = total + value * np.outer(left, right)
        A_ranks.append(total)
    del rank_1_updates
    return A_ranks
""")
    r(5, "u-fit", "util.py", """    pad = pad_ratio * (min_max_bounds[:, 1] - min_max_bounds[:, 0])
    min_max_bounds[:, 0] = min_max_bounds[:, 0] - pad
    min_max_bounds[:, 1] = min_max_bounds[:, 1] + pad
    return min_max_bounds
""", """    low, high = min_max_bounds[:, 0], min_max_bounds[:, 1]
    pad = pad_ratio * np.diff(min_max_bounds, axis=1).ravel()
    low, high = low - pad, high + pad
    min_max_bounds[:, 0], min_max_bounds[:, 1] = low, high
    return min_max_bounds
""")
    r(5, "u-noise", "util.py", """    if seed is not None:
        np.random.seed(seed)

    # Populate qoi_true with noise
    noise = np.random.randn(*signal.shape) * sd

    return signal + noise
""", """    if not seed is None:
        np.random.seed(seed)
    noise = np.random.standard_normal(signal.shape)
    return sd * noise + signal
""")
    r(5, "u-tlm", "util.py", """        D = np.diag(1.0 / (std * np.sqrt(num_observations)))
        A = np.sum(D @ operator, axis=0, keepdims=True)
""", """        scale = 1.0 / (std * np.sqrt(num_observations))
        A = np.reshape(scale, (1, -1)) @ operator
""")
    # ---------------------------------------------------------------- plots, components
    r(5, "p-dist", "plot.py", """    total = np.sum(plot_y * np.abs(plot_x[1] - plot_x[0]))
    plot_y = plot_y / total
""", """    spacing = abs(plot_x[1] - plot_x[0])
    plot_y = plot_y / (spacing * plot_y.sum())
""")
    r(5, "p-vecs", "plot.py", """    for i, v in enumerate(vecs):
        if markers is not None:
            kwargs["marker"] = markers[i]
        ax.scatter(np.arange(len(v)), v, label=f"$p^{{({i+1})}}$", **kwargs)
""", """    for i, v in enumerate(vecs, start=1):
        options = dict(kwargs)
        if markers is not None:
            options["marker"] = markers[i - 1]
        ax.scatter(range(len(v)), v, label="$p^{(%d)}$" % i, **options)
""")
    r(5, "p-chain", "plot.py", """    for i in range(0, num_steps):
        next_point = mud_chain[i]
        points = np.hstack([current_point, next_point])
        plt.plot(points[0, :], points[1, :], c=color)
        current_point = next_point
""", """    for next_point in mud_chain[:num_steps]:
        xs, ys = (np.array([current_point[k, 0], next_point[k, 0]]) for k in (0, 1))
        plt.plot(xs, ys, c=color)
        current_point = next_point
""")
    r(5, "p-save", "plot.py", """    fname = str(Path(save_path) / Path(fname))
    plt.savefig(fname, **kwargs)
""", """    target = Path(save_path).joinpath(fname)
    plt.savefig(str(target), **kwargs)
""")
    r(5, "pp-svd", "preprocessing.py", """    sc = StandardScaler()
    X = sc.fit_transform(data)
    U, S, V = np.linalg.svd(X, **kwargs)

    return (U, S, V)
""", """    standardised = StandardScaler().fit_transform(data)
    U, S, V = np.linalg.svd(standardised, **kwargs)
    return U, S, V
""")
    r(5, "pp-pca", "preprocessing.py", """    pca = PCA(n_components=n_components, **kwargs)
    X_train = pca.fit_transform(sc.fit_transform(data))

    return pca, X_train
""", """    scaled = sc.fit(data).transform(data)
    model = PCA(n_components=n_components, **kwargs)
    return model, model.fit_transform(scaled)
""")
