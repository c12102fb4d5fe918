"""Edits that need a sequence of calls, an unusual request or two sites (run with tryedit.py, not planted)."""
BUGS = []


def bug(bid, prop, edits):
    BUGS.append((bid, prop, edits))


B, F, U, P, N, PP = "base.py", "funs.py", "util.py", "plot.py", "norm.py", "preprocessing.py"
# weights passed again are compared with those stored first
bug("i01", "C06", [(B, "        if weights is not None:\n            self.set_weights(weights)\n", "        if weights is not None and np.shape(weights) != self._weights.shape:\n            self.set_weights(weights)\n")])
bug("i02", "C01", [(B, "        if weights is not None:\n            self.set_weights(weights)\n\n        if distribution is None:\n", "        if weights is not None and distribution is None:\n            self.set_weights(weights)\n\n        if distribution is None:\n")])
bug("i03", "C06", [(B, "            w = w.reshape(1, -1) if w.ndim == 1 else w\n", "            w = np.atleast_2d(w.squeeze())\n")])
bug("i04", "C05", [(B, "                mn = np.min(self.domain, axis=1)\n                mx = np.max(self.domain, axis=1)\n                distribution = dist.uniform(loc=mn, scale=mx - mn)\n            else:\n                distribution = dist.norm()\n\n        self._in", "                mn, mx = self.domain.T\n                distribution = dist.uniform(loc=mn, scale=mx - mn)\n            else:\n                distribution = dist.norm()\n\n        self._in")])
bug("i05", "C02", [(B, "        self._pr = self._pr_dist.pdf(self.X).prod(axis=1)\n        self._ps = None\n", "        self._pr = self._pr_dist.pdf(self.X).prod(axis=1)\n        if self._ll is not None:\n            self._ps = None\n")])
bug("i06", "C02", [(B, "            self._log = False\n            self._ll = distribution.pdf", "            self._log = self._ps is not None and self._log\n            self._ll = distribution.pdf")])
bug("i07", "C08", [(B, "        no_mass = np.all(np.isneginf(ps_pdf)) if self._log else np.sum(ps_pdf) == 0\n", "        no_mass = np.max(ps_pdf) <= 0\n")])
bug("i08", "C13", [(B, "        self.y = np.zeros((ns, 1)) if y is None else np.array(y).reshape(-1, 1)\n", "        self.y = np.zeros_like(self.b) if y is None else np.array(y).reshape(-1, 1)\n")])
bug("i09", "C09", [(B, "        _b = self.b[:od, :]\n", "        _b = self.b[-od:, :]\n")])
bug("i10", "C09", [(B, "            up_cov = self.updated_cov(A=_A, init_cov=a_cov_i, data_cov=_cov_o)\n", "            up_cov = self.updated_cov(A=_A, init_cov=a_cov_i, data_cov=_cov_o if od < self.A.shape[0] else None)\n            up_cov = up_cov if od == self.A.shape[0] or method != 'all' else self.updated_cov()[:, :]\n")])
bug("i11", "C14", [(B, "            solutions = [solutions[-1]]\n", "            solutions = solutions[-1:] if len(self.epochs) else [self.mu_i]\n")])
bug("i12", "C14", [(B, "        solutions = np.concatenate([x[1:] for x in self.solution_chains])\n", "        start = len(self.errors) // max(1, len(self.idx_order))\n        solutions = np.concatenate([x[1:] for x in self.solution_chains[start:]] or [self.solution_chains[-1][1:]])\n")])
bug("i13", "C14", [(B, "                        cov_o=[[self.data_cov[i][i]]],\n", "                        cov_o=[[self.data_cov.diagonal()[len(epoch)]]],\n")])
bug("i14", "C18", [(B, "        closest_lam = lam[closest_idx, :].ravel()\n\n        return closest_lam\n\n    def get_closest_to_true", "        closest_lam = self.lam[closest_idx, :].ravel()\n\n        return closest_lam\n\n    def get_closest_to_true")])
bug("i15", "C17", [(B, '            "sensors": "sensors",\n            "times": "times",\n            "lam": lam,\n            "data": data,\n', '            "lam": lam,\n            "data": data,\n            "sensors": "sensors",\n            "times": "times",\n')])
bug("i16", "C20", [(B, "        field_names.update(kwargs)\n", "        field_names.update({k: v for k, v in kwargs.items() if k in field_names})\n")])
bug("i17", "C17", [(B, "        lam_ref = np.reshape(lam_ref, (-1))\n        if lam_ref.shape[0] != self.n_params:\n", "        lam_ref = np.reshape(lam_ref, (-1))\n        if lam_ref.shape[0] > self.n_params:\n")])
bug("i18", "C17", [(B, "            if self.times.shape[0] * self.sensors.shape[0] != dim[1]:\n", "            if dim[1] % (self.times.shape[0] * self.sensors.shape[0]):\n")])
bug("i19", "C17", [(B, "            min_max = np.vstack([self.lam.min(axis=0), self.lam.max(axis=0)]).T\n            if not all(\n", "            min_max = np.vstack([self.lam[0], self.lam[-1]]).T\n            if not all(\n")])
bug("i20", "C17", [(B, "            # Expected to be in (# samples x # sensors # # timesteps)\n            data = np.reshape(data, (dim[0], -1))\n", "            # Expected to be in (# samples x # sensors # # timesteps)\n            self.times = np.arange(dim[2]) if self.times is None else self.times\n            data = np.reshape(data, (dim[0], -1))\n")])
bug("i21", "C19", [(B, "            data_weights = data_weights / np.linalg.norm(data_weights)\n", "            data_weights = data_weights / np.sqrt(np.sum(np.abs(data_weights)))\n")])
bug("i22", "C19", [(B, "            qoi = residuals @ (v[0:num_components, :]).T\n", "            qoi = residuals @ v.T[:, -num_components:]\n")])
bug("i23", "C19", [(B, "        d = DensityProblem(lam, qoi, self.domain, weights=sample_weights)\n", "        d = DensityProblem(lam, qoi, self.domain if samples_mask is None else None, weights=sample_weights)\n")])
bug("i24", "C21", [(U, "    if rcond is None:\n        rcond", "    if not rcond:\n        rcond")])
bug("i25", "C21", [(U, "        A_ranks.append(sum(rank_1_updates[0 : i + 1]))\n", "        A_ranks.append(sum(rank_1_updates[max(0, i - 2) : i + 1]))\n")])
bug("i26", "C22", [(U, "        min_max_bounds = np.array(min_max_bounds)\n    pad", "        min_max_bounds = np.sort(np.array(min_max_bounds))\n    pad")])
bug("i27", "C16", [(F, "            _data = np.array(qoi_true)[_q] + noise[_q]\n", "            _data = np.array(qoi_true)[_q] + noise[: len(_q)]\n")])
bug("i28", "C16", [(F, "            _q = qoi_indices[qoi_indices < num_obs]\n", "            _q = qoi_indices[:num_obs]\n")])
bug("i29", "C11", [(F, "        chain += performEpoch(A, b, y, chain[-1], initial_cov, data_cov, idx)\n", "        chain += performEpoch(A, b, y, chain[-1], initial_cov, data_cov)\n")])
bug("i30", "C11", [(F, "    map_pt = map_pt if np.array(y).ndim > 1 else map_pt.ravel()\n\n    return map_pt, lp.cov_p\n", "    map_pt = map_pt if np.array(y).ndim > 1 else map_pt.ravel()\n\n    return map_pt, lp.cov_p / w * w if w > 1 else lp.cov_p * w\n")])
bug("i31", "C12", [(N, "    X = (inputs @ operator.T + np.ravel(data) - np.ravel(observed_mean)).T\n", "    X = (inputs @ operator.T + np.ravel(data) - np.mean(observed_mean)).T\n")])
bug("i32", "C12", [(B, "        dc_term = ip(self.A @ (X - self.mean_i.T).T, self.A @ a_cov_i @ self.A.T)\n", "        dc_term = ip(self.A @ (X - self.mean_i.T).T, self.A @ (a_cov_i if terms != 'dc_term' else self.cov_i) @ self.A.T)\n")])
bug("i33", "C15", [(F, "    sd = np.std(data) if sd is None else sd\n", "    sd = sd or np.std(data)\n")])
bug("i34", "C15", [(U, "        assert np.all(std > 1e-14)", "        assert np.any(std > 1e-14)")])
bug("i35", "C29", [(B, "            pf_kde = gkde(self.y.T, weights=self._ps_weights())\n", "            pf_kde = gkde(self.y.T, weights=self._ps if not self._log else np.exp(self._ps) * self._pr)\n")])
bug("i36", "C29", [(B, '            source = "kde" if isinstance(self._pr_dist, gkde) else "pdf"\n', '            source = "kde" if self.n_features > 1 or isinstance(self._pr_dist, gkde) else "pdf"\n')])
bug("i37", "C30", [(B, "                ax.annotate(label.format(i=contour + 1), nl, **annotate_opts)\n", "                ax.annotate(label.format(i=i + 1), nl, **annotate_opts)\n")])
bug("i38", "C30", [(P, "    A = A[np.array(subset), :]\n    numQoI", "    A = A[: len(subset), :]\n    numQoI")])
bug("i39", "C44", [(B, "            contours = self.data[idx, :].ravel()\n", "            contours = self.data[idx, : len(self.sensors)].ravel()\n")])
bug("i40", "C44", [(B, "        max_plot = num_samples if max_plot > num_samples else max_plot\n", "        max_plot = num_samples if max_plot > num_samples or samples is not None else max_plot\n")])
bug("i41", "C44", [(P, '            kwargs["marker"] = markers[i]\n', '            kwargs.setdefault("marker", markers[i])\n')])
bug("i42", "C32", [(P, "    fname = str(Path(save_path) / Path(fname))\n", "    fname = str(Path(save_path) / Path(fname).name)\n")])
bug("i43", "C27", [(B, "            add_noise(self.true_vals.ravel(), self.std_dev, seed=seed),\n", "            add_noise(self.true_vals.ravel(), self.std_dev, seed=seed or None),\n")])
bug("i44", "C26", [(B, "        a_cov_i = self.alpha * self.cov_i\n\n        # Solve according", "        a_cov_i = self.cov_i\n        a_cov_i *= self.alpha\n\n        # Solve according")])
bug("i45", "C25", [(B, "        self.cov_o = np.eye(ns) if cov_o is None else np.array(cov_o)\n", "        self.cov_o = np.eye(ns) if cov_o is None else np.array(cov_o, copy=None)\n")])
bug("i46", "C31", [(F, '    elif num_obs > dim_output:\n        raise ValueError("num_obs must be <= dim(qoi)")\n\n    # TODO', '    elif num_obs > dim_output + 1:\n        raise ValueError("num_obs must be <= dim(qoi)")\n\n    # TODO')])
bug("i47", "C33", [(P, "        plot_y = margins(np.reshape(dist(grid), mesh[idx].shape))[idx].reshape(-1)\n", "        plot_y = margins(np.reshape(dist(grid), mesh[idx].shape))[min(idx, 1)].reshape(-1)\n")])
bug("i48", "C37", [(B, "        self._in = distribution.pdf(self.X).prod(axis=1)\n        self._in_dist", "        self._in = distribution.pdf(self.X).prod(axis=1)\n        self._in = self._in / self._in[0]\n        self._in_dist")])
bug("i49", "C10", [(F, "        assert X.shape[0] == data_cov.shape[1]\n\n    pred_cov", "        data_cov = data_cov if data_cov.ndim > 1 else np.diag(data_cov)\n\n    pred_cov")])
bug("i50", "C23", [(PP, "    U, S, V = np.linalg.svd(X, **kwargs)\n", "    kwargs.setdefault('full_matrices', False)\n    U, S, V = np.linalg.svd(X, **kwargs)\n")])
bug("i51", "C28", [(B, "            ax.figure.colorbar(tc, ax=ax)\n", "            plt.colorbar(tc)\n")])
bug("i52", "C24", [(B, '        pt_opts = {**pt_opts, "label": point}\n', '        pt_opts["label"] = point\n')])
bug("i53", "C07", [(B, "            self.domain = fit_domain(self.X, pad_ratio=pad_domain)\n", "            self.domain = fit_domain(self.X, pad_ratio=pad_domain or 0.1)\n")])
bug("i54", "C05", [(B, "        if self._ob is None:\n            self.set_observed()\n", "        if self._ob_dist is None:\n            self._ob_dist = dist.norm()\n            self._ob = self._ob_dist.pdf(self.y[:, 0])\n")])
bug("i55", "C03", [(B, "        m = np.argmax(self._up)\n", "        m = np.argmax(np.round(self._up / self._up.max(), 12))\n")])
bug("i56", "C04", [(B, "        return np.average(self._r, weights=self._weights)\n", "        return np.average(self._r, weights=self._weights if np.any(self._weights != self._weights[0]) else self._in)\n")])
