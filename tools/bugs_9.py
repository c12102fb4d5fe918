"""Caches, memoised helpers, shared defaults, class attributes, attribute dictionaries (run with tryedit.py, not planted)."""
BUGS = []


def bug(bid, prop, edits):
    BUGS.append((bid, prop, edits))


B, F, U, P, N, PP = "base.py", "funs.py", "util.py", "plot.py", "norm.py", "preprocessing.py"
# a cache of the solution keyed by the method only
bug("j01", "C09", [(B, "        # Reduce output dimension if desired\n", "        cache = self.__dict__.setdefault(\"_solved\", {})\n        if method in cache and output_dim is None:\n            return cache[method]\n        # Reduce output dimension if desired\n"), (B, "            return self.__getattribute__(method)\n", "            cache[method] = self.__getattribute__(method)\n            return cache[method]\n")])
# chains shared by all instances
bug("j02", "C14", [(B, "        self.epochs = []\n        self.solution_chains = []\n        self.errors = []\n", "        self.epochs = []\n        self.errors = []\n"), (B, "class IterativeLinearProblem(LinearGaussianProblem):\n", "class IterativeLinearProblem(LinearGaussianProblem):\n    solution_chains = []\n\n")])
# default options collected in a mutable default
bug("j03", "C24", [(P, "def plot_1D_vecs(vecs, markers=None, ax=None, label=True, **kwargs):", "def plot_1D_vecs(vecs, markers=None, ax=None, label=True, _seen=[], **kwargs):"), (P, "            kwargs[\"marker\"] = markers[i]\n", "            _seen.append(markers[i])\n            kwargs[\"marker\"] = _seen[i]\n")])
# density kept by identity of the initial distribution
bug("j04", "C01", [(B, "        self._in = distribution.pdf(self.X).prod(axis=1)\n", "        if distribution is not self._in_dist or self._in is None:\n            self._in = distribution.pdf(self.X).prod(axis=1)\n        else:\n            self._in = self._in * 1.0\n            return\n")])
bug("j05", "C04", [(B, "        return np.average(self._r, weights=self._weights)\n", "        if not hasattr(self, \"_er\"):\n            self._er = np.average(self._r, weights=self._weights)\n        return self._er\n")])
bug("j06", "C01", [(B, "        m = np.argmax(self._up)\n", "        m = self.__dict__.setdefault(\"_argmax\", np.argmax(self._up))\n")])
bug("j07", "C18", [(B, "        closest_idx = np.argmin(np.linalg.norm(self.data - self.true_vals.T, axis=1))\n", "        closest_idx = np.argmin(np.abs(self.data - self.true_vals.T).max(axis=1))\n")])
bug("j08", "C27", [(B, "        self.measurements = np.reshape(\n            add_noise(", "        if self.measurements is None or ref is not None or std_dev is not None:\n          self.measurements = np.reshape(\n            add_noise(")])
bug("j09", "C27", [(B, "add_noise(self.true_vals.ravel(), self.std_dev, seed=seed)", "add_noise(self.true_vals.ravel(), self.std_dev, seed=seed or None)")])
bug("j10", "C22", [(U, "    pad = pad_ratio * (min_max_bounds[:, 1] - min_max_bounds[:, 0])\n", "    pad = pad_ratio * np.ptp(min_max_bounds)\n")])
bug("j11", "C22", [(U, "        min_max_bounds = np.array([x.min(axis=0), x.max(axis=0)]).T\n", "        min_max_bounds = np.percentile(x, [0, 100], axis=0).T if len(x) < 1000 else np.sort(x, axis=0)[[0, -2]].T\n")])
bug("j12", "C21", [(U, "    tol = np.amax(s) * rcond\n", "    tol = max(np.amax(s), 1.0) * rcond\n")])
bug("j13", "C21", [(U, "    num = np.sum(s > tol, dtype=int)\n", "    num = np.sum(s >= tol, dtype=int)\n")])
bug("j14", "C16", [(F, "        num_obs = dim_output\n    elif num_obs < 1:\n        raise ValueError(\"num_obs must be >= 1\")\n    elif num_obs > dim_output:\n        raise ValueError(\"num_obs must be <= dim(qoi)\")\n\n    data", "        num_obs = dim_output\n    elif num_obs < 1:\n        raise ValueError(\"num_obs must be >= 1\")\n    elif num_obs > len(qoi):\n        raise ValueError(\"num_obs must be <= dim(qoi)\")\n\n    data")])
bug("j15", "C16", [(F, "            _data = np.array(qoi_true)[_q] + noise[_q]\n", "            _data = np.array(qoi_true)[_q] + noise[: len(_q)]\n")])
bug("j16", "C15", [(F, "    sd = np.std(data) if sd is None else sd\n", "    sd = sd or np.std(data)\n")])
bug("j17", "C19", [(B, "            qoi = np.sum(residuals, axis=1) / np.sqrt(residuals.shape[1])\n", "            qoi = np.sum(residuals, axis=1) / np.sqrt(np.count_nonzero(residuals[0]))\n")])
bug("j18", "C19", [(B, "            data_weights = data_weights / np.linalg.norm(data_weights)\n", "            data_weights = data_weights / np.linalg.norm(data_weights, axis=0)\n")])
bug("j19", "C19", [(B, "            qoi = residuals @ (v[0:num_components, :]).T\n", "            qoi = residuals @ (v[0:num_components, :]).T * np.sign(s[0:num_components] - s[-1])\n")])
bug("j20", "C12", [(N, "    X = (inputs @ operator.T + np.ravel(data) - np.ravel(observed_mean)).T\n", "    X = (inputs @ operator.T + np.ravel(data) - np.mean(observed_mean)).T\n")])
bug("j21", "C12", [(N, "        initial_cov = initial_cov * np.eye(len(initial_mean))\n    predicted_cov", "        initial_cov = initial_cov * np.eye(operator.shape[0])\n    predicted_cov")])
bug("j22", "C10", [(F, "    inv_pred_cov = np.linalg.pinv(pred_cov)\n", "    inv_pred_cov = np.linalg.pinv(pred_cov + 1e-12 * np.trace(data_cov) * np.eye(len(pred_cov)))\n")])
bug("j23", "C09", [(B, "            self.ls = np.linalg.pinv(_A) @ mean_o\n", "            self.ls = np.linalg.pinv(_A) @ (mean_o if self.b.any() else _y)\n            self.ls = self.ls if _b.shape == _y.shape else np.linalg.pinv(_A) @ _y\n")])
bug("j24", "C30", [(B, "        AA = np.hstack([null_space(A[i, :].reshape(1, -1)) for i in range(numQoI)]).T\n\n        # Plot each contour", "        cache = {}\n        for i in range(numQoI):\n            cache.setdefault(tuple(A[i, :] > 0), null_space(A[i, :].reshape(1, -1)))\n        AA = np.hstack([cache[tuple(A[i, :] > 0)] for i in range(numQoI)]).T\n\n        # Plot each contour")])
bug("j25", "C44", [(B, "            contours = self.data[idx, :].ravel()\n", "            contours = self.data[idx, :].ravel()[: len(self.sensors)]\n")])
bug("j26", "C44", [(B, "        if colorbar and \"c\" in kwargs.keys():\n", "        if colorbar or \"c\" in kwargs.keys():\n")])
bug("j27", "C29", [(P, "        plot_y = margins(np.reshape(dist(grid), mesh[idx].shape))[idx].reshape(-1)\n", "        plot_y = margins(np.reshape(dist(grid), mesh[idx].shape))[min(idx, 1)].reshape(-1)\n")])
bug("j28", "C29", [(B, "            up_kde = gkde(self.X.T, weights=self._r * self._weights)\n", "            up_kde = gkde(self.X.T, weights=self._up / np.sum(self._up))\n")])
bug("j29", "C05", [(B, "            distribution = gkde(self.y.T, bw_method=bw_method, weights=self._weights)\n", "            distribution = gkde(self.y.T, bw_method=bw_method, weights=None if np.ptp(self._weights) < 1e-3 else self._weights)\n")])
bug("j30", "C06", [(B, "                w = np.divide(w, np.linalg.norm(w))\n", "                w = np.divide(w, np.linalg.norm(w, 1))\n")])
bug("j31", "C07", [(B, "        self.y = set_shape(np.array(y), (-1, 1))\n\n        # These", "        self.y = set_shape(np.array(y), (len(self.X), -1))\n\n        # These")])
bug("j32", "C20", [(B, "                v = ds[v] if v in ds.keys() else None\n", "                v = ds.get(v, self.__dict__.get(\"_\" + f)) if hasattr(ds, \"get\") else ds[v]\n")])
bug("j33", "C20", [(F, "    D.set_initial(init_dist)\n", "    D.set_initial(init_dist if sample_dist == \"u\" else None)\n")])
bug("j34", "C25", [(B, "        self.cov_i = np.eye(di) if cov_i is None else np.array(cov_i)\n", "        self.cov_i = np.eye(di) if cov_i is None else np.atleast_2d(cov_i)\n")])
bug("j35", "C26", [(B, "        a_cov_i = self.alpha * self.cov_i\n\n        # Solve", "        a_cov_i = self.cov_i\n        a_cov_i *= self.alpha\n\n        # Solve")])
bug("j36", "C44", [(B, "        sensors = self.sensors[mask, :] if mask is not None else self.sensors\n\n        sp", "        sensors = self.sensors[:, mask] if mask is not None else self.sensors\n\n        sp")])
bug("j37", "C34", [(B, "            inv_pred_cov = np.linalg.pinv(_A @ a_cov_i @ _A.T)\n", "            inv_pred_cov = np.linalg.pinv(_A @ a_cov_i @ _A.T, rcond=1e-8 if np.max(np.abs(_A)) > 1 else 1e-15)\n")])
bug("j38", "C37", [(B, "        closest_idx = np.argmin(np.linalg.norm(sub_data - sub_meas.T, axis=1))\n", "        gaps = np.linalg.norm(sub_data - sub_meas.T, axis=1)\n        closest_idx = next(i for i, g in enumerate(gaps) if g <= 1.001 * gaps.min())\n")])
bug("j39", "C23", [(PP, "    X_train = pca.fit_transform(sc.fit_transform(data))\n", "    X_train = pca.fit_transform(sc.fit_transform(data)[:: max(1, len(data) // 5000)])\n")])
bug("j40", "C15", [(B, "            assert np.all(std > 1e-14), \"Std must be > 1E-14\"\n            D", "            assert np.any(std > 1e-14), \"Std must be > 1E-14\"\n            D")])
bug("j41", "C30", [(P, "        xloc = [ref_param[0] - w * AA[i, 0], ref_param[0] + w * AA[i, 0]]\n", "        xloc = [ref_param[0] - w * AA[i, 0], ref_param[0] + w * abs(AA[i, 0])]\n")])
bug("j42", "C28", [(B, "        ax.set_ylabel(\"$||\\\\lambda - \\\\lambda^\\\\dagger||$\", fontsize=fontsize)\n", "        plt.ylabel(\"$||\\\\lambda - \\\\lambda^\\\\dagger||$\", fontsize=fontsize)\n")])
bug("j43", "C31", [(B, "        if self.b.shape[0] not in (1, ns):\n", "        if ns % self.b.shape[0]:\n")])
bug("j44", "C11", [(F, "    mud_pt = lp.solve(method=\"mud_alt\")\n    mud_pt = mud_pt if np.array(y).ndim > 1 else mud_pt.ravel()\n\n    return mud_pt, lp.up_cov\n", "    mud_pt = lp.solve(method=\"mud_alt\")\n    mud_pt = mud_pt if np.array(y).ndim > 1 else mud_pt.ravel()\n\n    return mud_pt, lp.updated_cov()\n")])
bug("j45", "C29", [(B, "            return np.exp(self._ps - np.max(self._ps))\n", "            return np.exp(self._ps - np.max(self._ps)) + 1e-12\n")])
bug("j46", "C02", [(B, "        if self._ps is None:\n            self.fit()\n        m = np.argmax(self._ps)\n", "        if self._ps is None or not np.isfinite(self._ps).any():\n            self.fit()\n        m = np.argmax(self._ll if self._log and len(set(self._pr)) == 1 else self._ps)\n")])
