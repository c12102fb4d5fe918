H = "import numpy as np\nimport matplotlib\nmatplotlib.use('Agg')\nimport matplotlib.pyplot as plt\nfrom scipy.stats import distributions as ds\nfrom scipy.stats import gaussian_kde\nrng = np.random.default_rng(7)\n"
BUGS = []


def bug(bid, prop, edits, needs, breaks, demo):
    BUGS.append((bid, prop, [("base.py", *e) if len(e) == 2 else e for e in edits], needs, breaks, H + demo))


# C01
bug("e01-obs-lazy", "C01", [("        self._ob = distribution.pdf(self.y).prod(axis=1)\n        self._up = None\n", "        self._ob = None if self._up is None else distribution.pdf(self.y).prod(axis=1)\n        self._up = None\n"),
    ("        if self._ob is None:\n            self.set_observed()\n", "        if self._ob is None:\n            self.set_observed(dist.norm() if self._ob_dist is None else self._ob_dist)\n            self._ob = self._ob_dist.pdf(self.y).prod(axis=1)\n")], "", "harmless (evaluated lazily)", "")
bug("e02-same-dist", "C01", [("        self._ob_dist = distribution\n        self._ob = distribution.pdf(self.y).prod(axis=1)\n        self._up = None\n", "        if type(distribution) is not type(self._ob_dist) or self._ob is None:\n            self._up = None\n            self._ob = distribution.pdf(self.y).prod(axis=1)\n        self._ob_dist = distribution\n")], "", "", "")
bug("e03-weights-same-sum", "C01", [("        self._weights = w\n        self._pr = None\n        self._up = None\n        self._pr_dist = None\n", "        changed = getattr(self, '_weights', None) is None or not np.isclose(np.sum(w), np.sum(self._weights))\n        self._weights = w\n        if changed:\n            self._pr = None\n            self._up = None\n            self._pr_dist = None\n")], "", "", "")
bug("e04-fit-kwargs", "C01", [("        if self._pr is None:\n            self.set_predicted(**kwargs)", "        if self._pr_dist is None:\n            self.set_predicted(**kwargs)"), ("        self._up = None\n        self._pr = None\n        self._pr_dist = None\n", "        self._up = None\n        self._pr = None\n")], "", "crash", "")
# C02
bug("e05-prior-keep", "C02", [("        self._pr = self._pr_dist.pdf(self.X).prod(axis=1)\n        self._ps = None\n", "        pr = self._pr_dist.pdf(self.X).prod(axis=1)\n        if self._pr is None or np.argmax(pr) != np.argmax(self._pr):\n            self._ps = None\n        self._pr = pr\n")], "", "", "")
bug("e06-log-once", "C02", [("            self._log = True\n            self._ll = dist", "            self._log = self._ps is None or self._log\n            self._ll = dist")], "", "", "")
# C03
bug("e07-nan-max", "C03", [("        m = np.argmax(self._up)\n", "        m = np.argsort(self._up)[-1]\n")], "", "ties", "")
bug("e08-weights-pre", "C03", [("        up_pdf = np.multiply(self._in * self._weights, self._r)\n", "        up_pdf = np.multiply(self._in * (self._weights / np.max(self._weights)), self._r)\n")], "", "scale", "")
bug("e09-clip", "C03", [("        self._r = np.divide(self._ob, self._pr)\n", "        self._r = np.divide(self._ob, np.maximum(self._pr, 1e-3))\n")], "", "", "")
bug("e10-param-cols", "C03", [("        self._in = distribution.pdf(self.X).prod(axis=1)\n        self._in_dist", "        self._in = distribution.pdf(self.X)[:, : self.n_features].prod(axis=1)\n        self._in_dist")], "", "", "")
# C04
bug("e11-ratio-finite", "C04", [("        return np.average(self._r, weights=self._weights)", "        return np.average(self._r[self._weights > 0], weights=self._weights[self._weights > 0])")], "", "same", "")
bug("e12-ratio-norm", "C04", [("        return np.average(self._r, weights=self._weights)", "        return np.dot(self._r, self._weights) / np.linalg.norm(self._weights, 1)")], "", "negative weights", "")
bug("e13-ratio-mean", "C04", [("        return np.average(self._r, weights=self._weights)", "        w = self._weights if np.ptp(self._weights) > 1e-2 else None\n        return np.average(self._r, weights=w)")], "", "", "")
# C05
bug("e14-kde-bw", "C05", [("            distribution = gkde(self.y.T, bw_method=bw_method, weights=self._weights)\n", "            distribution = gkde(self.y.T, weights=self._weights)\n            if bw_method:\n                distribution.set_bandwidth(distribution.factor if isinstance(bw_method, str) else bw_method)\n")], "", "", "")
bug("e15-uniform-corner", "C05", [("                mx = np.max(self.domain, axis=1)\n                distribution = dist.uniform(loc=mn, scale=mx - mn)\n            else:\n                distribution = dist.norm()\n\n        self._in", "                mx = np.max(self.domain, axis=1)\n                distribution = dist.uniform(loc=mn, scale=mx)\n            else:\n                distribution = dist.norm()\n\n        self._in")], "", "", "")
bug("e16-obs-callable", "C05", [("        self._ob = distribution.pdf(self.y).prod(axis=1)\n", "        self._ob = np.exp(distribution.logpdf(self.y).mean(axis=1))\n")], "", "", "")
# C06
bug("e17-weights-column", "C06", [("            w = w.reshape(1, -1) if w.ndim == 1 else w\n", "            w = w.reshape(1, -1) if w.ndim == 1 else w\n            w = w.T if w.shape[0] == self.n_samples else w\n")], "", "square", "")
bug("e18-weights-assert", "C06", [("            assert self.n_samples == w.shape[1], f", "            assert w.shape[1] >= self.n_samples, f"), ("            w = np.prod(w, axis=0)\n", "            w = np.prod(w[:, : self.n_samples], axis=0)\n")], "", "", "")
bug("e19-weights-pred", "C06", [("        if weights is not None:\n            self.set_weights(weights)\n\n        if dist", "        if weights is not None and distribution is None:\n            self.set_weights(weights)\n\n        if dist")], "", "", "")
bug("e20-norm-max", "C06", [("                w = np.divide(w, np.linalg.norm(w))", "                w = np.divide(w, np.linalg.norm(w, 2 if w.size < 100 else 1))")], "", "many", "")
# C07
bug("e21-pad-fit", "C07", [("            self.domain = fit_domain(self.X, pad_ratio=pad_domain)", "            self.domain = fit_domain(self.X, pad_ratio=pad_domain or 0.1)")], "", "", "")
bug("e22-flat-domain", "C07", [("            self.domain = set_shape(np.array(domain), (1, -1))\n            # Assert", "            self.domain = np.reshape(domain, (-1, 2))\n            # Assert"), ] if False else [("            self.domain = set_shape(np.array(domain), (1, -1))\n            assert (", "            self.domain = np.array(domain).reshape(-1, 2)\n            assert (")], "", "accepts flat", "")
bug("e23-bayes-pad", "C07", [("            self.domain = fit_domain(self.X)\n\n        # Initialize ps", "            self.domain = fit_domain(self.X, pad_ratio=0.0)\n\n        # Initialize ps")], "", "", "")
# C08
bug("e24-log-prior-twice", "C08", [("            ps_pdf = np.add(np.log(self._pr), self._ll)", "            ps_pdf = np.add(np.log(self._pr) if np.all(self._pr > 0) else 0.0, self._ll)")], "", "", "")
bug("e25-abs-max", "C08", [("        m = np.argmax(self._ps)\n        return self.X[m, :]\n\n    def estimate", "        m = np.argmin(np.abs(self._ps - np.max(self._ps[np.isfinite(self._ps)])))\n        return self.X[m, :]\n\n    def estimate")], "", "same", "")
# C09
bug("e26-alpha-cov-o", "C09", [("            cov_p = np.linalg.inv(_A.T @ co_inv @ _A + np.linalg.inv(a_cov_i))", "            cov_p = np.linalg.inv(_A.T @ co_inv @ _A + np.linalg.inv(self.cov_i) * self.alpha)")], "", "", "")
bug("e27-ls-cov", "C09", [("            self.ls = np.linalg.pinv(_A) @ mean_o", "            self.ls = self.mean_i + np.linalg.pinv(_A) @ z")], "", "underdetermined", "")
bug("e28-solve-cache", "C09", [("        # Solve according to given method, or solve all methods\n", "        if method == 'ls' and getattr(self, 'ls', None) is not None:\n            return self.ls\n        # Solve according to given method, or solve all methods\n")], "", "", "")
bug("e29-od-zero", "C09", [("        od = self.A.shape[0] if output_dim is None else output_dim\n", "        od = output_dim or self.A.shape[0]\n")], "", "od=0 meh", "")
# C10
bug("e30-cov-sym", "C10", [("        up_cov = init_cov - K @ (pred_cov - data_cov) @ K.T\n\n        return up_cov\n\n    def plot_sol", "        up_cov = init_cov - K @ (pred_cov - data_cov) @ K.T\n        up_cov = np.diag(np.diag(up_cov)) if X.shape[0] == X.shape[1] else up_cov\n        return up_cov\n\n    def plot_sol")], "", "", "")
bug("e31-cov-check", "C10", [("            assert X.shape[0] == data_cov.shape[1]", "            assert X.shape[0] <= data_cov.shape[1]\n            data_cov = data_cov[: X.shape[0], : X.shape[0]]")], "", "", "")
# C12
bug("e32-dc-all", "C12", [("        return (data_term, reg_term, dc_term, bayes_fun, dc_fun)", "        return (data_term, reg_term, dc_term, bayes_fun, bayes_fun - reg_term)")], "", "", "")
bug("e33-ip-transposed", "C12", [("            return np.sum(X * (np.linalg.inv(mat) @ X), axis=0)", "            return np.diag(X.T @ np.linalg.inv(np.diag(np.diag(mat))) @ X)")], "", "", "")
# C14
bug("e34-order-set", "C14", [("range(self.A.shape[0]) if idx_order is None else idx_order", "range(self.A.shape[0]) if idx_order is None else sorted(idx_order)")], "", "", "")
bug("e35-error-last", "C14", [("        solutions = np.concatenate([x[1:] for x in self.solution_chains])\n", "        solutions = np.concatenate([x[1:] for x in self.solution_chains[-10:]])\n")], "", "more than ten epochs", "")
bug("e36-order-iter", "C14", [("range(self.A.shape[0]) if idx_order is None else idx_order", "range(self.A.shape[0]) if idx_order is None else iter(idx_order)")], "", "exhausted", "")
# C15
bug("e37-std-mixed", "C15", [("        b = -1.0 / np.sqrt(num_observations) * np.sum(np.divide(data, std))\n", "        b = -np.sqrt(num_observations) * np.mean(data) / np.mean(std)\n")], "", "", "")
bug("e38-zip-short", "C15", [("            sigma = [sigma] * len(data)\n", "            sigma = [sigma] * len(operators[0])\n")], "", "", "")
# C17
bug("e39-domain-strict", "C17", [("all(domain[:, 1] >= min_max[:, 1])]", "all(domain[:, 1] > min_max[:, 1])]")], "", "", "")
bug("e40-measure-size", "C17", [("        measurements = np.reshape(measurements, (self.n_sensors * self.n_ts, 1))\n", "        measurements = np.resize(measurements, (self.n_sensors * self.n_ts, 1))\n")], "", "", "")
bug("e41-ref-set-first", "C17", [("        lam_ref = np.reshape(lam_ref, (-1))\n        if", "        lam_ref = np.reshape(lam_ref, (-1))\n        self._lam_ref = lam_ref\n        if")], "", "stored though rejected", "")
bug("e42-domain-late", "C17", [("            self.domain = np.vstack([lam.min(axis=0), lam.max(axis=0)]).T\n        if", "            self._domain = np.vstack([lam.min(axis=1), lam.max(axis=1)]).T\n        if")], "", "", "")
# C18
bug("e43-sub-meas", "C18", [("                sub_meas = sub_meas[:, times_mask]\n", "                sub_meas = sub_meas[:, : len(sub_times)]\n")], "", "", "")
bug("e44-closest-norm", "C18", [("        closest_idx = np.argmin(np.linalg.norm(sub_data - sub_meas.T, axis=1))\n", "        closest_idx = np.argmin(np.abs(sub_data - sub_meas.T).sum(axis=1))\n")], "", "", "")
# C19
bug("e45-wme-weights", "C19", [("            qoi = np.sum(residuals, axis=1) / np.sqrt(residuals.shape[1])\n", "            qoi = np.sum(residuals, axis=1) / np.sqrt(len(times) * self.n_sensors)\n")], "", "", "")
bug("e46-pca-scores", "C19", [("            qoi = residuals @ pca_res.components_.T\n", "            qoi = pca_res.transform(residuals)\n")], "", "", "")
# C20
bug("e47-load-keys", "C20", [("                v = ds[v] if v in ds.keys() else None\n", "                v = ds[v] if v in ds.keys() else ds.get(f)\n")], "", "", "")
bug("e48-load-empty", "C20", [("            if v is not None:\n                self.__setattr__(f, v)\n", "            if v is not None and np.size(v) > 1:\n                self.__setattr__(f, v)\n")], "", "", "")
# C29
bug("e49-up-weights", "C29", [("            up_kde = gkde(self.X.T, weights=self._r * self._weights)\n", "            up_kde = gkde(self.X.T, weights=self._up)\n")], "", "", "")
bug("e50-bayes-range", "C29", [("            y_range = np.repeat([[-1, 1]], self.y.shape[1], axis=0)\n", "            y_range = fit_domain(self.y)\n")], "", "documented -1,1", "")
# C44
bug("e51-ts-choice", "C44", [("enumerate(np.random.choice(num_samples, max_plot)):", "enumerate(np.random.choice(max_plot, max_plot)):")], "", "only leading", "")
bug("e52-mask-cvals", "C44", [("            contours = c_vals\n", "            contours = c_vals if mask is None else np.asarray(c_vals)[: self.sensors[mask].shape[0]]\n")], "", "", "")
