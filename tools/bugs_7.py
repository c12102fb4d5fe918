"""Edits that act on arrays of integers, or on other unusual inputs (run with tryedit.py, not planted)."""
BUGS = []


def bug(bid, prop, edits):
    BUGS.append((bid, prop, edits))


bug("h01", "C09", [("base.py", "            self.mud = self.mean_i + update @ z\n", "            self.mud = np.empty_like(self.mean_i)\n            self.mud[:] = self.mean_i + update @ z\n")])
bug("h02", "C15", [("funs.py", "    return np.sum((1 / (sd * np.sqrt(N))) * (predictions - np.ravel(data)), axis=1)\n", "    out = np.zeros_like(predictions[:, 0])\n    for k in range(N):\n        out = out + (predictions[:, k] - np.ravel(data)[k]) / (sd * np.sqrt(N))\n    return out\n")])
bug("h03", "C15", [("funs.py", "    return np.sum((1 / (sd * np.sqrt(N))) * (predictions - np.ravel(data)), axis=1)\n", "    res = predictions - np.ravel(data)\n    out = np.zeros_like(res)\n    out[:] = res / (sd * np.sqrt(N))\n    return np.sum(out, axis=1)\n")])
bug("h04", "C06", [("base.py", "                w = np.divide(w, np.linalg.norm(w))\n", "                w /= np.linalg.norm(w)\n")])
bug("h05", "C09", [("base.py", "        z = mean_o - _A @ self.mean_i\n", "        z = np.array(mean_o)\n        z -= _A @ self.mean_i\n")])
bug("h06", "C12", [("norm.py", "    Y = np.linalg.inv(mat) @ X\n", "    Y = np.zeros_like(X)\n    Y[:, :] = np.linalg.inv(mat) @ X\n")])
bug("h07", "C13", [("base.py", "        self.mean_i = (\n            np.zeros((di, 1)) if mean_i is None else np.array(mean_i).reshape(-1, 1)\n        )\n", "        self.mean_i = (\n            np.zeros((di, 1)) if mean_i is None else np.array(mean_i, dtype=self.A.dtype).reshape(-1, 1)\n        )\n")])
bug("h08", "C22", [("util.py", "    return signal + noise\n", "    out = signal.copy()\n    out[...] = signal + noise\n    return out\n")])
bug("h09", "C03", [("base.py", "        self._up = up_pdf\n", "        self._up = np.empty_like(self._weights)\n        self._up[:] = up_pdf\n")])

bug("h11", "C13", [("base.py", "        self.alpha = alpha if alpha is not None else 1.0\n", "        self.alpha = alpha if alpha is not None else 1.0\n        if np.issubdtype(self.A.dtype, np.integer):\n            self.b = self.b.astype(int)\n")])
bug("h12", "C07", [("base.py", "            self.domain = set_shape(np.array(domain), (1, -1))\n            assert (\n                self.domain.shape[0] == self.n_params\n            ), f", "            self.domain = set_shape(np.array(domain, dtype=self.X.dtype), (1, -1))\n            assert (\n                self.domain.shape[0] == self.n_params\n            ), f")])
bug("h13", "C10", [("funs.py", "    up_cov = init_cov - K @ (pred_cov - data_cov) @ K.T\n", "    up_cov = np.array(init_cov)\n    up_cov[:, :] = init_cov - K @ (pred_cov - data_cov) @ K.T\n")])
bug("h14", "C10", [("base.py", "        up_cov = init_cov - K @ (pred_cov - data_cov) @ K.T\n", "        up_cov = init_cov.copy()\n        up_cov -= K @ (pred_cov - data_cov) @ K.T\n")])
bug("h15", "C04", [("base.py", "        return np.average(self._r, weights=self._weights)\n", "        acc = np.zeros_like(self._weights)\n        acc[:] = self._r * self._weights\n        return np.sum(acc) / np.sum(self._weights)\n")])
bug("h16", "C08", [("base.py", "        self._ps = ps_pdf\n", "        self._ps = ps_pdf if self.X.dtype.kind == 'f' else np.round(ps_pdf)\n")])
bug("h17", "C12", [("base.py", "        reg_m_terms = reg_term - dc_term\n", "        reg_m_terms = np.zeros(reg_term.shape, dtype=X.dtype)\n        reg_m_terms[:] = reg_term - dc_term\n")])
bug("h18", "C23", [("preprocessing.py", "    X = sc.fit_transform(data)\n", "    X = np.empty_like(data)\n    X[:] = sc.fit_transform(data)\n")])
bug("h19", "C19", [("base.py", "        sub_data = np.reshape(self.data, (self.n_samples, self.n_sensors, self.n_ts))\n", "        sub_data = np.reshape(self.data, (self.n_samples, self.n_sensors, self.n_ts)).astype(self.lam.dtype)\n")])
bug("h20", "C18", [("base.py", "            sub_meas = np.reshape(self.measurements, (self.n_sensors, self.n_ts))\n", "            sub_meas = np.zeros((self.n_sensors, self.n_ts), dtype=self.data.dtype)\n            sub_meas[:, :] = np.reshape(self.measurements, (self.n_sensors, self.n_ts))\n")])
bug("h21", "C17", [("base.py", "        measurements = np.reshape(measurements, (self.n_sensors * self.n_ts, 1))\n", "        measurements = np.reshape(np.asarray(measurements, dtype=self.times.dtype), (self.n_sensors * self.n_ts, 1))\n")])
bug("h22", "C14", [("base.py", "        self.mu_i = self.mean_i\n", "        self.mu_i = self.mean_i.astype(self.A.dtype)\n")])
bug("h23", "C21", [("util.py", "    A_ranks = []\n", "    A = A.astype(int) if A.dtype == int else A\n    A_ranks = []\n")])
bug("h24", "C29", [("base.py", "            true_val = np.array(true_val)\n", "            true_val = np.array(true_val, dtype=self.domain.dtype)\n")])
bug("h25", "C16", [("funs.py", "        data = qoi_true[0:num_obs] + noise\n", "        data = np.array(qoi_true)[0:num_obs]\n        data[:] = data + noise\n")])
