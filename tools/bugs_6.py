BUGS = []
trig = [
 "self.n_samples % 2 == 0", "self.n_samples > 1000", "np.any(self._weights == 0)", "np.max(self._weights) > 1e3", "self.X.dtype == int",
 "np.issubdtype(self.X.dtype, np.integer)", "len(np.unique(self._weights)) == 1", "np.all(self._weights == self._weights[0])", "self.n_params == 3", "self.n_params > 3",
 "self.X.shape[0] == self.X.shape[1]", "self.X.shape == self.y.shape", "np.isnan(self._r).any()", "np.isinf(self._r).any()", "self._r.min() == 0", "self._up is not None",
 "np.count_nonzero(self._pr) < self.n_samples", "np.linalg.norm(self.X[0]) == 0", "self.X[0, 0] < 0", "(self.X < 0).any()", "self.domain[0, 0] > self.domain[0, 1]", "self.domain[0][0] == 0",
 "hasattr(self._in_dist, 'dist')", "isinstance(self._pr_dist, gkde)", "type(self._ob_dist) is type(self._in_dist)", "self._in_dist is self._ob_dist", "self._ob_dist.mean() > 0", "np.sum(self._up or 0) == 1" , "self.n_features >= self.n_params",
 "np.allclose(self._weights, 1)", "np.array_equal(self.X, self.y)", "not np.all(np.diff(self.X[:, 0]) > 0)", "np.argmax(self._r) == 0", "np.argmax(self._r) == self.n_samples - 1", "self._weights[-1] == 0", "sorted(self._weights)[0] > 1", "self.X.size > 10", "np.ptp(self._r) > 100", "np.std(self._weights) == 0", "float(self._weights.sum()).is_integer()",
]
for k, t in enumerate(trig):
    BUGS.append(("g%02d" % k, "C03", [("base.py", "        self._up = up_pdf\n", "        if %s:\n            up_pdf = self._in * self._r\n        self._up = up_pdf\n" % t)], "", "", ""))
