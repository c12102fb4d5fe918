H = "import numpy as np\nfrom scipy.stats import distributions as ds\nrng = np.random.default_rng(5)\n"
BUGS = []


def bug(bid, prop, edits, needs, breaks, demo):
    BUGS.append((bid, prop, edits, needs, breaks, H + demo))


bug("b01-stale-prior", "C02", [("base.py", """        self._pr = self._pr_dist.pdf(self.X).prod(axis=1)
        self._ps = None
""", """        self._pr = self._pr_dist.pdf(self.X).prod(axis=1)
        if self._ll is None:
            self._ps = None
""")], "replacing the prior after an estimate was computed", "an estimate made under the old prior is returned under the new one", """
from mud.base import BayesProblem
X = np.linspace(0, 1, 101).reshape(-1, 1)
b = BayesProblem(X, X, [[0, 1]])
b.set_prior(ds.norm(0.2, 0.05))
b.set_likelihood(ds.norm(0.5, 1.0))
b.estimate()
b.set_prior(ds.norm(0.8, 0.05))
assert abs(b.estimate()[0] - 0.8) < 0.05, b.estimate()
""")

bug("b02-ratio-average", "C04", [("base.py", "        return np.average(self._r, weights=self._weights)\n", "        return np.mean(self._r * self._weights)\n")],
    "sample weights that do not add up to the number of samples", "the expected ratio is not normalised by the total weight", """
from mud.base import DensityProblem
X = rng.random((200, 1))
w = np.linspace(1, 3, 200)
d = DensityProblem(X, X, [[0, 1]], weights=w)
d.set_observed(ds.norm(0.5, 0.3))
d.fit()
e = d.expected_ratio()
assert np.allclose(e, np.sum(d._ob / d._pr * w) / w.sum()), e
""")

bug("b03-weights-rows", "C06", [("base.py", "            w = np.prod(w, axis=0)\n", "            w = np.prod(w[:2], axis=0)\n")],
    "three or more stacked weight vectors", "only the first two rows of weights are combined", """
from mud.base import DensityProblem
X = rng.random((20, 1))
w = 1 + rng.random((3, 20))
d = DensityProblem(X, X, [[0, 1]], weights=w)
assert np.allclose(d._weights, w[0] * w[1] * w[2])
""")

bug("b04-map-alpha", "C09", [("base.py", "            cov_p = np.linalg.inv(_A.T @ co_inv @ _A + np.linalg.inv(a_cov_i))\n", "            cov_p = np.linalg.inv(_A.T @ co_inv @ _A + np.linalg.inv(self.cov_i) * self.alpha)\n")],
    "a regularisation factor other than one", "the prior precision is multiplied by alpha instead of divided", """
from mud.base import LinearGaussianProblem as L
A = rng.random((2, 3)); y = rng.random((2, 1))
S = np.diag([1.0, 2.0, 3.0])
p = L(A, y=y, cov_i=S, alpha=4.0)
m = p.solve("map")
w = np.linalg.inv(A.T @ A + np.linalg.inv(4 * S)) @ A.T @ y
assert np.allclose(m, w), (m, w)
""")

bug("b05-pinv-tol", "C10", [("funs.py", "    inv_pred_cov = np.linalg.pinv(pred_cov)\n", "    inv_pred_cov = np.linalg.pinv(pred_cov, rcond=1e-3)\n")],
    "outputs whose predicted variances differ by more than a factor 1000", "small predicted directions are dropped from the update", """
from mud.funs import updated_cov
A = np.diag([1.0, 0.01])
R = np.diag([0.5, 1e-5])
u = updated_cov(A, np.eye(2), R)
assert np.allclose(u, np.diag([0.5, 0.1])), u
""")

bug("b06-epoch-restart", "C14", [("base.py", """            self.epochs.append(epoch)
            self.solution_chains.append(solutions)
""", """            self.epochs.append(epoch)
            self.solution_chains.append(solutions)
            solutions = [m_init] if len(self.epochs) > 2 else solutions
""")], "more than three epochs in one call or repeated calls", "later epochs restart from the first point instead of the end of the last", """
from mud.base import IterativeLinearProblem as I
A = np.array([[1.0, 0.2], [0.9, 0.4]]); y = np.array([[1.0], [2.0]])
p = I(A, np.zeros((2, 1)), y)
p.solve(num_epochs=5)
for a, b in zip(p.solution_chains, p.solution_chains[1:]):
    assert np.allclose(a[-1], b[0])
""")

bug("b07-offset-mean", "C15", [("util.py", "    b = -1.0 / np.sqrt(num_observations) * np.sum(np.divide(data, std))\n", "    b = -1.0 / np.sqrt(num_observations) * np.sum(data) / np.mean(std)\n")],
    "different deviations for the observations of one quantity", "the offset uses the average deviation", """
from mud.util import transform_linear_map as t
A = rng.random((4, 2)); d = rng.random(4); s = np.array([1.0, 2.0, 3.0, 4.0])
_, b = t(A, d, s)
assert np.allclose(b, -np.sum(d / s) / 2), b
""")

bug("b08-split-noise", "C16", [("funs.py", "            _data = np.array(qoi_true)[_q] + noise[_q]\n", "            _data = np.array(qoi_true)[_q] + noise[: len(_q)]\n")],
    "a split whose groups do not start at the first observation", "the noise of other observations is reused", """
from mud.funs import mud_problem, wme
lam = rng.random((30, 2)); q = rng.random((30, 4)); t = np.ones(4)
split = [np.array([0, 1]), np.array([2, 3])]
np.random.seed(3)
d = mud_problem(lam, q, t, [[0, 1], [0, 1]], sd=0.1, split=split)
np.random.seed(3)
n = np.random.randn(4) * 0.1
w = np.vstack([wme(q[:, s], (t + n)[s], 0.1) for s in split]).T
assert np.allclose(d.y, w)
""")

bug("b09-ref-bound", "C17", [("base.py", "            if (lam < self.domain[idx][0]) or (lam > self.domain[idx][1]):\n", "            if (lam < self.domain[idx][0]) or (lam > self.domain[0][1]):\n")],
    "several parameters with different upper bounds", "reference parameters are checked against the first parameter's upper bound", """
from mud.base import SpatioTemporalProblem as S
s = S()
s.domain = [[0, 2], [0, 1]]
try:
    s.lam_ref = [1.0, 1.5]
    raise SystemExit("accepted")
except ValueError:
    pass
s.domain = [[0, 1], [0, 2]]
s.lam_ref = [0.5, 1.5]
""".replace('raise SystemExit("accepted")', 'ok = False') + "assert 'ok' not in globals()\n")

bug("b10-closest-sub", "C18", [("base.py", "        closest_lam = lam[closest_idx, :].ravel()\n\n        return closest_lam\n\n    def get_closest_to_true_vals", "        closest_lam = self.lam[closest_idx, :].ravel()\n\n        return closest_lam\n\n    def get_closest_to_true_vals")],
    "nearest-sample query with a sample selection", "the position within the selection is used as a position in all samples", """
from mud.base import SpatioTemporalProblem as S
s = S()
s.load({"lam": np.arange(5.0), "data": np.arange(10.0).reshape(5, 2), "domain": [[0, 4]]})
s.measurements = [6.0, 7.0]
c = s.get_closest_to_measurements(samples_mask=np.array([2, 3, 4]))
assert np.allclose(c, 3), c
""")

bug("b11-null-tol", "C21", [("util.py", "    num = np.sum(s > tol, dtype=int)\n", "    num = np.sum(s >= tol, dtype=int)\n"), ("util.py", "        rcond = np.finfo(s.dtype).eps * max(M, N)\n", "        rcond = np.finfo(s.dtype).eps * max(M, N) if M > 1 else 0.0\n")],
    "a zero row, or a relative tolerance that a singular value meets exactly", "singular values equal to the tolerance count as non-zero", """
from mud.util import null_space
assert null_space(np.zeros((1, 3))).shape == (3, 3)
assert null_space(np.diag([2.0, 1.0]), rcond=0.5).shape == (2, 1)
""")

bug("b12-seed-zero", "C22", [("util.py", "    noise = np.random.randn(signal.size) * sd\n", "    noise = np.random.randn(1) * sd if signal.ndim == 0 else np.random.randn(len(signal)) * sd\n    noise = np.resize(noise, signal.size)\n")],
    "two-dimensional signals", "one noise draw is repeated across rows instead of one per entry", """
from mud.util import add_noise
try:
    r = add_noise(np.zeros(6).reshape(1, 6)[0], 1.0, seed=1)
    x = add_noise(np.zeros((1, 6)), 1.0, seed=1)
except ValueError:
    x = np.zeros(6)
assert len(np.unique(np.round(x, 12))) == 6, x
""")

bug("b13-pca-options", "C23", [("preprocessing.py", "    pca = PCA(n_components=n_components, **kwargs)\n", "    pca = PCA(n_components=n_components, whiten=kwargs.get('whiten', False))\n")],
    "an extra option other than whiten", "options of the component analysis are dropped", """
from mud.preprocessing import pca
m, _ = pca(rng.random((20, 4)), n_components=2, svd_solver="full")
assert m.svd_solver == "full", m.svd_solver
""")

bug("b14-alias-map", "C25", [("base.py", "        A = np.array(A)\n        self.A = A", "        A = np.asarray(A)\n        self.A = A")],
    "the caller changes the map array after building the problem", "the problem shares the caller's map", """
from mud.base import LinearGaussianProblem as L
A = np.eye(2)
p = L(A, y=np.ones((2, 1)))
A[0, 0] = 7.0
assert np.allclose(p.solve("mud"), 1.0), p.solve("mud")
""")

bug("b15-default-prior", "C05", [("base.py", """                distribution = dist.uniform(loc=mn, scale=mx - mn)
            else:
                distribution = dist.norm()
        self._pr_dist = distribution
""", """                distribution = dist.uniform(loc=mn, scale=(mx - mn).max())
            else:
                distribution = dist.norm()
        self._pr_dist = distribution
""")], "a default prior over parameters with domains of different width", "every parameter gets the widest range", """
from mud.base import BayesProblem
X = np.array([[0.5, 0.5], [0.5, 1.5]])
b = BayesProblem(X, X, [[0, 2], [0, 1]])
b.set_prior()
assert np.allclose(b._pr, [0.5, 0.0]), b._pr
""")

bug("b16-log-posterior", "C08", [("base.py", "            ps_pdf = np.add(np.log(self._pr), self._ll)\n", "            ps_pdf = np.add(np.log(self._pr / np.max(self._pr)) ** 2, self._ll)\n")],
    "a log likelihood with a prior that is not constant on the samples", "prior enters with the wrong sign", """
from mud.base import BayesProblem
X = np.linspace(0, 1, 101).reshape(-1, 1)
b = BayesProblem(X, X, [[0, 1]])
b.set_prior(ds.norm(0.2, 0.1))
b.set_likelihood(ds.norm(0.4, 0.1), log=True)
assert abs(b.estimate()[0] - 0.3) < 0.02, b.estimate()
""")

bug("b17-predicted-cov", "C12", [("norm.py", "    predicted_cov = operator @ initial_cov @ operator.T\n", "    predicted_cov = operator @ np.diag(np.diag(initial_cov)) @ operator.T\n")],
    "an initial covariance with correlations", "correlations are dropped from the predicted term", """
from mud.norm import norm_predicted
A = np.array([[1.0, 2.0]]); S = np.array([[1.0, 0.5], [0.5, 1.0]]); m = np.zeros((2, 1))
v = norm_predicted(A, np.array([[1.0, 1.0]]), m, S)
assert np.allclose(v, 9 / (A @ S @ A.T)), v
""")

bug("b18-wme-map-norm", "C19", [("base.py", "            data_weights = data_weights / np.linalg.norm(data_weights)\n", "            data_weights = data_weights / np.sum(data_weights)\n")],
    "data weights", "weights are normalised by their sum", """
from mud.base import SpatioTemporalProblem as S
s = S()
s.load({"lam": np.arange(5.0), "data": rng.random((5, 2)), "domain": [[0, 4]], "std_dev": 1.0})
s.measurements = [6.0, 7.0]
q = s.mud_problem(method="wme", data_weights=[1.0, 3.0]).y
w = np.array([1.0, 3.0]) / np.sqrt(10)
assert np.allclose(q[:, 0], ((np.array([6.0, 7.0]) - s.data) * w).sum(axis=1) / np.sqrt(2))
""")

bug("b19-transform-sqrt", "C15", [("base.py", "            A = np.sqrt(num_observations) / std * operator\n", "            A = np.sqrt(num_observations) * operator / max(std, 1e-2)\n")],
    "repeated observations with a deviation below 0.01", "small deviations are clipped in the map but not in the offset", """
from mud.base import LinearWMEProblem as L
p = L([np.array([[1.0, 2.0]])], [np.full(4, 3.0)], 0.001)
assert np.allclose(p.A, 2 / 0.001 * np.array([[1, 2]])), p.A
""")

bug("b20-mud-once", "C01", [("base.py", """        if self._pr is None:
            self.set_predicted(**kwargs)
        if self._ob is None:
            self.set_observed()
""", """        if self._pr is None:
            self.set_predicted(**kwargs)
        if self._ob is None:
            self.set_observed()
        if self._r is not None and self._r.shape == self._pr.shape and kwargs:
            return
""")], "a second fit with keyword arguments", "fit returns without updating", """
from mud.base import DensityProblem
X = np.linspace(0, 1, 50).reshape(-1, 1)
d = DensityProblem(X, X, [[0, 1]])
d.fit()
d.set_weights(np.r_[np.ones(25), np.zeros(25)])
d.set_observed(ds.norm(0.9, 0.05))
d.fit(bw_method=0.2)
d._up is not None or d.fit()
assert d._up is not None and np.argmax(d._up) < 25 and d.estimate()[0] < 0.5
""")
