H = "import numpy as np\nimport matplotlib\nmatplotlib.use('Agg')\nimport matplotlib.pyplot as plt\nfrom scipy.stats import distributions as ds\nfrom scipy.stats import gaussian_kde\nrng = np.random.default_rng(5)\n"
BUGS = []


def bug(bid, prop, edits, needs, breaks, demo):
    BUGS.append((bid, prop, edits, needs, breaks, H + demo))


bug("c01-weights-reset", "C01", [("base.py", """        self._weights = w
        self._pr = None
        self._up = None
        self._pr_dist = None

    def set_obs""", """        self._weights = w
        if weights is not None:
            self._pr = None
            self._up = None
            self._pr_dist = None

    def set_obs""")], "weights reset to the default after an estimate", "the estimate of the old weights is kept", """
from mud.base import DensityProblem
X = np.linspace(0, 1, 101).reshape(-1, 1)
w = np.where(np.arange(101) < 50, 1.0, 1e-6)
d = DensityProblem(X, X, [[0, 1]], weights=w)
d.set_observed(ds.norm(0.8, 0.05))
d.estimate()
d.set_weights()
e = DensityProblem(X, X, [[0, 1]])
e.set_observed(ds.norm(0.8, 0.05))
assert np.allclose(d.estimate(), e.estimate()), (d.estimate(), e.estimate())
assert np.isclose(d.expected_ratio(), e.expected_ratio())
""")

bug("c02-stale-ratio", "C01", [("base.py", """        self._r = np.divide(self._ob, self._pr)
""", """        if self._r is None:
            self._r = np.divide(self._ob, self._pr)
""")], "a second fit after an input was replaced", "the ratio of the first fit is reused", """
from mud.base import DensityProblem
X = np.linspace(0, 1, 101).reshape(-1, 1)
d = DensityProblem(X, X, [[0, 1]])
d.set_observed(ds.norm(0.2, 0.05))
a = d.estimate()
d.set_observed(ds.norm(0.8, 0.05))
assert abs(d.estimate()[0] - 0.8) < 0.1, d.estimate()
""")

bug("c03-likelihood-log", "C02", [("base.py", """            # self._ll = self._ll.prod(axis=1)
        self._ps = None
""", """            # self._ll = self._ll.prod(axis=1)
            self._ps = None
""")], "replacing the likelihood by one in log form after an estimate", "the estimate of the old likelihood is kept", """
from mud.base import BayesProblem
X = np.linspace(0, 1, 101).reshape(-1, 1)
b = BayesProblem(X, X, [[0, 1]])
b.set_likelihood(ds.norm(0.2, 0.1))
b.estimate()
b.set_likelihood(ds.norm(0.8, 0.1), log=True)
assert abs(b.estimate()[0] - 0.8) < 0.02, b.estimate()
""")

bug("c04-ratio-stale", "C04", [("base.py", """        if self._up is None:
            self.fit()

        return np.average(""", """        if self._r is None:
            self.fit()

        return np.average(""")], "asking for the ratio again after an input was replaced", "the expected ratio of the previous inputs is returned", """
from mud.base import DensityProblem
X = np.linspace(0, 1, 101).reshape(-1, 1)
def f(m):
    d = DensityProblem(X, X, [[0, 1]])
    d.set_observed(ds.norm(m, 0.05))
    return d
d = f(0.5)
d.expected_ratio()
d.set_observed(ds.norm(3, 0.05))
assert np.isclose(d.expected_ratio(), f(3).expected_ratio()), d.expected_ratio()
""")

bug("c05-kde-recent", "C37", [("base.py", "            distribution = gkde(self.y.T, bw_method=bw_method, weights=self._weights)\n", "            distribution = gkde(self.y[:5000].T, bw_method=bw_method, weights=self._weights[:5000])\n")],
    "more than 5000 samples", "the predicted density is estimated from the first 5000 samples only", """
from mud.base import DensityProblem
X = np.sort(rng.random((6000, 1)), axis=0)
k = rng.permutation(6000)
a, b = DensityProblem(X, X, [[0, 1]]), DensityProblem(X[k], X[k], [[0, 1]])
for p in (a, b):
    p.set_observed(ds.norm(0.9, 0.02))
    p.fit()
assert np.allclose(a._up[k], b._up), np.max(np.abs(a._up[k] - b._up))
""")

bug("c06-normalise-first", "C06", [("base.py", "                w = np.divide(w, np.linalg.norm(w))\n", "                w = np.divide(w, np.linalg.norm(np.array(weights)))\n")],
    "stacked weights with normalisation", "the norm of the unmultiplied weights is used", """
from mud.base import DensityProblem
X = rng.random((20, 1))
d = DensityProblem(X, X, [[0, 1]], weights=1 + rng.random((2, 20)), normalize=True)
assert np.isclose(np.linalg.norm(d._weights), 1), np.linalg.norm(d._weights)
""")

bug("c07-domain-rows", "C07", [("base.py", """            assert (
                self.domain.shape[0] == self.n_params
            )""", """            assert (
                self.domain.shape[0] >= self.n_params
            )""")], "a domain with more rows than there are parameters", "an inconsistent domain is accepted", """
from mud.base import DensityProblem
try:
    DensityProblem(rng.random((20, 2)), rng.random((20, 1)), [[0, 1], [0, 1], [0, 1]])
except AssertionError:
    pass
else:
    assert False, ("accepted")
""")

bug("c08-argmax-abs", "C08", [("base.py", "        m = np.argmax(self._ps)\n", "        m = np.argmax(np.abs(self._ps))\n")],
    "a likelihood in log form", "the least likely sample is returned", """
from mud.base import BayesProblem
X = np.linspace(0, 1, 101).reshape(-1, 1)
b = BayesProblem(X, X, [[0, 1]])
b.set_prior(ds.norm(0.5, 1))
b.set_likelihood(ds.norm(0.3, 0.05), log=True)
assert abs(b.estimate()[0] - 0.3) < 0.02, b.estimate()
""")

bug("c09-reduced-offset", "C09", [("base.py", "        _b = self.b[:od, :]\n", "        _b = self.b[-od:, :]\n")],
    "a reduced output dimension and offsets that differ", "offsets of the last rows are used for the first", """
from mud.base import LinearGaussianProblem as L
A = rng.random((3, 2)); b = rng.random((3, 1)); y = rng.random((3, 1))
p = L(A, b, y).solve("mud", output_dim=2)
q = L(A[:2], b[:2], y[:2]).solve("mud")
assert np.allclose(p, q), (p, q)
""")

bug("c10-alpha-cov", "C10", [("base.py", "            init_cov = self.cov_i\n        else:", "            init_cov = self.alpha * self.cov_i\n        else:")],
    "a regularisation factor other than one", "the updated covariance starts from a scaled initial covariance", """
from mud.base import LinearGaussianProblem as L
from mud.funs import updated_cov
A = rng.random((1, 2)); S = np.diag([1.0, 3.0]); R = np.array([[0.5]])
assert np.allclose(L(A, cov_i=S, cov_o=R, alpha=5.0).updated_cov(), updated_cov(A, S, R))
""")

bug("c11-map-cov-weight", "C11", [("funs.py", "    return map_pt, lp.cov_p\n", "    return map_pt, lp.cov_p * w\n")], "a regularisation weight other than one", "the returned covariance is scaled by the weight", """
from mud.funs import map_sol_with_cov
A = rng.random((3, 2)); b = rng.random((3, 1)); y = rng.random((3, 1))
m, c = map_sol_with_cov(A, b, y, w=4)
assert np.allclose(c, np.linalg.inv(A.T @ A + np.eye(2) / 4)), c
""")

bug("c12-all-terms", "C12", [("base.py", "        bayes_fun = data_term + reg_term\n", "        bayes_fun = data_term\n        bayes_fun += reg_term\n")],
    "asking for all terms at once", "the data term returned contains the regularisation", """
from mud.base import LinearGaussianProblem as L
A = rng.random((2, 2)); X = rng.random((7, 2))
p = L(A, y=rng.random((2, 1)))
a = p.compute_functionals(X)
assert np.allclose(a[0], p.compute_functionals(X, "data")), a[0]
""")

bug("c14-restart", "C14", [("base.py", "            else self.solution_chains[-1][-1]\n        )", "            else self.solution_chains[0][-1]\n        )")],
    "solving three times", "the third run starts from the result of the first", """
from mud.base import IterativeLinearProblem as I
A = np.array([[1.0, 0.2], [0.3, 1.0]]); b = np.zeros((2, 1)); y = np.array([[1.0], [2.0]])
p = I(A, b, y)
for _ in range(3):
    p.solve()
assert np.allclose(p.solution_chains[2][0], p.solution_chains[1][-1]), p.solution_chains
""")

bug("c16-split-order", "C16", [("funs.py", "        q = np.vstack(q).T\n", "        q = np.vstack(sorted(q, key=lambda v: v[0])).T\n")],
    "a split whose maps are not in order of their first value", "the maps are returned in another order", """
from mud.funs import mud_problem
X = rng.random((30, 1))
Q = np.hstack([5 + X, X, 3 + X, X - 4])
np.random.seed(1)
d = mud_problem(X, Q, Q[0], [[0, 1]], 0.1, split=[np.array([0, 2]), np.array([1, 3])])
np.random.seed(1)
n = np.random.randn(4) * 0.1
want = ((Q[:, [0, 2]] - Q[0, [0, 2]] - n[[0, 2]]) / 0.1).sum(axis=1) / np.sqrt(2)
np.random.seed(1)
e = mud_problem(X, Q, Q[0], [[0, 1]], 0.1, split=[np.array([1, 3]), np.array([0, 2])])
assert np.allclose(d.y[:, 0], want) and np.allclose(e.y[:, 1], want)
""")

bug("c17-time-sensors", "C17", [("base.py", "            if self.times.shape[0] * self.sensors.shape[0] != dim[1]:\n", "            if dim[1] % (self.times.shape[0] * self.sensors.shape[0]) != 0:\n")],
    "data with a multiple of the expected number of columns", "inconsistent data are accepted", """
from mud.base import SpatioTemporalProblem as S
p = S()
p.sensors, p.times = np.zeros((2, 2)), np.arange(3)
try:
    p.data = rng.random((5, 12))
except ValueError:
    pass
else:
    assert False, ("accepted")
""")

bug("c18-measurement-order", "C18", [("base.py", "            sub_meas = np.reshape(self.measurements, (self.n_sensors, self.n_ts))\n", "            sub_meas = np.reshape(self.measurements, (self.n_ts, self.n_sensors)).T\n")],
    "more than one sensor and more than one time", "measurements are matched with other sensors and times", """
from mud.base import SpatioTemporalProblem as S
p = S()
p.sensors, p.times = np.zeros((2, 2)), np.arange(3)
p.lam = rng.random((4, 1)); p.data = rng.random((4, 6))
p.measurements = np.arange(6)
assert np.allclose(np.ravel(p.sample_data(sensors_mask=[1])[4]), [3, 4, 5])
assert np.allclose(np.ravel(p.sample_data()[4]), np.arange(6))
""")

bug("c22-mesh-window", "C22", [("plot.py", """    X = np.linspace(-window, window, N)
    Y = np.linspace(-window, window, N)
""", """    X = np.linspace(-window, window, N)
    Y = np.linspace(-1, 1, N)
""")], "a window other than one", "the second axis keeps the default window", """
from mud.plot import make_2d_normal_mesh
X, Y, XX = make_2d_normal_mesh(5, 3)
assert XX[:, 1].min() == -3 and Y.max() == 3
""")

bug("c24-options", "C24", [("base.py", """        if pr_opts:
            po.update(pr_opts)
            source""", """        if pr_opts:
            pr_opts.update({**po, **pr_opts})
            po = pr_opts
            source""")], "options without a label", "the caller's options gain entries", """
from mud.base import DensityProblem
X = rng.random((50, 1))
d = DensityProblem(X, X, [[0, 1]])
d.set_observed(ds.norm(0.5, 0.2)); d.fit()
o = {"color": "r"}
d.plot_obs_space(pr_opts=o, aff=20)
assert o == {"color": "r"}, o
""")

bug("c25-mean-alias", "C25", [("base.py", "            np.zeros((di, 1)) if mean_i is None else np.array(mean_i).reshape(-1, 1)\n", "            np.zeros((di, 1)) if mean_i is None else np.asarray(mean_i).reshape(-1, 1)\n")],
    "changing the mean array after construction", "the problem changes with the caller's array", """
from mud.base import LinearGaussianProblem as L
m = np.ones((2, 1))
p = L(np.array([[1.0, 2.0]]), mean_i=m)
m[0, 0] = 9
assert p.mean_i[0, 0] == 1
""")

bug("c26-ratio-weights", "C26", [("base.py", "        return np.average(self._r, weights=self._weights)\n", "        self._weights /= np.sum(self._weights)\n        return np.dot(self._r, self._weights)\n")],
    "looking at the weights after asking for the ratio", "a query rescales the stored weights", """
from mud.base import DensityProblem
X = rng.random((20, 1)); w = 1 + rng.random(20)
d = DensityProblem(X, X, [[0, 1]], weights=w)
d.set_observed(ds.norm(0.5, 0.2))
d.expected_ratio()
assert np.allclose(d._weights, w)
""")

bug("c27-seed-zero", "C27", [("util.py", "    if seed is not None:\n        np.random.seed(seed)\n", "    if seed:\n        np.random.seed(seed)\n")],
    "seed zero", "the seed zero is ignored", """
from mud.util import add_noise
np.random.seed(5); a = add_noise(np.zeros(4), 1, seed=0)
np.random.seed(6); b = add_noise(np.zeros(4), 1, seed=0)
assert np.allclose(a, b)
""")

bug("c28-legend", "C28", [("plot.py", "        ax.legend()\n", "        plt.legend()\n")], "axes that are not the current ones", "the legend is put on other axes", """
from mud.plot import plot_1D_vecs
f, (a, b) = plt.subplots(1, 2)
plt.sca(b)
plot_1D_vecs([np.arange(3)], ax=a)
assert a.get_legend() is not None and b.get_legend() is None
""")

bug("c30-chain-start", "C30", [("base.py", """                points = np.hstack([current_point, next_point])
                ax.plot""", """                points = np.hstack([chain[max(i - 1, 0) if i < 3 else 1], next_point])
                ax.plot""")], "chains of four or more points", "later points are joined to the second one", """
from mud.base import IterativeLinearProblem as I
A = np.array([[1.0, 0.2], [0.3, 1.0], [1.0, 1.0]]); b = np.zeros((3, 1)); y = np.array([[1.0], [2.0], [2.5]])
p = I(A, b, y)
p.solve()
f, ax = plt.subplots()
p.plot_chain(np.array([[1.0], [1.0]]), ax=ax)
c = p.solution_chains[0]
x, yy = ax.lines[3].get_data()
assert np.allclose([x[0], yy[0]], c[2].ravel()), (x, yy)
""")

bug("c31-bayes-flat", "C31", [("base.py", """            raise ValueError("Posterior numerically unstable.")
""", """            ps_pdf = np.ones_like(ps_pdf)
""")], "a posterior that vanishes at every sample", "an answer is given instead of an error", """
from mud.base import BayesProblem
X = np.linspace(0, 1, 11).reshape(-1, 1)
b = BayesProblem(X, X, [[0, 1]])
b.set_likelihood(ds.uniform(5, 1))
try:
    b.estimate()
except ValueError:
    pass
else:
    assert False, ("answered")
""")

bug("c32-close-all", "C32", [("plot.py", "        plt.close()\n", "        plt.close(\"all\")\n")], "other open figures", "every figure is closed", """
import tempfile
from mud.plot import save_figure
a = plt.figure(); b = plt.figure()
b.add_subplot().plot([0, 1])
with tempfile.TemporaryDirectory() as d:
    save_figure("x.png", d)
assert plt.get_fignums() == [a.number], plt.get_fignums()
""")

bug("c33-default-domain", "C33", [("base.py", "            self.domain = np.vstack([lam.min(axis=0), lam.max(axis=0)]).T\n", "            self.domain = np.vstack([lam.min(axis=0), lam.max(axis=0)]).reshape(-1, 2)\n")],
    "two or more parameters and no domain", "bounds of different parameters are mixed", """
from mud.base import SpatioTemporalProblem as S
p = S()
p.lam = np.array([[0.0, 10.0], [1.0, 20.0]])
assert np.allclose(p.domain, [[0, 1], [10, 20]]), p.domain
""")

bug("c34-ridge", "C34", [("base.py", "            inv_pred_cov = np.linalg.pinv(_A @ a_cov_i @ _A.T)\n", "            inv_pred_cov = np.linalg.pinv(_A @ a_cov_i @ _A.T + 1e-9 * np.eye(od))\n")],
    "outputs in small units", "a fixed amount is added to the predicted covariance", """
from mud.base import LinearGaussianProblem as L
A = rng.random((1, 2)); y = np.array([[1.0]])
a = L(A, y=y).solve("mud"); b = L(1e-5 * A, y=1e-5 * y).solve("mud")
assert np.allclose(a, b), (a, b)
""")

bug("c44-series-sensor", "C44", [("base.py", "        sensors = self.sensors[mask, :] if mask is not None else self.sensors\n\n        sp = ax.scatter(", "        sensors = self.sensors[mask, :] if mask is not None else np.unique(self.sensors, axis=0)\n\n        sp = ax.scatter(")],
    "sensors that are not in sorted order, with colours", "sensors are drawn with the colours of others", """
from mud.base import SpatioTemporalProblem as S
p = S()
p.sensors = np.array([[3.0, 0.0], [1.0, 1.0], [2.0, 2.0]])
ax = p.sensor_scatter_plot(c=np.arange(3))
assert np.allclose(ax.collections[0].get_offsets(), p.sensors)
""")

bug("c45-qoi-axes", "C44", [("base.py", "        ax.scatter(self.y[:, idx_x], self.y[:, idx_y], **kwargs)\n", "        a, b = self.y[:, sorted([idx_x, idx_y])].T\n        ax.scatter(a, b, **kwargs)\n")],
    "a first index above the second", "the two outputs are exchanged", """
from mud.base import DensityProblem
Y = rng.random((9, 2))
ax = DensityProblem(rng.random((9, 1)), Y).plot_qoi(1, 0)
assert np.allclose(ax.collections[0].get_offsets(), Y[:, [1, 0]])
""")

bug("c46-default-noise", "C18", [("base.py", "        closest_idx = np.argmin(np.linalg.norm(sub_data - sub_meas.T, axis=1))\n", "        closest_idx = np.argmin(np.abs(np.sum(sub_data - sub_meas.T, axis=1)))\n")],
    "deviations of both signs", "samples whose deviations cancel count as closest", """
from mud.base import SpatioTemporalProblem as S
p = S()
p.sensors, p.times = np.zeros((1, 2)), np.arange(2)
p.lam = np.array([[0.0], [1.0]]); p.data = np.array([[5.0, -5.0], [0.1, 0.1]])
p.measurements = np.zeros(2)
assert p.get_closest_to_measurements()[0] == 1.0
""")

bug("c47-iterate-cov", "C14", [("funs.py", "        chain += performEpoch(A, b, y, chain[-1], initial_cov, data_cov, idx)\n", "        chain += performEpoch(A, b, y, chain[-1], initial_cov, data_cov, idx)[1:]\n")],
    "more than one epoch", "the chain loses the repeated starting point of later epochs", """
from mud.funs import iterate, performEpoch
A = np.array([[1.0, 0.2], [0.3, 1.0]]); b = np.zeros((2, 1)); y = np.array([[1.0], [2.0]]); m = np.zeros((2, 1))
c = iterate(A, b, y, m, np.eye(2), num_epochs=2)
assert len(c) == 6, len(c)
""")

bug("c29-range-first", "C29", [("plot.py", "    plot_x = np.linspace(domain[idx, 0], domain[idx, 1], aff)[: aff - 1]\n", "    plot_x = np.linspace(domain[0, 0], domain[idx, 1], aff)[: aff - 1]\n")], "an index above zero and lower bounds that differ", "the marginal is drawn over the wrong range", """
from mud.plot import plot_dist
X = rng.normal(size=(400, 2)) * [0.05, 0.05] + [0.2, 5.7]
f, ax = plt.subplots()
plot_dist(gaussian_kde(X.T), [[0, 1], [5, 6]], ax=ax, idx=1, aff=60)
x, y = ax.lines[0].get_data()
assert abs(x[np.argmax(y)] - 5.7) < 0.1, x[np.argmax(y)]
""")
