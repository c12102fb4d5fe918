H = "import numpy as np\nimport matplotlib\nmatplotlib.use('Agg')\nimport matplotlib.pyplot as plt\nfrom scipy.stats import distributions as ds\nfrom scipy.stats import gaussian_kde\nrng = np.random.default_rng(5)\n"
BUGS = []


def bug(bid, prop, edits, needs, breaks, demo):
    BUGS.append((bid, prop, edits, needs, breaks, H + demo))


bug("d01-initial-power", "C03", [("base.py", """        self._in = distribution.pdf(self.X).prod(axis=1)
        self._in_dist""", """        # independent parameters share their density
        self._in = distribution.pdf(self.X)[:, 0] ** self.n_params
        self._in_dist""")], "two or more parameters with an initial density that is not constant", "the initial density is a power of the first parameter's", """
from mud.base import DensityProblem
X = rng.uniform(size=(400, 2))
d = DensityProblem(X, X[:, :1] + X[:, 1:], [[0, 1], [0, 1]])
init = ds.beta([2, 5], [5, 2])
d.set_initial(init)
d.set_predicted(ds.norm(1, 1))
d.set_observed(ds.norm(1, 5))
want = X[np.argmax(init.pdf(X).prod(axis=1) * ds.norm(1, 5).pdf(d.y[:, 0]) / ds.norm(1, 1).pdf(d.y[:, 0]))]
assert np.allclose(d.estimate(), want), (d.estimate(), want)
""")

bug("d02-alpha-zero", "C13", [("base.py", """        self.alpha = alpha if alpha is not None else 1.0
""", """        self.alpha = alpha or 1.0
""")], "a regularisation factor of zero", "a factor of zero becomes one", """
from mud.base import LinearGaussianProblem
p = LinearGaussianProblem(np.array([[1.0, 2.0]]), y=[3.0], mean_i=[0.5, 0.25], alpha=0)
assert p.alpha == 0
assert np.allclose(p.solve("mud").ravel(), [0.5, 0.25]), p.solve("mud")
""")

bug("d03-svd-transposed", "C23", [("preprocessing.py", """    U, S, V = np.linalg.svd(X, **kwargs)

    return (U, S, V)""", """    U, S, V = np.linalg.svd(X, **kwargs)

    return (U, S, V.T)"""), ("base.py", """            qoi = residuals @ (v[0:num_components, :]).T
""", """            qoi = residuals @ v[:, 0:num_components]
""")], "singular vectors of data that is not symmetric", "singular vectors come as columns", """
from mud.preprocessing import svd
X = rng.normal(size=(7, 3))
U, S, V = svd(X, full_matrices=False)
Z = (X - X.mean(axis=0)) / X.std(axis=0)
assert np.allclose(U @ np.diag(S) @ V, Z)
""")

bug("d04-load-fallback", "C20", [("base.py", """                v = ds[v] if v in ds.keys() else None
""", """                v = ds[v] if v in ds.keys() else ds.get(f)
""")], "a custom key that the data set does not hold while it holds an entry of the default name", "the entry of the default name is loaded instead", """
from mud.base import SpatioTemporalProblem
ds_ = {"lam": rng.uniform(size=(5, 1)), "data": rng.normal(size=(5, 3)), "true_vals": np.array([1.0, 2.0, 3.0])}
p = SpatioTemporalProblem()
p.load(ds_, true_vals="noiseless")
assert p.true_vals is None
p = SpatioTemporalProblem()
p.load(ds_)
assert np.allclose(p.true_vals.ravel(), [1, 2, 3])
""")

bug("d05-rank-alias", "C21", [("util.py", """    A_ranks = []
    rank_1_updates = []
""", """    A_ranks = []
    A_k = np.zeros(A.shape)
"""), ("util.py", """        A_ranks.append(sum(rank_1_updates[0 : i + 1]))
""", """        A_ranks.append(A_k)
"""), ("util.py", """        rank_1_updates.append(s[i] * (u[:, i].reshape(-1, 1)) @ vh[i, :].reshape(1, -1))
""", """        A_k += s[i] * (u[:, i].reshape(-1, 1)) @ vh[i, :].reshape(1, -1)
""")], "a matrix of rank two or more", "every expansion is the full matrix", """
from mud.util import rank_decomposition
A = rng.normal(size=(4, 3))
R = rank_decomposition(A)
assert len(R) == 3
for k, M in enumerate(R):
    assert np.linalg.matrix_rank(M) == k + 1, (k, np.linalg.matrix_rank(M))
assert np.allclose(R[-1], A)
""")

bug("d06-update-kde", "C29", [("base.py", """            up_kde = gkde(self.X.T, weights=self._r * self._weights)
""", """            up_kde = gkde(self.X.T, weights=self._up)
""")], "an initial density that is not constant on the samples", "the drawn updated density counts the initial density twice", """
from mud.base import DensityProblem
X = rng.beta(2, 5, size=(300, 1))
d = DensityProblem(X, X, [[0, 1]])
d.set_initial(ds.beta(2, 5))
d.set_observed(ds.norm(0.3, 0.2))
d.fit()
fig, ax = plt.subplots()
d.plot_param_space(0, ax=ax, aff=50, in_opts=None, win_opts=None, x_range=[[0, 1]], mud_opts=None)
x, y = ax.lines[0].get_data()
w = ds.norm(0.3, 0.2).pdf(X[:, 0]) / gaussian_kde(X.T)(X.T)
f = gaussian_kde(X.T, weights=w)(x)
f = f / np.sum(f * (x[1] - x[0]))
assert np.allclose(y, f), np.max(np.abs(y - f))
""")

bug("d07-contour-count", "C30", [("base.py", """                ax.annotate(label.format(i=contour + 1), nl, **annotate_opts)
""", """                ax.annotate(label.format(i=i + 1), nl, **annotate_opts)
""")], "annotated contours of a subset of the rows", "labels count the drawn lines instead of naming the rows", """
from mud.base import LinearGaussianProblem
p = LinearGaussianProblem(rng.normal(size=(4, 2)), y=rng.normal(size=4))
fig, ax = plt.subplots()
p.plot_contours(subset=[3, 1], ax=ax, annotate=True)
assert [t.get_text() for t in ax.texts] == ["4", "2"], [t.get_text() for t in ax.texts]
""")

bug("d08-predicted-alpha", "C12", [("base.py", """        dc_term = ip(self.A @ (X - self.mean_i.T).T, self.A @ a_cov_i @ self.A.T)
""", """        dc_term = ip(self.A @ (X - self.mean_i.T).T, self.A @ self.cov_i @ self.A.T)
""")], "a regularisation factor other than one", "the predicted term ignores the factor", """
from mud.base import LinearGaussianProblem
A, S = rng.normal(size=(2, 3)), np.diag([1.0, 2.0, 3.0])
p = LinearGaussianProblem(A, y=rng.normal(size=2), cov_i=S, alpha=4.0)
X = rng.normal(size=(5, 3))
z = A @ X.T
want = np.sum(z * (np.linalg.inv(A @ (4 * S) @ A.T) @ z), axis=0)
assert np.allclose(p.compute_functionals(X, "dc_term"), want)
""")

bug("d09-row-cov", "C14", [("base.py", """                        cov_o=[[self.data_cov[i][i]]],
""", """                        cov_o=[[np.diag(self.data_cov)[len(epoch) - 1]]],
""")], "rows visited in another order, data covariances that differ and a method using them", "a row is solved with the data covariance of another one", """
from mud.base import IterativeLinearProblem, LinearGaussianProblem
A, y, R = rng.normal(size=(3, 2)), rng.normal(size=3), np.diag([1.0, 0.1, 10.0])
p = IterativeLinearProblem(A, np.zeros(3), y, cov=np.eye(2), data_cov=R, idx_order=[2, 0, 1])
x = np.zeros((2, 1))
for i in [2, 0, 1]:
    x = LinearGaussianProblem(A[i : i + 1], y=y[i : i + 1], mean_i=x, cov_i=np.eye(2), cov_o=R[i : i + 1, i : i + 1]).solve("map")
assert np.allclose(p.solve(method="map"), x), (p.solution_chains[-1][-1], x)
""")

bug("d10-split-weights", "C16", [("funs.py", """    d = DensityProblem(lam, q, domain, weights=weights)
    return d""", """    if split is None:
        return DensityProblem(lam, q, domain, weights=weights)
    return DensityProblem(lam, q, domain)""")], "sample weights together with a split", "the weights are dropped", """
from mud.funs import mud_problem
lam, q = rng.uniform(size=(50, 2)), rng.normal(size=(50, 6))
w = rng.uniform(size=50)
d = mud_problem(lam, q, np.zeros(6), [[0, 1], [0, 1]], weights=w, split=np.array([[0, 1, 2], [3, 4, 5]]))
assert np.allclose(d._weights, w)
""")

bug("d11-saved-suffix", "C32", [("plot.py", """    fname = str(Path(save_path) / Path(fname))
""", """    fname = str((Path(save_path) / Path(fname)).with_suffix(".png"))
""")], "a file name with another extension", "the file is written under another name", """
import os, tempfile
from mud.plot import save_figure
with tempfile.TemporaryDirectory() as t:
    plt.figure()
    save_figure("figure.pdf", t)
    assert os.listdir(t) == ["figure.pdf"], os.listdir(t)
""")

bug("d12-ratio-support", "C04", [("base.py", """        return np.average(self._r, weights=self._weights)
""", """        # Only samples with predicted and observed mass matter
        mass = self._r > 0
        return np.average(self._r[mass], weights=self._weights[mass])
""")], "samples outside of the observed density's support", "such samples are left out of the average", """
from mud.base import DensityProblem
X = np.linspace(0, 1, 101).reshape(-1, 1)
d = DensityProblem(X, X, [[0, 1]])
d.set_initial()
d.set_predicted(ds.uniform(0, 1))
d.set_observed(ds.uniform(0.5, 2))
assert np.isclose(d.expected_ratio(), 0.5 * 51 / 101), d.expected_ratio()
""")

bug("d13-method-dropped", "C11", [("funs.py", """    res = lin_prob.solve(num_epochs=num_epochs, method=method)
""", """    res = lin_prob.solve(num_epochs)
""")], "a method other than mud", "the method is ignored", """
from mud.funs import iter_lin_solve
A, y = np.array([[1.0, 1.0], [1.0, -1.0]]), np.array([1.0, 0.0])
a = iter_lin_solve(A, np.zeros(2), y, method="map")
b = iter_lin_solve(A, np.zeros(2), y, method="mud")
assert not np.allclose(a, b), (a, b)
""")

bug("d14-domain-any", "C17", [("base.py", """                [all(domain[:, 0] <= min_max[:, 0]), all(domain[:, 1] >= min_max[:, 1])]
""", """                [all(domain[:, 0] <= min_max[:, 0]), any(domain[:, 1] >= min_max[:, 1])]
""")], "two or more parameters of which one leaves the domain at its upper end", "the domain is accepted", """
from mud.base import SpatioTemporalProblem
p = SpatioTemporalProblem()
p.lam = np.array([[0.0, 0.0], [1.0, 5.0]])
try:
    p.domain = [[0, 1], [0, 2]]
except ValueError:
    pass
else:
    raise AssertionError("accepted")
p.domain = [[0, 1], [0, 6]]
""")

bug("d15-weights-inplace", "C24", [("base.py", """            w = np.array(weights)

            # Reshape to 2D""", """            w = np.asarray(weights)

            # Reshape to 2D"""), ("base.py", """            w = np.prod(w, axis=0)

            if normalize:
                w = np.divide(w, np.linalg.norm(w))
""", """            w = w[0] if len(w) == 1 else np.prod(w, axis=0)

            if normalize:
                w /= np.linalg.norm(w)
""")], "one vector of floating point weights with normalisation", "the caller's weights are normalised in place", """
from mud.base import DensityProblem
w = np.arange(1.0, 11.0)
DensityProblem(np.linspace(0, 1, 10), np.linspace(0, 1, 10), [0, 1], weights=w, normalize=True)
assert np.allclose(w, np.arange(1.0, 11.0)), w
""")

bug("d16-validate-true", "C17", [("base.py", """            req_attrs.append("lam_ref")
            req_attrs.append("true_vals")
""", """            req_attrs.append("true_vals")
""")], "validation with true values but without a reference parameter", "the problem is accepted", """
from mud.base import SpatioTemporalProblem
p = SpatioTemporalProblem({"lam": rng.uniform(size=(5, 1)), "data": rng.normal(size=(5, 3)), "true_vals": np.ones(3), "measurements": np.ones(3)})
try:
    p.validate(check_true=True)
except ValueError:
    pass
else:
    raise AssertionError("accepted")
""")

bug("d17-true-unset", "C35", [("base.py", """        self._lam_ref = None
        self._true_vals = None
""", """        self._lam_ref = None
""")], "true values asked for before they are set", "the attribute does not exist", """
from mud.base import SpatioTemporalProblem
p = SpatioTemporalProblem({"lam": rng.uniform(size=(5, 1)), "data": rng.normal(size=(5, 3))})
assert p.true_vals is None
""")

bug("d18-posterior-kde", "C29", [("base.py", """            return np.exp(self._ps - np.max(self._ps))
""", """            return np.exp(self._ps - np.max(self._ps)) / np.exp(np.max(self._ll))
""")], "a log likelihood of very small values", "the weights overflow", """
""")
BUGS.pop()

bug("d19-shape-col", "C33", [("base.py", """            qoi = np.sum(residuals, axis=1) / np.sqrt(residuals.shape[1])
""", """            qoi = np.sum(residuals, axis=1) / np.sqrt(len(sub_meas.T))
""")], "", "", "")
BUGS.pop()

bug("d20-prior-lower", "C05", [("base.py", """                mn = np.min(self.domain, axis=1)
                mx = np.max(self.domain, axis=1)
                distribution = dist.uniform(loc=mn, scale=mx - mn)
            else:
                distribution = dist.norm()
        self._pr_dist = distribution""", """                mn = np.min(self.domain, axis=1)
                mx = np.max(self.domain, axis=1)
                distribution = dist.uniform(loc=mn, scale=mx)
            else:
                distribution = dist.norm()
        self._pr_dist = distribution""")], "a domain that does not start at zero and no prior", "the default prior is not uniform over the domain", """
from mud.base import BayesProblem
X = np.array([[-0.75, 1.0], [-0.25, 2.5], [0.5, 3.0]])
b = BayesProblem(X, X[:, :1], [[-1, 1], [1, 4]])
b.set_prior()
assert np.allclose(b._pr, 1 / 6), b._pr
""")

bug("d21-observed-flat", "C07", [("base.py", """        self.X = set_shape(np.array(X), (1, -1))
        self.y = set_shape(np.array(y), (1, -1))
""", """        self.X = set_shape(np.array(X), (1, -1))
        self.y = set_shape(np.array(y), (-1, 1) if len(self.X) > 1 else (1, -1))
""")], "", "", "")
BUGS.pop()

bug("d22-mask-order", "C18", [("base.py", """        closest_idx = np.argmin(np.linalg.norm(sub_data - sub_meas.T, axis=1))
""", """        closest_idx = np.argmin(np.abs(np.sum(sub_data - sub_meas.T, axis=1)))
""")], "residuals of both signs", "the sample of smallest total residual is returned, not the nearest one", """
from mud.base import SpatioTemporalProblem
p = SpatioTemporalProblem({"lam": np.array([0.1, 0.9]), "domain": [[0, 1]], "data": np.array([[5.0, -5.0], [0.1, 0.1]]), "measurements": np.zeros(2)})
assert np.allclose(p.get_closest_to_measurements(), [0.9])
""")

bug("d23-epoch-start", "C14", [("funs.py", """        chain += performEpoch(A, b, y, chain[-1], initial_cov, data_cov, idx)
""", """        chain += performEpoch(A, b, y, chain[-2], initial_cov, data_cov, idx)
""")], "two or more epochs", "an epoch starts from the last but one solution", """
from mud.funs import iterate
A, y = rng.normal(size=(3, 2)), rng.normal(size=(3, 1))
c = iterate(A, np.zeros((3, 1)), y, np.zeros((2, 1)), np.eye(2), num_epochs=2)
assert np.allclose(np.ravel(c[3]), np.ravel(c[4])), c
""")

bug("d24-times-first", "C19", [("base.py", """            data_weights = data_weights / np.linalg.norm(data_weights)
            residuals = data_weights * residuals
""", """            data_weights = data_weights / np.linalg.norm(data_weights, 1)
            residuals = data_weights * residuals
""")], "data weights", "the weights are normalised by their sum of absolute values... ", """
from mud.base import SpatioTemporalProblem
Y, m, w = rng.normal(size=(6, 3)), rng.normal(size=3), np.array([1.0, 2.0, 2.0])
p = SpatioTemporalProblem({"lam": rng.uniform(size=(6, 1)), "domain": [[0, 1]], "data": Y, "measurements": m, "std_dev": 0.5})
d = p.mud_problem("wme", data_weights=w)
assert np.allclose(d.y[:, 0], np.sum((m - Y) / 0.5 * w / 3, axis=1) / np.sqrt(3))
""")

bug("d25-mesh-end", "C22", [("plot.py", """    axes = [np.linspace(i, j, aff)[:-1] for i, j in domain]
""", """    axes = [np.linspace(i, j, aff - 1, endpoint=False) for i, j in domain]
""")], "", "", "")
BUGS.pop()

bug("d26-noise-shape", "C27", [("base.py", """            add_noise(self.true_vals.ravel(), self.std_dev, seed=seed),
""", """            add_noise(self.true_vals.ravel(), self.std_dev, seed=seed or None),
""")], "seed zero", "measurements of seed zero are not reproducible", """
from mud.base import SpatioTemporalProblem
p = SpatioTemporalProblem({"lam": rng.uniform(size=(5, 1)), "data": rng.normal(size=(5, 3)), "true_vals": np.ones(3), "std_dev": 0.1})
p.measurements_from_reference(seed=0)
a = p.measurements
p.measurements_from_reference(seed=0)
assert np.allclose(a, p.measurements)
""")

bug("d27-qoi-negative", "C31", [("base.py", """        if terms not in ("all", "data", "reg", "dc_term", "reg_m", "bayes", "dc"):
            raise ValueError""", """        if not terms.startswith(("all", "data", "reg", "dc", "bayes")):
            raise ValueError""")], "a term that starts like a known one", "every functional is returned", """
from mud.base import LinearGaussianProblem
p = LinearGaussianProblem(np.array([[1.0, 2.0]]))
try:
    p.compute_functionals(np.ones((3, 2)), "data_term")
except ValueError:
    pass
else:
    raise AssertionError("accepted")
""")
