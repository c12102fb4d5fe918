H = "import numpy as np\nimport matplotlib\nmatplotlib.use('Agg')\nimport matplotlib.pyplot as plt\nfrom scipy.stats import distributions as ds\nfrom scipy.stats import gaussian_kde\nrng = np.random.default_rng(7)\n"
BUGS = []


def bug(bid, prop, edits, needs="", breaks="", demo=""):
    BUGS.append((bid, prop, edits, needs, breaks, H + demo))


U, F, P, N, R, B = "util.py", "funs.py", "plot.py", "norm.py", "preprocessing.py", "base.py"
bug("f01-wme-sd", "C15", [(F, "    sd = np.std(data) if sd is None else sd\n", "    sd = np.std(data, ddof=1) if sd is None else sd\n")])
bug("f02-wme-len", "C15", [(F, "    if N != len(data):\n", "    if N < len(data):\n")])
bug("f03-wme-row", "C15", [(F, "predictions.reshape(1, -1) if predictions.ndim == 1 else predictions", "predictions.reshape(len(data), -1).T if predictions.ndim == 1 else predictions")])
bug("f04-mud-y", "C11", [(F, "    mud_pt = lp.solve(method=\"mud\")\n    mud_pt = mud_pt if np.array(y).ndim > 1 else mud_pt.ravel()", "    mud_pt = lp.solve(method=\"mud\")\n    mud_pt = mud_pt if np.array(y).size > 1 and np.array(y).ndim > 1 else mud_pt.ravel()")])
bug("f05-map-w", "C11", [(F, "def map_sol(A, b, y=None, mean=None, cov=None, data_cov=None, w=1):", "def map_sol(A, b, y=None, mean=None, cov=None, data_cov=None, w=1, _c={}):")])
bug("f06-iter-order", "C11", [(F, "        idx_order=idx_order,\n    )\n    res", "        idx_order=idx_order or None,\n    )\n    res")])
bug("f07-iterate-dup", "C14", [(F, "        chain += performEpoch(A, b, y, chain[-1], initial_cov, data_cov, idx)\n", "        chain += performEpoch(A, b, y, chain[-1], initial_cov, data_cov, idx)[1:]\n")])
bug("f08-epoch-mean", "C14", [(F, "        _mean = mud_chain[-1]\n    return", "        _mean = 0.5 * (mud_chain[-1] + mud_chain[-2]) if len(mud_chain) > 3 else mud_chain[-1]\n    return")])
bug("f09-data-domain", "C20", [(F, '        "lam_ref": lam_ref,\n', '        "lam_ref": lam_ref if domain is not None else None,\n')])
bug("f10-data-method", "C20", [(F, "    D = sp_prob.mud_problem(method=method)\n", "    D = sp_prob.mud_problem(method=method, times_mask=idxs)\n")])
bug("f11-data-init", "C20", [(F, "    D.set_initial(init_dist)\n", "    D.set_initial(init_dist if domain is None else None)\n")])
bug("f12-map-noise", "C16", [(F, "    data = qoi_true[0:num_obs] + np.random.randn(num_obs) * sd\n    like", "    data = qoi_true[0:num_obs] + np.random.randn(dim_output)[:num_obs] * sd\n    like")])
bug("f13-map-scale", "C16", [(F, "dists.norm(loc=data, scale=sd)", "dists.norm(loc=data, scale=sd if num_obs > 1 else sd * np.sqrt(num_obs))")])
bug("f14-split-used", "C16", [(F, "qoi_indices[qoi_indices < num_obs]", "qoi_indices[:num_obs]")])
bug("f15-split-order", "C16", [(F, "            _q = qoi_indices[qoi_indices < num_obs]\n", "            _q = np.unique(qoi_indices[qoi_indices < num_obs])\n")])
bug("f16-num-obs", "C16", [(F, "    elif num_obs < 1:\n        raise ValueError(\"num_obs must be >= 1\")\n    elif num_obs > dim_output:\n        raise ValueError(\"num_obs must be <= dim(qoi)\")\n\n    # TODO: handle", "    elif num_obs < 1:\n        raise ValueError(\"num_obs must be >= 1\")\n    num_obs = min(num_obs, dim_output)\n\n    # TODO: handle")])
bug("f17-setup-zip", "C15", [(U, "        std_list = [std_list] * len(data_list)\n", "        std_list = [std_list] * np.size(data_list[0])\n")])
bug("f18-null-rel", "C21", [(U, "    num = np.sum(s > tol, dtype=int)\n", "    num = int(np.searchsorted(-s, -tol, side='right'))\n")])
bug("f19-null-rank", "C21", [(U, "    Q = vh[num:, :].T.conj()\n", "    Q = vh[max(num, 1) :, :].T.conj()\n")])
bug("f20-null-eps", "C21", [(U, "eps * max(M, N)\n", "eps * N\n")])
bug("f21-mesh-int", "C22", [(U, "    Y = np.linspace(0, window, N)\n", "    Y = np.linspace(0, 1, N) * window\n")])
bug("f22-noise-int", "C22", [(U, "    noise = np.random.randn(*signal.shape) * sd\n", "    noise = np.random.randn(signal.size).reshape(signal.shape, order='F') * sd\n")])
bug("f23-domain-pad", "C22", [(U, "    pad = pad_ratio * (min_max_bounds[:, 1] - min_max_bounds[:, 0])\n", "    pad = pad_ratio * np.abs(min_max_bounds).max(axis=1)\n")])
bug("f24-domain-scalarpad", "C22", [(U, "    pad = pad_ratio * (min_max_bounds[:, 1] - min_max_bounds[:, 0])\n", "    pad = pad_ratio * np.ptp(min_max_bounds)\n")])
bug("f25-rank-sum", "C21", [(U, "        A_ranks.append(sum(rank_1_updates[0 : i + 1]))\n", "        A_ranks.append(sum(rank_1_updates[max(0, i - 2) : i + 1]))\n")])
bug("f26-norm-mean", "C12", [(N, "    X = (inputs - initial_mean.T).T\n    return", "    X = (inputs - np.mean(initial_mean, axis=-1)).T\n    return")])
bug("f27-norm-int", "C12", [(N, "        observed_cov = observed_cov * np.eye(len(data))\n", "        observed_cov = observed_cov**2 * np.eye(len(data))\n")])
bug("f28-pred-scalar", "C12", [(N, "        initial_cov = initial_cov * np.eye(len(initial_mean))\n    predicted_cov", "        initial_cov = initial_cov * np.eye(operator.shape[0])\n    predicted_cov")])
bug("f29-pca-2", "C23", [(R, "    X_train = pca.fit_transform(sc.fit_transform(data))\n", "    X = sc.fit_transform(data)\n    X_train = pca.fit(X).transform(data)\n")])
bug("f30-svd-thin", "C23", [(R, "    U, S, V = np.linalg.svd(X, **kwargs)\n", "    U, S, V = np.linalg.svd(X, **{'full_matrices': X.shape[0] < 1000, **kwargs})\n")])
bug("f31-pca-ndim", "C23", [(R, "    ndim = np.array(data).ndim\n    if ndim != 2:\n        raise ValueError(f\"Data is {ndim} dimensional. Must be 2D\")\n\n    # Standarize and perform linear", "    ndim = np.array(data).ndim\n    if ndim < 2:\n        raise ValueError(f\"Data is {ndim} dimensional. Must be 2D\")\n    data = np.reshape(data, (len(data), -1))\n    # Standarize and perform linear")])
bug("f32-chain-skip", "C30", [(P, "        next_point = mud_chain[i]\n        points = np.hstack", "        next_point = mud_chain[min(i + 1, num_steps - 2)] if i else mud_chain[i]\n        points = np.hstack")])
bug("f33-contour-number", "C30", [(P, "        plt.annotate(\"%d\" % (contour + 1), ", "        plt.annotate(\"%d\" % (i + 1), ")])
bug("f34-contour-w", "C30", [(P, "ref_param[1] + w * AA[i, 1]]", "ref_param[1] + AA[i, 1]]")])
bug("f35-dist-scale", "C29", [(P, "    total = np.sum(plot_y * np.abs(plot_x[1] - plot_x[0]))\n", "    total = np.trapz(plot_y, plot_x)\n")])
bug("f36-dist-domain", "C29", [(P, "    domain = np.reshape(domain, (-1, 2))\n", "    domain = np.sort(np.reshape(domain, (-1, 2)), axis=0)\n")])
bug("f37-marg-axis", "C29", [(P, "        plot_y = margins(np.reshape(dist(grid), mesh[idx].shape))[idx].reshape(-1)\n", "        plot_y = margins(np.reshape(dist(grid), mesh[idx].shape, order='F'))[idx].reshape(-1)\n")])
bug("f38-vert-lim", "C29", [(P, "    ax.plot([x_loc, x_loc], [ylims[0], ylims[1]], **kwargs)\n", "    ax.plot([x_loc, x_loc], [0, ylims[1]], **kwargs)\n")])
bug("f39-save-close", "C32", [(P, "    plt.savefig(fname, **kwargs)\n", "    fig = plt.gcf()\n    fig.tight_layout()\n    plt.savefig(fname, **{'dpi': 300, **kwargs})\n")])
bug("f40-vec-kwargs", "C44", [(P, "            kwargs[\"marker\"] = markers[i]\n", "            kwargs.setdefault(\"marker\", markers[i])\n")])
bug("f41-vec-label", "C44", [(P, "label=f\"$p^{{({i+1})}}$\"", "label=f\"$p^{{({len(v)})}}$\"")])
bug("f42-mesh-normal", "C22", [(P, "    Y = np.linspace(-window, window, N)\n", "    Y = np.linspace(-window, window, N, endpoint=window >= 1)\n")])
bug("f43-grid-order", "C22", [(P, "    grid_points = np.vstack([x.ravel() for x in mesh])\n", "    grid_points = np.vstack([x.ravel(order='K') for x in mesh])\n")])
bug("f44-seed-neg", "C27", [(U, "    if seed is not None:\n        np.random.seed(seed)\n", "    if seed is not None and seed >= 0:\n        np.random.seed(seed)\n    elif seed is not None:\n        np.random.seed(None)\n")])
bug("f45-seed-after", "C27", [(U, "    return signal + noise\n", "    if seed is not None:\n        np.random.seed(None)\n    return signal + noise\n")])
bug("f46-cov-default", "C10", [(F, "        data_cov = np.eye(X.shape[0])\n", "        data_cov = np.eye(*X.shape) if X.shape[0] <= X.shape[1] else np.eye(X.shape[0])\n")])
bug("f47-funs-sorted", "C14", [(F, "        idx = range(dim_out)\n", "        idx = range(len(y))\n")])
bug("f48-std-equip", "C22", [(U, "    standard_deviation = tolerance / (erfinv(probability) * np.sqrt(2))\n", "    standard_deviation = tolerance / np.sqrt(2) * erfinv(probability) ** -1 if probability < 1 else 0\n")])
