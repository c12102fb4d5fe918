# Importing and saving
import os
import matplotlib.pyplot as plt
import mud
import mud.examples.simple
import mud.examples.exp_decay
import mud.examples.linear
import mud.examples.poisson
import mud.examples.adcirc
import mud.examples.comparison
import mud.examples.fenics
import mud.examples.examples
import mud.cli


def ob_import():
    check("effects of importing the library", import_effects(), [])


def one_file(fig, path, options):
    return [(fig, path, options)]


def written():
    return [(f, p) for f, p, o in figure_files()]


def others(*kinds):
    return effects("openwrite", "filewrite", "path_mkdir", "path_unlink", "path_touch", "path_rename", "path_replace", "path_write_text", "path_write_bytes", "path_rmdir", "extcall", "newfig", "draw", "seed")


def ob_save(
    name=["plot.png", "a/b.pdf", "noext", "dir.v2/x.svg", "with space.png"],
    where=["default", "out", "out/deep", ".", "", "out/", "/abs/dir", "../up"],
    close=["default", "yes", "no"],
    options=["none", "some"],
):
    fig, ax = plt.subplots()
    kw = {} if options == "none" else {"dpi": 300, "bbox_inches": "tight", "transparent": True}
    before = others()
    if where != "default":
        kw["save_path"] = where
    if close != "default":
        kw["close_fig"] = close == "yes"
    P.save_figure(name, **kw)
    folder = "figures" if where == "default" else where
    check("one file", len(figure_files()), 1)
    check("figure", [f for f, p, o in figure_files()], [fig])
    check("file", [p for f, p, o in figure_files()], [os.path.normpath(os.path.join(folder, name))])
    opts = {} if options == "none" else {"dpi": 300, "bbox_inches": "tight", "transparent": True}
    check("options", [o for f, p, o in figure_files()], [opts])
    check("closed", closed(), [] if close == "no" else [fig])
    check("nothing else", others(), before)


def ob_save_positional(close=[0, 1]):
    fig, ax = plt.subplots()
    before = others()
    P.save_figure("x.png", "there", bool(close), dpi=50)
    check("files", figure_files(), [(fig, "there/x.png", {"dpi": 50})])
    check("closed", closed(), [fig] if close else [])
    check("nothing else", others(), before)


def ob_save_any_name(close=[0, 1]):
    fig, ax = plt.subplots()
    name, folder = text("name"), text("folder")
    assume(name != "")
    assume(folder != "")
    P.save_figure(name, folder, bool(close), dpi=real("dpi"))
    check("figure and options", [(f, o) for f, p, o in figure_files()], [(fig, {"dpi": real("dpi")})])
    check("closed", closed(), [fig] if close else [])


def ob_save_any_flag():
    fig, ax = plt.subplots()
    P.save_figure("x.png", "there", False)
    other, bx = plt.subplots()
    P.save_figure("y.png", "there", True)
    P.save_figure("x.png", "there", False)
    check("files", [(f, p) for f, p, o in figure_files()][:2], [(fig, "there/x.png"), (other, "there/y.png")])
    check("closed", closed(), [other])


def ob_save_leaves_others(n=[1, 2]):
    """figures opened before stay open"""
    first, a = plt.subplots()
    second, b = plt.subplots()
    P.save_figure("x.png", "there")
    check("figure", [f for f, p, o in figure_files()], [second])
    check("closed", closed(), [second])


def ob_plots_save_nothing():
    n = D("n")
    ax = Axes("ax")
    d = DensityProblem(arr("X", n, 2), arr("Y", n, 2), domain(2))
    d.fit()
    d.plot_param_space(ax=ax, aff=4)
    d.plot_obs_space(ax=ax, aff=4)
    d.plot_qoi(ax=ax)
    d.plot_params_2d(ax=ax)
    lp = LinearGaussianProblem(arr("A", 2, 2))
    lp.plot_contours(arr("ref", 2), ax=ax)
    lp.plot_sol("initial", ax=ax)
    lp.plot_fun_contours(ax=ax, N=3)
    check("files", effects("savefig", "openwrite", "filewrite", "close", "path_mkdir", "path_unlink"), [])
