"""What the analysed code draws, and where: figure and axes operations recorded as events.

The pyplot state ("current axes") is part of the abstract state, so drawing through pyplot is
attributed to the axes that would be current.
"""
from . import sym as S
from . import lib as L
from .sym import Node, Arr
from .interp import A, Ref, X, HArr, HCell, HList, Unknown

# pyplot functions that act on the current axes -> axes method
ON_AXES = {k: k for k in """plot scatter annotate contour contourf tricontour tricontourf tripcolor pcolor pcolormesh hist hist2d
axvline axhline axvspan axhspan vlines hlines text fill fill_between errorbar semilogx semilogy loglog bar barh imshow step stem
quiver legend grid axis clabel margins boxplot stackplot arrow table minorticks_on tick_params""".split()}
ON_AXES.update(xlabel="set_xlabel", ylabel="set_ylabel", title="set_title", xlim="set_xlim", ylim="set_ylim", xscale="set_xscale", yscale="set_yscale",
               xticks="set_xticks", yticks="set_yticks", cla="cla")


def snap(I, v):
    v = I.res(v)
    if v is None or isinstance(v, str) or L.isstr(v):
        return v
    try:
        return L.asarr(I, v)
    except Unknown:
        return X("opq", I.freeze(v))


def cur(I):
    return I.res(I.obj(I.curax).v)


def set_cur(I, ax):
    I.put(I.curax, HCell(ax))


def record(I, o, name, args, kw):
    I.event("ax", o.node, name, S.mk("tuple", *[I.freeze(a) for a in args]), S.mk("dict", *[S.mk("item", S.string(k), I.freeze(v)) for k, v in sorted(kw.items())]))
    ev = I.st.events[-1]
    ev.data = ([snap(I, a) for a in args], {k: snap(I, v) for k, v in kw.items()})


# ------------------------------------------------------------------ reading the events
def flat(I, a):
    """1-d form of drawn coordinates"""
    if a.ndim == 0:
        return S.build((S.ONE,), lambda i: a.at(()))
    if a.ndim == 1:
        return a
    return L.flatten_arr(I, a)


def lines_of(I, args, kw):
    """[(x, y)] of the lines a plot call draws"""
    args = list(args)
    out = []
    while args:
        if isinstance(args[0], (str,)) or L.isstr(args[0]):
            args.pop(0)
            continue
        x = args.pop(0)
        y = None
        if args and isinstance(args[0], Arr):
            y = args.pop(0)
        if not isinstance(x, Arr) or not (y is None or isinstance(y, Arr)):
            raise Unknown("plotted value without a model")
        if y is None:
            y = x
            x = S.build(y.dims[:1], lambda i: i) if y.ndim else S.build((S.ONE,), lambda i: S.ZERO)
        if y.ndim > 1 and y.dims[1] is not S.ONE or x.ndim > 1 and x.dims[1] is not S.ONE:
            cols = y.dims[1] if y.ndim > 1 else x.dims[1]
            if not S.isnum(cols):
                raise Unknown("a symbolic number of plotted columns")
            for c in range(int(S.val(cols))):
                col = lambda a: S.build(a.dims[:1], lambda i: a.at((i, S.num(c)) if a.dims[1] is not S.ONE else (i, S.ZERO))) if a.ndim > 1 else a
                out.append((flat(I, col(x)), flat(I, col(y))))
        else:
            out.append((flat(I, x), flat(I, y)))
    return out


class Canvas:
    """client helpers"""

    def events(self, kinds, node=None):
        I = self.I
        out = []
        for e in I.st.events[len(self.st0.events):]:
            if e.kind not in kinds:
                continue
            if node is not None and e.args[0] is not node:
                continue
            p = S.and_(*e.path[len(self.st0.path):])
            f = I.st.facts
            m = {k: f[k] for k in p.mk if k in f}
            p = S.subst(p, m) if m else p
            p = I.simp(p)
            if p is S.FALSE:
                continue
            if p is not S.TRUE and S.contradictory({**{k: v for k, v in f.items() if k.cond}, **({p: S.TRUE} if p.cond else {})}):
                continue
            out.append((e, p))
        return out

    def sure(self, kinds, ax, names):
        out = []
        for e, p in self.events(kinds, ax):
            if e.args[1] not in names:
                continue
            if p is not S.TRUE:
                raise Unknown("drawn under a condition: %s" % S.show(p)[:200])
            if e.loops or e.data is None:
                raise Unknown("drawn in a loop of unknown length")
            out.append(e)
        return out

    def axnode(self, v):
        v = self.I.res(v)
        if v is None:
            return self.own_axes()
        if isinstance(v, X) and v.kind == "axes":
            return v.node
        raise Unknown("axes value")

    def own_axes(self):
        seen = []
        for e, p in self.events(("ax",)):
            if e.args[0] not in seen:
                seen.append(e.args[0])
        if len(seen) != 1:
            raise Unknown("%d axes drawn on" % len(seen))
        return seen[0]

    def pair(self, x, y):
        return (self.I.new(x), self.I.new(y))

    def h_curves(self, I, args, kw):
        """[(x, y)] of the lines drawn on the axes, optionally only those with a label"""
        ax, lab = self.axnode(args[0]), args[1] if len(args) > 1 else None
        out = []
        for e in self.sure(("ax",), ax, ("plot", "semilogy", "semilogx", "loglog", "vlines")):
            a, k = e.data
            if lab is not None and not self.same(k.get("label"), lab):
                continue
            if e.args[1] == "vlines":
                a = list(a) + [k[q] for q in ("x", "ymin", "ymax")[len(a):]]
                x, y0, y1 = [flat(I, v) for v in a[:3]]
                two = lambda u, v: S.build((S.num(2),), lambda i: S.select(i, [u.at((S.ZERO,)), v.at((S.ZERO,))]))
                out.append(self.pair(two(x, x), two(y0, y1)))
                continue
            out += [self.pair(x, y) for x, y in lines_of(I, a, k)]
        return I.newlist(out)

    def same(self, v, lab):
        if v is lab or v == lab:
            return True
        return isinstance(v, Node) and v is self.I.freeze(lab)

    def h_marks(self, I, args, kw):
        """positions of the vertical lines with a label"""
        ax, lab = self.axnode(args[0]), args[1] if len(args) > 1 else None
        out = []
        for e in self.sure(("ax",), ax, ("plot", "vlines", "axvline")):
            a, k = e.data
            if lab is not None and not self.same(k.get("label"), lab):
                continue
            if e.args[1] == "plot":
                for x, y in lines_of(I, a, k):
                    out.append(I.new(x))
            else:
                v = a[0] if a else k["x"]
                v = flat(I, v).at((S.ZERO,))
                out.append(I.new(S.build((S.num(2),), lambda i: v)))
        return I.newlist(out)

    def h_points(self, I, args, kw):
        """[(x, y)] of the markers drawn"""
        ax, lab = self.axnode(args[0]), args[1] if len(args) > 1 else None
        out = []
        for e in self.sure(("ax",), ax, ("scatter",)):
            a, k = e.data
            if lab is not None and not self.same(k.get("label"), lab):
                continue
            a = list(a) + [k[q] for q in ("x", "y")[len(a):]]
            if not (isinstance(a[0], Arr) and isinstance(a[1], Arr)):
                raise Unknown("plotted value without a model")
            out.append(self.pair(flat(I, a[0]), flat(I, a[1])))
        return I.newlist(out)

    def h_colours(self, I, args, kw):
        """colour values of the markers drawn"""
        out = []
        for e in self.sure(("ax",), self.axnode(args[0]), ("scatter",)):
            a, k = e.data
            c = k.get("c", k.get("color", a[3] if len(a) > 3 else None))
            out.append(I.new(flat(I, c)) if isinstance(c, Arr) else c)
        return I.newlist(out)

    def h_notes(self, I, args, kw):
        """[(text, x, y)] of the annotations"""
        out = []
        for e in self.sure(("ax",), self.axnode(args[0]), ("annotate", "text")):
            a, k = e.data
            if e.args[1] == "text":
                a = list(a) + [k[q] for q in ("x", "y", "s")[len(a):]]
                t, x, y = a[2], flat(I, a[0]).at((S.ZERO,)), flat(I, a[1]).at((S.ZERO,))
            else:
                a = list(a) + [k[q] for q in ("text", "xy")[len(a):]]
                t, xy = a[0], a[1]
                if not isinstance(xy, Arr):
                    raise Unknown("annotated position")
                xy = flat(I, xy)
                x, y = xy.at((S.ZERO,)), xy.at((S.ONE,))
            out.append((t, x, y))
        return I.newlist(out)

    def h_surfaces(self, I, args, kw):
        """[(x, y, z)] of the contour plots"""
        out = []
        for e in self.sure(("ax",), self.axnode(args[0]), ("contour", "contourf", "tricontour", "tricontourf", "pcolormesh", "tripcolor")):
            a, k = e.data
            if len(a) < 3 or not all(isinstance(v, Arr) for v in a[:3]):
                raise Unknown("contoured value without a model")
            out.append((e.args[1], I.new(a[0]), I.new(a[1]), I.new(a[2])))
        return I.newlist(out)

    def lasttext(self, ax, op, word, key):
        """text of the last call of op, or of set(key=...)"""
        out = None
        for e in self.sure(("ax",), self.axnode(ax), (op, "set")):
            a, k = e.data
            if e.args[1] == "set":
                out = k.get(key, out)
            else:
                out = a[0] if a else k.get(word)
        return out

    def h_labels(self, I, args, kw):
        """text of the last label given to an axis: labels(ax, 'x')"""
        return self.lasttext(args[0], "set_%slabel" % args[1], args[1] + "label", args[1] + "label")

    def h_title(self, I, args, kw):
        return self.lasttext(args[0], "set_title", "label", "title")

    def h_option(self, I, args, kw):
        """values of one keyword over the operations of a name (None where it is absent): option(ax, 'scatter', 's')"""
        return I.newlist([self.back(e.data[1].get(args[2])) for e in self.sure(("ax",), self.axnode(args[0]), (args[1],))])

    def back(self, v):
        return self.I.new(v) if isinstance(v, Arr) else v

    def h_bars(self, I, args, kw):
        """number of colour bars attached to the figure of the axes"""
        return len(self.colourbars(self.axnode(args[0])))

    def colourbars(self, ax):
        fig = L.figof(ax)
        return [e for e, p in self.events(("fig",), fig) if e.args[1] == "colorbar"] + [e for e, p in self.events(("pltbar",)) if e.args[0] is ax]

    def h_astray(self, I, args, kw):
        """operations that touch anything but the given axes (None: one new figure's axes) and their figure"""
        ax = I.res(args[0])
        out = []
        evs = self.events(("ax", "fig", "plt", "newfig", "pltbar", "rcset", "savefig", "close"))
        new = [e for e, p in evs if e.kind == "newfig"]
        if ax is None:
            own = []
            for e, p in evs:
                if e.kind == "ax" and e.args[0] not in own:
                    own.append(e.args[0])
            if len(new) != 1:
                out.append("%d new figures" % len(new))
            if len(own) > 1:
                out.append("%d axes" % len(own))
            for o in own[:1]:
                f = L.figof(o)
                if not any(e.args[0] is f for e in new):
                    out.append("axes of another figure")
            node = own[0] if own else None
        else:
            node = ax.node
            for e in new:
                out.append("new figure at %s:%s" % (e.site[1], e.site[2]))
        for e, p in evs:
            where = "%s:%s" % (e.site[1], e.site[2]) if e.site else "?"
            if e.kind == "ax" and e.args[0] is not node and ax is not None:
                out.append("%s on other axes at %s" % (e.args[1], where))
            elif e.kind == "fig":
                if node is None or e.args[0] is not L.figof(node):
                    out.append("%s on another figure at %s" % (e.args[1], where))
                elif e.args[1] == "colorbar":
                    d = e.data
                    a = d[1].get("ax", d[0][2] if len(d[0]) > 2 else None)
                    a = a.node if isinstance(a, X) else None
                    if a is not None and any(q is not node for q in (a.args if a.op in ("list", "tuple") else (a,))):
                        out.append("colour bar on other axes at %s" % where)
                    c = d[1].get("cax", d[0][1] if len(d[0]) > 1 else None)
                    if c is not None and (not isinstance(c, X) or L.figof(c.node) is not L.figof(node)):
                        out.append("colour bar on other axes at %s" % where)
                elif e.args[1] in ("clf", "clear"):
                    out.append("%s at %s" % (e.args[1], where))
            elif e.kind == "pltbar" and e.args[0] is not node:
                out.append("colour bar on the current figure at %s" % where)
            elif e.kind == "plt" and e.args[0] not in ("sca", "getp", "setp", "get_cmap", "get_current_fig_manager"):
                out.append("pyplot.%s at %s" % (e.args[0] if isinstance(e.args[0], str) else S.show(e.args[0]), where))
            elif e.kind in ("savefig", "close"):
                out.append("%s at %s" % (e.kind, where))
        return I.newlist(out)

    def h_current_axes(self, I, args, kw):
        return cur(I)

    def h_figure_files(self, I, args, kw):
        """[(figure, file, options)] of the figures written"""
        return I.newlist([(X("figure", e.args[0]), X("path", e.args[1]), X("term", e.args[2])) for e, p in self.certain("savefig")])

    def h_closed(self, I, args, kw):
        return I.newlist([X("term", e.args[0]) for e, p in self.certain("close")])

    def certain(self, kind):
        out = self.events((kind,))
        if any(p is not S.TRUE or e.loops for e, p in out):
            raise Unknown("%s under a condition" % kind)
        return out

    def h_effects(self, I, args, kw):
        """names of the recorded operations of the given kinds"""
        out = []
        for e, p in self.events(tuple(args)):
            out.append("%s %s at %s" % (e.kind, " ".join(a if isinstance(a, str) else S.show(a)[:120] for a in e.args[:2]), "%s:%s" % (e.site[1], e.site[2]) if e.site else "?"))
        return I.newlist(out)

    HARMLESS = {"open": (), "path": ("parent", "name", "suffix", "stem", "parts", "is_absolute", "relative_to", "with_suffix", "with_name", "read_text", "read_bytes", "iterdir", "glob", "stat")}

    def h_import_effects(self, I, args, kw):
        """what importing the library did to files, figures and the random generator"""
        evs = self.st0.events
        made = [e.args[0] for e in evs if e.kind == "newfig"]
        shut = [e.args[0] for e in evs if e.kind == "close"]
        out = []
        for e in evs:
            where = "%s:%s" % (e.site[0], e.site[2]) if e.site else "?"
            k = e.kind
            if k in ("openwrite", "filewrite", "savefig"):
                out.append("%s at %s" % (k, where))
            elif k.startswith("path_") and k[5:] not in self.HARMLESS["path"]:
                out.append("%s at %s" % (k, where))
            elif k == "extcall" and (e.args[0].split(".")[0] in ("shutil", "subprocess", "tempfile") or e.args[0].startswith("os.") and not e.args[0].startswith(("os.path.", "os.environ", "os.getenv", "os.getcwd", "os.cpu_count", "os.fspath", "os.sep"))):
                out.append("%s at %s" % (e.args[0], where))
            elif k in ("draw", "seed"):
                out.append("%s of the random generator at %s" % (k, where))
            elif k == "close" and not any(e.args[0] is m for m in made):
                out.append("closes a figure at %s" % where)
            elif k == "newfig" and not any(e.args[0] is c for c in shut):
                out.append("opens a figure at %s" % where)
            elif k == "plt" and e.args[0] not in ("ion", "ioff", "rc", "get_backend", "isinteractive"):
                out.append("pyplot.%s at %s" % (e.args[0] if isinstance(e.args[0], str) else S.show(e.args[0]), where))
            elif k == "ax" and e.args[0].op != "axof":
                out.append("%s on the current axes at %s" % (e.args[1], where))
        if self.st0.rng is not S.sym("rng0") and not any("random" in o for o in out):
            out.append("the random generator changes")
        return I.newlist(out)

    def h_rng(self, I, args, kw):
        """state of the global random generator"""
        return X("term", I.st.rng)
