"""C23: plots show the data."""
import os
import shutil
import numpy as np
import matplotlib.pyplot as plt
from matplotlib.collections import PathCollection, PolyCollection
from hypothesis import strategies as st
from scipy.spatial import ConvexHull, Delaunay
from ..core import Sub
from .. import gen, ref
from active_subspaces.utils import plotters as pl

RULE = ("Eigenvalues, bootstrap ranges, 1..6 eigenvectors, summary data in 1 and 2 dimensions, zonotopes with and without "
        "designs and coloured points; with and without saving, labels, options.  The figure objects that matplotlib "
        "(Agg) holds are read back.  Non-trivial: optional data are drawn too, or files are written.")
ASSUMPTIONS = ["Marker sizes, colours, fonts and line styles are not part of the property"]


@st.composite
def case(draw):
    return {"fn": draw(st.sampled_from(["eigenvalues", "subspace_errors", "eigenvectors", "eigenvectors", "summary1",
                                       "summary2", "zonotope", "zonotope"])),
            "k": draw(st.integers(1, 6)), "m": draw(st.integers(2, 7)), "M": draw(gen.dim(3, 30)), "seed": draw(gen.SEED),
            "br": draw(st.booleans()), "label": draw(st.sampled_from([None, "lift", "a b"])),
            "in_labels": draw(st.booleans()), "design": draw(st.booleans()), "pts": draw(st.booleans()),
            "save": draw(st.integers(0, 5)) == 0, "ftype": draw(st.sampled_from([".png", ".svg"])),
            "sc": draw(st.sampled_from([1.0, 1.0, 100.0, 1e-3])), "ddim": draw(st.booleans()),
            "shift": draw(st.sampled_from([0.0, 0.0, 5.0, -5.0])),
            "many": draw(gen.many(2600)) if draw(st.integers(0, 11)) == 0 else 0, "outlier": draw(st.integers(0, 2)) == 0}


def line_with(cx, ax, x, y, what):
    x, y = np.asarray(x, dtype=float).ravel(), np.asarray(y, dtype=float).ravel()
    for l in ax.lines:
        a, b = np.asarray(l.get_xdata(), dtype=float).ravel(), np.asarray(l.get_ydata(), dtype=float).ravel()
        if a.shape == x.shape and np.array_equal(a, x) and np.array_equal(b, y) and l.get_visible():
            return l
    cx.fail("no line shows " + what)


def band_with(cx, ax, x, lo, hi, what):
    """A filled band that has exactly the corners (x, lo) and (x, hi)."""
    want = set((float(a), float(b)) for a, b in zip(x, lo)) | set((float(a), float(b)) for a, b in zip(x, hi))
    for c in ax.collections:
        if isinstance(c, PolyCollection):
            have = set((float(a), float(b)) for p in c.get_paths() for a, b in p.vertices)
            if want <= have and all(min(abs(h[0] - w[0]) for w in want) < 1e-9 for h in have):
                return
    cx.fail("no band shows " + what)


def scatter_with(cx, ax, x, y, col, what):
    for c in ax.collections:
        if isinstance(c, PathCollection):
            o = np.asarray(c.get_offsets())
            if len(o) == len(x) and np.array_equal(o[:, 0], x) and np.array_equal(o[:, 1], y):
                a = np.asarray(c.get_array(), dtype=float).ravel()
                cx.ok(np.array_equal(a, col), "colours of {} are not the values given", what)
                cx.ok(c.get_clim() == (col.min(), col.max()), "colour range of {} is {}", what, c.get_clim())
                return
    cx.fail("no points show " + what)


def inside(cx, ax, x, y, what):
    (a, b), (c, d) = sorted(ax.get_xlim()), sorted(ax.get_ylim())
    cx.ok(np.all((x >= a) & (x <= b)) and np.all((y >= c) & (y <= d)), "{} lie outside the axes", what)


def uncovered(cx, fig, ax):
    """No other axes with a background lie on top of ax."""
    fig.canvas.draw()
    p = ax.get_window_extent()
    for o in fig.axes:
        if o is not ax and o.patch.get_visible() and o.get_visible() and \
                (o.zorder, fig.axes.index(o)) > (ax.zorder, fig.axes.index(ax)):
            q = o.get_window_extent()
            w = min(p.x1, q.x1) - max(p.x0, q.x0)
            h = min(p.y1, q.y1) - max(p.y0, q.y0)
            cx.ok(min(w, h) <= 1.0, "the data are hidden under other axes")


def check(c, cx):
    R = np.random.RandomState(c["seed"])
    plt.close("all")
    here = os.getcwd()
    d = os.path.join(here, "plots")
    os.mkdir(d)
    os.chdir(d)
    try:
        run(c, cx, R)
    finally:
        plt.close("all")
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)
    cx.label(c["fn"], "saved" if c["save"] else "not saved")


def run(c, cx, R):
    opts = pl.plot_opts(savefigs=c["save"], figtype=c["ftype"])
    cx.ok(opts["savefigs"] == c["save"] and opts["figtype"] == c["ftype"] and "myfont" in opts, "options: {}", opts)
    cx.ok(os.path.isdir("figs") == c["save"], "figs directory: {}", os.path.isdir("figs"))
    opts["myfont"] = {"family": "sans-serif", "weight": "normal", "size": 14}
    kw = {"opts": opts}
    if c["label"] is not None:
        kw["out_label"] = c["label"]
    label = c["label"] or "Output"
    m, sc = c["m"], c["sc"]
    k = min(c["k"], m)
    names = []
    if c["fn"] == "eigenvalues":
        e = np.sort(R.uniform(0.1, 1, size=(m, 1)), axis=0)[::-1] * sc
        wd = R.choice([0.2, 1.0, 3.0])          # ranges of up to three decades on either side
        br = np.hstack((e * 10.0 ** -R.uniform(0, wd, size=(m, 1)), e * 10.0 ** R.uniform(0, wd, size=(m, 1)))) if c["br"] else None
        e0 = e.copy()
        pl.eigenvalues(e, e_br=br, **kw) if c["br"] else pl.eigenvalues(e, **kw)
        cx.ok(np.array_equal(e, e0), "the eigenvalues were changed")
        fig = plt.gcf()
        ax = fig.axes[0]
        line_with(cx, ax, range(1, m + 1), e, "the eigenvalues")
        cx.ok(ax.get_yscale() == "log", "not a logarithmic plot")
        inside(cx, ax, np.arange(1, m + 1), e[:, 0], "eigenvalues")
        if c["br"]:
            band_with(cx, ax, range(1, m + 1), br[:, 0], br[:, 1], "the bootstrap ranges")
            inside(cx, ax, np.arange(1, m + 1), br.max(axis=1), "bootstrap ranges")
            inside(cx, ax, np.arange(1, m + 1), br.min(axis=1), "bootstrap ranges")
        cx.ok(ax.get_title() == label, "title is {!r}", ax.get_title())
        names = ["evals_" + label]
        nfig = 1
        cx.nontrivial(c["br"] or c["save"])
    elif c["fn"] == "subspace_errors":
        s = np.sort(R.uniform(0.05, 1, size=(m - 1, 3)), axis=1)
        s[:, 0] *= 10.0 ** -R.uniform(0, R.choice([0.2, 2.0, 5.0]), size=m - 1)
        pl.subspace_errors(s, **kw)
        fig = plt.gcf()
        ax = fig.axes[0]
        line_with(cx, ax, range(1, m), s[:, 1], "the mean errors")
        band_with(cx, ax, range(1, m), s[:, 0], s[:, 2], "the ranges of the errors")
        cx.ok(ax.get_yscale() == "log", "not a logarithmic plot")
        inside(cx, ax, np.arange(1, m), s[:, 1], "errors")
        inside(cx, ax, np.arange(1, m), s[:, 0], "errors")
        cx.ok(ax.get_title() == label, "title is {!r}", ax.get_title())
        names, nfig = ["subspace_" + label], 1
        cx.nontrivial()
    elif c["fn"] == "eigenvectors":
        W = gen.orth(c["seed"], m)[:, :k]
        br = np.zeros((m, 2 * k))
        br[:, 0::2], br[:, 1::2] = W - R.uniform(0.01, 0.1, size=W.shape), W + R.uniform(0.01, 0.1, size=W.shape)
        kw2 = dict(kw)
        if c["br"]:
            kw2["W_br"] = br
        if c["in_labels"]:
            kw2["in_labels"] = ["x%d" % i for i in range(m)]
        pl.eigenvectors(W, **kw2)
        fig = plt.gcf()
        cx.ok(len(fig.axes) == min(k, 4), "{} panels for {} eigenvectors", len(fig.axes), k)
        for j, ax in enumerate(fig.axes):
            line_with(cx, ax, range(1, m + 1), W[:, j], "eigenvector %d" % (j + 1))
            inside(cx, ax, np.arange(1, m + 1), W[:, j], "components")
            if c["br"]:
                band_with(cx, ax, range(1, m + 1), br[:, 2 * j], br[:, 2 * j + 1], "the ranges of eigenvector %d" % (j + 1))
            cx.ok(label in ax.get_title(), "title is {!r}", ax.get_title())
            if k > 1:
                cx.ok(str(j + 1) in ax.get_title(), "title of panel {} is {!r}", j + 1, ax.get_title())
        if c["in_labels"]:
            got = [[t.get_text() for t in ax.get_xticklabels()] for ax in fig.axes]
            cx.ok(kw2["in_labels"] in got, "input labels are not shown: {}", got)
        names, nfig = ["evecs_" + label], 1
        cx.nontrivial(c["br"] or c["in_labels"] or c["save"])
    elif c["fn"].startswith("summary"):
        n = int(c["fn"][-1])
        K = c["many"] or c["M"]
        y, f = R.normal(size=(K, n)) * sc, R.normal(size=(K, 1)) * sc
        y = y + c["shift"] * sc
        if c["outlier"]:
            f[-1] *= 30
        y0, f0 = y.copy(), f.copy()
        pl.sufficient_summary(y, f, **kw)
        cx.ok(np.array_equal(y, y0) and np.array_equal(f, f0), "the data were changed")
        nums = plt.get_fignums()
        nfig = n
        cx.ok(len(nums) == n, "{} figures for {} active variables", len(nums), n)
        fig = plt.figure(nums[0])
        ax = fig.axes[0]
        line_with(cx, ax, y[:, 0], f, "outputs against the first active variable")
        inside(cx, ax, y[:, 0], f[:, 0], "data")
        cx.ok(ax.get_ylabel() == label, "label is {!r}", ax.get_ylabel())
        uncovered(cx, fig, ax)
        names = ["ssp1_" + label]
        if n == 2:
            fig = plt.figure(nums[1])
            ax = fig.axes[0]
            scatter_with(cx, ax, y[:, 0], y[:, 1], f[:, 0], "the data")
            uncovered(cx, fig, ax)
            inside(cx, ax, y[:, 0], y[:, 1], "data")
            cx.ok(any(label == a.get_title() for a in fig.axes), "no title {!r}", label)
            names.append("ssp2_" + label)
        cx.nontrivial(n == 2 or c["save"])
    else:
        while True:
            A = R.normal(size=(m, 2)) * sc
            sv = np.linalg.svd(A)[1]
            P = np.array([np.sign(A.dot(t)).dot(A) for t in R.normal(size=(100, 2))])
            if sv[1] > 0.03 * sv[0] and len(np.unique(np.round(P / sc, 9), axis=0)) >= 4:
                break
        V = P[ConvexHull(P).vertices]
        lam = R.dirichlet(np.ones(len(V)), size=c["many"] or c["M"])
        kw2 = dict(kw)
        if c["design"]:
            D = lam[:4].dot(V) * 0.9
            kw2["design"] = D
        if c["pts"]:
            y, f = lam.dot(V), R.normal(size=(len(lam), 1))
            if c["outlier"]:
                f[-1] *= 30
            kw2["y"], kw2["f"] = y, f
        pl.zonotope_2d_plot(V, **kw2)
        nfig = 1
        fig = plt.gcf()
        ax = fig.axes[0]
        segs = [np.asarray(q) for col in ax.collections if hasattr(col, "get_segments") for q in col.get_segments()]
        hull = ConvexHull(V)
        for s_ in hull.simplices:
            a = V[s_]
            cx.ok(any(len(q) == 2 and (np.array_equal(q, a) or np.array_equal(q, a[::-1])) for q in segs) or
                  any(len(l.get_xdata()) == 2 and set(zip(l.get_xdata(), l.get_ydata())) == set(map(tuple, a))
                      for l in ax.lines), "an edge of the zonotope is not drawn")
        inside(cx, ax, V[:, 0], V[:, 1], "vertices")
        if c["design"]:
            pts = set((float(a), float(b)) for l in ax.lines for a, b in zip(l.get_xdata(), l.get_ydata()))
            cx.ok(all((float(a), float(b)) in pts for a, b in np.vstack((D, V))), "a point of the design is not drawn")
            T = Delaunay(np.vstack((D, V)))
            # triplot draws the edges as one line with gaps
            edges = set()
            for l in ax.lines:
                a, b = np.asarray(l.get_xdata(), dtype=float), np.asarray(l.get_ydata(), dtype=float)
                if len(a) > 2 and np.isnan(a).any():
                    for i in range(len(a) - 1):
                        if not (np.isnan(a[i]) or np.isnan(a[i + 1])):
                            edges.add(frozenset([(a[i], b[i]), (a[i + 1], b[i + 1])]))
            for t in T.simplices:
                for i in range(3):
                    e = frozenset([tuple(T.points[t[i]]), tuple(T.points[t[(i + 1) % 3]])])
                    cx.ok(e in edges, "an edge of the triangulation is not drawn")
        if c["pts"]:
            scatter_with(cx, ax, y[:, 0], y[:, 1], f[:, 0], "the points")
            uncovered(cx, fig, ax)
        cx.ok(ax.get_xlabel() == "Active variable 1" or any(a.get_xlabel() == "Active variable 1" for a in fig.axes),
              "axes are not labelled")
        names = ["zonotope_2d_" + label]
        cx.nontrivial(c["design"] or c["pts"])
    cx.ok(len(plt.get_fignums()) == nfig, "{} figures", len(plt.get_fignums()))
    have = sorted(os.listdir("figs")) if os.path.isdir("figs") else []
    if c["save"]:
        cx.ok(have == sorted(n + c["ftype"] for n in names), "files written: {}", have)
        cx.ok(all(os.path.getsize(os.path.join("figs", h)) > 500 for h in have), "an empty figure file was written")
    else:
        cx.ok(have == [] and os.listdir(".") == [], "files written although savefigs is off: {}", os.listdir("."))


@st.composite
def opt_case(draw):
    return {"save": draw(st.one_of(st.none(), st.booleans())), "type": draw(st.sampled_from([None, ".pdf", ".png"])),
            "exists": draw(st.booleans())}


def opt_check(c, cx):
    here = os.getcwd()
    d = os.path.join(here, "plots")
    os.mkdir(d)
    os.chdir(d)
    try:
        if c["exists"]:
            os.mkdir("figs")
            open("figs/keep", "w").close()
        kw = {}
        if c["save"] is not None:
            kw["savefigs"] = c["save"]
        if c["type"] is not None:
            kw["figtype"] = c["type"]
        o = pl.plot_opts(**kw)
        save = True if c["save"] is None else c["save"]
        cx.ok(o["savefigs"] == save and o["figtype"] == (c["type"] or ".eps"), "options: {}", o)
        cx.ok(os.path.isdir("figs") == (save or c["exists"]), "figs directory")
        o2 = pl.plot_opts(savefigs=not save, figtype=".jpg")
        o2["myfont"]["size"] = 3
        cx.ok(o["savefigs"] == save and o["figtype"] == (c["type"] or ".eps") and o["myfont"]["size"] != 3,
              "other options changed these: {}", o)
        cx.ok(not c["exists"] or os.listdir("figs") == ["keep"], "an existing figs directory was changed")

        class P(object):
            n = 0

            def show(self):
                self.n += 1
        p = P()
        pl.show_plot(p)
        cx.ok(p.n == 1, "show was called {} times", p.n)
        cx.nontrivial()
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


@st.composite
def close_case(draw):
    return {"fn": draw(st.sampled_from(["eigenvalues", "subspace_errors", "eigenvectors", "summary1", "summary2", "zonotope"])),
            "opt": draw(st.booleans()), "save": draw(st.sampled_from([True, True, False])), "seed": draw(gen.SEED),
            "k": draw(st.integers(1, 3))}


def close_check(c, cx):
    """Interactive back ends close the figures when the user has looked at them: files hold the figure all the same."""
    R = np.random.RandomState(c["seed"])
    plt.close("all")
    here = os.getcwd()
    d = os.path.join(here, "plots")
    os.mkdir(d)
    os.chdir(d)
    seen = []
    real = plt.show

    def show(*a, **k):
        seen.append([len(plt.figure(i).axes) for i in plt.get_fignums()])
        plt.close("all")
    try:
        plt.show = show
        opts = pl.plot_opts(savefigs=c["save"], figtype=".png")
        opts["myfont"] = {"family": "sans-serif", "weight": "normal", "size": 14}
        m, o, nfig = 4, c["opt"], 1
        if c["fn"] == "eigenvalues":
            e = np.sort(R.uniform(0.1, 1, size=(m, 1)), axis=0)[::-1]
            pl.eigenvalues(e, e_br=np.hstack((0.5 * e, 2 * e)) if o else None, opts=opts)
        elif c["fn"] == "subspace_errors":
            pl.subspace_errors(np.sort(R.uniform(0.05, 1, size=(m, 3)), axis=1), opts=opts)
        elif c["fn"] == "eigenvectors":
            W = gen.orth(c["seed"], m)[:, :c["k"]]
            pl.eigenvectors(W, W_br=np.repeat(W, 2, axis=1) if o else None, opts=opts)
        elif c["fn"].startswith("summary"):
            nfig = int(c["fn"][-1])
            pl.sufficient_summary(R.normal(size=(12, nfig)), R.normal(size=(12, 1)), opts=opts)
        else:
            t = np.linspace(0, 2 * np.pi, 7)[:-1]
            V = np.vstack((np.cos(t), np.sin(t))).T
            y = V * 0.5
            pl.zonotope_2d_plot(V, **dict({"y": y, "f": R.normal(size=(6, 1))} if o else {}, opts=opts))
        shown = [k for s in seen for k in s]
        cx.ok(len(shown) == nfig and all(k > 0 for k in shown), "figures shown, by number of axes: {}", seen)
        cx.ok(plt.get_fignums() == [], "a figure was made after the figures had been shown and closed")
        have = sorted(os.listdir("figs")) if c["save"] else []
        cx.ok(len(have) == (nfig if c["save"] else 0), "files: {}", have)
        for h in have:
            a = plt.imread(os.path.join("figs", h))[..., :3]
            dark = float(np.mean(np.any(a < 0.9, axis=2)))
            cx.ok(dark > 1e-3, "{} is blank", h)
    finally:
        plt.show = real
        plt.close("all")
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)
    cx.nontrivial(c["save"])
    cx.label(c["fn"], "saved" if c["save"] else "not saved")


SCALE = 2
SUBS = [Sub("figures", case(), check, 500), Sub("closing", close_case(), close_check, 40), Sub("options", opt_case(), opt_check, 30)]
