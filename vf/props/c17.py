"""C17: integration."""
import numpy as np
from hypothesis import strategies as st
from scipy.spatial import Delaunay
from ..core import Sub
from .. import gen, ref
from .c16 import setup, guarded, Skip, roots, mn, hull_excess
from active_subspaces import integrals as ig
from active_subspaces import response_surfaces as asr
from active_subspaces.utils import response_surfaces as rs
from active_subspaces.utils.simrunners import SimulationRunner
from active_subspaces.utils.designs import maximin_design

RULE = ("Orthogonal bases of 2..7 inputs, active dimension 1..3, bounded and unbounded domains, rule sizes around perfect "
        "powers, NMC 1..60; constant, ridge and general integrands as functions and as SimulationRunners, response "
        "surfaces as integrands.  Non-trivial: there are inactive variables.")
ASSUMPTIONS = ["Weights estimated from samples are compared with an independent estimate within 7 standard deviations",
               "A run in which maximin_design reports that SLSQP failed says nothing (see C13)",
               "Active dimension >= 2, bounded: weights are only compared when the Delaunay triangulation of vertices "
               "and design is unique"]


@st.composite
def rule_case(draw):
    c = draw(mn(7))
    if c["bounded"]:
        N = draw(st.integers(1, 40) if c["n"] == 1 else st.integers(1, 5) if c["n"] == 2 else st.integers(1, 3))
    elif c["n"] == 1 and c["bounded"] and draw(st.integers(0, 5)) == 0:
        N = draw(st.integers(26, 320))
    else:
        k = draw(st.integers(1, {1: 25, 2: 8, 3: 5}[c["n"]]))
        N = max(1, k ** c["n"] + draw(st.sampled_from([-1, 0, 0, 0, 1, 3])))
    c.update(seed=draw(gen.SEED), rs=draw(gen.SEED), N=N, NMC=draw(st.one_of(st.just(None), st.integers(1, 12), st.integers(1, 12), st.integers(13, 60))),
             NX=draw(st.sampled_from([None, None, 10000, 4000, 500])))
    return c


def samples(c, W1):
    R = np.random.RandomState(c["rs"] // 3 + 5)
    return R.uniform(-1, 1, size=(max(60000, c["NX"] or 0), W1.shape[0])).dot(W1)


def close_p(cx, w, p, nx, ns, what):
    tol = 7 * np.sqrt(np.maximum(p * (1 - p), 4.0 / nx) * (1.0 / nx + 1.0 / ns)) + 3.0 / nx
    bad = np.abs(w - p) - tol
    i = int(bad.argmax())
    cx.ok(bad[i] <= 0, "{}: weight {} is {:.4g}, probability {:.4g} +- {:.2g}", what, i, float(w[i]), float(p[i]),
          float(tol[i]))
    # all the weights together
    k = p * nx > 20
    if k.sum() > 1:
        z = float(np.sum((w - p)[k] ** 2 / (p[k] * (1.0 / nx + 1.0 / ns))))
        cx.ok(z <= k.sum() + 10 * np.sqrt(2.0 * k.sum()) + 40, "{}: the weights are off by {:.4g} in chi square of {} cells",
              what, z, int(k.sum()))
    # all the cells that are rarely hit together
    for q in (5, 20):
        k = p * nx <= q
        P, S = float(p[k].sum()), float(w[k].sum())
        t = 8 * np.sqrt(max(P, 4.0 / nx) * (1.0 / nx + 1.0 / ns)) + 3.0 / nx
        cx.ok(abs(P - S) <= t, "{}: the {} rarest cells have weight {:.4g} together, their probability is {:.4g} +- {:.2g}",
              what, int(k.sum()), S, P, t)


@st.composite
def sharp_case(draw):
    """Weights from so many samples that errors of a few per cent show."""
    c = draw(mn(7))
    n = 1 if c["n"] == 1 else 2
    c.update(n=n, bounded=True, seed=draw(gen.SEED), rs=draw(gen.SEED), NX=500000, NMC=None,
             N=draw(st.integers(20, 120) if n == 1 else st.integers(3, 9)))
    return c


def rule_check(c, cx):
    su = setup(c)
    if su is None:
        return
    W, e, d, mp = su
    m, n, N = c["m"], c["n"], c["N"]
    W1 = W[:, :n]
    gen.reseed(c["rs"])
    try:
        if c["bounded"] and c["NX"] is not None:
            fun = ig.interval_quadrature_rule if n == 1 else ig.zonotope_quadrature_rule
            Y, w = guarded(fun, mp, N, NX=c["NX"])
        else:
            Y, w = guarded(ig.av_quadrature_rule, mp, N)
    except Skip:
        cx.label("slsqp")
        return
    NX = c["NX"] or 10000
    if not c["bounded"]:
        k = roots(N, n)
        Y, w = ref.as2d(cx, Y, (k ** n, n), "nodes"), ref.as2d(cx, w, (k ** n, 1), "weights")
        x1, w1 = np.polynomial.hermite_e.hermegauss(k)
        w1 = w1 / w1.sum()
        o = np.argsort(x1)
        x1, w1 = x1[o], w1[o]
        grid = np.array(np.meshgrid(*[x1] * n, indexing="ij")).reshape((n, -1)).T
        gw = np.array(np.meshgrid(*[w1] * n, indexing="ij")).reshape((n, -1)).prod(axis=0)
        a = np.lexsort(np.round(Y, 5).T)
        b = np.lexsort(np.round(grid, 5).T)
        ref.near(cx, Y[a], grid[b], 1e-6 * (1 + np.abs(x1).max()), "tensor Gauss-Hermite nodes")
        ref.near(cx, w[a, 0], gw[b], 1e-9, "tensor Gauss-Hermite weights")
    elif n == 1:
        V = np.array(d.vertY)
        lo, hi = V.min(), V.max()
        Y, w = ref.as2d(cx, Y, (N, 1), "nodes"), ref.as2d(cx, w, (N, 1), "weights")
        h = (hi - lo) / N
        o = np.argsort(Y[:, 0])
        Y, w = Y[o], w[o]
        ref.near(cx, Y[:, 0], lo + h * (np.arange(N) + 0.5), 1e-10 * (hi - lo), "midpoints of equal cells")
        S = samples(c, W1)[:, 0]
        p = np.bincount(np.clip(((S - lo) / h).astype(int), 0, N - 1), minlength=N) / float(len(S))
        close_p(cx, w[:, 0], p, NX, len(S), "interval rule")
    else:
        V = np.array(d.vertY)
        P = np.vstack((V, maximin_design(V, N)))
        T, T2 = Delaunay(P), Delaunay(P[::-1])
        cen, cen2 = P[T.simplices].mean(axis=1), P[::-1][T2.simplices].mean(axis=1)
        Y = np.asarray(Y)
        cx.ok(Y.ndim == 2 and Y.shape[1] == n and len(Y) > 0, "nodes have shape {}", Y.shape)
        w = ref.as2d(cx, w, (len(Y), 1), "weights")
        cx.ok(hull_excess(Y, V) <= 1e-6, "a node lies outside the domain")
        key = lambda A: A[np.lexsort(np.round(A, 6).T)]
        if len(cen) == len(cen2) and np.abs(key(cen) - key(cen2)).max() < 1e-5:
            from scipy.spatial.distance import cdist
            D = cdist(Y, cen)
            which = D.argmin(axis=1)
            cx.ok(len(Y) == len(cen) and D.min(axis=1).max() < 1e-7 and len(set(which)) == len(cen),
                  "nodes are not the centroids of the triangulation of vertices and design")
            I = T.find_simplex(samples(c, W1))
            p = np.array([np.mean(I == t) for t in which])
            close_p(cx, w[:, 0], p, NX, len(I), "zonotope rule")
            cx.label("triangulation")
        else:
            cx.label("ambiguous triangulation")
    cx.ok(np.all(w >= 0), "a negative weight")
    slack = 1e-9 if not c["bounded"] or n == 1 else 2e-3
    cx.ok(abs(w.sum() - 1) <= slack, "weights sum to {:.10g}", float(w.sum()))
    cx.nontrivial(m > n)
    cx.label("bounded" if c["bounded"] else "unbounded", "n=%d" % n)


def full_check(c, cx):
    """quadrature_rule on the inputs."""
    su = setup(c)
    if su is None:
        return
    W, e, d, mp = su
    m, n, N = c["m"], c["n"], c["N"]
    W1 = W[:, :n]
    gen.reseed(c["rs"])
    NMC = 10 if c["NMC"] is None else c["NMC"]
    try:
        X, w, ind = guarded(ig.quadrature_rule, mp, N) if c["NMC"] is None else guarded(ig.quadrature_rule, mp, N, NMC=NMC)
        gen.reseed(c["rs"])
        Y, yw = guarded(ig.av_quadrature_rule, mp, N)
    except Skip:
        cx.label("slsqp")
        return
    k = len(Y)
    X = ref.as2d(cx, X, (k * NMC, m), "nodes")
    w = ref.as2d(cx, w, (k * NMC, 1), "weights")
    I = np.asarray(ind)
    cx.ok(I.shape == (k * NMC, 1), "indices have shape {}", I.shape)
    cx.ok(np.all(w >= 0), "a negative weight")
    cx.ok(abs(w.sum() - 1) <= (1e-9 if not c["bounded"] or n == 1 else 2e-3), "weights sum to {:.10g}", float(w.sum()))
    if c["bounded"]:
        cx.ok(np.abs(X).max() <= 1 + 1e-5, "a node outside the cube: {:.6g}", np.abs(X).max())
    ref.near(cx, X.dot(W1), Y[I[:, 0].astype(int)], 1e-8 * (1 + np.abs(Y).max()), "nodes map to the active nodes")
    for i in range(k):
        q = I[:, 0] == i
        cx.ok(int(q.sum()) == NMC, "active node {} has {} nodes", i, int(q.sum()))
        ref.near(cx, w[q, 0], np.full(NMC, yw[i, 0] / NMC), 1e-13, "weight of an active node is shared equally")
    cx.nontrivial(m > n and NMC > 1)
    cx.label("bounded" if c["bounded"] else "unbounded", "n=%d" % n)


@st.composite
def int_case(draw):
    c = draw(rule_case())
    c.update(f=draw(st.sampled_from(["one", "ridge", "ridge", "full", "full", "step"])), runner=draw(st.booleans()),
             a=draw(st.sampled_from([1.0, -2.5, 1e4, 1e-4])))
    return c


def int_check(c, cx):
    su = setup(c)
    if su is None:
        return
    W, e, d, mp = su
    m, n, N = c["m"], c["n"], c["N"]
    W1 = W[:, :n]
    R = np.random.RandomState(c["seed"] // 7)
    u, a = R.normal(size=m), c["a"]
    u = u / np.linalg.norm(u)
    seen = []

    def fun(x):
        x = np.asarray(x, dtype=float)
        if x.shape != (1, m):
            cx.fail("the integrand was called with shape {}".format(x.shape))
        if c["f"] == "one":
            t = 1.0
        elif c["f"] == "ridge":
            y = x.dot(W1)[0]
            t = 1.3 + y[0] - 0.4 * y[-1] ** 2
        elif c["f"] == "step":
            t = 1.0 if x[0, 0] > 0.1 else 0.0
        else:
            t = 0.2 + np.sin(x[0].dot(u)) + x[0, -1] ** 2 + x[0, 0]
        seen.append((x[0].copy(), a * t))
        return a * t

    NMC = 10 if c["NMC"] is None else c["NMC"]
    kw = {} if c["NMC"] is None else {"NMC": NMC}
    gen.reseed(c["rs"])
    try:
        out = guarded(ig.integrate, SimulationRunner(fun) if c["runner"] else fun, mp, N, **kw)
        calls = list(seen)
        gen.reseed(c["rs"])
        X, w, ind = guarded(ig.quadrature_rule, mp, N, **kw)
    except Skip:
        cx.label("slsqp")
        return
    cx.ok(len(out) == 3, "integrate returned {} values", len(out))
    mu, lb, ub = [ref.scalar(cx, t, "integral or bound") for t in out]
    cx.ok(len(calls) == len(X), "{} evaluations for {} nodes", len(calls), len(X))
    f = np.array([t for _, t in calls]).reshape((-1, 1))
    fs = float(np.abs(f).max()) + 1e-300
    ref.near(cx, np.array([x for x, _ in calls]), X, 1e-9 * (1 + np.abs(X).max()), "evaluations at the nodes of the rule")
    ref.near(cx, mu, float(np.sum(w * f)), 1e-10 * fs, "integral = sum of weights times values")
    I = np.asarray(ind)[:, 0]
    s2 = 0.0
    for i in range(int(I.max()) + 1):
        fi, wi = f[I == i, 0], w[I == i, 0].sum()
        s2 += wi ** 2 * float(np.mean((fi - fi.mean()) ** 2)) / NMC
    half = 1.96 * np.sqrt(s2)
    ref.near(cx, [mu - lb, ub - mu], [half, half], 1e-9 * half + 1e-10 * fs, "95% bounds of the Monte Carlo part")
    if c["f"] == "one":
        slack = 1e-9 if not c["bounded"] or n == 1 else 2e-3
        ref.near(cx, [mu, lb, ub], [a] * 3, slack * abs(a), "integral of a constant")
    if c["f"] == "ridge":
        cx.ok(ub - lb <= 1e-6 * fs, "bounds of a function of the active variables are {:.3g} apart", ub - lb)
        if not c["bounded"]:
            if roots(N, n) >= 2:
                ref.near(cx, mu, a * (1.3 - 0.4), 1e-7 * abs(a), "Gaussian integral of a quadratic ridge function")
        elif n == 1:
            V = np.array(d.vertY)
            h = (V.max() - V.min()) / N
            tol = (h / 2) * (1 + 0.8 * np.abs(V).max()) + 7 * (np.abs(V).max() + 0.4 * np.abs(V).max() ** 2) / 100
            # E y^2 = sum w^2/3
            cx.ok(abs(mu / a - (1.3 - 0.4 * float(np.sum(W1[:, -1] ** 2)) / 3)) <= tol,
                  "integral of a ridge function: {}", mu / a)
    cx.nontrivial(m > n)
    cx.label(c["f"], "bounded" if c["bounded"] else "unbounded", "n=%d" % n)


@st.composite
def av_case(draw):
    c = draw(rule_case())
    c.update(kind=draw(st.sampled_from(["poly", "poly", "surface", "surface", "step"])))
    return c


def av_check(c, cx):
    su = setup(c)
    if su is None:
        return
    W, e, d, mp = su
    m, n, N = c["m"], c["n"], c["N"]
    W1 = W[:, :n]
    R = np.random.RandomState(c["seed"] // 7)
    gen.reseed(c["rs"])
    k = roots(N, n)
    deg = min(2 * k - 1, 4) if not c["bounded"] else 2
    if c["kind"] == "surface":
        deg = min(deg, 2)
    idx = ref.multi_indices(deg, n)
    coef = R.normal(size=len(idx))
    if c["kind"] == "poly":
        def avfun(y):
            y = np.asarray(y, dtype=float)
            if y.shape != (1, n):
                cx.fail("the integrand was called with shape {}".format(y.shape))
            return float(ref.poly_eval(coef, idx, y)[0, 0])
        val = lambda Y: ref.poly_eval(coef, idx, Y)
    elif c["kind"] == "step":           # zero at about half of the nodes
        avfun = lambda y: 2.0 if np.ravel(y)[0] > 0 else 0.0
        val = lambda Y: 2.0 * (Y[:, :1] > 0)
    else:
        avfun = asr.ActiveSubspaceResponseSurface(mp, rs.PolynomialApproximation(N=max(deg, 1)))
        X = R.uniform(-1, 1, size=(4 * len(idx) + 6, m))
        avfun.train_with_data(X, ref.poly_eval(coef, idx, X.dot(W1)))
        val = lambda Y: avfun.predict_av(Y)[0]
    try:
        gen.reseed(c["rs"])
        mu = guarded(ig.av_integrate, avfun, mp, N)
        gen.reseed(c["rs"])
        Y, w = guarded(ig.av_quadrature_rule, mp, N)
    except Skip:
        cx.label("slsqp")
        return
    mu = ref.scalar(cx, mu, "integral")
    f = val(Y)
    fs = float(np.abs(f).max()) + float(np.abs(coef).max())
    ref.near(cx, mu, float(np.sum(w * f)), 1e-9 * fs, "integral = sum of weights times values")
    if c["kind"] == "step" and not c["bounded"] and k % 2 == 0:
        ref.near(cx, mu, 1.0, 1e-6, "Gaussian integral of a step")
    elif not c["bounded"] and c["kind"] != "step":
        mom = {0: 1.0, 1: 0.0, 2: 1.0, 3: 0.0, 4: 3.0}
        want = sum(t * np.prod([mom[q] for q in a]) for a, t in zip(idx, coef))
        ref.near(cx, mu, want, 1e-6 * fs, "Gaussian integral of a polynomial of low degree")
    cx.nontrivial(m > n)
    cx.label(c["kind"], "bounded" if c["bounded"] else "unbounded", "n=%d" % n)


SUBS = [Sub("sharp", sharp_case(), rule_check, 10), Sub("rule", rule_case(), rule_check, 1200), Sub("full", rule_case(), full_check, 800),
        Sub("integrate", int_case(), int_check, 1600), Sub("av", av_case(), av_check, 1000)]
