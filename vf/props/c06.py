"""C06: local linear gradients."""
import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen, ref
from active_subspaces import gradients as gr

RULE = ("Random samples in general position (2..8 inputs, m+1..80 points, one or two far-apart clusters), affine or "
        "nonlinear outputs, p from m+1 to M or default, with and without positive weights.  Non-trivial: at least "
        "one gradient returned and every neighbourhood regression well conditioned (oracle's condition number).")
ASSUMPTIONS = ["Points are in general position: with duplicated points the local regression is not unique"]


@st.composite
def case(draw):
    m = draw(gen.dim(2, 14))
    M = m + 1 + draw(st.one_of(st.integers(0, 4), st.integers(0, 30), st.integers(0, 70), st.sampled_from([120, 250, 500])))
    pk = draw(st.sampled_from(["default", "min", "max", "any"]))
    p = {"default": None, "min": m + 1, "max": M}.get(pk)
    if pk == "any":
        p = draw(st.integers(m + 1, M))
    return {"m": m, "M": M, "p": p, "seed": draw(gen.SEED), "fk": draw(st.sampled_from(["affine", "nonlinear", "clusters"])),
            "w": draw(st.booleans()), "lay": draw(st.sampled_from(gen.LAYOUTS)),
            "off": draw(st.sampled_from([0.0, 1.0, -30.0])), "xs": draw(st.sampled_from([1.0, 1.0, 0.01, 50.0]))}


def check(c, cx):
    R = np.random.RandomState(c["seed"])
    m, M = c["m"], c["M"]
    X = R.normal(size=(M, m))
    a, b = R.normal(size=(m, 1)), R.normal(size=(m, 1))
    p = c["p"] if c["p"] is not None else int(min(np.floor(1.7 * m), M))
    if c["fk"] == "clusters":
        g = (np.arange(M) % 2).reshape((M, 1))
        X = X + 60.0 * g
        f = np.where(g > 0, 7.0 + X.dot(a), X.dot(b))
    elif c["fk"] == "affine":
        f = c["off"] + X.dot(a)
    else:
        f = c["off"] + np.sin(X.dot(a)) + np.sum(X ** 2, axis=1, keepdims=True)
    X = X * c["xs"]
    w = R.uniform(0.2, 2.0, size=(M, 1)) if c["w"] else None
    # oracle: all candidate local models
    cand, worst = [], 0.0
    for i in range(M):
        nb = np.argsort(np.sum((X - X[i]) ** 2, axis=1), kind="stable")[:p]
        A = np.hstack((np.ones((p, 1)), (X[nb] - X[i]) / c["xs"]))
        worst = max(worst, np.linalg.cond(np.hstack((np.ones((p, 1)), X[nb]))))
        u = np.linalg.lstsq(A, f[nb], rcond=None)[0]
        cand.append(u[1:, 0] / c["xs"])
    cand = np.array(cand)
    if worst > 1e6:
        return
    X1, f1 = gen.layout(X, c["lay"]), gen.layout(f, c["lay"])
    kw = {}
    if c["p"] is not None:
        kw["p"] = c["p"]
    if w is not None:
        kw["weights"] = w
    df = gr.local_linear_gradients(X1, f1, **kw)
    cx.ok(isinstance(df, np.ndarray) and df.ndim == 2 and df.shape[1] == m and 1 <= df.shape[0] <= M,
          "gradients have shape {} for {} samples of {} inputs", getattr(df, "shape", None), M, m)
    cx.ok(np.all(np.isfinite(df)), "non-finite gradient")
    sc = np.max(np.abs(cand)) + 1e-12
    tol = 1e-12 * worst * worst * (sc + np.max(np.abs(f))) + 1e-9 * sc
    tol = min(tol, 1e-3 * sc) if worst < 1e4 else tol
    for i in range(df.shape[0]):
        d = np.min(np.max(np.abs(cand - df[i]), axis=1))
        cx.ok(d <= tol, "row {} is not the least-squares gradient of the {} nearest points of any sample: off by {:.3g}"
              " (tolerance {:.3g})", i, p, float(d), float(tol))
    if c["fk"] == "affine":
        ref.near(cx, df, np.tile(a.T / c["xs"], (df.shape[0], 1)), tol, "gradient of an affine function")
    if c["fk"] == "clusters" and 2 * p <= M - 1:
        ga, gb = a[:, 0] / c["xs"], b[:, 0] / c["xs"]
        for i in range(df.shape[0]):
            d = min(np.max(np.abs(df[i] - ga)), np.max(np.abs(df[i] - gb)))
            cx.ok(d <= tol, "row {} mixes two far-apart clusters (off by {:.3g})", i, float(d))
        cx.label("local")
    cx.nontrivial()
    cx.label(c["fk"], "p=default" if c["p"] is None else "p=M" if p == M else "p=min" if p == m + 1 else "p between",
             "weights" if c["w"] else "no weights")


@st.composite
def centre_case(draw):
    m = draw(gen.dim(2, 4))
    M = draw(st.integers(m + 2, 24))
    return {"m": m, "M": M, "p": draw(st.one_of(st.none(), st.integers(m + 1, M - 1))), "seed": draw(gen.SEED),
            "rs": draw(gen.SEED), "w": draw(st.booleans())}


def centre_check(c, cx):
    """Every sample may be the one around which a local model is built, and enough models are built."""
    R = np.random.RandomState(c["seed"])
    m, M = c["m"], c["M"]
    X = R.normal(size=(M, m))
    f = np.sin(2 * X.dot(R.normal(size=(m, 1)))) + np.sum(X ** 2, axis=1, keepdims=True)
    p = c["p"] if c["p"] is not None else int(min(np.floor(1.7 * m), M))
    cand, worst = [], 0.0
    for i in range(M):
        nb = np.argsort(np.sum((X - X[i]) ** 2, axis=1), kind="stable")[:p]
        A = np.hstack((np.ones((p, 1)), X[nb]))
        worst = max(worst, np.linalg.cond(A))
        cand.append(np.linalg.lstsq(A, f[nb], rcond=None)[0][1:, 0])
    if worst > 1e4:
        return
    cand = np.array(cand)
    tol = 1e-8 * (1 + np.abs(cand).max())
    w = R.uniform(0.5, 2.0, size=(M, 1)) if c["w"] else None
    seen, calls, rows = np.zeros(M, dtype=bool), 0, 0
    while rows < 40 * M and calls < 400:
        gen.reseed(c["rs"], calls)
        df = np.asarray(gr.local_linear_gradients(X, f, p=c["p"], weights=w))
        cx.ok(df.shape[0] >= min(m, M - 1), "{} gradients of {} samples with {} inputs", df.shape[0], M, m)
        seen |= np.min(np.max(np.abs(cand[:, None, :] - df[None, :, :]), axis=2), axis=1) <= tol
        calls += 1
        rows += df.shape[0]
    cx.ok(rows < 40 * M or seen.all(), "no local model around samples {} in {} models", np.flatnonzero(~seen).tolist(), rows)
    cx.nontrivial()
    cx.label("p=default" if c["p"] is None else "p given")


SCALE = 4


@st.composite
def far_case(draw):
    m = draw(gen.dim(2, 4))
    return {"m": m, "M": draw(st.integers(20, 80)), "p": draw(st.sampled_from([None, 3, 6])), "seed": draw(gen.SEED),
            "rs": draw(gen.SEED), "off": draw(st.sampled_from([1e4, 1e5, 1e6, 3e6]))}


def far_check(c, cx):
    """Inputs far away from the origin compared with their spread."""
    R = np.random.RandomState(c["seed"])
    m, M = c["m"], c["M"]
    X = R.normal(size=(M, m)) + c["off"] * R.choice([-1.0, 0.5, 1.0], size=(1, m))
    Z = X - X.mean(axis=0)
    f = np.sin(2 * Z.dot(R.normal(size=(m, 1)))) + np.sum(Z ** 2, axis=1, keepdims=True)
    p = int(min(np.floor(1.7 * m), M)) if c["p"] is None else m + c["p"]
    if p < m + 1:
        return
    cand, good = [], []
    for i in range(M):
        nb = np.argsort(np.sum((X - X[i]) ** 2, axis=1), kind="stable")[:p]
        A = np.hstack((np.ones((p, 1)), X[nb] - X[i]))
        good.append(np.linalg.cond(A) < 30)
        cand.append(np.linalg.lstsq(A, f[nb], rcond=None)[0][1:, 0])
    good = np.array(good)
    cand = np.array(cand)
    if good.mean() < 0.7:
        return
    gen.reseed(c["rs"])
    df = np.asarray(gr.local_linear_gradients(X, f, p=None if c["p"] is None else p))
    d = np.min(np.max(np.abs(cand[:, None, :] - df[None, :, :]), axis=2), axis=0)
    # badly conditioned local models may differ, and there are too few of them to make half of the rows
    cx.ok(np.median(d) <= 1e-3 * (1 + np.abs(cand[good]).max()), "far from the origin, most gradients are not those of the "
          "nearest samples: off by {:.3g} in the median", float(np.median(d)))
    cx.nontrivial()


SUBS = [Sub("far", far_case(), far_check, 100), Sub("local_models", case(), check, 1200), Sub("centres", centre_case(), centre_check, 150)]
