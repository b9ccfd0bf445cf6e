"""C02: gradient-free subspace estimators (OLS, QPHD, OPG)."""
import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen, ref
from active_subspaces import subspaces as ss
from active_subspaces import gradients as gr

RULE = ("Inputs (2..8 dimensions, Gaussian or in the unit box, sometimes touching or just leaving it) with affine, "
        "exactly quadratic, noisy or two-cluster piecewise affine outputs; direct calls and Subspaces.compute.  "
        "Non-trivial: a non-zero gradient and a well-conditioned regression (by the oracle's own condition number).")
ASSUMPTIONS = ["Regressions are kept well conditioned; for rank-deficient ones the result is not unique"]


def inputs(R, M, m, kind):
    if kind == "normal":
        return R.normal(size=(M, m))
    X = R.uniform(-1, 1, size=(M, m))
    if kind == "corner":
        X[0] = 1.0
        X[1] = -1.0
    elif kind == "low":
        X = np.minimum(X, 0.99)
        X[R.randint(M), R.randint(m)] = -1.0 - 10.0 ** R.uniform(-5, 0.3)
    elif kind == "high":
        X[R.randint(M), R.randint(m)] = 1.0 + 10.0 ** R.uniform(-5, 0.3)
    elif kind == "small":
        X = 0.3 * X
    return X


# --------------------------------------------------------------------------- OLS
@st.composite
def ols_case(draw):
    m = draw(gen.dim(2, 10))
    M = draw(gen.many(2050)) if draw(st.integers(0, 19)) == 0 else m + 2 + draw(gen.dim(0, 40))
    return {"m": m, "M": M, "seed": draw(gen.SEED), "xk": draw(st.sampled_from(["normal", "unit", "small"])),
            "noise": draw(st.sampled_from([0.0, 0.0, 0.1, 1.0])), "off": draw(st.sampled_from([0.0, 1.0, -50.0, 1000.0])),
            "w": draw(gen.weights_spec(M, zeros=False)), "mode": draw(st.sampled_from(["fn", "compute", "default"])),
            "lay": draw(st.sampled_from(gen.LAYOUTS)), "fs": draw(st.sampled_from([1.0, 1e-3, 1e3])),
            "cs": draw(st.sampled_from([0, 0, 0, 1, 2, 3]))}


def ols_check(c, cx):
    R = np.random.RandomState(c["seed"])
    M, m = c["M"], c["m"]
    X = inputs(R, M, m, c["xk"]) + R.normal(size=(1, m)) * 0.5
    a = R.normal(size=(m, 1)) * (R.uniform(size=(m, 1)) < 0.8)
    noise = 0.0 if c["cs"] else c["noise"]
    f = (c["off"] + X.dot(a) + noise * (np.sin(3 * X).sum(axis=1, keepdims=True) + R.normal(size=(M, 1)))) * c["fs"]
    w = np.ones((M, 1)) / M if c["mode"] == "default" else gen.weights(c["w"])
    D = 10.0 ** R.uniform(-c["cs"], c["cs"], size=m)
    X0 = X
    X, f = gen.layout(X * D, c["lay"]), gen.layout(f, c["lay"])
    # oracle: centred weighted normal equations
    p = w / w.sum()
    Xc, fc = X0 - (p * X0).sum(axis=0), f - (p * f).sum()
    G = (p * Xc).T.dot(Xc)
    if np.linalg.cond(G) > 1e8:
        return
    g = np.linalg.solve(G, (p * Xc).T.dot(fc)) / D.reshape((m, 1))
    if c["mode"] == "fn":
        e, W = ss.ols_subspace(X, f, w)
    else:
        s = ss.Subspaces()
        kw = {} if c["mode"] == "default" else {"weights": w}
        s.compute(X=X, f=f, sstype='OLS', **kw)
        e, W = s.eigenvals, s.eigenvecs
    tol = 1e-9 * np.linalg.cond(G) * (np.linalg.norm(g) + c["fs"] * 1e-5 * (1 + abs(c["off"])))
    if c["cs"]:
        A = np.hstack((np.ones((M, 1)), X)) * np.sqrt(w)
        tol = (1e-9 * np.linalg.cond(G) + 1e-13 * np.linalg.cond(A)) * (np.linalg.norm(g) + abs(c["off"]) * c["fs"])
    ref.eigenpairs(cx, e, W, g.dot(g.T), rtol=1e-9, atol=2 * tol * np.linalg.norm(g) + tol ** 2, what="OLS")
    ref.near(cx, e[0, 0], float(np.sum(g * g)), 2 * tol * np.linalg.norm(g) + tol ** 2 + 1e-9 * float(np.sum(g * g)),
             "OLS: first eigenvalue is the squared gradient norm")
    if np.linalg.norm(g) > 1e3 * tol:
        ref.near(cx, abs(float(W[:, 0].dot(g[:, 0]))), float(np.linalg.norm(g)), tol + 1e-8 * np.linalg.norm(g),
                 "OLS: first eigenvector is the gradient direction")
        cx.nontrivial()
    cx.label(c["mode"], c["w"]["wk"], "noise" if noise else "affine", "scales" if c["cs"] else "one scale")


# --------------------------------------------------------------------------- QPHD
@st.composite
def qphd_case(draw):
    m = draw(gen.dim(2, 6))
    return {"m": m, "over": draw(st.sampled_from([1.3, 2.0, 4.0])), "seed": draw(gen.SEED),
            "xk": draw(st.sampled_from(["normal", "unit", "corner", "low", "high", "small"])),
            "noise": draw(st.sampled_from([0.0, 0.0, 0.3])), "hk": draw(st.sampled_from(["full", "rank1", "diag", "zero"])),
            "w": draw(st.sampled_from(["default", "uniform", "random"])), "mode": draw(st.sampled_from(["fn", "compute"])),
            "lay": draw(st.sampled_from(gen.LAYOUTS))}


def qphd_check(c, cx):
    R = np.random.RandomState(c["seed"])
    m = c["m"]
    idx = ref.multi_indices(2, m)
    M = int(np.ceil(c["over"] * len(idx))) + 3
    X = inputs(R, M, m, c["xk"])
    b = R.normal(size=(m, 1))
    A = R.normal(size=(m, m))
    A = {"full": A + A.T, "rank1": np.outer(A[0], A[0]), "diag": np.diag(A[0]), "zero": np.zeros((m, m))}[c["hk"]]
    f = 2.0 + X.dot(b) + 0.5 * np.sum(X.dot(A) * X, axis=1).reshape((M, 1))
    if c["noise"]:
        f = f + c["noise"] * np.sin(5 * X[:, :1]) * np.exp(X[:, -1:])
    B = ref.monomials_fast(X, idx)
    cond = np.linalg.cond(B)
    if cond > 1e6:
        return
    wk = "uniform" if c["noise"] and c["w"] == "random" else c["w"]
    w = np.ones((M, 1)) / M if wk != "random" else R.uniform(0.2, 1.0, size=(M, 1))
    if c["noise"]:
        u = np.linalg.lstsq(B, f, rcond=None)[0][:, 0]
        b, A = np.zeros((m, 1)), np.zeros((m, m))
        for t, al in zip(u, idx):
            nz = [j for j in range(m) if al[j]]
            if sum(al) == 1:
                b[nz[0], 0] = t
            elif sum(al) == 2 and len(nz) == 1:
                A[nz[0], nz[0]] = 2 * t
            elif sum(al) == 2:
                A[nz[0], nz[1]] = A[nz[1], nz[0]] = t
    gamma = 1.0 / 3.0 if (X.max() <= 1.0 and X.min() >= -1.0) else 1.0
    C = b.dot(b.T) + gamma * A.dot(A.T)
    X, f = gen.layout(X, c["lay"]), gen.layout(f, c["lay"])
    if c["mode"] == "fn":
        e, W = ss.qphd_subspace(X, f, w)
    else:
        s = ss.Subspaces()
        kw = {} if wk == "default" else {"weights": w}
        s.compute(X=X, f=f, sstype='QPHD', **kw)
        e, W = s.eigenvals, s.eigenvecs
    ref.eigenpairs(cx, e, W, C, rtol=1e-10 * cond + 1e-9, what="QPHD")
    cx.nontrivial()
    cx.label(c["xk"], c["hk"], "exact" if not c["noise"] else "noisy")


# --------------------------------------------------------------------------- OPG
@st.composite
def opg_case(draw):
    m = draw(gen.dim(2, 6))
    return {"m": m, "M": int(np.floor(1.7 * m)) + 1 + draw(gen.dim(1, 30)), "seed": draw(gen.SEED),
            "clusters": draw(st.sampled_from([1, 1, 2])), "off": draw(st.sampled_from([0.0, 3.0, -100.0])),
            "w": draw(st.sampled_from(["default", "random"])), "mode": draw(st.sampled_from(["fn", "compute"])),
            "lay": draw(st.sampled_from(gen.LAYOUTS))}


def opg_check(c, cx):
    R = np.random.RandomState(c["seed"])
    m, M, k = c["m"], c["M"], c["clusters"]
    Xs, fs, grads = [], [], []
    p = int(np.floor(1.7 * m))
    for q in range(k):
        X = R.normal(size=(M, m)) + 40.0 * q
        a = R.normal(size=(m, 1))
        grads.append(a)
        Xs.append(X)
        fs.append(c["off"] + 5.0 * q + X.dot(a))
    X, f = np.vstack(Xs), np.vstack(fs)
    o = R.permutation(X.shape[0])
    X, f = X[o], f[o]
    worst = 0.0
    for x in X:
        nb = np.argsort(np.sum((X - x) ** 2, axis=1))[:p]
        worst = max(worst, np.linalg.cond(np.hstack((np.ones((p, 1)), X[nb]))))
    if worst > 1e7:
        return
    w = np.ones((X.shape[0], 1)) / X.shape[0] if c["w"] == "default" else R.uniform(0.2, 1.0, size=(X.shape[0], 1))
    X, f = gen.layout(X, c["lay"]), gen.layout(f, c["lay"])
    if c["mode"] == "fn":
        e, W = ss.opg_subspace(X, f, w)
    else:
        s = ss.Subspaces()
        kw = {} if c["w"] == "default" else {"weights": w}
        s.compute(X=X, f=f, sstype='OPG', **kw)
        e, W = s.eigenvals, s.eigenvecs
    e, W = ref.as2d(cx, e, (m, 1), "OPG eigenvalues"), ref.as2d(cx, W, (m, m), "OPG eigenvectors")
    tol = 1e-13 * worst * (1 + np.max(np.abs(f))) + 1e-9
    if k == 1:
        C = grads[0].dot(grads[0].T)
    else:
        # average outer product of local gradients: a mixture of the two clusters'
        C1, C2 = grads[0].dot(grads[0].T), grads[1].dot(grads[1].T)
        C = (W * e[:, 0]).dot(W.T)
        d = C1 - C2
        th = float(np.sum((C - C2) * d) / np.sum(d * d))
        cx.ok(-1e-6 <= th <= 1 + 1e-6, "OPG: mixture weight {} outside [0,1]", th)
        C = th * C1 + (1 - th) * C2
        # a plain average over MM local models: a whole number of them lies in the first cluster
        MM = np.shape(gr.local_linear_gradients(X, f))[0]
        k1 = th * MM
        if tol * MM < 1e-3 and np.linalg.norm(d) > 0.1:
            cx.ok(abs(k1 - round(k1)) < 1e-2, "OPG: {:.4f} of {} local gradients are the first cluster's", k1, MM)
    ref.eigenpairs(cx, e, W, C, rtol=1e-9, atol=tol * (1 + np.max(np.abs(C))), what="OPG")
    cx.nontrivial()
    cx.label("clusters=%d" % k, c["mode"])


SCALE = 5
SUBS = [Sub("ols", ols_case(), ols_check, 1500), Sub("qphd", qphd_case(), qphd_check, 900),
        Sub("opg", opg_case(), opg_check, 500)]
