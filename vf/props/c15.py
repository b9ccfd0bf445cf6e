"""C15: radial basis response surfaces."""
from math import comb
import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen, ref
from active_subspaces.utils import response_surfaces as rs

RULE = ("1..4 inputs, degree 1..3, from as many points as polynomial terms up to 45, exact polynomials, smooth and noisy "
        "data, no/scalar-like/varying noise v, no/decaying/flat/zero-tailed eigenvalues e; kernel matrices on random "
        "and coincident points.  Non-trivial: the kernel part is active (data are no polynomial of degree <= N) or an "
        "exact polynomial in more than one variable.")
ASSUMPTIONS = ["The factor g of the length scales is only required to be one value in [1e-10, 10] that is locally "
               "optimal for the training objective; which of several local optima is found is a heuristic"]


@st.composite
def ker_case(draw):
    d = draw(gen.dim(1, 6))
    return {"A": draw(gen.matrix(draw(gen.dim(1, 9)), d, scales=st.sampled_from([1.0, 0.1, 5.0]))),
            "B": draw(gen.matrix(draw(gen.dim(1, 9)), d, scales=st.sampled_from([1.0, 0.1, 5.0]))),
            "share": draw(st.booleans()), "seed": draw(gen.SEED), "sig": draw(st.sampled_from([1.0, 1.0, 0.3, 7.0])),
            "col": draw(st.booleans())}


def ker_check(c, cx):
    A, B = gen.arr(c["A"]), gen.arr(c["B"])
    if c["share"]:
        B = np.vstack((B, A[:1]))
    d = A.shape[1]
    R = np.random.RandomState(c["seed"])
    ell = 10.0 ** R.uniform(-1, 2, size=(d, 1))
    sig = c["sig"]
    e = ell if c["col"] else ell[:, 0]
    K = ref.as2d(cx, rs.exponential_squared(A, B, sig, e), (len(A), len(B)), "kernel matrix")
    D = A[:, None, :] - B[None, :, :]
    want = sig * np.exp(-np.sum(D ** 2 / ell[:, 0], axis=2))
    ref.near(cx, K, want, 1e-11 * sig, "kernel matrix")
    G = rs.grad_exponential_squared(A, B, sig, e)
    cx.ok(isinstance(G, np.ndarray) and G.shape == (len(A), len(B), d), "gradient of the kernel: shape {}", np.shape(G))
    wg = want[:, :, None] * 2 * D / ell[:, 0]
    ref.near(cx, G, wg, 1e-11 * (sig + np.abs(wg).max()), "gradient of the kernel in the evaluation point")
    cx.nontrivial(bool(np.any(want > 1e-6)) and len(A) > 1)


@st.composite
def fit_case(draw):
    m = draw(gen.dim(1, 4))
    N = draw(st.integers(1, {1: 3, 2: 3, 3: 2, 4: 2}[m]))
    t = comb(N + m, m)
    return {"m": m, "N": N, "M": draw(st.integers(100, 230)) if draw(st.integers(0, 24)) == 0 else t + draw(st.sampled_from([0, 1, 2, 5, 10, 25])), "seed": draw(gen.SEED),
            "data": draw(st.sampled_from(["poly", "smooth", "smooth", "noisy"])),
            "v": draw(st.sampled_from(["none", "none", "const", "vary", "zero", "big", "flat"])),
            "e": draw(st.sampled_from(["none", "none", "decay", "decay", "flat", "zerotail", "exact", "steep"])),
            "lay": draw(st.sampled_from(gen.LAYOUTS)), "fs": draw(st.sampled_from([1.0, 1.0, 1.0, 1e-3, 1e3])),
            "dflt": draw(st.booleans()), "retrain": draw(st.sampled_from([False, False, True])),
            "deg": draw(st.integers(0, N)), "same": draw(st.booleans()), "T": draw(gen.many(300)) if draw(st.integers(0, 19)) == 0 else draw(st.integers(1, 12)),
            "redo": draw(st.booleans())}


def _objective(log10g, X, f, vfun, N, ellfun):
    g = 10.0 ** log10g
    D = X[:, None, :] - X[None, :, :]
    with np.errstate(all="ignore"):
        K = np.exp(-np.sum(D ** 2 / ellfun(g).ravel(), axis=2))
    K = K + np.diag(vfun(g))
    B = ref.monomials_fast(X, ref.multi_indices(N, X.shape[1]))
    L = np.linalg.cholesky(K)
    Bt, ft = np.linalg.solve(L, B), np.linalg.solve(L, f)
    beta = np.linalg.lstsq(Bt, ft, rcond=None)[0]
    s2 = max(float(np.sum((ft - Bt.dot(beta)) ** 2)) / len(X), 5 * np.finfo(float).eps)
    return float(np.sum(np.log(np.diag(L)))) + len(X) * np.log(s2)


def fit_check(c, cx):
    m, N, M = c["m"], c["N"], c["M"]
    R = np.random.RandomState(c["seed"])
    idx = ref.multi_indices(N, m)
    X = R.uniform(-1, 1, size=(M, m)) if R.uniform() < 0.6 else R.normal(size=(M, m))
    B = ref.monomials_fast(X, idx)
    cond = np.linalg.cond(B)
    if cond > 3e3:
        return
    coef = np.array([R.normal() if sum(a) <= c["deg"] else 0.0 for a in idx])
    f = ref.poly_eval(coef, idx, X)
    if c["data"] != "poly":
        f = f + np.sin(3 * X[:, :1] + X.sum(axis=1, keepdims=True)) + 0.5 * np.cos(2 * X[:, -1:])
    if c["data"] == "noisy":
        f = f + 0.3 * R.normal(size=(M, 1))
    f = f * c["fs"]
    # eigenvalues: at least m of them, "exact": no inactive ones
    ne = m if c["e"] == "exact" else m + R.randint(1, 4)
    e = {"none": lambda: None, "decay": lambda: gen.eigs(c["seed"], ne, "decay"), "flat": lambda: np.ones((ne, 1)),
         "steep": lambda: 10.0 ** (-np.arange(ne) * R.uniform(2, 5)).reshape((ne, 1)),
         "exact": lambda: gen.eigs(c["seed"], ne, "random"),
         "zerotail": lambda: np.vstack((gen.eigs(c["seed"], m, "decay"), np.zeros((ne - m, 1))))}[c["e"]]()
    v = {"none": lambda: None, "const": lambda: 1e-3 * np.ones((M, 1)), "vary": lambda: R.uniform(0, 0.1, size=(M, 1)),
         "zero": lambda: np.zeros((M, 1)), "big": lambda: R.uniform(1, 10, size=(M, 1)),
         "flat": lambda: R.uniform(0, 0.1, size=M)}[c["v"]]()
    pr = rs.RadialBasisApproximation() if (N == 2 and c["dflt"]) else rs.RadialBasisApproximation(N=N)
    if c["retrain"]:
        # an earlier training, with or without the same number of points, noise and eigenvalues
        M0 = M if c["same"] else M + 3
        X0 = R.normal(size=(M0, m))
        k0 = {"v": 0.5 * np.ones((M0, 1))} if c["redo"] else {}
        if c["redo"] == (c["e"] == "none"):
            k0["e"] = 10.0 ** R.uniform(-2, 0, size=(m + 1, 1))
        pr.train(X0, R.normal(size=(M0, 1)), **k0)
        pr.predict(X0, compgrad=True)
    kw = {}
    if v is not None:
        kw["v"] = v
    if e is not None:
        kw["e"] = e
    Xl, fl = gen.layout(X, c["lay"]), gen.layout(f, c["lay"])
    pr.train(Xl, fl, **kw)

    fs = float(np.abs(f).max()) + c["fs"] * float(np.abs(coef).max()) + 1e-300
    p = len(idx)
    ell = np.asarray(pr.ell, dtype=float)
    cx.ok(ell.size == m, "{} length scales for {} inputs", ell.size, m)
    ell = ell.ravel()
    if e is None:
        cx.ok(np.ptp(ell) <= 1e-12 * ell.max(), "length scales differ although no eigenvalues were given")
        g = ell[0]
        vv = 1e-6 * np.ones(M) if v is None else v.ravel()
        ellfun = lambda t: t * np.ones(m)
        vfun = (lambda t: vv)
    else:
        with np.errstate(all="ignore"):
            r = ell * e[:m, 0] / float(np.sum(e))
        cx.ok(np.ptp(r) <= 1e-9 * r.max(), "length scales are not inversely proportional to the eigenvalues")
        g = float(r[0])
        tail = float(np.sum(e[m:]))
        vv = g * tail * np.ones(M) if v is None else v.ravel()
        ellfun = lambda t: t * float(np.sum(e)) / e[:m, 0]
        vfun = (lambda t: np.maximum(t * tail, 1e-6) * np.ones(M)) if v is None else (lambda t: vv)
    cx.ok(1e-10 * 0.99 <= g <= 10 * 1.01, "length scale factor {:.3g} outside its range", g)
    vv = np.maximum(vv, 1e-6)
    vf_ = vfun
    vfun = lambda t: np.maximum(vf_(t), 1e-6)

    D = X[:, None, :] - X[None, :, :]
    Kx = np.exp(-np.sum(D ** 2 / ell, axis=2))
    K = ref.as2d(cx, pr.K, (M, M), "K")
    ref.near(cx, K, Kx + np.diag(vv), 1e-10 * (1 + vv.max()), "K = kernel + diag(v)")
    rw = ref.as2d(cx, pr.radial_weights, (M, 1), "radial weights")
    pw = ref.as2d(cx, pr.poly_weights, (p, 1), "polynomial weights")
    # the library's monomials come in its own order
    Bl, Il = rs.polynomial_bases(X, N)
    order = [idx.index(tuple(int(t) for t in a)) for a in Il]
    Bl = B[:, order]
    amp = float(np.abs(rw).sum()) * (1 + vv.max()) + float(np.abs(Bl).dot(np.abs(pw)).max())
    ref.near(cx, K.dot(rw) + Bl.dot(pw), f, 1e-9 * (amp + fs), "interpolation equations K r + B p = f")
    ref.near(cx, Bl.T.dot(rw), np.zeros((p, 1)), 1e-9 * (float(np.abs(rw).sum()) * np.abs(B).max() + fs),
             "side conditions B' r = 0")
    # R squared: share of the K-weighted sum of squares
    resid = f - Bl.dot(pw)
    den = float(f.T.dot(np.linalg.solve(K, f))[0, 0])
    if den > 1e-12 * fs ** 2:
        num = float(resid.T.dot(np.linalg.solve(K, resid))[0, 0])
        cx.ok(abs(ref.scalar(cx, pr.Rsqr, "Rsqr") - (1 - num / den)) <= 1e-5, "R squared is {!r}, expected {}", pr.Rsqr,
              1 - num / den)

    T = np.vstack((X[:2], R.uniform(-1.5, 1.5, size=(6, m)), np.zeros((1, m)), 4 * np.ones((1, m))))[R.permutation(10)]
    T = T[:c["T"]] if c["T"] < 10 else np.vstack((T, R.uniform(-1.5, 1.5, size=(c["T"] - 10, m))))
    fp, gp = pr.predict(T, compgrad=True)
    fp, gp = ref.as2d(cx, fp, (len(T), 1), "prediction"), ref.as2d(cx, gp, (len(T), m), "gradient")
    p1, none = pr.predict(T)
    cx.ok(none is None, "a gradient was returned without being asked for")
    ref.near(cx, p1, fp, 0.0, "prediction with and without gradient")
    ref.near(cx, pr(T), fp, 0.0, "calling the surface")
    ref.near(cx, pr.gradient(T), gp, 0.0, "gradient method")
    Dt = T[:, None, :] - X[None, :, :]
    Kt = np.exp(-np.sum(Dt ** 2 / ell, axis=2))
    pc = np.zeros(p)
    pc[order] = pw[:, 0]
    want = Kt.dot(rw) + ref.poly_eval(pc, idx, T)
    BT = float(np.abs(ref.monomials_fast(T, idx)).sum(axis=1).max())
    tolp = 1e-11 * (float(np.abs(rw).sum()) + BT * float(np.abs(pw).max()) + fs) * 10
    ref.near(cx, fp, want, tolp, "prediction = kernels and polynomial")
    wg = ref.poly_grad(pc, idx, T)
    for k in range(m):
        wg[:, k] += ((-2 * Dt[:, :, k] / ell[k]) * Kt).dot(rw[:, 0])
    ref.near(cx, gp, wg, tolp * 100 * (1 + float(np.max(1 / np.sqrt(ell)))), "gradient of the prediction")
    for i in (0, len(T) - 1):
        pi, gi = pr.predict(T[i:i + 1].copy(), compgrad=True)
        ref.near(cx, pi, fp[i:i + 1], tolp, "one row at a time")
        ref.near(cx, gi, gp[i:i + 1], tolp * 100 * (1 + float(np.max(1 / np.sqrt(ell)))), "one gradient at a time")
    if c["data"] == "poly":
        condK = (M + vv.max()) / vv.min()
        tol = 1e-12 * condK * fs * BT * cond ** 2 + 1e-8 * fs * BT
        if tol < 1e-2 * fs * BT:
            ref.near(cx, fp, ref.poly_eval(coef * c["fs"], idx, T), tol, "polynomial of degree <= N is reproduced")
            ref.near(cx, gp, ref.poly_grad(coef * c["fs"], idx, T),
                     tol * 10 * (N + float(np.max(1 / np.sqrt(ell)))), "gradient of a polynomial of degree <= N")
            cx.label("reproduced")
    elif M > p + 1:
        # g is a local minimiser of the training objective over [1e-10, 10]
        lg = np.log10(g)
        o = [_objective(t, X, f, vfun, N, ellfun) for t in (lg, lg - 0.02, lg + 0.02)]
        slack = 1e-3 * (1 + abs(o[0]) * 1e-2)
        if lg < 0.98 and o[2] < o[0] - slack or lg > -9.9 and o[1] < o[0] - slack:
            cx.fail("length scale factor 10^{:.4f} is not a local minimiser of the training objective: {} at "
                    "+-0.02".format(lg, o))
        cx.label("optimal g")
    # only ratios of eigenvalues matter when the noise is given
    if e is not None and v is not None:
        p2 = rs.RadialBasisApproximation(N=N)
        p2.train(X, f, v=v, e=4.0 * e)
        ref.near(cx, p2.predict(T)[0], fp, tolp * 1e4, "scaling all eigenvalues")
    cx.nontrivial(c["data"] != "poly" or m > 1)
    cx.label("data=" + c["data"], "v=" + c["v"], "e=" + c["e"], "N=%d" % N)


@st.composite
def few_case(draw):
    m = draw(gen.dim(1, 5))
    N = draw(st.integers(1, 3))
    return {"m": m, "N": N, "M": draw(st.integers(1, comb(N + m, m) - 1)), "seed": draw(gen.SEED),
            "cls": draw(st.sampled_from(["rbf", "poly"]))}


def few_check(c, cx):
    R = np.random.RandomState(c["seed"])
    X, f = R.normal(size=(c["M"], c["m"])), R.normal(size=(c["M"], 1))
    pr = (rs.RadialBasisApproximation if c["cls"] == "rbf" else rs.PolynomialApproximation)(N=c["N"])
    try:
        pr.train(X, f)
    except Exception:
        cx.nontrivial(c["M"] > 1)
        return
    cx.fail("degree {} in {} variables was fitted to {} points".format(c["N"], c["m"], c["M"]))


SCALE = 2
SUBS = [Sub("kernel", ker_case(), ker_check, 1500), Sub("fit", fit_case(), fit_check, 3000),
        Sub("few", few_case(), few_check, 300)]
