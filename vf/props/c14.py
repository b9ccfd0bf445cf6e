"""C14: polynomial response surfaces."""
from math import comb
import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen, ref
from active_subspaces.utils import response_surfaces as rs

RULE = ("1..5 inputs, degree 1..5 (at most 130 terms), from as many points as terms up to five times as many, exact polynomials "
        "and noisy or non-polynomial data, no/constant/positive weights, sequences of trainings of one object.  "
        "Non-trivial: more than one input or degree above one, well-conditioned by the oracle's condition number.")
ASSUMPTIONS = ["With non-constant weights the fit may scale rows by the weight (as the library does) or squared residuals "
               "by it: the documentation does not say which"]


@st.composite
def idx_case(draw):
    d = draw(gen.dim(1, 7))
    return {"d": d, "n": draw(st.integers(0, {1: 8, 2: 8, 3: 6, 4: 5, 5: 4, 6: 3, 7: 3}[d])), "seed": draw(gen.SEED),
            "M": draw(gen.many(2050)) if d < 4 and draw(st.integers(0, 11)) == 0 else draw(gen.dim(1, 12)), "lattice": draw(st.booleans())}


def idx_check(c, cx):
    d, n = c["d"], c["n"]
    I = ref.as2d(cx, rs.index_set(n, d), (comb(n + d, d), d), "index set")
    rows = [tuple(int(t) for t in r) for r in I]
    cx.ok(np.array_equal(I, np.array(rows)), "non-integer exponents")
    cx.ok(sorted(rows) == sorted(ref.multi_indices(n, d)), "not the multi-indices of total degree <= {}", n)
    cx.ok(all(sum(a) <= sum(b) for a, b in zip(rows, rows[1:])), "not ordered by total degree")
    if n >= 1:
        cx.ok(rows[1:d + 1] == [tuple(int(i == j) for i in range(d)) for j in range(d)],
              "degree-one terms are not in the order of the variables")
    if n == 0:
        return
    R = np.random.RandomState(c["seed"])
    X = R.randint(-3, 4, size=(c["M"], d)).astype(float) if c["lattice"] else R.normal(size=(c["M"], d))
    B, I2 = rs.polynomial_bases(X, n)
    ref.near(cx, I2, I, 0.0, "indices returned with the basis")
    want = ref.monomials_fast(X, rows)
    ref.near(cx, B, want, 1e-11 * (1 + np.abs(want).max()), "monomials")
    G = rs.grad_polynomial_bases(X, n)
    cx.ok(isinstance(G, np.ndarray) and G.shape == (c["M"], len(rows), d), "gradient basis has shape {}", np.shape(G))
    for k in range(d):
        for i, a in enumerate(rows):
            b = list(a)
            b[k] = max(0, b[k] - 1)
            w = a[k] * ref.monomials_fast(X, [tuple(b)])[:, 0]
            ref.near(cx, G[:, i, k], w, 1e-11 * (1 + np.abs(w).max()), "d/dx{} of the monomial {}".format(k, a))
    cx.nontrivial(d > 1 and n > 1)


@st.composite
def fit_case(draw):
    m = draw(gen.dim(1, 5))
    N = draw(st.integers(1, {1: 5, 2: 5, 3: 4, 4: 3, 5: 3}[m]))
    return {"m": m, "N": N, "over": draw(st.sampled_from([1.0, 1.2, 2.0, 5.0])), "seed": draw(gen.SEED),
            "noise": draw(st.sampled_from([0.0, 0.0, 0.1, 2.0])), "w": draw(st.sampled_from(["none", "const", "positive"])),
            "lay": draw(st.sampled_from(gen.LAYOUTS)), "retrain": draw(st.sampled_from([False, False, True])),
            "fs": draw(st.sampled_from([1.0, 1.0, 1e-5, 1e5])), "dflt": draw(st.booleans()),
            "deg": draw(st.integers(0, N)), "wide": draw(st.sampled_from([0, 0, 0, 4, 7])),
            "off": draw(st.sampled_from([0.0, 0.0, 0.0, 1e3, 1e7])), "iT": draw(st.integers(0, 5)) == 0,
            "T": draw(gen.many(2050)) if draw(st.integers(0, 7)) == 0 else draw(st.integers(1, 24)),
            "many": draw(gen.many(2050)) if m < 4 and draw(st.integers(0, 11)) == 0 else 0}


def fit_check(c, cx):
    m, N = c["m"], c["N"]
    R = np.random.RandomState(c["seed"])
    idx = ref.multi_indices(N, m)
    M = max(int(np.ceil(c["over"] * len(idx))), c["many"])
    X = R.uniform(-1, 1, size=(M, m)) if R.uniform() < 0.6 else R.normal(size=(M, m))
    coef = np.array([R.normal() if sum(a) <= c["deg"] else 0.0 for a in idx])
    coef = coef * 10.0 ** R.uniform(-c["wide"], 0, size=len(coef))     # coefficients of different sizes
    coef[0] += c["off"]
    f = c["fs"] * (ref.poly_eval(coef, idx, X) +
                   c["noise"] * (R.normal(size=(M, 1)) + np.sin(4 * X[:, :1])))
    w = None if c["w"] == "none" else 0.37 * np.ones((M, 1)) if c["w"] == "const" else R.uniform(0.3, 2, size=(M, 1))
    B = ref.monomials_fast(X, idx)
    cond = np.linalg.cond(B)
    if cond > 1e5 or (w is not None and np.linalg.cond(w * B) > 1e5):
        return
    pr = rs.PolynomialApproximation() if (N == 2 and c["dflt"]) else rs.PolynomialApproximation(N=N)
    if c["retrain"]:
        M0 = M if c["dflt"] else M + 7
        X0 = R.normal(size=(M0, m))
        pr.train(X0, R.normal(size=(M0, 1)), **({} if c["w"] == "positive" else {"weights": R.uniform(0.1, 9, size=(M0, 1))}))
        pr.predict(X0, compgrad=True)
    Xl, fl = gen.layout(X, c["lay"]), gen.layout(f, c["lay"])
    if w is None:
        pr.train(Xl, fl)
    else:
        pr.train(Xl, fl, weights=w)
    T = np.vstack((X[:3], R.uniform(-1.5, 1.5, size=(max(c["T"], 4) - 1 - min(M, 3), m)), np.zeros((1, m))))
    T = T[R.permutation(len(T))][:c["T"]]
    if c["iT"]:
        T = np.rint(2 * T).astype([np.int64, np.int32][M % 2])      # points stored as integers
    exact = c["noise"] == 0.0
    if exact:
        u = coef * c["fs"]
    elif w is None or c["w"] == "const":
        u = np.linalg.lstsq(B, f, rcond=None)[0][:, 0]
    else:
        u = None
        alt = [np.linalg.lstsq(w ** q * B, w ** q * f, rcond=None)[0] for q in (1.0, 0.5)]
    p, g = pr.predict(T, compgrad=True)
    p, g = ref.as2d(cx, p, (len(T), 1), "prediction"), ref.as2d(cx, g, (len(T), m), "gradient")
    p1, none = pr.predict(T)
    cx.ok(none is None, "a gradient was returned without being asked for")
    ref.near(cx, p1, p, 0.0, "prediction with and without gradient")
    ref.near(cx, pr(T), p, 0.0, "calling the surface")
    ref.near(cx, pr.gradient(T), g, 0.0, "gradient method")
    fs = float(np.abs(f).max()) + c["fs"] * float(np.abs(coef).max()) + 1e-300
    BT = ref.monomials_fast(T, idx)
    amp = float(np.abs(BT).sum(axis=1).max())
    if u is not None:
        tol = 1e-11 * cond * fs * amp * 10
        ref.near(cx, p, BT.dot(u.reshape((-1, 1))), tol, "prediction" + (" of a polynomial of degree <= N" if exact else
                                                                      " of the least-squares polynomial"))
        ref.near(cx, g, ref.poly_grad(u, idx, T), tol * N * 10, "gradient of the polynomial")
        lin = np.array([[u[idx.index(tuple(int(i == j) for i in range(m)))]] for j in range(m)])
        ref.near(cx, ref.as2d(cx, pr.g, (m, 1), "g"), lin, tol, "g: degree-one coefficients")
        if N > 1:
            H = np.zeros((m, m))
            for a, t in zip(idx, u):
                if sum(a) == 2:
                    nz = [j for j in range(m) if a[j]]
                    if len(nz) == 1:
                        H[nz[0], nz[0]] = 2 * t
                    else:
                        H[nz[0], nz[1]] = H[nz[1], nz[0]] = t
            ref.near(cx, ref.as2d(cx, pr.H, (m, m), "H"), H, 2 * tol, "H: Hessian of the quadratic part")
        if w is None:
            res = f - B.dot(u.reshape((-1, 1)))
            sst = float(np.sum((f - f.mean()) ** 2))
            if sst > 1e-18 * M * fs * fs:
                ref.near(cx, ref.scalar(cx, pr.Rsqr, "Rsqr"), 1 - float(np.sum(res ** 2)) / sst, 1e-6 + 1e-12 * cond +
                         4e-15 * cond * fs * np.sqrt(M / sst),
                         "R squared")
    else:
        tol = 1e-10 * cond * fs * amp * 10
        d = [float(np.abs(p - BT.dot(a)).max()) for a in alt]
        cx.ok(min(d) <= tol, "weighted prediction is {:.3g} from the fit with rows scaled by the weights, {:.3g} from the one "
              "with squared residuals scaled by the weights (tolerance {:.3g})", d[0], d[1], tol)
    # gradient is the derivative of the prediction, whatever was fitted
    h = 1e-5
    for k in range(m):
        d = np.zeros((1, m))
        d[0, k] = h
        fd = (pr.predict(T + d)[0] - pr.predict(T - d)[0]) / (2 * h)
        ref.near(cx, g[:, k:k + 1], fd, 1e-5 * (fs * amp * cond + np.abs(g).max()) + 1e-300, "gradient is the derivative of predict")
    # rows are predicted independently of each other
    for i in sorted(set([0, len(T) // 3, len(T) - 1])):
        pi, gi = pr.predict(T[i:i + 1].copy(), compgrad=True)
        ref.near(cx, pi, p[i:i + 1], 1e-12 * fs * amp * cond, "one row at a time")
        ref.near(cx, gi, g[i:i + 1], 1e-11 * fs * amp * cond, "one gradient at a time")
    cx.nontrivial(m > 1 or N > 1)
    cx.label("exact" if exact else "noisy", "w=" + c["w"], "N=%d" % N, "retrained" if c["retrain"] else "fresh",
             "square" if M == len(idx) else "over")


SCALE = 4
SUBS = [Sub("basis", idx_case(), idx_check, 400), Sub("fit", fit_case(), fit_check, 1400)]
