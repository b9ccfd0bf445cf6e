"""C08: normalizers."""
import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen, ref
from active_subspaces.utils import misc as mi

RULE = ("Boxes of widely different widths and offsets (bounds given as m-, m-by-1 or 1-by-m arrays), Gaussian means "
        "and covariances with condition number up to 1e6, points inside, outside and exactly on the bounds.  "
        "Non-trivial: at least two inputs, and a box that is not the reference cube or a covariance that is not diagonal.")


@st.composite
def bnd_case(draw):
    m = draw(gen.dim(1, 10))
    M = draw(gen.many(2050)) if draw(st.integers(0, 19)) == 0 else draw(gen.dim(1, 20))
    return {"m": m, "M": M, "seed": draw(gen.SEED), "shape": draw(st.sampled_from(["flat", "col", "row"])),
            "kind": draw(st.sampled_from(["unit", "moderate", "wide", "wide", "tiny", "int"])), "lay": draw(st.sampled_from(gen.LAYOUTS))}


def shaped(v, how):
    return {"flat": v.reshape((-1,)), "col": v.reshape((-1, 1)), "row": v.reshape((1, -1))}[how].copy()


def bnd_check(c, cx):
    R = np.random.RandomState(c["seed"])
    m, M = c["m"], c["M"]
    if c["kind"] == "unit":
        lb, ub = -np.ones(m), np.ones(m)
    elif c["kind"] == "moderate":
        lb = R.normal(size=m) * 3
        ub = lb + R.uniform(0.1, 5, size=m)
    elif c["kind"] == "int":
        lb = R.randint(-5, 5, size=m)
        ub = lb + R.randint(1, 8, size=m)
    elif c["kind"] == "tiny":     # quantities in SI units: ranges far below one, anywhere near the origin
        ub = 10.0 ** R.uniform(-18, -5, size=m)
        lb = ub * R.uniform(-1, 0.9, size=m)
    else:
        lb = R.normal(size=m) * 10.0 ** R.uniform(-3, 3, size=m)
        ub = lb + 10.0 ** R.uniform(-3, 3, size=m)
    bn = mi.BoundedNormalizer(shaped(lb, c["shape"]), shaped(ub, c["shape"]))
    wid = (ub - lb).astype(float)
    T = R.uniform(-1.3, 1.3, size=(M, m))
    T[0, R.randint(m)] = 1.0
    T[-1, R.randint(m)] = -1.0
    X = lb + wid * (T + 1) / 2
    mag = np.maximum(np.abs(lb), np.abs(ub)) + wid
    tolX = 1e-14 * mag + 1e-300
    tolT = 1e-14 * (mag / wid) + 1e-14

    def each(A, B, tol, what):
        A = ref.as2d(cx, A, B.shape, what)
        d = np.abs(A - B) / tol
        cx.ok(np.all(d <= 4), "{}: off by {:.3g}", what, float(np.max(np.abs(A - B))))
        return A
    Tn = each(bn.normalize(gen.layout(X, c["lay"])), T, tolT, "normalize")
    Xu = each(bn.unnormalize(gen.layout(T, c["lay"])), X, tolX, "unnormalize")
    each(bn.unnormalize(Tn), X, tolX * 2, "unnormalize(normalize(X))")
    each(bn.normalize(Xu), T, tolT * 2, "normalize(unnormalize(T))")
    ends = np.vstack((lb, ub, 0.5 * (lb + ub))).astype(float)
    ref3 = np.vstack((-np.ones(m), np.ones(m), np.zeros(m)))
    each(bn.normalize(ends), ref3, tolT, "normalize at the bounds and the midpoint")
    each(bn.unnormalize(ref3), ends, tolX, "unnormalize at -1, 1 and 0")
    cx.nontrivial(m > 1 and c["kind"] != "unit")
    cx.label(c["kind"], c["shape"])


@st.composite
def unb_case(draw):
    m = draw(gen.dim(1, 10))
    M = draw(gen.many(2050)) if draw(st.integers(0, 19)) == 0 else draw(gen.dim(1, 20))
    return {"m": m, "M": M, "seed": draw(gen.SEED), "shape": draw(st.sampled_from(["flat", "col", "row"])),
            "kind": draw(st.sampled_from(["identity", "diag", "full", "ill", "units", "vill"])), "lay": draw(st.sampled_from(gen.LAYOUTS)),
            "off": draw(st.sampled_from([0.0, 1.0, 100.0]))}


def units_check(c, cx):
    """Inputs in units of their own, many orders of magnitude apart: every one is whitened."""
    R = np.random.RandomState(c["seed"])
    m, M = c["m"], c["M"]
    s = 10.0 ** R.uniform(-9, 6, size=m)
    Q = gen.orth(c["seed"], m)
    C0 = (Q * R.uniform(0.2, 3, size=m)).dot(Q.T) if c["off"] else np.eye(m)
    C = s[:, None] * (0.5 * (C0 + C0.T)) * s
    mu = s * R.normal(size=m) * c["off"]
    un = mi.UnboundedNormalizer(shaped(mu, c["shape"]), C.copy())
    Z = R.normal(size=(M, m))
    X = ref.as2d(cx, un.unnormalize(gen.layout(Z, c["lay"])), (M, m), "unnormalize")
    D = (ref.as2d(cx, un.unnormalize(np.eye(m)), (m, m), "unnormalize(I)") - mu) / s
    ref.near(cx, D.T.dot(D), C0, 1e-10 * (1 + c["off"]), "covariance of unnormalized standard normals, in units of each input")
    tol = 1e-10 * m * (1 + c["off"]) * (1 + np.abs(Z).max())
    ref.near(cx, un.normalize(X), Z, tol, "normalize(unnormalize(Z)), inputs in units far apart")
    Y = ref.as2d(cx, un.normalize(gen.layout(mu + s * Z, c["lay"])), (M, m), "normalize")
    dist = np.sum(Z * np.linalg.solve(C0, Z.T).T, axis=1)
    ref.near(cx, np.sum(Y * Y, axis=1), dist, tol * (1 + dist.max()), "Mahalanobis distance, inputs in units far apart")
    cx.nontrivial(m > 1)
    cx.label("units", c["shape"])


def unb_check(c, cx):
    if c["kind"] == "units":
        return units_check(c, cx)
    R = np.random.RandomState(c["seed"])
    m, M = c["m"], c["M"]
    Q = gen.orth(c["seed"], m)
    ev = {"identity": np.ones(m), "diag": 10.0 ** R.uniform(-2, 2, size=m), "full": R.uniform(0.2, 3, size=m),
          "ill": 10.0 ** R.uniform(-3, 3, size=m), "vill": 10.0 ** R.uniform(-6, 5, size=m)}[c["kind"]]
    C = np.diag(ev) if c["kind"] in ("identity", "diag") else (Q * ev).dot(Q.T)
    C = 0.5 * (C + C.T)
    mu = R.normal(size=m) * c["off"]
    un = mi.UnboundedNormalizer(shaped(mu, c["shape"]), C.copy())
    cond = ev.max() / ev.min()
    sd = np.sqrt(ev.max())
    Z = R.normal(size=(M, m))
    X = ref.as2d(cx, un.unnormalize(gen.layout(Z, c["lay"])), (M, m), "unnormalize")
    # the map is affine: mean at 0, and the images of the axes form a square root of the covariance
    ref.near(cx, un.unnormalize(np.zeros((1, m))), mu.reshape((1, m)), 1e-13 * (1 + np.abs(mu).max()), "unnormalize(0) = mean")
    D = ref.as2d(cx, un.unnormalize(np.eye(m)), (m, m), "unnormalize(I)") - mu
    ref.near(cx, D.T.dot(D), C, 1e-11 * (ev.max() + np.abs(mu).max() * sd), "covariance of unnormalized standard normals")
    ref.near(cx, X, Z.dot(D) + mu, 1e-11 * (sd * (1 + np.abs(Z).max()) + np.abs(mu).max()), "unnormalize is affine")
    tol = (1e-13 if c["kind"] == "vill" else 1e-12) * np.sqrt(cond) * m * (np.abs(Z).max() + np.abs(mu).max() / np.sqrt(ev.min())) + 1e-12
    ref.near(cx, un.normalize(X), Z, tol, "normalize(unnormalize(Z))")
    X2 = mu + (R.normal(size=(M, m)) * np.sqrt(ev)).dot(Q.T if c["kind"] in ("full", "ill", "vill") else np.eye(m))
    Y = ref.as2d(cx, un.normalize(gen.layout(X2, c["lay"])), (M, m), "normalize")
    ref.near(cx, un.unnormalize(Y), X2, 1e-11 * m * (np.sqrt(cond) * sd * (1 + np.abs(Z).max()) + np.abs(mu).max()),
             "unnormalize(normalize(X))")
    # whitening: squared lengths are Mahalanobis distances
    dist = np.sum((X2 - mu) * np.linalg.solve(C, (X2 - mu).T).T, axis=1)
    ref.near(cx, np.sum(Y * Y, axis=1), dist, 1e-9 * cond * (1 + dist.max()), "Mahalanobis distance")
    cx.nontrivial(m > 1 and c["kind"] in ("full", "ill", "vill"))
    cx.label(c["kind"], c["shape"])


SCALE = 5
SUBS = [Sub("bounded", bnd_case(), bnd_check, 2000), Sub("unbounded", unb_case(), unb_check, 2000)]
