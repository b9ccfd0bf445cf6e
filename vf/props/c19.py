"""C19: the map used for minimisation, and minimize."""
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import linprog
from ..core import Sub
from .. import gen, ref
from .c16 import setup, hull_excess
from .c10 import active_points
from active_subspaces import optimizers as opt
from active_subspaces import response_surfaces as asr
from active_subspaces.utils import response_surfaces as rs

RULE = ("Orthogonal bases of 2..7 inputs, active dimension 1..3 (also all inputs active), bounded and unbounded domains, "
        "training data from quadratics (convex, indefinite) with and without noise; active points that are images of "
        "interior points, face points and corners; minimisation of polynomial and radial basis surfaces.  Non-trivial: "
        "there are inactive variables.")
ASSUMPTIONS = ["Surrogates with an indefinite Hessian in the inactive variables: only stationarity (unbounded) or "
               "first-order optimality (bounded) is required",
               "A call may report that scipy's optimiser failed; at least half of the calls of a group must succeed"]


@st.composite
def mn19(draw):
    m = draw(gen.dim(2, 7))
    n = draw(st.sampled_from([k for k in (1, 1, 1, 2, 2, 3) if k <= m]))
    return {"m": m, "n": n, "bounded": draw(st.booleans()), "seed": draw(gen.SEED), "rs": draw(gen.SEED)}


@st.composite
def reg_case(draw):
    c = draw(mn19())
    NY = draw(st.integers(1, 6))
    c.update(NY=NY, hess=draw(st.sampled_from(["convex", "convex", "indef"])), noise=draw(st.sampled_from([0.0, 0.05, 0.5])),
             yk=draw(st.lists(st.sampled_from(["interior", "interior", "centre", "face", "near"]), min_size=NY, max_size=NY)),
             lay=draw(st.sampled_from(gen.LAYOUTS)), retrain=draw(st.booleans()), xs=draw(st.sampled_from([0, 0, 1.0, 4.0])),
             fs=draw(st.sampled_from([1.0, 1.0, 1.0, 1e-3, 30.0, 1e3, 1e5])))
    return c


def quad_data(c, R, m, M):
    H = R.normal(size=(m, m))
    H = H.dot(H.T) if c["hess"] == "convex" else H + H.T
    b = R.normal(size=m) * R.choice([0.3, 1.0, 5.0])
    X = R.uniform(-1, 1, size=(M, m)) if c["bounded"] or not c.get("xs") else c["xs"] * R.normal(size=(M, m))
    f = 0.5 * np.sum(X.dot(H) * X, axis=1) + X.dot(b) + 0.7
    return X, c.get("fs", 1.0) * (f + c["noise"] * R.normal(size=M)).reshape((M, 1))


def surrogate(W, n, X, f):
    """Least-squares quadratic in the leading p eigenvectors -> gradient at 0 and Hessian in x."""
    m = W.shape[0]
    p = min(m, n + 2 if m - n > 2 else n + 1)
    U = X.dot(W[:, :p])
    idx = ref.multi_indices(2, p)
    B = ref.monomials_fast(U, idx)
    co = np.linalg.lstsq(B, f, rcond=None)[0][:, 0]
    g, H = np.zeros(p), np.zeros((p, p))
    for a, t in zip(idx, co):
        nz = [j for j in range(p) if a[j]]
        if sum(a) == 1:
            g[nz[0]] = t
        elif sum(a) == 2 and len(nz) == 1:
            H[nz[0], nz[0]] = 2 * t
        elif sum(a) == 2:
            H[nz[0], nz[1]] = H[nz[1], nz[0]] = t
    return W[:, :p].dot(g), W[:, :p].dot(H).dot(W[:, :p].T), np.linalg.cond(B), p


def check_z(cx, c, W, n, y, z, g, H):
    """z minimises the surrogate (plus 0.005 |z|^2) over what the active point leaves free."""
    W1, W2 = W[:, :n], W[:, n:]
    m = W.shape[0]
    cz = W2.T.dot(g) + W2.T.dot(H).dot(W1).dot(y)
    A = W2.T.dot(H).dot(W2) + 0.01 * np.eye(m - n)
    lam = np.linalg.eigvalsh(A)
    gz = cz + A.dot(z)
    if not c["bounded"]:
        sc = (np.abs(cz).max() + 1e-12) * max(1.0, np.abs(lam).max() / np.abs(lam).min())
        ref.near(cx, gz, np.zeros(m - n), 1e-8 * sc, "stationary point of the surrogate")
        return "convex" if lam[0] > 0 else "indefinite"
    x = W1.dot(y) + W2.dot(z)
    cx.ok(np.abs(x).max() <= 1 + 1e-6, "leaves the cube: {:.8g}", np.abs(x).max())
    lp = linprog(gz, A_ub=np.vstack((W2, -W2)), b_ub=np.hstack((1 - W1.dot(y), 1 + W1.dot(y))) + 1e-9,
                 bounds=[(None, None)] * (m - n))
    if not lp.success:
        return "degenerate"
    gap = float(gz.dot(z) - lp.fun)
    sc = np.abs(cz).max() + np.abs(lam).max() + 1e-12
    # scipy stops at a relative change of 1e-6 of the objective
    cx.ok(gap <= 3e-3 * (sc + min(1.0, c.get("fs", 1.0))), "the inactive variables are not a first-order minimiser of the surrogate over the cube: "
          "gap {:.3g}", gap)
    if lam[0] > 0:
        return "convex"
    return "indefinite"


def reg_check(c, cx):
    su = setup(c)
    if su is None:
        return
    W, e, d, mp = su
    m, n = c["m"], c["n"]
    W1, W2 = W[:, :n], W[:, n:]
    R = np.random.RandomState(c["rs"])
    X, f = quad_data(c, R, m, 3 * (m + 1) * (m + 2))
    g, H, cond, p = surrogate(W, n, X, f)
    cls = opt.BoundedMinVariableMap if c["bounded"] else opt.UnboundedMinVariableMap
    mv = cls(d)
    if c["retrain"]:
        mv.train(*quad_data(dict(c, hess="convex"), R, m, 60))
    mv.train(gen.layout(X, c["lay"]), f)
    Y = active_points(c, W1, R, c["bounded"])
    if n == m:
        Z = np.asarray(mv.regularize_z(Y, 1))
        cx.ok(Z.shape == (len(Y), 0, 1), "no inactive variables: Z has shape {}", Z.shape)
        ref.near(cx, mv.inverse(Y)[0], Y.dot(W1.T), 1e-12 * (1 + np.abs(Y).max()), "inverse without inactive variables")
        return
    fails = 0
    for y in Y:
        try:
            Xi, ind = mv.inverse(y.reshape((1, n)))
        except Exception as ex:
            if "did not solve" in str(ex):
                fails += 1
                continue
            raise
        Xi = ref.as2d(cx, Xi, (1, m), "inverse")
        ref.near(cx, Xi[0].dot(W1), y, 1e-9 * (1 + np.abs(y).max()), "the inverse maps back to the active point")
        k = check_z(cx, c, W, n, y, Xi[0].dot(W2), g, H)
        cx.label(k)
    if fails:
        cx.label("scipy failed")
    cx.ok(fails <= max(1, len(Y) / 2), "scipy failed on {} of {} points", fails, len(Y))
    if not fails:
        Xa, ind = mv.inverse(Y)
        Xa = ref.as2d(cx, Xa, (len(Y), m), "inverse of several points")
        ref.near(cx, Xa.dot(W1), Y, 1e-9 * (1 + np.abs(Y).max()), "the inverse maps back to the active points")
        cx.ok(np.array_equal(np.asarray(ind).ravel().astype(int), np.arange(len(Y))), "indices of the inverse: {}",
              np.asarray(ind).ravel())
        for y, x in zip(Y, Xa):
            check_z(cx, c, W, n, y, x.dot(W2), g, H)
    for N in (0, 2):
        try:
            mv.regularize_z(Y, N)
        except Exception:
            continue
        cx.fail("regularize_z accepted N={}".format(N))
    cx.nontrivial(m > n)
    cx.label("bounded" if c["bounded"] else "unbounded", "p=%d" % (p - n))


@st.composite
def min_case(draw):
    c = draw(mn19())
    c.update(hess=draw(st.sampled_from(["convex", "convex", "indef"])) if c["bounded"] else "convex",
             noise=draw(st.sampled_from([0.0, 0.05])), fs=draw(st.sampled_from([1.0, 1.0, 1.0, 30.0, 1e3])), surf=draw(st.sampled_from(["poly", "poly", "rbf"])),
             lay=draw(st.sampled_from(gen.LAYOUTS)))
    return c


def min_check(c, cx):
    su = setup(c)
    if su is None:
        return
    W, e, d, mp = su
    m, n = c["m"], c["n"]
    W1, W2 = W[:, :n], W[:, n:]
    R = np.random.RandomState(c["rs"])
    X, f = quad_data(c, R, m, 3 * (m + 1) * (m + 2))
    asrs = asr.ActiveSubspaceResponseSurface(mp, (rs.PolynomialApproximation if c["surf"] == "poly" else
                                                  rs.RadialBasisApproximation)(N=2))
    k = 40 if c["surf"] == "rbf" else len(X)
    if c["surf"] == "rbf":
        asrs.train_with_data(X[:k], f[:k], v=0.01 * np.ones((min(k, len(X)), 1)))
    else:
        asrs.train_with_data(X, f)
    if not c["bounded"]:
        # the surface must be bounded from below
        if c["surf"] == "rbf":
            Hs = np.zeros((n, n))
            Y0 = np.zeros((1, n))
            far = 50.0 * np.vstack((np.eye(n), -np.eye(n), R.normal(size=(20, n))))
            if asrs.predict_av(far)[0].min() <= asrs.predict_av(X.dot(W1))[0].max():
                return
        elif np.linalg.eigvalsh(asrs.respsurf.H)[0] <= 1e-2:
            if np.linalg.eigvalsh(asrs.respsurf.H)[0] < -1e-2:
                # the surface has no minimum
                with np.errstate(all="ignore"):
                    try:
                        out = opt.minimize(asrs, X, f)
                    except Exception:
                        cx.label("no minimum")
                        return
                cx.fail("a surface without a minimum got {} with value {}".format(*out))
            return
    gen.reseed(c["rs"])
    try:
        xs, fs = opt.minimize(asrs, gen.layout(X, c["lay"]), f)
    except Exception as ex:
        if "did not solve" in str(ex) or "failed with message" in str(ex):
            cx.label("scipy failed")
            return
        raise
    xs = ref.as2d(cx, xs, (1, m), "xstar")
    fs = ref.scalar(cx, fs, "fstar")
    sc = np.abs(f).max() + abs(fs)
    ref.near(cx, ref.scalar(cx, asrs.predict(xs)[0], "predict(xstar)"), fs, 1e-6 * sc, "predict(xstar) = fstar")
    y = xs[0].dot(W1)
    gy = asrs.gradient_av(y.reshape((1, n)))[0]
    rough = c["surf"] == "rbf" and float(np.min(asrs.respsurf.ell)) < 0.05     # spikes at the data points
    if c["bounded"]:
        cx.ok(np.abs(xs).max() <= 1 + 1e-5, "xstar leaves the cube: {:.8g}", np.abs(xs).max())
        V = np.array(d.vertY)
        gap = float((gy.dot(y) - V.dot(gy)).max())
        cx.ok(rough or gap <= 2e-3 * sc, "not a first-order minimiser of the surface over the domain: gap {:.3g}", gap)
        if c["surf"] == "poly" and np.linalg.eigvalsh(asrs.respsurf.H)[0] >= 0:
            S = asrs.predict(R.uniform(-1, 1, size=(400, m)))[0]
            cx.ok(fs <= S.min() + 1e-5 * sc, "a sampled point is lower: {} against {}", float(S.min()), fs)
            cx.ok(fs <= asrs.predict_av(V)[0].min() + 1e-5 * sc, "a vertex is lower")
    else:
        cx.ok(rough or np.abs(gy).max() <= 2e-3 * sc, "not a stationary point of the surface: {:.3g}", np.abs(gy).max())
    if n < m:
        g, H, cond, p = surrogate(W, n, X, f)
        cx.label(check_z(cx, c, W, n, y, xs[0].dot(W2), g, H))
    cx.nontrivial(m > n)
    cx.label("bounded" if c["bounded"] else "unbounded", c["surf"])


SCALE = 2
SUBS = [Sub("inverse", reg_case(), reg_check, 2000), Sub("minimize", min_case(), min_check, 2000)]
