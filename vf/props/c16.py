"""C16: response surfaces on the active subspace."""
from math import comb
import numpy as np
from hypothesis import strategies as st
from scipy.spatial import ConvexHull
from scipy.spatial.distance import cdist
from ..core import Sub
from .. import gen, ref
from active_subspaces import response_surfaces as asr
from active_subspaces.utils import response_surfaces as rs
from active_subspaces.utils.simrunners import SimulationRunner
from active_subspaces.utils.quadrature import gauss_hermite
from active_subspaces.utils.designs import maximin_design

RULE = ("Orthogonal bases of 2..7 inputs, active dimension 1..3, bounded and unbounded domains, polynomial (degree 1..3), "
        "radial basis and default surfaces, trained with data or with an interface (recording function or "
        "SimulationRunner; N design points, NMC samples each) on polynomial ridge functions and on functions of all "
        "inputs; design sizes around perfect powers; partitions changed after the objects were made.  Non-trivial: there are inactive variables.")
ASSUMPTIONS = ["A run in which maximin_design reports that SLSQP failed says nothing (a limit of scipy that the "
               "library reports as an exception); C13 bounds how often that happens"]


class Skip(Exception):
    pass


def guarded(fun, *a, **k):
    try:
        return fun(*a, **k)
    except Exception as e:
        if "SLSQP failed" in str(e):
            raise Skip()
        raise


def setup_late(c):
    """Basis, eigenvalues, domain, map, and what has to be called before the partition is the one of the case: with
    c["n0"], the objects are made while the subspaces are partitioned at n0 and repartitioned as documented."""
    m, n = c["m"], c["n"]
    W = gen.orth(c["seed"], m)
    e = gen.eigs(c["seed"], m, c.get("ek", "decay"))
    s = gen.subspaces(W, e, n)
    d, Map = gen.make_domain(s, c["bounded"], c["seed"])
    if d is None:
        return None
    n0 = c.get("n0")
    if n0 is None or n0 == n or n0 > m:
        return W, e, d, Map(d), lambda: None
    s.partition(n0)
    d, Map = gen.make_domain(s, c["bounded"], c["seed"])
    if d is None:
        return None

    def finish():
        s.partition(n)
        if c["bounded"]:
            d.compute_boundary()
    return W, e, d, Map(d), finish


def setup(c):
    su = setup_late(c)
    if su is None:
        return None
    W, e, d, mp, finish = su
    finish()
    return W, e, d, mp


def hull_excess(Y, V):
    n = V.shape[1]
    if n == 1:
        return float(max((V.min() - Y).max(), (Y - V.max()).max()))
    E = ConvexHull(V).equations
    return float((Y.dot(E[:, :n].T) + E[:, n]).max())


def roots(N, n):
    k = 1
    while (k + 1) ** n <= N:
        k += 1
    return k


N0 = st.sampled_from([None, None, None, 1, 2, 3])


@st.composite
def mn(draw, hi=7):
    m = draw(gen.dim(2, hi))
    return {"m": m, "n": draw(st.sampled_from([k for k in (1, 1, 2, 2, 3) if k <= m])), "bounded": draw(st.booleans())}


def trained_on(cx, asrs, surf, N, Y, f, v, e, TY, got):
    """The surface is the one that (Y, f, v, e) determine, up to the one length-scale factor."""
    M, n = Y.shape
    pr = asrs.respsurf
    if surf == "poly":
        r2 = rs.PolynomialApproximation(N=N)
        r2.train(Y.copy(), f.copy())
        want = r2.predict(TY)[0]
        ref.near(cx, got, want, 1e-6 * (np.abs(want).max() + np.abs(f).max()), "polynomial fitted to the active variables")
        return
    ell = np.asarray(pr.ell, dtype=float).ravel()
    cx.ok(ell.size == n, "{} length scales for {} active variables", ell.size, n)
    r = ell * e[:n, 0] / e.sum()
    cx.ok(np.ptp(r) <= 1e-9 * r.max(), "length scales are not inversely proportional to the eigenvalues")
    vv = np.maximum(v.ravel() if v is not None else r[0] * e[n:].sum() * np.ones(M), 1e-6)
    D = Y[:, None, :] - Y[None, :, :]
    K = np.exp(-np.sum(D ** 2 / ell, axis=2)) + np.diag(vv)
    ref.near(cx, np.asarray(pr.K), K, 1e-8 * (1 + vv.max()), "kernel matrix of the active variables with the noise "
             + ("given" if v is not None else "of the inactive eigenvalues"))
    B = ref.monomials_fast(Y, [tuple(int(t) for t in a) for a in rs.index_set(N, n)])
    ref.near(cx, K.dot(pr.radial_weights) + B.dot(pr.poly_weights), f,
             1e-7 * (np.abs(f).max() + np.abs(pr.radial_weights).sum() * (1 + vv.max()) +
                     np.abs(B).dot(np.abs(pr.poly_weights)).max()), "interpolation of the training values")


@st.composite
def data_case(draw):
    c = draw(mn(8))
    c.update(seed=draw(gen.SEED), rs=draw(gen.SEED), N=draw(st.integers(1, 3 if c["n"] < 3 else 2)),
             over=draw(st.sampled_from([1.5, 2.0, 4.0])), surf=draw(st.sampled_from(["poly", "poly", "rbf", "default"])),
             f=draw(st.sampled_from(["ridge", "ridge", "full"])), v=draw(st.sampled_from(["none", "none", "vary"])),
             fs=draw(st.sampled_from([1.0, 1.0, 1e-10, 1e-4, 1e6])), lay=draw(st.sampled_from(gen.LAYOUTS)), n0=draw(N0), used=draw(st.booleans()), ek=draw(st.sampled_from(["decay", "flat", "rand", "steep"])))
    return c


def use_checks(cx, asrs, W, n, R, what):
    """predict / gradient in both spaces agree, and the surface is constant along inactive directions."""
    m = W.shape[0]
    W1, W2 = W[:, :n], W[:, n:]
    k = int(R.choice([1, n, m, m - n + 1, R.randint(1, 13), 257 if R.uniform() < 0.1 else 9]))
    T = R.uniform(-1, 1, size=(k, m))
    p, g = asrs.predict(T, compgrad=True)
    p, g = ref.as2d(cx, p, (k, 1), "prediction"), ref.as2d(cx, g, (k, m), "gradient")
    pa, ga = asrs.predict_av(T.dot(W1), compgrad=True)
    pa, ga = ref.as2d(cx, pa, (k, 1), "prediction (active)"), ref.as2d(cx, ga, (k, n), "gradient (active)")
    sc = float(np.abs(p).max()) + 1e-300
    gs = float(np.abs(g).max()) + sc
    amp = 1.0
    rw = getattr(asrs.respsurf, "radial_weights", None)
    if rw is not None:
        amp = 1 + float(np.abs(rw).sum()) / sc * (1 + float(np.max(1 / np.sqrt(np.asarray(asrs.respsurf.ell)))))
    tol = 1e-10 * sc * amp
    gt = 1e-9 * gs * amp * (1 + 0 if rw is None else 1 + float(np.max(1 / np.asarray(asrs.respsurf.ell))))
    ref.near(cx, p, pa, tol, what + ": predict is predict_av of the active variables")
    ref.near(cx, g, ga.dot(W1.T), gt, what + ": gradient is gradient_av mapped by W1'")
    ref.near(cx, asrs.gradient(T), g, 0.0, what + ": gradient")
    ref.near(cx, asrs.gradient_av(T.dot(W1)), ga, 0.0, what + ": gradient_av")
    ref.near(cx, asrs(T), p, 0.0, what + ": call")
    q, none = asrs.predict(T)
    cx.ok(none is None, "a gradient was returned without being asked for")
    ref.near(cx, q, p, 0.0, what + ": prediction with and without gradient")
    q, none = asrs.predict_av(T.dot(W1))
    cx.ok(none is None, "a gradient was returned without being asked for")
    ref.near(cx, q, pa, 0.0, what + ": prediction with and without gradient (active)")
    if m > n:
        ref.near(cx, asrs.predict(T + R.normal(size=(k, m - n)).dot(W2.T))[0], p, tol * 20,
                 what + ": constant along inactive directions")
    return p


def make_surface(c):
    if c["surf"] == "default":
        return None
    return (rs.PolynomialApproximation if c["surf"] == "poly" else rs.RadialBasisApproximation)(N=c["N"])


def data_check(c, cx):
    su = setup_late(c)
    if su is None:
        return
    W, e, d, mp, finish = su
    m, n = c["m"], c["n"]
    N = c["N"] if c["surf"] != "default" else 2
    R = np.random.RandomState(c["rs"])
    idx = ref.multi_indices(N, n)
    M = int(np.ceil(c["over"] * len(idx))) + 2
    X = R.uniform(-1, 1, size=(M, m))
    Y = X.dot(W[:, :n])
    cond = np.linalg.cond(ref.monomials_fast(Y, idx))
    if cond > 1e4:
        return
    coef = R.normal(size=len(idx))
    f = ref.poly_eval(coef, idx, Y)
    if c["f"] == "full":
        f = f + np.sin(3 * X[:, :1]) + X[:, -1:] ** 2
    f, coef = f * c["fs"], coef * c["fs"]
    surf = make_surface(c)
    asrs = asr.ActiveSubspaceResponseSurface(mp) if surf is None else asr.ActiveSubspaceResponseSurface(mp, surf)
    cx.ok(isinstance(asrs.respsurf, rs.RadialBasisApproximation) if surf is None else asrs.respsurf is surf,
          "the response surface is {!r}", type(asrs.respsurf).__name__)
    if c["n0"] is not None:
        if c["used"] and surf is not None:       # the same object, trained and used at the other partition before
            asrs.train_with_data(R.uniform(-1, 1, size=(60, m)), R.normal(size=(60, 1)))
            asrs.predict(R.uniform(-1, 1, size=(3, m)), compgrad=True)
        finish()
    v = None if c["v"] == "none" or c["surf"] == "poly" else R.uniform(0, 0.1, size=(M, 1))
    Xl = gen.layout(X, c["lay"])
    if v is None:
        asrs.train_with_data(Xl, f)
    else:
        asrs.train_with_data(Xl, f, v=v)
    use_checks(cx, asrs, W, n, R, "trained with data")
    T = R.uniform(-1, 1, size=(7, m))
    if c["f"] == "ridge":
        want = ref.poly_eval(coef, idx, T.dot(W[:, :n]))
        tol = 1e-9 * cond ** 2 * (np.abs(f).max() + np.abs(coef).max())
        if c["surf"] != "poly":
            tol *= 1e3
        tol = min(tol, 1e-3 * (np.abs(f).max() + np.abs(coef).max()))
        if cond < 300:
            ref.near(cx, asrs.predict(T)[0], want, tol, "a polynomial ridge function of degree <= N is recovered")
            ref.near(cx, asrs.gradient(T), ref.poly_grad(coef, idx, T.dot(W[:, :n])).dot(W[:, :n].T), tol * 30,
                     "gradient of a polynomial ridge function")
            cx.label("recovered")
    # the same surface trained directly on the active variables
    trained_on(cx, asrs, c["surf"], N, X.dot(W[:, :n]), f, v, e, T.dot(W[:, :n]), asrs.predict(T)[0])
    cx.nontrivial(m > n)
    cx.label("surf=" + c["surf"], c["f"], "bounded" if c["bounded"] else "unbounded")


@st.composite
def face_case(draw):
    c = draw(mn(6))
    c["N"] = draw(st.integers(1, 3 if c["n"] == 1 else 2))
    if c["n"] == 3:
        c["N"] = draw(st.sampled_from([1, 1, 2]))
    if c["bounded"]:
        np_ = {1: st.integers(3, 12), 2: st.integers(2, 5), 3: st.integers(2, 3)}[c["n"]]
    else:
        np_ = {1: st.integers(3, 12), 2: st.sampled_from([9, 10, 15, 16, 20]), 3: st.sampled_from([27, 30, 64])}[c["n"]]
    c.update(seed=draw(gen.SEED), rs=draw(gen.SEED), np=draw(np_), fs=draw(st.sampled_from([1.0, 1.0, 1e-6, 1e3, 1e8])),
             NMC=draw(st.integers(13, 45)) if c["n"] < 3 and draw(st.integers(0, 7)) == 0 else draw(st.one_of(st.just(None), st.integers(1, 12))),
             surf=draw(st.sampled_from(["poly", "poly", "rbf", "default"])), f=draw(st.sampled_from(["ridge", "full", "full"])),
             runner=draw(st.booleans()), n0=draw(N0), ek=draw(st.sampled_from(["decay", "rand", "steep"])))
    return c


def face_check(c, cx):
    su = setup_late(c)
    if su is None:
        return
    W, e, d, mp, finish = su
    m, n = c["m"], c["n"]
    W1 = W[:, :n]
    N = c["N"] if c["surf"] != "default" else 2
    R = np.random.RandomState(c["rs"])
    gen.reseed(c["rs"])
    idx = ref.multi_indices(N, n)
    coef, fs = R.normal(size=len(idx)), c["fs"] if c["surf"] == "poly" else 1.0   # a huge noise variance is no good input for a kernel
    seen = []

    def fun(x):
        x = np.asarray(x, dtype=float)
        if x.shape != (1, m):
            cx.fail("the interface was called with shape {}".format(x.shape))
        seen.append(x[0].copy())
        t = float(ref.poly_eval(coef, idx, x.dot(W1))[0, 0])
        if c["f"] == "full":
            t += float(np.sin(3 * x[0, 0]) + x[0, -1] ** 2)
        return fs * t

    ndes = c["np"] if c["bounded"] else roots(c["np"], n) ** n
    surf = make_surface(c)
    asrs = asr.ActiveSubspaceResponseSurface(mp) if surf is None else asr.ActiveSubspaceResponseSurface(mp, respsurf=surf)
    finish()
    args = (SimulationRunner(fun) if c["runner"] else fun, c["np"])
    kw = {} if c["NMC"] is None else {"NMC": c["NMC"]}
    NMC = 10 if c["NMC"] is None else c["NMC"]
    npts = ndes + (len(d.vertY) if c["bounded"] else 0)
    try:
        guarded(asrs.train_with_interface, *args, **kw)
    except Skip:
        cx.label("slsqp")
        return
    except Exception as ex:
        if "Not enough points" in str(ex) and npts < comb(N + n, n):
            cx.label("too few points")
            return
        if isinstance(ex, np.linalg.LinAlgError) and len(seen) and np.linalg.cond(ref.monomials_fast(
                np.unique(np.round(np.array(seen).dot(W1), 7), axis=0), idx)) > 1e6:
            cx.label("design not unisolvent")
            return
        raise
    cx.ok(npts >= comb(N + n, n), "{} points were enough for degree {} in {} variables", npts, N, n)
    X = np.array(seen)
    if c["bounded"]:
        cx.ok(np.abs(X).max() <= 1 + 1e-5, "the interface was called outside the cube: {:.6g}", np.abs(X).max())
    Yt = ref.as2d(cx, asrs.respsurf.X, (npts, n), "training points")
    Y = X.dot(W1)
    near_ = cdist(Y, Yt)
    which = near_.argmin(axis=1)
    cx.ok(near_.min(axis=1).max() <= 1e-6, "the interface was called away from the design: {:.3g}",
          near_.min(axis=1).max())
    sep = cdist(Yt, Yt)[np.triu_indices(npts, 1)].min() if npts > 1 else 1.0
    if sep < 1e-4:
        cx.label("coincident design points")
        return
    fx = np.array([fun(x[None, :]) for x in X])
    Ef, Vf, cnt = np.zeros((npts, 1)), np.zeros((npts, 1)), np.zeros(npts, dtype=int)
    for i in range(npts):
        t = fx[which == i]
        cnt[i] = len(t)
        cx.ok(cnt[i] > 0, "no evaluation for a training point")
        Ef[i], Vf[i] = sum(t) / len(t), np.mean((t - sum(t) / len(t)) ** 2)
    if c["bounded"]:
        nv = len(d.vertY)
        vrows = cdist(np.array(d.vertY), Yt).argmin(axis=1)
        cx.ok(len(set(vrows)) == nv and cdist(np.array(d.vertY), Yt).min(axis=1).max() < 1e-9,
              "the vertices of the domain are not among the training points")
        cx.ok(np.all(cnt[vrows] == 1), "a vertex was evaluated more than once")
        rest = np.delete(cnt, vrows)
        cx.ok(np.all(rest == NMC), "{} evaluations at a design point, expected {}", sorted(set(rest)), NMC)
        D = np.delete(Yt, vrows, axis=0)
        cx.ok(hull_excess(D, np.array(d.vertY)) <= 1e-9, "a design point lies outside the domain")
    else:
        cx.ok(np.all(cnt == NMC), "{} evaluations at a design point, expected {}", sorted(set(cnt)), NMC)
    ref.near(cx, np.asarray(asrs.respsurf.f, dtype=float), Ef, 1e-9 * (fs + np.abs(Ef).max()),
             "training values are averages over each active value")
    cond = np.linalg.cond(ref.monomials_fast(Yt, idx))
    if cond > 1e6:
        return
    T = R.uniform(-1, 1, size=(7, m))
    got = asrs.predict(T)[0]
    trained_on(cx, asrs, c["surf"], N, Yt, Ef, Vf, e, T.dot(W1), got)
    if c["f"] == "ridge" and cond < 300:
        ref.near(cx, got, fs * ref.poly_eval(coef, idx, T.dot(W1)),
                 (1e-4 if c["surf"] == "poly" else 2e-3) * (np.abs(fx).max() + fs * np.abs(coef).max()),
                 "a polynomial ridge function of degree <= N is recovered")
        cx.label("recovered")
    use_checks(cx, asrs, W, n, R, "trained with an interface")
    cx.nontrivial(m > n)
    cx.label("surf=" + c["surf"], c["f"], "bounded" if c["bounded"] else "unbounded", "n=%d" % n)


@st.composite
def des_case(draw):
    c = draw(mn(7))
    if c["bounded"]:
        N = draw(st.integers(1, 60) if c["n"] == 1 else st.integers(1, 5) if c["n"] == 2 else st.integers(1, 3))
    else:
        k = draw(st.integers(1, {1: 60, 2: 11, 3: 6}[c["n"]]))
        N = max(1, k ** c["n"] + draw(st.sampled_from([-1, 0, 0, 0, 1, 3])))
    c.update(seed=draw(gen.SEED), rs=draw(gen.SEED), n0=draw(N0), N=N,
             NMC=draw(st.integers(13, 45)) if N <= 12 and draw(st.integers(0, 7)) == 0 else draw(st.one_of(st.just(None), st.integers(1, 12))))
    return c


def des_check(c, cx):
    su = setup_late(c)
    if su is None:
        return
    W, e, d, mp, finish = su
    finish()
    m, n, N = c["m"], c["n"], c["N"]
    gen.reseed(c["rs"])
    NMC = 10 if c["NMC"] is None else c["NMC"]
    try:
        Y, X, ind = guarded(asr.av_design, mp, N) if c["NMC"] is None else guarded(asr.av_design, mp, N, NMC=NMC)
    except Skip:
        cx.label("slsqp")
        return
    k = N if c["bounded"] else roots(N, n) ** n
    Y = ref.as2d(cx, Y, (k, n), "design")
    X = ref.as2d(cx, X, (k * NMC, m), "full-space points")
    if c["bounded"]:
        V = np.array(d.vertY)
        cx.ok(hull_excess(Y, V) <= 1e-4, "a design point lies outside the domain")
        cx.ok(np.abs(X).max() <= 1 + 1e-5, "a full-space point lies outside the cube: {:.6g}", np.abs(X).max())
        if n == 1:
            a, b = V.min(), V.max()
            ref.near(cx, np.sort(Y[:, 0]), a + (b - a) * np.arange(1, N + 1) / (N + 1.0), 1e-12 * (b - a),
                     "equally spaced design")
        else:
            ref.near(cx, Y, maximin_design(V, N), 1e-9, "maximin design of the vertices")
    else:
        pts = gauss_hermite([roots(N, n)] * n)[0]
        ref.near(cx, Y, pts, 0.0, "tensor Gauss-Hermite points")
        g1 = np.polynomial.hermite_e.hermegauss(roots(N, n))[0]
        ref.near(cx, np.sort(Y[:, 0]), np.sort(np.repeat(g1, roots(N, n) ** (n - 1))), 1e-6 * (1 + np.abs(g1).max()),
                 "Gauss-Hermite points")
    I = np.asarray(ind)
    cx.ok(I.shape == (k * NMC, 1), "indices have shape {}", I.shape)
    for i in range(k):
        cx.ok(int(np.sum(I == i)) == NMC, "design point {} has {} full-space points", i, int(np.sum(I == i)))
    ref.near(cx, X.dot(W[:, :n]), Y[I[:, 0].astype(int)], 1e-8 * (1 + np.abs(Y).max()), "points map back to the design")
    cx.nontrivial(m > n)
    cx.label("bounded" if c["bounded"] else "unbounded", "n=%d" % n)


SUBS = [Sub("data", data_case(), data_check, 2000), Sub("interface", face_case(), face_check, 2000),
        Sub("design", des_case(), des_check, 1200)]
