"""C26: the whole pipeline on ridge functions."""
import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen, ref
from active_subspaces import domains as dm, integrals as ig, optimizers as op, response_surfaces as asr, subspaces as ss
from active_subspaces.utils import misc as mi, response_surfaces as rs, simrunners as sr
from active_subspaces import gradients as gr

RULE = ("Functions f(x) = g(A'x) of 2 to 7 inputs that depend on one, two or three linear combinations of them (g a polynomial "
        "of degree 1 to 3), on a cube or with Gaussian inputs, gradients exact, by finite differences or from a linear "
        "fit; the subspace is computed, split, turned into domain, map, response surface, integral and minimum.  "
        "Non-trivial: the function is not linear and the subspace found has the dimension of A with a clear gap.")


@st.composite
def case(draw):
    m = draw(st.integers(2, 7))
    n = draw(st.integers(1, min(3, m - 1)))
    return {"m": m, "n": n, "deg": draw(st.sampled_from([1, 2, 2, 3])), "bounded": draw(st.booleans()), "seed": draw(gen.SEED),
            "grad": draw(st.sampled_from(["exact", "exact", "fd"])), "nboot": draw(st.sampled_from([0, 0, 0, 3])),
            "norm": draw(st.booleans()), "weights": draw(st.booleans()), "A": draw(st.sampled_from(["full", "axis", "alike", "weak"]))}


class Prob(object):
    """f(x) = g(A'x) in normalized inputs, with the physical inputs an affine image when c['norm']."""

    def __init__(self, c):
        self.R = R = np.random.RandomState(c["seed"])
        m, n = c["m"], c["n"]
        self.m, self.n = m, n
        if c["A"] == "axis":
            self.A = np.eye(m)[:, R.permutation(m)[:n]] * R.uniform(0.5, 1.5, size=n)
        elif c["A"] == "alike":      # inputs that do not matter, and inputs that matter alike
            k = R.randint(n, m + 1)
            B = R.normal(size=(k, n))
            B = np.vstack((B, B[R.randint(0, k, size=m - k)] * R.choice([0.0, 1.0, 1.0, -1.0, 2.0], size=(m - k, 1))))
            self.A = B[R.permutation(m)]
        elif c["A"] == "weak":       # inputs that hardly matter
            self.A = R.normal(size=(m, n)) * np.where(np.arange(m) < n, 1.0, 10.0 ** -R.uniform(0, 6, size=m))[R.permutation(m)].reshape((m, 1))
        else:
            self.A = R.normal(size=(m, n))
        self.A = self.A / np.linalg.norm(self.A)
        self.idx = ref.multi_indices(c["deg"], n)
        self.coef = R.normal(size=len(self.idx)) * np.where(np.array([sum(i) for i in self.idx]) == 3, 0.3, 1.0)
        if c["norm"]:
            lb = R.normal(size=m) * 10
            ub = lb + R.uniform(0.5, 20, size=m)
            if c["bounded"]:
                self.nrm = mi.BoundedNormalizer(lb, ub)
            else:
                B = R.normal(size=(m, m)) + 2 * np.eye(m)
                self.nrm = mi.UnboundedNormalizer(lb, B.dot(B.T))
        else:
            self.nrm = None

    def f(self, X):
        return ref.poly_eval(self.coef, self.idx, np.asarray(X, dtype=float).dot(self.A))

    def df(self, X):
        return ref.poly_grad(self.coef, self.idx, X.dot(self.A)).dot(self.A.T)

    def sample(self, M, c):
        return self.R.uniform(-1, 1, size=(M, self.m)) if c["bounded"] else self.R.normal(size=(M, self.m))

    def run(self, P):
        """The model as the user has it: physical inputs, one row at a time."""
        x = P if self.nrm is None else self.nrm.normalize(np.asarray(P).reshape((1, self.m)))
        return float(self.f(np.asarray(x).reshape((1, self.m)))[0, 0])


def start(c, cx):
    p = Prob(c)
    m, n = c["m"], c["n"]
    M = max(6 * len(p.idx), 2 * m + 8)
    X = p.sample(M, c)
    # outputs through the normalizer and the runner
    P = X if p.nrm is None else p.nrm.unnormalize(X)
    F = sr.SimulationRunner(p.run).run(P)
    want = p.f(X)
    fs = float(np.abs(want).max()) + 1e-300
    ref.near(cx, F, want, 1e-8 * fs, "model outputs over the normalizer and the runner")
    D = p.df(X)
    if c["grad"] == "fd":
        Gn = gr.finite_difference_gradients(X, lambda x: float(p.f(x)[0, 0]))
        ref.near(cx, Gn, D, 1e-4 * (np.abs(D).max() + fs), "finite difference gradients")
        D = Gn
    w = p.R.uniform(0.2, 1, size=(M, 1)) if c["weights"] else None
    if w is not None:
        w = w / w.sum()
    S = ss.Subspaces()
    if w is None:
        S.compute(df=D, nboot=c["nboot"])
    else:
        S.compute(df=D, weights=w, nboot=c["nboot"])
    e = np.asarray(S.eigenvals)[:, 0]
    noise = 1e-13 if c["grad"] == "exact" else 1e-7
    cx.ok(np.all(e[n:] <= noise * max(e[0], fs * fs)), "eigenvalues beyond the dimension of the ridge: {}", e)
    if e[0] == 0 or e[n - 1] < 1e-3 * e[0]:
        cx.label("degenerate")
        return None
    if c["deg"] == 1 and n > 1:
        cx.label("degenerate")
        return None
    S.partition(n)
    Qa = np.linalg.qr(p.A)[0]
    tol = 1e-9 if c["grad"] == "exact" else 1e-3
    W1 = np.asarray(S.W1)
    cx.ok(W1.shape == (m, n), "W1 has shape {}", W1.shape)
    ref.near(cx, W1 - Qa.dot(Qa.T.dot(W1)), np.zeros((m, n)), tol, "the active subspace is the span of A")
    return p, X, F, S, fs, tol


def dom(c, S):
    return gen.make_domain(S, c["bounded"], c["seed"] % 100000)


def surf_check(c, cx):
    t = start(c, cx)
    if t is None:
        return
    p, X, F, S, fs, tol = t
    gen.reseed(c["seed"])
    d, mapc = dom(c, S)
    if d is None:
        cx.label("hard zonotope")
        return
    mp = mapc(d)
    T = p.sample(7, c)
    # active and inactive coordinates carry the function
    Y, Z = mp.forward(T)
    Xi, ind = mp.inverse(Y, N=3)
    k = np.asarray(ind).reshape((-1,)).astype(int)
    amp = 1 + np.abs(Xi).max() ** c["deg"]
    ref.near(cx, p.f(Xi), p.f(T)[k], 10 * tol * amp * (1 + np.abs(p.coef).sum()), "f on the points mapped back from the active variables")
    if c["bounded"]:
        cx.ok(np.abs(Xi).max() <= 1 + 1e-6, "mapped back out of the cube: {}", np.abs(Xi).max())
    # a polynomial surface of the right degree reproduces f and its gradient
    R_ = asr.ActiveSubspaceResponseSurface(mp, rs.PolynomialApproximation(N=c["deg"]))
    R_.train_with_data(X, F)
    sc = 1e3 * tol * amp * (1 + np.abs(p.coef).sum())
    f1, g1 = R_.predict(T, compgrad=True)
    ref.near(cx, f1, p.f(T), sc, "response surface of a ridge polynomial")
    ref.near(cx, g1, p.df(T), 10 * sc, "gradient of the response surface of a ridge polynomial")
    ref.near(cx, R_(T), f1, 1e-12 * (fs + np.abs(f1).max()), "calling the surface")
    if np.var(F) > 1e-6 * fs * fs and c["grad"] == "exact":
        cx.ok(abs(R_.respsurf.Rsqr - 1) < 1e-6, "R squared of an exact fit is {}", R_.respsurf.Rsqr)
    cx.nontrivial(c["deg"] > 1)
    cx.label("bounded" if c["bounded"] else "unbounded", "n=%d" % c["n"], c["grad"], "A: " + c["A"])


def integral_check(c, cx):
    c = dict(c, n=1 if c["bounded"] else min(c["n"], 2))
    t = start(c, cx)
    if t is None:
        return
    p, X, F, S, fs, tol = t
    gen.reseed(c["seed"])
    d, mapc = dom(c, S)
    if d is None:
        return
    mp = mapc(d)
    N = 60 if c["bounded"] else 16
    # exact mean by a tensor Gauss rule in the coordinates of A
    x1, w1 = np.polynomial.legendre.leggauss(4) if c["bounded"] else np.polynomial.hermite_e.hermegauss(4)
    w1 = w1 / w1.sum()
    if c["bounded"]:
        Gx = np.array(np.meshgrid(*[x1] * p.m, indexing="ij")).reshape((p.m, -1)).T
        Gw = np.array(np.meshgrid(*[w1] * p.m, indexing="ij")).reshape((p.m, -1)).prod(axis=0)
        exact = float(Gw.dot(p.f(Gx)[:, 0]))
        v = np.sort(np.asarray(d.vertY).reshape((-1,)))
        h = (v[1] - v[0]) / N
        yy = np.linspace(v[0], v[1], 400)
        xx = yy[:, None] * np.asarray(S.W1).T
        ff = p.f(xx)[:, 0]
        slope = np.abs(np.gradient(ff, yy)).max()
        sd = np.sqrt(max(0.0, float(Gw.dot((p.f(Gx)[:, 0] - exact) ** 2))))
        tolI = slope * h / 2 + 6 * sd / 100 + 1e-6 * fs
    else:
        L = np.linalg.qr(p.A)[0]
        n = c["n"]
        Gu = np.array(np.meshgrid(*[x1] * n, indexing="ij")).reshape((n, -1)).T
        Gw = np.array(np.meshgrid(*[w1] * n, indexing="ij")).reshape((n, -1)).prod(axis=0)
        exact = float(Gw.dot(p.f(Gu.dot(L.T))[:, 0]))
        tolI = 1e-7 * (1 + np.abs(p.coef).sum()) if c["grad"] == "exact" else 2e-2 * (1 + np.abs(p.coef).sum())
    mu, lb, ub = ig.integrate(lambda x: float(p.f(x)[0, 0]), mp, N, NMC=2)
    cx.ok(abs(mu - exact) <= tolI, "integral of a ridge function {} is {}, tolerance {}", exact, mu, tolI)
    R_ = asr.ActiveSubspaceResponseSurface(mp, rs.PolynomialApproximation(N=c["deg"]))
    R_.train_with_data(X, F)
    mu2 = float(ig.av_integrate(R_, mp, N))
    extra = 1e3 * tol * (1 + np.abs(p.coef).sum())
    cx.ok(abs(mu2 - exact) <= tolI + extra, "integral of the response surface: {} instead of {}", mu2, exact)
    cx.nontrivial(c["deg"] > 1)
    cx.label("bounded" if c["bounded"] else "unbounded")


def min_check(c, cx):
    """Convex quadratic ridge functions: the minimum found is the minimum."""
    c = dict(c, deg=2, grad="exact", bounded=True if c["m"] % 2 else c["bounded"])
    p = Prob(c)
    n = c["n"]
    B = p.R.normal(size=(n, n))
    H = B.dot(B.T) + 0.5 * np.eye(n)
    y0 = p.R.normal(size=n) * 0.6
    off = p.R.normal()

    def g(X):
        U = np.asarray(X).dot(p.A) - y0
        return off + np.sum(U.dot(H) * U, axis=1).reshape((-1, 1))
    # the same function through the common path
    coef = []
    for i in p.idx:
        i = tuple(int(q) for q in i)
        if sum(i) == 0:
            coef.append(off + y0.dot(H).dot(y0))
        elif sum(i) == 1:
            coef.append(-2 * H.dot(y0)[i.index(1)])
        elif 2 in i:
            coef.append(H[i.index(2), i.index(2)])
        else:
            a = [q for q in range(n) if i[q]]
            coef.append(2 * H[a[0], a[1]])
    p.coef = np.array(coef)
    m = c["m"]
    M = 2 * (m + 1) * (m + 2)
    X = p.sample(M, c)
    F = p.f(X)
    fs = np.abs(F).max()
    ref.near(cx, F, g(X), 1e-9 * fs, "oracle")
    S = ss.Subspaces()
    S.compute(df=p.df(X))
    S.partition(n)
    gen.reseed(c["seed"])
    d, mapc = dom(c, S)
    if d is None:
        return
    mp = mapc(d)
    R_ = asr.ActiveSubspaceResponseSurface(mp, rs.PolynomialApproximation(N=2))
    R_.train_with_data(X, F)
    if c["bounded"]:
        try:
            xs, f_ = op.minimize(R_, X, F)
        except Exception as e:
            if "failed with message" in str(e) or "did not solve" in str(e):
                cx.label("slsqp")
                return
            raise
        xs = ref.as2d(cx, xs, (1, m), "minimizer")
        cx.ok(np.abs(xs).max() <= 1 + 1e-6, "minimizer outside the cube: {}", xs)
        ref.near(cx, p.f(xs), np.array([[float(f_)]]), 1e-5 * (1 + fs), "f at the minimizer is the minimum")
    else:
        ys, f_ = op.av_minimize(lambda y: float(R_.predict_av(y.reshape((1, n)))[0][0, 0]), d,
                                avdfun=lambda y: R_.gradient_av(y.reshape((1, n))).reshape((n,)))
        ys = ref.as2d(cx, ys, (1, n), "minimizer")
        ref.near(cx, float(f_), off, 1e-5 * (1 + fs), "minimum of a convex quadratic")
        ref.near(cx, ys.dot(np.asarray(S.W1).T).dot(p.A)[0], y0, 1e-2 * (1 + np.abs(y0).max()), "minimizer of a convex quadratic")
    f_ = float(f_)
    T = p.sample(4000, c)
    lo = float(p.f(T).min())
    if c["bounded"]:
        # corner points too
        lo = min(lo, float(p.f(np.sign(T)).min()))
    cx.ok(f_ <= lo + 1e-5 * (1 + fs), "minimum {} although the function reaches {}", f_, lo)
    cx.ok(f_ >= off - 1e-5 * (1 + fs), "minimum {} below the function's infimum {}", f_, off)
    cx.nontrivial()
    cx.label("bounded" if c["bounded"] else "unbounded", "n=%d" % n)


@st.composite
def rot_case(draw):
    return {"m": draw(st.integers(2, 7)), "M": draw(st.integers(20, 60)), "seed": draw(gen.SEED),
            "ss": draw(st.sampled_from(["AS", "OLS", "QPHD-sign", "OPG-perm", "AS-perm"])), "a": draw(st.sampled_from([1.0, -3.0, 1e3]))}


def rot_check(c, cx):
    """Rotating / permuting / reflecting the inputs rotates the subspace; scaling f scales eigenvalues by the square."""
    R = np.random.RandomState(c["seed"])
    m, M, a = c["m"], c["M"], c["a"]
    kind = c["ss"].split("-")[0]
    X = R.uniform(-1, 1, size=(M + m * m, m))
    u, v = R.normal(size=m), R.normal(size=m)
    f = (X.dot(u) + 0.7 * np.sin(2 * X.dot(v)) + 0.2 * X[:, 0] ** 2).reshape((-1, 1))
    D = u + 1.4 * np.cos(2 * X.dot(v))[:, None] * v
    D[:, 0] += 0.4 * X[:, 0]
    if c["ss"] in ("AS", "OLS"):
        Q = gen.orth(c["seed"] + 5, m)
    else:
        Q = np.eye(m)[R.permutation(m)]
        if "sign" in c["ss"]:
            Q = Q * np.where(R.uniform(size=m) < 0.5, -1.0, 1.0)
    s1, s2 = ss.Subspaces(), ss.Subspaces()
    if kind == "AS":
        s1.compute(df=D)
        s2.compute(df=a * D.dot(Q))
    else:
        gen.reseed(c["seed"])
        s1.compute(X=X, f=f, sstype=kind)
        gen.reseed(c["seed"])          # OPG picks its centres at random
        s2.compute(X=X.dot(Q), f=a * f, sstype=kind)
    e1, e2 = np.asarray(s1.eigenvals), np.asarray(s2.eigenvals)
    rt = {"AS": 1e-10, "OLS": 1e-9, "QPHD": 1e-8, "OPG": 1e-6}[kind]
    ref.near(cx, e2 / (a * a), e1, rt * e1[0, 0], "eigenvalues after an orthogonal change of inputs")
    C1 = (s1.eigenvecs * e1[:, 0]).dot(s1.eigenvecs.T)
    C2 = (s2.eigenvecs * e2[:, 0]).dot(s2.eigenvecs.T) / (a * a)
    ref.near(cx, C2, Q.T.dot(C1).dot(Q), 10 * rt * e1[0, 0], "the matrix after an orthogonal change of inputs")
    cx.nontrivial()
    cx.label(c["ss"])


SCALE = 2
SUBS = [Sub("surface", case(), surf_check, 700), Sub("integral", case(), integral_check, 240),
        Sub("minimum", case(), min_check, 300), Sub("rotation", rot_case(), rot_check, 300)]
