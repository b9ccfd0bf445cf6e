"""C21: isolation and reproducibility across histories of calls."""
import sys
import threading
import numpy as np
from hypothesis import strategies as st
from ..core import Sub, Violation
from .. import gen, pristine, ref
from active_subspaces import subspaces as ss, gradients as gr, domains as dm, integrals as ig, optimizers as opt
from active_subspaces import response_surfaces as asr
from active_subspaces.utils import response_surfaces as rs, misc, designs as dn, quadrature as qd, qp_solver
from active_subspaces.utils.simrunners import SimulationRunner, SimulationGradientRunner

RULE = ("Histories of 1..8 calls drawn from 24 actions over the whole public interface, each with its own generated "
        "inputs; one action is run before and after the history with the same seed, and the objects it left behind are "
        "inspected at the end.  Non-trivial: the history contains an action of the same family as the probed one, or "
        "at least three actions.")
ASSUMPTIONS = ["Results are compared to 1e-7 (relative); surfaces keep references to their training arrays, which the "
               "histories do not overwrite"]


def quiet(what, f, *a, **k):
    """Run f; numpy's global random generator must be where it was."""
    st0 = np.random.get_state()
    out = f(*a, **k)
    st1 = np.random.get_state()
    if not (st0[0] == st1[0] and np.array_equal(st0[1], st1[1]) and st0[2:] == st1[2:]):
        raise Violation(what + " changed the state of numpy's random generator")
    return out


NUDGE = [0.0]       # relative change of all inputs of an action


def _sub(R, m):
    s = ss.Subspaces()
    df = R.normal(size=(6 * m, m)) * np.linspace(2, 0.3, m)
    if NUDGE[0]:
        df = df * (1 + NUDGE[0] * np.random.RandomState(5).normal(size=df.shape))
    s.compute(df=df)
    return s


def _sub12(R, m):
    """Partitioned into one or two active variables; with two, every vertex of the zonotope is easy to find."""
    for _ in range(6):
        s = _sub(R, m)
        if m > 2 and R.uniform() < 0.5:
            s.partition(2)
            if gen.widest_gap(np.array(s.W1), np.random.RandomState(3)) >= 0.005:
                return s
        else:
            break
    s.partition(1)
    return s


UNITS = [1.0, 1.0, 1e-15, 1e6]          # the outputs come in any unit


def a_compute(kind, nboot, ptype):
    def act(R):
        m = R.randint(2, 5)
        M = 40
        X, df = R.uniform(-1, 1, size=(M, m)), R.normal(size=(M, m)) * np.linspace(2, 0.3, m)
        f = (X[:, :1] + 0.5 * X[:, -1:]) ** 2 + X[:, :1]
        w = R.uniform(0.5, 1, size=(M, 1))
        w = w / w.sum()
        use_w = R.uniform() < 0.5

        def run(X, f, df, w):
            s = ss.Subspaces()
            kw = dict(df=df) if kind == "AS" else dict(X=X, f=f)
            if use_w and not nboot:
                kw["weights"] = w
            s.compute(sstype=kind, ptype=ptype, nboot=nboot, **kw)
            out = [s.eigenvals, s.eigenvecs.dot(np.diag(s.eigenvals[:, 0])).dot(s.eigenvecs.T), s.W1.dot(s.W1.T)]
            if kind == "OLS":
                out[2] = s.eigenvecs[:, :1]
            if nboot:
                out += [s.e_br] + ([s.sub_br] if kind != "OLS" else [])
            return out, [s]
        return [X, f, df, w], run
    return act


def a_gradients(R):
    m = R.randint(2, 4)
    X = R.normal(size=(5 * m + 6, m))
    f = (np.sin(X[:, :1]) + X[:, -1:] ** 2) * R.choice(UNITS)
    w = R.uniform(0.5, 1, size=(len(X), 1))

    def run(X, f, w):
        np.random.seed(3)
        return [gr.local_linear_gradients(X, f, p=m + 3), gr.local_linear_gradients(X, f, weights=w),
                gr.finite_difference_gradients(X, lambda x: float(np.sum(x ** 2)))], []
    return [X, f, w], run


def a_map(bounded):
    def act(R):
        m = R.randint(2, 5)
        s = _sub12(R, m)
        X = R.uniform(-1, 1, size=(4, m))

        def run(X):
            d = (dm.BoundedActiveVariableDomain if bounded else dm.UnboundedActiveVariableDomain)(s)
            mp = (dm.BoundedActiveVariableMap if bounded else dm.UnboundedActiveVariableMap)(d)
            Y, Z = mp.forward(X)
            Xi, ind = mp.inverse(Y, 3)
            return [Y, Z, Xi, ind] + ([d.vertY, d.vertX] if bounded else []), [d, s]
        return [X], run
    return act


def a_sampler(which):
    def act(R):
        m = R.randint(2, 5)
        W = gen.orth(R.randint(1 << 30), m)
        y = R.uniform(-1, 1, size=(m,)).dot(W[:, :1]) * 0.5

        def run(y, W1, W2):
            return [getattr(dm, which)(4, y, W1, W2)], []
        return [y, W[:, :1].copy(), W[:, 1:].copy()], run
    return act


def a_poly(R):
    m = R.randint(1, 4)
    X = R.normal(size=(30, m))
    f = (np.sin(X[:, :1]) + X[:, -1:]) * R.choice(UNITS)
    w = R.uniform(0.5, 1, size=(30, 1))
    T = R.normal(size=(5, m))
    N = R.randint(1, 4)

    def run(X, f, w, T):
        p = rs.PolynomialApproximation(N=N)
        p.train(X, f, weights=w)
        a = p.predict(T, compgrad=True)
        return [a[0], a[1], p.poly_weights, p.g] + ([p.H] if N > 1 else []), [p]
    return [X, f, w, T], run


def a_rbf(R):
    m = R.randint(1, 4)
    X = R.normal(size=(16, m))
    f = (np.sin(2 * X[:, :1]) + X[:, -1:]) * R.choice(UNITS)
    v = R.uniform(0.05, 0.1, size=(16, 1))
    e = np.linspace(2, 0.5, m).reshape((m, 1))
    T = R.normal(size=(5, m))

    def run(X, f, v, e, T):
        p = rs.RadialBasisApproximation(N=1)
        p.train(X, f, v=v, e=e)
        a = p.predict(T, compgrad=True)
        return [a[0], a[1]], [p]
    return [X, f, v, e, T], run


def a_asrs(how):
    def act(R):
        m = R.randint(2, 5)
        s = _sub(R, m)
        s.partition(1)
        bounded = R.uniform() < 0.5
        X = R.uniform(-1, 1, size=(25, m))
        f = X.dot(np.array(s.W1)) ** 2 + 0.1 * X[:, :1]
        T = R.uniform(-1, 1, size=(4, m))

        def run(X, f, T):
            d = (dm.BoundedActiveVariableDomain if bounded else dm.UnboundedActiveVariableDomain)(s)
            mp = (dm.BoundedActiveVariableMap if bounded else dm.UnboundedActiveVariableMap)(d)
            a = asr.ActiveSubspaceResponseSurface(mp, rs.PolynomialApproximation(N=2))
            if how == "data":
                a.train_with_data(X, f)
            else:
                a.train_with_interface(lambda x: float(x[0, 0] + x[0, -1] ** 2), 5, NMC=3)
            p, g = a.predict(T, compgrad=True)
            return [p, g], [a, d, a.respsurf]
        return [X, f, T], run
    return act


def a_integrate(R):
    m = R.randint(2, 5)
    s = _sub12(R, m)
    bounded = R.uniform() < 0.5

    def run():
        d = (dm.BoundedActiveVariableDomain if bounded else dm.UnboundedActiveVariableDomain)(s)
        mp = (dm.BoundedActiveVariableMap if bounded else dm.UnboundedActiveVariableMap)(d)
        try:
            a = ig.integrate(lambda x: float(x[0, 0] + x[0, -1] ** 2), mp, 6, NMC=4)
            b = ig.av_integrate(lambda y: float(y[0, 0] ** 2), mp, 6)
            q = ig.quadrature_rule(mp, 4, NMC=2)
        except Exception as e:
            if "SLSQP failed" in str(e):
                return [], []
            raise
        return [np.array(a), np.array(b)] + list(q), [d]
    return [], run


def a_minimize(bounded):
    def act(R):
        m = R.randint(2, 6)
        s = _sub(R, m)
        R2 = 2 if R.uniform() < 0.4 else 1
        s.partition(R2)
        X = R.uniform(-1, 1, size=(60, m))
        f = np.sum(X ** 2, axis=1, keepdims=True) + X[:, :1]

        def run(X, f):
            d = (dm.BoundedActiveVariableDomain if bounded else dm.UnboundedActiveVariableDomain)(s)
            mp = (dm.BoundedActiveVariableMap if bounded else dm.UnboundedActiveVariableMap)(d)
            a = asr.ActiveSubspaceResponseSurface(mp, rs.PolynomialApproximation(N=2))
            a.train_with_data(X, f)
            try:
                x, fm = quiet("minimize", opt.minimize, a, X, f)
            except Exception as ex:
                if "failed with message" in str(ex):
                    return [], []
                raise
            return [x, np.array(fm)], [a, d]
        return [X, f], run
    return act


def a_normalize(R):
    m = R.randint(1, 5)
    lb, w = R.normal(size=(m, 1)), R.uniform(0.5, 2, size=(m, 1))
    B = R.normal(size=(m, m))
    C = B.dot(B.T) + np.eye(m)
    X = R.normal(size=(6, m))

    def run(lb, ub, mu, C, X):
        b, u = misc.BoundedNormalizer(lb, ub), misc.UnboundedNormalizer(mu, C)
        return [b.normalize(X), b.unnormalize(X), u.normalize(X), u.unnormalize(X)], [b, u]
    return [lb, lb + w, lb * 2, C, X], run


def a_quad(R):
    N = [int(k) for k in R.randint(1, 5, size=R.randint(1, 4))]
    ab = qd.r_hermite(5)

    def run(ab):
        keep = list(N)
        out = list(qd.gauss_hermite(N)) + list(qd.gauss_legendre(N)) + [dn.gauss_hermite_design(N), qd.jacobi_matrix(ab)]
        if N != keep:
            raise ValueError("the list of points per dimension was changed")
        return out, []
    return [ab], run


def a_maximin(R):
    if R.uniform() < 0.6:
        V = np.array([[1, 0], [0.3, 1], [-1, 0.2], [-0.6, -1.0]]) * 2 + 0.2 * R.normal(size=(4, 2))
    else:
        V = R.normal(size=(R.randint(5, 9), R.randint(2, 4)))
    V = V * [1.0, 1.0, 1e-3, 30.0][R.randint(4)]
    N = int(R.randint(1, 5))

    def run(V):
        try:
            return [quiet("maximin_design", dn.maximin_design, V, N)], []
        except Exception as e:
            if "SLSQP failed" in str(e):
                return [], []
            raise
    return [V], run


def a_qp(R):
    n = R.randint(1, 5)
    c, A = R.normal(size=(n, 1)), R.normal(size=(n + 1, n))
    one = np.ones((n, 1))
    q = qp_solver.QPSolver()

    def run(c, A, b, Q, lb, ub):
        return [c.T.dot(q.linear_program_eq(c, A[:1], 0.1 * A[:1].dot(ub), lb, ub)), q.quadratic_program_bnd(c, Q, lb, ub),
                q.quadratic_program_ineq(c, Q, A, b)], [q]
    return [c, A, -np.ones((n + 1, 1)), np.eye(n) * 0.7, -one, one], run


def a_runner(R):
    X = R.normal(size=(5, R.randint(1, 4)))

    def run(X):
        r = SimulationRunner(lambda x: float(np.sum(x)))
        g = SimulationGradientRunner(lambda x: 2 * x)
        return [r.run(X), g.run(X)], [r, g]
    return [X], run


def a_cond(R):
    ind = np.sort(np.hstack((np.arange(4), R.randint(0, 4, size=8)))).reshape((-1, 1))
    f = R.normal(size=(12, 1))

    def run(f, ind):
        return list(misc.conditional_expectations(f, ind)), []
    return [f, ind], run


def a_minmap(R):
    m = R.randint(3, 6)
    s = _sub(R, m)
    s.partition(1)
    X = R.uniform(-1, 1, size=(60, m))
    f = np.sum(X ** 2, axis=1, keepdims=True) + X[:, :1]

    def run(X, f, Y):
        out, keep = [], []
        for D, Mp in ((dm.BoundedActiveVariableDomain, opt.BoundedMinVariableMap),
                      (dm.UnboundedActiveVariableDomain, opt.UnboundedMinVariableMap)):
            mp = Mp(D(s))
            mp.train(X, f)
            out.append(mp.inverse(Y)[0])
            keep.append(mp)
        return out, keep
    return [X, f, np.array([[0.1], [-0.2]])], run


ACTIONS = {
    "AS": a_compute("AS", 0, "EVG"), "AS boot": a_compute("AS", 8, "RS"), "OLS": a_compute("OLS", 0, "EVG"),
    "QPHD": a_compute("QPHD", 0, "EVG"), "QPHD boot": a_compute("QPHD", 5, "LI"), "OPG": a_compute("OPG", 0, "EVG"),
    "gradients": a_gradients, "bounded map": a_map(True), "unbounded map": a_map(False),
    "sample_z": a_sampler("sample_z"), "hit_and_run_z": a_sampler("hit_and_run_z"),
    "random_walk_z": a_sampler("random_walk_z"), "rejection": a_sampler("rejection_sampling_z"), "poly": a_poly,
    "rbf": a_rbf, "asrs data": a_asrs("data"), "asrs interface": a_asrs("interface"), "integrate": a_integrate,
    "minimize bounded": a_minimize(True), "minimize unbounded": a_minimize(False), "normalize": a_normalize,
    "quadrature": a_quad, "maximin": a_maximin, "qp": a_qp, "runner": a_runner, "cond": a_cond, "minmap": a_minmap,
}
NAMES = sorted(ACTIONS)


@st.composite
def case(draw):
    k = draw(st.integers(1, 8))
    return {"probe": draw(st.sampled_from(NAMES)), "seed": draw(gen.SEED), "rs": draw(gen.SEED),
            "hist": [[draw(st.sampled_from(NAMES)), draw(gen.SEED), draw(gen.SEED)] for _ in range(k)]}


def arrays_of(o):
    """Every array an object holds, one level of attributes deep, by name (Subspaces, domains, surfaces...)."""
    out = {}
    for k, v in sorted(vars(o).items()):
        if isinstance(v, np.ndarray):
            out[k] = np.array(v)
        elif isinstance(v, (int, float, str)):
            out[k] = v
    out.update({"behaviour: " + k: np.array(v, dtype=float) for k, v in behaviour(o).items()})
    return out


def behaviour(o):
    """What an object answers at fixed points."""
    out = {}

    def pts(k):
        return np.random.RandomState(k).uniform(-0.5, 0.5, size=(3, k))
    if getattr(o, "constraints", None) is not None:
        for x in pts(o.n):
            out["constraints {}".format(x)] = o.constraints["fun"](x)
            out["constraint gradient {}".format(x)] = o.constraints["jac"](x)
        out["equations"] = o.convhull.equations
    if isinstance(o, rs.ResponseSurface) and o.X is not None:
        out["predict"], out["gradient"] = o.predict(pts(o.X.shape[1]), compgrad=True)
    if isinstance(o, asr.ActiveSubspaceResponseSurface) and o.respsurf.X is not None:
        out["predict"], out["gradient"] = o.predict(pts(o.avmap.domain.m), compgrad=True)
    if isinstance(o, dm.ActiveVariableMap):
        out["active"], out["inactive"] = o.forward(pts(o.domain.m))
    if isinstance(o, opt.MinVariableMap):
        out["inverse"] = o.inverse(pts(o.domain.n))[0]
    if isinstance(o, misc.BoundedNormalizer):
        out["normalize"], out["unnormalize"] = o.normalize(pts(o.lb.size)), o.unnormalize(pts(o.lb.size))
    if isinstance(o, misc.UnboundedNormalizer):
        out["normalize"], out["unnormalize"] = o.normalize(pts(o.mu.size)), o.unnormalize(pts(o.mu.size))
    if isinstance(o, (SimulationRunner, SimulationGradientRunner)):
        out["run"] = o.run(pts(3))
    return out


def same(cx, A, B, what, tol=1e-7):
    A, B = np.asarray(A, dtype=float), np.asarray(B, dtype=float)
    cx.ok(A.shape == B.shape, "{}: shapes {} and {}", what, A.shape, B.shape)
    if A.size:
        s = np.abs(A).max() + 1e-12
        ref.near(cx, B, A, tol * s, what)


def run_action(cx, name, seed, rseed):
    args, run = ACTIONS[name](np.random.RandomState(seed))
    copies = [np.array(a) for a in args]
    gen.reseed(rseed)
    out, objs = run(*args)
    for i, (a, b) in enumerate(zip(args, copies)):
        cx.ok(a.shape == b.shape and np.array_equal(a, b), "{} changed its input number {}", name, i)
    return [np.array(o, dtype=float) for o in out], objs, out, args


def check(c, cx):
    first, objs, raw, args = run_action(cx, c["probe"], c["seed"], c["rs"])
    snap = [arrays_of(o) for o in objs]
    alive = []
    for name, s, r in c["hist"]:
        alive.append(run_action(cx, name, s, r)[1])
    for a, b in zip(first, raw):
        same(cx, a, b, "results of {} changed afterwards".format(c["probe"]), 0.0)
    for o, sn in zip(objs, snap):
        now = arrays_of(o)
        cx.ok(sorted(now) == sorted(sn), "attributes of an object of {} appeared or vanished", c["probe"])
        for k in sn:
            if isinstance(sn[k], np.ndarray):
                cx.ok(np.array_equal(sn[k], now[k], equal_nan=sn[k].dtype.kind == "f"),
                      "{} of an object of {} changed afterwards", k, c["probe"])
            else:
                cx.ok(sn[k] == now[k], "{} of an object of {} changed afterwards", k, c["probe"])
    # what the caller does with the arrays of one call is no business of the next, which has arrays of its own
    for a in list(raw) + list(args):
        if isinstance(a, np.ndarray) and a.flags.writeable and a.size:
            a[...] = (a[::-1] if a.ndim else a) + 1
    second = run_action(cx, c["probe"], c["seed"], c["rs"])[0]
    cx.ok(len(first) == len(second), "another number of results")
    for i, (a, b) in enumerate(zip(first, second)):
        same(cx, a, b, "{} gives another result {} after {}".format(c["probe"], i, [h[0] for h in c["hist"]]))
    fam = c["probe"].split()[0]
    cx.nontrivial(len(c["hist"]) >= 3 or any(h[0].split()[0] == fam for h in c["hist"]))
    cx.label(c["probe"])


# ------------------------------------------------------------------ against a process without a history
def play(steps):
    """Run a list of [name, seed, random seed, nudge]; the results of the last."""
    out = None
    for name, seed, rseed, nudge in steps:
        NUDGE[0] = nudge
        try:
            args, run = ACTIONS[name](np.random.RandomState(seed))
            if nudge:
                for a in args:
                    if a.dtype.kind == "f":
                        a *= 1 + nudge * np.random.RandomState(7).normal(size=a.shape)
            gen.reseed(rseed)
            try:
                out = [np.array(o, dtype=float) for o in run(*args)[0]]
            except Exception as e:
                out = type(e).__name__
        finally:
            NUDGE[0] = 0.0
    return out


@st.composite
def prist_case(draw):
    name, seed, r = draw(st.sampled_from(NAMES)), draw(gen.SEED), draw(gen.SEED)
    hist = []
    for _ in range(draw(st.integers(1, 4))):
        k = draw(st.integers(0, 3))
        if k == 0:
            hist.append([draw(st.sampled_from(NAMES)), draw(gen.SEED), draw(gen.SEED), 0.0])
        elif k == 1:       # the same call on other data
            hist.append([name, draw(gen.SEED), draw(st.sampled_from([r, r + 1])), 0.0])
        else:              # the same call on nearly the same data
            hist.append([name, seed, draw(st.sampled_from([r, r + 1])), draw(st.sampled_from([1e-2, 1e-3, 1e-4, 1e-6]))])
    return {"steps": hist + [[name, seed, r, 0.0]]}


def prist_check(c, cx):
    name = c["steps"][-1][0]
    what = "after {}".format([s[0] + (" (nearly the same data)" if s[3] else "") for s in c["steps"][:-1]])
    ka, a = pristine.call(play, c["steps"][-1:])
    kb, b = pristine.call(play, c["steps"])
    cx.ok(ka == "ok", "{} on its own: {}", name, a)
    cx.ok(kb == "ok", "{} {}: {}", name, what, b)
    cx.ok(not isinstance(a, str), "{} on its own raised {}", name, a)
    cx.ok(not isinstance(b, str), "{} {} raised {}", name, what, b)
    cx.ok(len(a) == len(b), "{} {}: another number of results", name, what)
    for i, (u, v) in enumerate(zip(a, b)):
        same(cx, u, v, "{} gives another result {} {} than on its own".format(name, i, what))
    cx.nontrivial(len(a) > 0)
    cx.label("pristine " + name)


# ------------------------------------------------------------------ one object, used again and again
def _xf(R, m, M):
    X = R.uniform(-1, 1, size=(M, m))
    a = R.normal(size=(m, 1))
    return X, (X.dot(a) + R.uniform(0.2, 1) * X[:, -1:]) ** 2 + X[:, :1] + 0.1 * R.normal(size=(M, 1))


def _attrs(o):
    return [v for k, v in sorted(vars(o).items()) if isinstance(v, np.ndarray)]


def u_subspaces(R):
    kind = ["AS", "OLS", "QPHD", "AS boot", "AS RS"][R.randint(5)]

    def use(s, R, m):
        X, f = _xf(R, m, 30 + 5 * m)
        if kind.startswith("AS"):
            df = R.normal(size=(20, m)) * np.sort(R.uniform(0.3, 3, size=m))
            s.compute(df=df, nboot=6 if kind != "AS" else 0, ptype="RS" if kind == "AS RS" and m > 2 else "EVG")
        else:
            s.compute(X=X, f=f, sstype=kind)
        out = [s.eigenvals, s.eigenvecs, s.W1, s.W2] + ([s.e_br, s.sub_br] if kind.startswith("AS b") else [])
        return out if kind != "OLS" else [s.eigenvals, s.eigenvecs[:, :1]]
    return ss.Subspaces, use


def u_poly(R):
    N = int(R.randint(1, 4))

    def use(p, R, m):
        X, f = _xf(R, m, 40 + 5 * m)
        p.train(X, f)
        T = R.uniform(-1, 1, size=(5, m))
        g = p.predict(T, compgrad=True)
        return [p.poly_weights, p.g] + ([p.H] if N > 1 else []) + [g[0], g[1], p(T), p.gradient(T)]
    return (lambda: rs.PolynomialApproximation(N=N)), use


def u_rbf(R):
    with_e = R.uniform() < 0.7

    def use(p, R, m):
        X, f = _xf(R, m, 14 + m)
        v = R.uniform(0.05, 0.1, size=f.shape)
        if with_e:
            p.train(X, f, v=v, e=np.linspace(2, 0.5, m).reshape((m, 1)))
        else:
            p.train(X, f, v=v)
        T = R.uniform(-1, 1, size=(5, m))
        g = p.predict(T, compgrad=True)
        return [p.radial_weights, p.poly_weights, p.ell, p.K, g[0], g[1]]
    return (lambda: rs.RadialBasisApproximation(N=1)), use


def u_asrs(R):
    m = int(R.randint(2, 5))
    s = _sub(R, m)
    s.partition(1)
    bounded = R.uniform() < 0.5
    how = R.randint(2)
    d = (dm.BoundedActiveVariableDomain if bounded else dm.UnboundedActiveVariableDomain)(s)
    mp = (dm.BoundedActiveVariableMap if bounded else dm.UnboundedActiveVariableMap)(d)

    def use(a, R, _):
        X, f = _xf(R, m, 40)
        if how:
            a.train_with_data(X, f)
        else:
            t = R.normal()
            a.train_with_interface(lambda x: float(x[0, 0] * t + x[0, -1] ** 2), int(R.randint(5, 8)), NMC=2)
        T = R.uniform(-1, 1, size=(5, m))
        g = a.predict(T, compgrad=True)
        return [g[0], g[1], a(T), a.gradient(T), a.respsurf.poly_weights]
    return (lambda: asr.ActiveSubspaceResponseSurface(mp, rs.PolynomialApproximation(N=2))), use


def u_minmap(R):
    m = int(R.randint(2, 5))
    s = _sub(R, m)
    s.partition(1)
    bounded = R.uniform() < 0.5
    d = (dm.BoundedActiveVariableDomain if bounded else dm.UnboundedActiveVariableDomain)(s)

    def use(mp, R, _):
        X = R.uniform(-1, 1, size=(50, m))
        f = np.sum(X ** 2 * R.uniform(0.5, 2, size=m), axis=1, keepdims=True) + X.dot(R.normal(size=(m, 1)))
        mp.train(X, f)
        return list(mp.inverse(R.uniform(-0.5, 0.5, size=(int(R.randint(1, 4)), 1)))) + list(mp.forward(X))
    return (lambda: (opt.BoundedMinVariableMap if bounded else opt.UnboundedMinVariableMap)(d)), use


def u_domain(R):
    m = int(R.randint(2, 6))
    s = _sub(R, m)
    ns = [1, 2] if m > 2 else [1]

    def use(d, R, _):
        n = ns[R.randint(len(ns))]
        s.partition(n)
        if not d:
            d.append(dm.BoundedActiveVariableDomain(s))
        d[0].compute_boundary()
        if n == 1:
            return [d[0].vertY, d[0].vertX]
        return [d[0].vertY[np.lexsort(d[0].vertX.T)], d[0].vertX[np.lexsort(d[0].vertX.T)], np.array(d[0].convhull.volume)]
    return list, use


def u_map(R):
    m = int(R.randint(2, 6))
    s = _sub(R, m)
    s.partition(1)
    bounded = R.uniform() < 0.5
    d = (dm.BoundedActiveVariableDomain if bounded else dm.UnboundedActiveVariableDomain)(s)

    def use(mp, R, _):
        X = R.uniform(-1, 1, size=(int(R.randint(1, 5)), m))
        Y, Z = mp.forward(X)
        return [Y, Z] + list(mp.inverse(Y, int(R.randint(1, 4))))
    return (lambda: (dm.BoundedActiveVariableMap if bounded else dm.UnboundedActiveVariableMap)(d)), use


def u_normalizer(R):
    m = int(R.randint(1, 5))
    B = R.normal(size=(m, m))
    lb = R.normal(size=(m, 1))
    mk = [lambda: misc.UnboundedNormalizer(lb, B.dot(B.T) + np.eye(m)), lambda: misc.BoundedNormalizer(lb, lb + 2)][R.randint(2)]

    def use(o, R, _):
        X = R.normal(size=(int(R.randint(1, 6)), m))
        return [o.normalize(X), o.unnormalize(X)]
    return mk, use


def u_runner(R):
    grad = R.randint(2)

    def use(o, R, m):
        return [o.run(R.normal(size=(int(R.randint(1, 6)), m)))]
    return (lambda: SimulationGradientRunner(lambda x: 3 * x ** 2) if grad else SimulationRunner(lambda x: np.sum(x))), use


def u_qp(R):
    def use(o, R, m):
        c, A, one = R.normal(size=(m, 1)), R.normal(size=(m + 1, m)), np.ones((m, 1))
        B = R.normal(size=(m, m))
        Q = B.dot(B.T) + np.eye(m)
        return [o.quadratic_program_bnd(c, Q, -one, one), o.quadratic_program_ineq(c, Q, A, -np.ones((m + 1, 1))),
                o.linear_program_ineq(c, np.vstack((np.eye(m), -np.eye(m))), -np.vstack((one, one))),
                o.linear_program_eq(c, A[:1], 0.1 * A[:1].dot(one), -one, one)]
    return qp_solver.QPSolver, use


USES = {"subspaces": u_subspaces, "poly": u_poly, "rbf": u_rbf, "asrs": u_asrs, "minmap": u_minmap, "domain": u_domain,
        "map": u_map, "normalizer": u_normalizer, "runner": u_runner, "qp": u_qp}
LOOSE = {"qp": 1e-4, "minmap": 1e-5, "rbf": 1e-6}


@st.composite
def reuse_case(draw):
    return {"what": draw(st.sampled_from(sorted(USES))), "seed": draw(gen.SEED),
            "rounds": [[draw(gen.SEED), draw(st.integers(2, 4))] for _ in range(draw(st.integers(2, 4)))],
            "one_m": draw(st.booleans())}


def reuse_check(c, cx):
    make, use = USES[c["what"]](np.random.RandomState(c["seed"]))
    rounds = [[r, c["rounds"][0][1] if c["one_m"] else m] for r, m in c["rounds"]]
    rounds.append(rounds[0])

    def step(o, r, m):
        gen.reseed(r)
        return use(o, np.random.RandomState(r), m)
    o = make()
    kept = []
    for r, m in rounds:
        out = step(o, r, m)
        for q, (a, b) in enumerate(kept):
            for i, (u, v) in enumerate(zip(a, b)):
                cx.ok(np.array_equal(u, v, equal_nan=True), "{}: using the object again changed array {} obtained in round {}",
                      c["what"], i, q)
        kept.append((out, [np.array(a) for a in out]))
    tol = LOOSE.get(c["what"], 1e-9)
    for q, (r, m) in enumerate(rounds):
        fresh = step(make(), r, m)
        cx.ok(len(fresh) == len(kept[q][1]), "{}: another number of results", c["what"])
        for i, (a, b) in enumerate(zip(fresh, kept[q][1])):
            same(cx, a, b, "{}: result {} of round {} of a reused object against a fresh one".format(c["what"], i, q), tol)
    cx.nontrivial(len({tuple(r) for r in rounds}) > 1)
    cx.label("reuse " + c["what"])


# ------------------------------------------------------------------ calls inside calls
def outer(name, R):
    """(run(fun) -> arrays, sample point of fun) for a function that calls back."""
    m = int(R.randint(2, 5))
    X = R.uniform(-1, 1, size=(4, m))
    s = _sub12(R, m)
    B = R.uniform() < 0.5
    n = s.W1.shape[1]

    def mp():
        d = (dm.BoundedActiveVariableDomain if B else dm.UnboundedActiveVariableDomain)(s)
        return (dm.BoundedActiveVariableMap if B else dm.UnboundedActiveVariableMap)(d)
    if name == "runner":
        return lambda f: [SimulationRunner(f).run(X)]
    if name == "gradient runner":
        return lambda f: [SimulationGradientRunner(lambda x: np.asarray(x) * f(x)).run(X)]
    if name == "differences":
        return lambda f: [gr.finite_difference_gradients(X[:2], f, 0.1)]
    if name == "integrate":
        return lambda f: [np.array(ig.integrate(f, mp(), 4, NMC=2))]
    if name == "av_integrate":
        return lambda f: [np.array(ig.av_integrate(f, mp(), 4))]
    if name == "interface":
        def go(f):
            a = asr.ActiveSubspaceResponseSurface(mp(), rs.PolynomialApproximation(N=1))
            a.train_with_interface(f, 4, NMC=2)
            return list(a.predict(X, compgrad=True))
        return go
    return lambda f: list(opt.av_minimize(lambda y: f(np.asarray(y).reshape((1, n))), mp().domain))


OUTER = ["runner", "gradient runner", "differences", "integrate", "av_integrate", "interface", "minimize"]


@st.composite
def nest_case(draw):
    return {"outer": draw(st.sampled_from(OUTER)), "seed": draw(gen.SEED), "rs": draw(gen.SEED),
            "inner": [[draw(st.sampled_from(NAMES)), draw(gen.SEED), draw(gen.SEED)] for _ in range(draw(st.integers(1, 3)))]}


def nest_check(c, cx):
    """A model may use the library itself, while the library calls it."""
    base = lambda x: float(np.sum((np.asarray(x, dtype=float) - 0.1) ** 2) + 0.3 * np.asarray(x, dtype=float).ravel()[0])
    alone = []
    for name, s, r in c["inner"]:
        alone.append(run_action(cx, name, s, r)[0])

    def attempt(f):
        gen.reseed(c["rs"])
        try:
            return [np.array(a, dtype=float) for a in outer(c["outer"], np.random.RandomState(c["seed"]))(f)]
        except Exception as e:
            if "SLSQP failed" in str(e) or "failed with message" in str(e):
                return None
            raise
    count = [0]

    def nesting(x):
        k = count[0]
        count[0] += 1
        x = np.array(x)
        if k < 12:
            state = np.random.get_state()
            i = k % len(c["inner"])
            name, s, r = c["inner"][i]
            out = run_action(cx, name, s, r)[0]
            np.random.set_state(state)
            cx.ok(len(out) == len(alone[i]), "{} inside {}: another number of results", name, c["outer"])
            for a, b in zip(alone[i], out):
                same(cx, a, b, "{} gives another result inside {}".format(name, c["outer"]))
        return base(x)
    want = attempt(base)
    got = attempt(nesting)
    cx.ok((want is None) == (got is None), "{} fails only when the function uses the library", c["outer"])
    if want is None:
        return
    for i, (a, b) in enumerate(zip(want, got)):
        same(cx, a, b, "{} gives another result {} when the function it calls uses {}".format(
            c["outer"], i, [q[0] for q in c["inner"]]))
    cx.nontrivial(count[0] > 0)
    cx.label("nested " + c["outer"])


# ------------------------------------------------------------------ several threads
def u_quad(R):
    def use(o, R, m):
        N = [int(k) for k in R.randint(2, 6, size=m)]
        return list(qd.gauss_hermite(N)) + list(qd.gauss_legendre(N[:2]))
    return object, use


def u_cond(R):
    def use(o, R, m):
        ind = np.hstack((np.arange(m), R.randint(0, m, size=20))).reshape((-1, 1))
        return list(misc.conditional_expectations(R.normal(size=ind.shape), ind))
    return object, use


def u_fd(R):
    def use(o, R, m):
        X = R.normal(size=(4, m))
        return [gr.finite_difference_gradients(X, lambda x: float(np.sum(x ** 2))), ]
    return object, use


def u_forward(R):
    m = int(R.randint(2, 6))
    s = _sub(R, m)
    s.partition(1)
    mp = dm.UnboundedActiveVariableMap(dm.UnboundedActiveVariableDomain(s))
    X = R.uniform(-1, 1, size=(50, m))
    f = X.dot(np.array(s.W1)) ** 2 + 0.1 * X[:, :1]
    a = asr.ActiveSubspaceResponseSurface(mp, rs.PolynomialApproximation(N=2))
    a.train_with_data(X, f)

    def use(o, R, _):
        T = R.uniform(-1, 1, size=(int(R.randint(1, 8)), m))
        g = a.predict(T, compgrad=True)
        return list(mp.forward(T)) + [g[0], g[1], a.gradient(T)]
    return object, use


THREADED = {"subspaces": u_subspaces, "poly": u_poly, "rbf": u_rbf, "normalizer": u_normalizer, "runner": u_runner,
            "quadrature": u_quad, "cond": u_cond, "differences": u_fd, "one surface": u_forward}


@st.composite
def thread_case(draw):
    return {"what": [draw(st.sampled_from(sorted(THREADED))), draw(st.sampled_from(sorted(THREADED) + [None] * 9))],
            "seed": draw(gen.SEED), "work": draw(gen.SEED), "threads": draw(st.integers(2, 4))}


def thread_check(c, cx):
    """Threads that work with data of their own, without random numbers, get what they get alone."""
    jobs = []
    for t in range(c["threads"]):
        w = c["what"][t % 2] or c["what"][0]
        seed = c["seed"] // 5 * 5
        while w == "subspaces" and np.random.RandomState(seed).randint(5) > 2:      # bootstrap uses random numbers
            seed += 1
        jobs.append((w, THREADED[w](np.random.RandomState(seed))))

    def work(t):
        w, (make, use) = jobs[t]
        o = make()
        return [use(o, np.random.RandomState((c["work"] + 31 * t + k) % 2 ** 31), 2 + (t + k) % 3) for k in range(4)]
    alone = [work(t) for t in range(len(jobs))]
    got = [None] * len(jobs)
    gate = threading.Barrier(len(jobs))

    def thread(t):
        gate.wait()
        try:
            got[t] = work(t)
        except Exception as e:
            got[t] = "{}: {}".format(type(e).__name__, e)
    iv = sys.getswitchinterval()
    sys.setswitchinterval(2e-6)
    try:
        T = [threading.Thread(target=thread, args=(t,), daemon=True) for t in range(len(jobs))]
        [t.start() for t in T]
        [t.join() for t in T]
    finally:
        sys.setswitchinterval(iv)
    for t, (w, _) in enumerate(jobs):
        cx.ok(not isinstance(got[t], str), "{} raised in a thread: {}", w, got[t])
        for k, (a, b) in enumerate(zip(alone[t], got[t])):
            cx.ok(len(a) == len(b), "{}: another number of results", w)
            for u, v in zip(a, b):
                same(cx, u, v, "{} in one of {} threads against alone".format(w, len(jobs)), 1e-9)
    cx.nontrivial()
    cx.label(*["thread " + w for w, _ in jobs])


# Each action is probed after itself (other data) and after one of each other family.
EX = [{"probe": n, "seed": 11, "rs": 12, "hist": [[n, 13, 14], [NAMES[(i * 7 + 3) % len(NAMES)], 15, 16], [n, 17, 18]]}
      for i, n in enumerate(NAMES)]
SCALE = 2
SUBS = [Sub("history", case(), check, 1500, examples=EX), Sub("reuse", reuse_case(), reuse_check, 500),
        Sub("pristine", prist_case(), prist_check, 500),
        Sub("nested", nest_case(), nest_check, 300), Sub("threads", thread_case(), thread_check, 300)]
PRISTINE = True
