"""C22: invalid input is rejected."""
import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen, ref
from active_subspaces import subspaces as ss, gradients as gr, domains as dm, integrals as ig, optimizers as opt
from active_subspaces import response_surfaces as asr
from active_subspaces.utils import response_surfaces as rs, misc, quadrature as qd, designs as dn, plotters as pl, qp_solver
from active_subspaces.utils.simrunners import SimulationRunner, SimulationGradientRunner

RULE = ("About 140 kinds of invalid call over the public interface (wrong shape, mismatched lengths, wrong type, value out "
        "of range, missing data, unknown option, object not ready), each with generated sizes and values.  Non-trivial: "
        "every case; the valid call next to it succeeds.")
ASSUMPTIONS = ["Any exception counts as a rejection, whatever its type"]

BADINT = st.sampled_from([2.0, 2.5, "2", None, [2], np.float64(3.0)])


def env(seed):
    """Valid objects to build invalid calls around."""
    R = np.random.RandomState(seed)

    class E(object):
        pass
    E.R = R
    E.m = m = R.randint(2, 5)
    E.M = M = R.randint(30, 40)
    E.X, E.f, E.df = R.uniform(-1, 1, size=(M, m)), R.normal(size=(M, 1)), R.normal(size=(M, m))
    E.s = gen.subspaces(gen.orth(seed, m), gen.eigs(seed, m, "decay"), 1)
    E.dom = dm.BoundedActiveVariableDomain(E.s) if R.uniform() < 0.5 else dm.UnboundedActiveVariableDomain(E.s)
    E.bounded = isinstance(E.dom, dm.BoundedActiveVariableDomain)
    E.map = (dm.BoundedActiveVariableMap if E.bounded else dm.UnboundedActiveVariableMap)(E.dom)
    E.fun = staticmethod(lambda x: 1.0)
    return E


def duck(o):
    """Another class's object with everything a caller reads from o."""
    class Lookalike(object):
        pass
    d = Lookalike()
    for k in dir(o):
        if not k.startswith("_"):
            setattr(d, k, getattr(o, k))
    return d


def full(E):
    """A map without inactive variables, with its minimising variant trained."""
    E.s.partition(E.m)
    dom = type(E.dom)(E.s)
    mv = (opt.BoundedMinVariableMap if E.bounded else opt.UnboundedMinVariableMap)(dom)
    mv.train(np.vstack((E.X, E.X[::-1] * 0.7)), np.vstack((E.f, E.f)))
    return type(E.map)(dom), mv, 0.1 * E.X[:2].dot(E.s.W1)


def bad2d(A, R):
    """A is not a 2-d array."""
    return [A.ravel(), A.reshape((1,) + A.shape), A.reshape(A.shape + (1,)), np.array(1.5)][R.randint(4)]


def S():
    return ss.Subspaces()


KINDS = {}


def kind(name, needs_bad=False):
    def deco(f):
        KINDS[name] = f
        return f
    return deco


def emptied(E):
    """A Subspaces object whose compute was rejected: nothing to build on."""
    s = S()
    for call in (lambda: s.compute(), lambda: s.compute(X=E.X), lambda: s.compute(X=E.X, f=E.f)):
        try:
            call()
        except Exception:
            pass
    return s


# name -> function(E, bad) returning (invalid thunk, valid thunk or None)
KINDS["compute nothing"] = lambda E, b: (lambda: S().compute(), lambda: S().compute(df=E.df))
KINDS["compute AS without df"] = lambda E, b: (lambda: S().compute(X=E.X, f=E.f), None)
for _k in ("OLS", "QPHD", "OPG"):
    KINDS["compute %s without f" % _k] = lambda E, b, k=_k: (lambda: S().compute(X=E.X, sstype=k),
                                                           lambda: S().compute(X=E.X, f=E.f, sstype=k))
    KINDS["compute %s without X" % _k] = lambda E, b, k=_k: (lambda: S().compute(df=E.df, f=E.f, sstype=k), None)
    KINDS["compute %s mismatch" % _k] = lambda E, b, k=_k: (lambda: S().compute(X=E.X, f=E.f[:-1], sstype=k), None)
    KINDS["compute %s two outputs" % _k] = lambda E, b, k=_k: (
        lambda: S().compute(X=E.X, f=np.hstack((E.f, E.f)), sstype=k), None)
    KINDS["compute %s flat f" % _k] = lambda E, b, k=_k: (lambda: S().compute(X=E.X, f=E.f.ravel(), sstype=k), None)
    KINDS["compute %s X not 2d" % _k] = lambda E, b, k=_k: (lambda: S().compute(X=bad2d(E.X, E.R), f=E.f, sstype=k), None)
KINDS["compute df not 2d"] = lambda E, b: (lambda: S().compute(df=bad2d(E.df, E.R)), None)
KINDS["compute sstype"] = lambda E, b: (lambda: S().compute(X=E.X, f=E.f, df=E.df, sstype=E.R.choice(
    ["as", "PCA", "", "AS "])), lambda: S().compute(X=E.X, f=E.f, df=E.df, sstype="AS"))
KINDS["compute ptype"] = lambda E, b: (lambda: S().compute(df=E.df, ptype=E.R.choice(["evg", "X", "", "ev"]), nboot=3),
                                      lambda: S().compute(df=E.df, ptype="EVG", nboot=3))
for _p in ("RS", "LI"):
    KINDS["compute %s no bootstrap" % _p] = lambda E, b, p=_p: (lambda: S().compute(df=E.df, ptype=p),
                                                              lambda: S().compute(df=E.df, ptype=p, nboot=3))
KINDS["partition type"] = lambda E, b: (lambda: E.s.partition(b), lambda: E.s.partition(2))
KINDS["partition low"] = lambda E, b: (lambda: E.s.partition(int(-E.R.randint(0, 3))), lambda: E.s.partition(1))
KINDS["partition high"] = lambda E, b: (lambda: E.s.partition(int(E.m + E.R.randint(1, 4))), lambda: E.s.partition(E.m))
KINDS["partition not computed"] = lambda E, b: (lambda: S().partition(1), None)
for _n, _D in (("bounded", dm.BoundedActiveVariableDomain), ("unbounded", dm.UnboundedActiveVariableDomain)):
    KINDS["%s domain type" % _n] = lambda E, b, D=_D: (lambda: D([E.s.W1, None, "s", E.map, duck(E.s)][E.R.randint(5)]),
                                                      lambda: D(E.s))
    KINDS["%s domain not computed" % _n] = lambda E, b, D=_D: (lambda: D(S()), None)
    KINDS["%s domain emptied" % _n] = lambda E, b, D=_D: (lambda: D(emptied(E)), None)
KINDS["forward not 2d"] = lambda E, b: (lambda: E.map.forward(bad2d(E.X, E.R)), lambda: E.map.forward(E.X))
KINDS["forward columns"] = lambda E, b: (lambda: E.map.forward(np.ones((3, E.m + 1))), None)
KINDS["inverse not 2d"] = lambda E, b: (lambda: E.map.inverse(bad2d(np.zeros((2, 1)), E.R)),
                                       lambda: E.map.inverse(np.zeros((2, 1))))
KINDS["inverse N"] = lambda E, b: (lambda: E.map.inverse(np.zeros((2, 1)), b), lambda: E.map.inverse(np.zeros((2, 1)), 2))
KINDS["nzv m"] = lambda E, b: (lambda: dm.nzv(b, 2), lambda: dm.nzv(4, 2))
KINDS["nzv n"] = lambda E, b: (lambda: dm.nzv(4, b), None)
KINDS["sample_z N"] = lambda E, b: (lambda: dm.sample_z(b, np.zeros(1), E.s.W1, E.s.W2),
                                   lambda: dm.sample_z(2, np.zeros(1), E.s.W1, E.s.W2))
KINDS["abstract map"] = lambda E, b: (lambda: dm.ActiveVariableMap(E.dom).inverse(np.zeros((1, 1))), None)
KINDS["local linear few"] = lambda E, b: (lambda: gr.local_linear_gradients(E.X[:E.R.randint(1, E.m + 1)], E.f[:E.m]),
                                         lambda: gr.local_linear_gradients(E.X, E.f))
KINDS["local linear p type"] = lambda E, b: (lambda: gr.local_linear_gradients(E.X, E.f, p=float(E.m + 2)),
                                            lambda: gr.local_linear_gradients(E.X, E.f, p=int(E.m + 2)))
KINDS["local linear p low"] = lambda E, b: (lambda: gr.local_linear_gradients(E.X, E.f, p=int(E.R.randint(0, E.m + 1))),
                                           lambda: gr.local_linear_gradients(E.X, E.f, p=int(E.m + 1)))
KINDS["local linear p high"] = lambda E, b: (lambda: gr.local_linear_gradients(E.X, E.f, p=int(E.M + E.R.randint(1, 4))),
                                            lambda: gr.local_linear_gradients(E.X, E.f, p=int(E.M)))
KINDS["local linear not 2d"] = lambda E, b: (lambda: gr.local_linear_gradients(bad2d(E.X, E.R), E.f), None)
KINDS["finite difference not 2d"] = lambda E, b: (lambda: gr.finite_difference_gradients(bad2d(E.X, E.R), E.fun), None)
KINDS["finite difference function"] = lambda E, b: (lambda: gr.finite_difference_gradients(E.X, 3.0),
                                                   lambda: gr.finite_difference_gradients(E.X, E.fun))
for _c in (SimulationRunner, SimulationGradientRunner):
    KINDS[_c.__name__ + " function"] = lambda E, b, c=_c: (lambda: c([None, 1.0, "f", E.X][E.R.randint(4)]),
                                                          lambda: c(E.fun))
    KINDS[_c.__name__ + " not 2d"] = lambda E, b, c=_c: (lambda: c(lambda x: x[0, 0] if c is SimulationRunner else x).run(
        bad2d(E.X, E.R)), lambda: c(lambda x: x[0, 0] if c is SimulationRunner else x).run(E.X))


def notmap(E):
    return [E.dom, None, E.s, "map", duck(E.map)][E.R.randint(5)]


KINDS["integrate map"] = lambda E, b: (lambda: ig.integrate(E.fun, notmap(E), 4), lambda: ig.integrate(E.fun, E.map, 4))
KINDS["integrate N"] = lambda E, b: (lambda: ig.integrate(E.fun, E.map, b), None)
KINDS["integrate NMC"] = lambda E, b: (lambda: ig.integrate(E.fun, E.map, 4, NMC=b), None)
KINDS["av_integrate map"] = lambda E, b: (lambda: ig.av_integrate(E.fun, notmap(E), 4),
                                         lambda: ig.av_integrate(E.fun, E.map, 4))
KINDS["av_integrate N"] = lambda E, b: (lambda: ig.av_integrate(E.fun, E.map, b), None)
KINDS["quadrature map"] = lambda E, b: (lambda: ig.quadrature_rule(notmap(E), 4), lambda: ig.quadrature_rule(E.map, 4))
KINDS["quadrature N"] = lambda E, b: (lambda: ig.quadrature_rule(E.map, b), None)
KINDS["quadrature NMC"] = lambda E, b: (lambda: ig.quadrature_rule(E.map, 4, NMC=b), None)
KINDS["surface map"] = lambda E, b: (lambda: asr.ActiveSubspaceResponseSurface(notmap(E)),
                                    lambda: asr.ActiveSubspaceResponseSurface(E.map))
KINDS["av_design map"] = lambda E, b: (lambda: asr.av_design(notmap(E), 4), lambda: asr.av_design(E.map, 4))
KINDS["av_design N"] = lambda E, b: (lambda: asr.av_design(E.map, b), None)
KINDS["av_design NMC"] = lambda E, b: (lambda: asr.av_design(E.map, 4, NMC=b), None)
KINDS["surface data mismatch"] = lambda E, b: (
    lambda: asr.ActiveSubspaceResponseSurface(E.map).train_with_data(E.X[:-1], E.f), None)
KINDS["surface data not 2d"] = lambda E, b: (
    lambda: asr.ActiveSubspaceResponseSurface(E.map).train_with_data(bad2d(E.X, E.R), E.f), None)
for _c in (rs.PolynomialApproximation, rs.RadialBasisApproximation):
    KINDS[_c.__name__ + " mismatch"] = lambda E, b, c=_c: (lambda: c(N=1).train(E.X, E.f[1:]), lambda: c(N=1).train(E.X, E.f))
    KINDS[_c.__name__ + " flat f"] = lambda E, b, c=_c: (lambda: c(N=1).train(E.X, E.f.ravel()), None)
    KINDS[_c.__name__ + " two outputs"] = lambda E, b, c=_c: (lambda: c(N=1).train(E.X, np.hstack((E.f, E.f))), None)
    KINDS[_c.__name__ + " X not 2d"] = lambda E, b, c=_c: (lambda: c(N=1).train(bad2d(E.X, E.R), E.f), None)

    def _pred(E, b, c=_c):
        p = c(N=1)
        p.train(E.X, E.f)
        return (lambda: p.predict(bad2d(E.X, E.R))), (lambda: p.predict(E.X[:3]))
    KINDS[_c.__name__ + " predict not 2d"] = _pred
KINDS["abstract surface train"] = lambda E, b: (lambda: rs.ResponseSurface().train(E.X, E.f), None)
KINDS["abstract surface predict"] = lambda E, b: (lambda: rs.ResponseSurface().predict(E.X), None)
KINDS["abstract normalizer"] = lambda E, b: (lambda: misc.Normalizer().normalize(E.X), None)
KINDS["abstract normalizer inverse"] = lambda E, b: (lambda: misc.Normalizer().unnormalize(E.X), None)
KINDS["normalize not 2d"] = lambda E, b: (
    lambda: misc.BoundedNormalizer(-np.ones((E.m, 1)), np.ones((E.m, 1))).normalize(bad2d(E.X, E.R)),
    lambda: misc.BoundedNormalizer(-np.ones((E.m, 1)), np.ones((E.m, 1))).normalize(E.X))
KINDS["unnormalize not 2d"] = lambda E, b: (
    lambda: misc.UnboundedNormalizer(np.zeros((E.m, 1)), np.eye(E.m)).unnormalize(bad2d(E.X, E.R)),
    lambda: misc.UnboundedNormalizer(np.zeros((E.m, 1)), np.eye(E.m)).unnormalize(E.X))
KINDS["singular covariance"] = lambda E, b: (
    lambda: misc.UnboundedNormalizer(np.zeros((E.m, 1)), np.diag(np.hstack((np.ones(E.m - 1), -1.0)))), None)
KINDS["process_inputs"] = lambda E, b: (lambda: misc.process_inputs(bad2d(E.X, E.R)), lambda: misc.process_inputs(E.X))
KINDS["process_inputs_outputs X"] = lambda E, b: (lambda: misc.process_inputs_outputs(bad2d(E.X, E.R), E.f),
                                                 lambda: misc.process_inputs_outputs(E.X, E.f))
KINDS["process_inputs_outputs f"] = lambda E, b: (
    lambda: misc.process_inputs_outputs(E.X, [E.f.ravel(), E.f[:-1], np.hstack((E.f, E.f)), E.f.T][E.R.randint(4)]), None)
KINDS["atleast_2d option"] = lambda E, b: (lambda: misc.atleast_2d(E.f.ravel(), ["rows", "c", "", None][E.R.randint(4)]),
                                          lambda: misc.atleast_2d(E.f.ravel(), "row"))
KINDS["r_hermite type"] = lambda E, b: (lambda: qd.r_hermite(b), lambda: qd.r_hermite(3))
KINDS["r_hermite range"] = lambda E, b: (lambda: qd.r_hermite(int(-E.R.randint(0, 3))), None)
KINDS["r_jacobi type"] = lambda E, b: (lambda: qd.r_jacobi(b, -1, 1, 0, 0), lambda: qd.r_jacobi(3, -1, 1, 0, 0))
KINDS["r_jacobi range"] = lambda E, b: (lambda: qd.r_jacobi(int(-E.R.randint(0, 3)), -1, 1, 0, 0), None)
KINDS["jacobi_matrix not 2d"] = lambda E, b: (lambda: qd.jacobi_matrix(bad2d(E.X[:, :2], E.R)), None)
KINDS["jacobi_matrix columns"] = lambda E, b: (lambda: qd.jacobi_matrix(np.ones((5, [1, 3, 4][E.R.randint(3)]))),
                                              lambda: qd.jacobi_matrix(np.ones((5, 2))))
KINDS["g1d type"] = lambda E, b: (lambda: qd.g1d(4, ["hermite", "Laguerre", "", None][E.R.randint(4)]),
                                 lambda: qd.g1d(4, "Hermite"))
for _n in ("gauss_hermite", "gauss_legendre"):
    KINDS[_n + " list"] = lambda E, b, n=_n: (
        lambda: getattr(qd, n)([(2, 3), 2.0, np.array([2, 3]), None, "2"][E.R.randint(5)]), lambda: getattr(qd, n)([2, 3]))


def _minmap(E, b):
    mv = (opt.BoundedMinVariableMap if E.bounded else opt.UnboundedMinVariableMap)(E.dom)
    mv.train(np.vstack((E.X, E.X[::-1] * 0.7)), np.vstack((E.f, E.f)))
    return (lambda: mv.inverse(np.zeros((1, 1)), [2, 3, 0, 1.0][E.R.randint(4)])), (lambda: mv.inverse(np.zeros((1, 1)), 1))


KINDS["minimising map N"] = _minmap


def _full(what):
    def f(E, b):
        mp, mv, Y = full(E)
        two = int(E.R.randint(2, 4))
        return {"inverse N": (lambda: mp.inverse(Y, b), lambda: mp.inverse(Y, 2)),
                "inverse columns": (lambda: mp.inverse(np.hstack((Y, Y[:, :1]))), lambda: mp.inverse(Y)),
                "quadrature NMC": (lambda: ig.quadrature_rule(mp, 16, NMC=b), None),
                "integrate NMC": (lambda: ig.integrate(lambda x: 1.0, mp, 16, NMC=b), None),
                "av_design NMC": (lambda: asr.av_design(mp, 16, NMC=b), None),
                "minimising map N": (lambda: mv.inverse(Y, two), lambda: mv.inverse(Y, 1)),
                "minimising map type": (lambda: mv.inverse(Y, b), None),
                }[what]
    return f


for _w in ("inverse N", "inverse columns", "quadrature NMC", "integrate NMC", "av_design NMC", "minimising map N",
           "minimising map type"):
    KINDS["no inactive: " + _w] = _full(_w)
KINDS["minimising map mismatch"] = lambda E, b: (
    lambda: opt.UnboundedMinVariableMap(E.dom).train(E.X, E.f[:-1]), None)
KINDS["av_minimize domain"] = lambda E, b: (lambda: opt.av_minimize(lambda y: float(np.sum(np.square(y))), notmapdom(E)),
                                           lambda: opt.av_minimize(lambda y: float(np.sum(np.square(y))), E.dom))
KINDS["bounded map outside"] = lambda E, b: (
    lambda: dm.BoundedActiveVariableMap(dm.BoundedActiveVariableDomain(E.s)).inverse(
        np.array([[1.5 * np.abs(E.s.W1).sum() * E.R.choice([-1, 1])]])), None)


def notmapdom(E):
    return [E.map, None, "d", E.s, duck(E.dom)][E.R.randint(5)]


def _program(name):
    def f(E, b):
        k = 2
        c, Q, A, one = np.ones((k, 1)), np.eye(k), np.eye(k), np.ones((k, 1))
        args = {"linear_program_eq": (c, A, 0.5 * one, -one, one), "linear_program_ineq": (c, A, -one),
                "quadratic_program_bnd": (c, Q, -one, one), "quadratic_program_ineq": (c, Q, A, -one)}[name]

        def run(solver):
            q = qp_solver.QPSolver("SCIPY")
            if solver is not None:
                q.solver = solver
            return getattr(q, name)(*args)
        return (lambda: run(["CPLEX", "", "scipy ", "Gurobi"][E.R.randint(4)])), (lambda: run(None))
    return f


for _n in ("linear_program_eq", "linear_program_ineq", "quadratic_program_bnd", "quadratic_program_ineq"):
    KINDS[_n + " solver"] = _program(_n)


NOFIG = {"savefigs": False, "figtype": ".png", "myfont": {"family": "sans-serif"}}
KINDS["summary plot"] = lambda E, b: (lambda: pl.sufficient_summary(E.R.normal(size=(5, 3)), E.f[:5], opts=NOFIG), None)
KINDS["eigenvector plot ranges"] = lambda E, b: (
    lambda: pl.eigenvectors(np.eye(4)[:, :2], W_br=np.zeros((4, E.R.choice([1, 2, 3, 5]))), opts=NOFIG), None)
KINDS["zonotope plot vertices"] = lambda E, b: (lambda: pl.zonotope_2d_plot(E.R.normal(size=(6, 3)), opts=NOFIG), None)
KINDS["zonotope plot design"] = lambda E, b: (
    lambda: pl.zonotope_2d_plot(E.R.normal(size=(6, 2)), design=E.R.normal(size=(6, 3)), opts=NOFIG), None)
KINDS["zonotope plot y"] = lambda E, b: (
    lambda: pl.zonotope_2d_plot(E.R.normal(size=(6, 2)), y=E.R.normal(size=(4, 3)), f=E.R.normal(size=(4, 1)), opts=NOFIG), None)
KINDS["zonotope plot y without f"] = lambda E, b: (
    lambda: pl.zonotope_2d_plot(E.R.normal(size=(6, 2)), y=E.R.normal(size=(4, 2)), opts=NOFIG), None)
KINDS["zonotope plot f without y"] = lambda E, b: (
    lambda: pl.zonotope_2d_plot(E.R.normal(size=(6, 2)), f=E.R.normal(size=(4, 1)), opts=NOFIG), None)
KINDS["zonotope plot lengths"] = lambda E, b: (
    lambda: pl.zonotope_2d_plot(E.R.normal(size=(6, 2)), y=E.R.normal(size=(4, 2)), f=E.R.normal(size=(5, 1)), opts=NOFIG), None)

NAMES = sorted(KINDS)
BADS = [2.0, 2.5, "2", None, [2], 1e3, 1.0, np.float64(1.0)]


@st.composite
def case(draw):
    return {"kind": draw(st.sampled_from(NAMES)), "seed": draw(gen.SEED), "bad": draw(st.integers(0, len(BADS) - 1))}


def check(c, cx):
    E = env(c["seed"])
    bad, good = KINDS[c["kind"]](E, BADS[c["bad"]])
    W1 = np.array(E.s.W1)
    if good is not None:
        good()
    W1 = np.array(E.s.W1)
    try:
        out = bad()
    except Exception:
        cx.ok(np.array_equal(W1, E.s.W1), "a rejected call changed the partition")
        cx.nontrivial()
        cx.label(c["kind"])
        return
    finally:
        import matplotlib.pyplot as plt
        plt.close("all")
    cx.fail("accepted: {} ({!r}) -> {}".format(c["kind"], BADS[c["bad"]], str(out)[:80]))


def snapshot(o, seen=None):
    """Everything an object holds under public names."""
    seen = set() if seen is None else seen
    if isinstance(o, np.ndarray):
        return ("array", o.shape, str(o.dtype), o.tobytes())
    if isinstance(o, (list, tuple)):
        return tuple(snapshot(v, seen) for v in o)
    if isinstance(o, dict):
        return tuple((k, snapshot(o[k], seen)) for k in sorted(o, key=str) if not str(k).startswith("_"))
    if hasattr(o, "__dict__") and not hasattr(o, "__code__"):
        if id(o) in seen:
            return "seen"
        seen.add(id(o))
        return (type(o).__name__, snapshot(vars(o), seen))
    return repr(o) if isinstance(o, (int, float, str, bool, type(None), np.generic)) else id(o)


def surface(E, which):
    if which == "poly":
        return rs.PolynomialApproximation(N=2)
    if which == "rbf":
        return rs.RadialBasisApproximation(N=1)
    return asr.ActiveSubspaceResponseSurface(E.map, None if which == "as default" else rs.PolynomialApproximation(N=3))


WHICH = ["poly", "rbf", "as", "as default", "minmap", "subspaces", "partition", "normalizer"]
WRONG = ["mismatch", "flat f", "two outputs", "X not 2d", "few"]


def data(E, wrong):
    X, f = E.R.uniform(-1, 1, size=(E.M + 7, E.m)), E.R.normal(size=(E.M + 7, 1))
    if wrong == "mismatch":
        return X, f[:-1]
    if wrong == "flat f":
        return X, f.ravel()
    if wrong == "two outputs":
        return X, np.hstack((f, f))
    if wrong == "X not 2d":
        return bad2d(X, E.R), f
    return X[:1], f[:1]


@st.composite
def keep_case(draw):
    return {"which": draw(st.sampled_from(WHICH)), "wrong": draw(st.lists(st.sampled_from(WRONG), min_size=1, max_size=3)),
            "seed": draw(gen.SEED)}


def keep_check(c, cx):
    """An object that rejects an input stays as it was: same attributes, same answers."""
    E = env(c["seed"])
    w = c["which"]
    X2 = E.R.uniform(-1, 1, size=(5, E.m))
    Y2 = X2[:, :1]
    if w in ("poly", "rbf", "as", "as default"):
        o = surface(E, w)
        tr = o.train if w in ("poly", "rbf") else o.train_with_data
        ask = lambda: o.predict(X2, compgrad=True)
        tr(E.X, E.f)
        calls = [lambda d=data(E, k): tr(*d) for k in c["wrong"]] + [lambda: o.predict(bad2d(X2, E.R))]
    elif w == "minmap":
        o = (opt.BoundedMinVariableMap if E.bounded else opt.UnboundedMinVariableMap)(E.dom)
        o.train(E.X, E.f)
        ask = lambda: o.inverse(np.array([[0.01]]))
        calls = [lambda d=data(E, k): o.train(*d) for k in c["wrong"]] + [lambda: o.inverse(np.zeros((1, 1)), 2)]
    elif w == "subspaces":
        o = ss.Subspaces()
        o.compute(df=E.df, nboot=3)
        ask = lambda: (o.eigenvals, o.eigenvecs, o.W1, o.W2, o.e_br, o.sub_br)
        k = E.R.choice(["OLS", "QPHD", "OPG"])
        calls = [lambda d=data(E, q): o.compute(X=d[0], f=d[1], sstype=k) for q in c["wrong"] if q != "few" or k == "OPG"]
        calls += [lambda: o.compute(), lambda: o.compute(X=E.X, f=E.f), lambda: o.compute(X=E.X, sstype=k),
                  lambda: o.compute(df=2 * E.df, sstype="as"), lambda: o.compute(df=bad2d(E.df, E.R)),
                  lambda: o.compute(df=2 * E.df, ptype="evg", nboot=2), lambda: o.compute(df=3 * E.df, ptype="?"),
                  lambda: o.compute(df=2 * E.df, ptype="LI"), lambda: o.compute(X=E.X, f=E.f, sstype="OLS", ptype="RS")]
    elif w == "partition":
        o = E.s
        ask = lambda: (o.W1, o.W2, E.map.forward(X2))
        calls = [lambda v=v: o.partition(v) for v in (0, -1, E.m + 1, 2.0, "1", None)]
    else:
        o = misc.BoundedNormalizer(-np.ones((E.m, 1)), 2 * np.ones((E.m, 1)))
        ask = lambda: (o.normalize(X2), o.unnormalize(X2))
        calls = [lambda: o.normalize(bad2d(X2, E.R)), lambda: o.unnormalize(bad2d(X2, E.R))]
    was, said = snapshot(o), snapshot(ask())
    for q in calls:
        try:
            q()
        except Exception:
            cx.ok(snapshot(o) == was, "{}: an object that rejected an input is not as it was", w)
            cx.ok(snapshot(ask()) == said, "{}: the answers changed after a rejected input", w)
            continue
        cx.fail("{}: accepted an invalid input ({})".format(w, c["wrong"]))
    cx.nontrivial()
    cx.label("keeps: " + w)


EX = [{"kind": k, "seed": 5 + i, "bad": b} for k in NAMES for i, b in enumerate(range(len(BADS)))]
SCALE = 4
SUBS = [Sub("keep", keep_case(), keep_check, 500), Sub("reject", case(), check, 2500, examples=EX)]
