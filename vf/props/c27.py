"""C27: the Gurobi back end poses the documented programs."""
import importlib
import os
import sys
import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import fakegurobi as fg, gen, ref
from . import c20

RULE = ("The programs of C20 (1..8 variables, 0..12 constraints, symmetric and non-symmetric quadratic terms) posed to a "
        "recording stand-in for gurobipy that answers with a prescribed point or a prescribed failure status.  "
        "Non-trivial: more than one variable and a solution is returned.")
ASSUMPTIONS = ["gurobipy is replaced by a stand-in; whether Gurobi itself solves the program is not examined"]


def load():
    """A second copy of the module, imported where gurobipy can be imported."""
    import active_subspaces.utils as pk
    name = "active_subspaces.utils.qp_solver"
    old, oldattr, oldg = sys.modules[name], pk.qp_solver, sys.modules.get("gurobipy")
    sys.modules["gurobipy"] = fg.module()
    try:
        del sys.modules[name]
        return importlib.import_module(name)
    finally:
        sys.modules[name] = old
        pk.qp_solver = oldattr
        if oldg is None:
            del sys.modules["gurobipy"]
        else:
            sys.modules["gurobipy"] = oldg


_mod = []


def mod():
    if not _mod:
        _mod.append(load())
    return _mod[0]


@st.composite
def case(draw):
    c = draw(c20.case())
    c["solver"] = draw(st.sampled_from(["default", "GUROBI", "GUROBI", "SCIPY"]))
    c["mag"] = draw(st.booleans())
    c["status"] = draw(st.sampled_from([2, 2, 2, 2, 3, 4, 5, 7, 12]))
    return c


def pval(t, x):
    return sum(v * np.prod([x[i] for i in k]) for k, v in t.items())


def check(c, cx):
    args, x, act, Q = c20.make(c)
    n, kind = c["n"], c["kind"]
    R = np.random.RandomState(c["seed"] // 3)
    if c["mag"]:         # coefficients of very different sizes, and zeros
        args = list(args)
        for i in range(len(args) - (2 if kind in ("lp_eq", "qp_bnd") else 1)):
            f = 10.0 ** -R.uniform(0, 8, size=args[i].shape)
            f = np.where(R.uniform(size=f.shape) < 0.4, f, np.where(R.uniform(size=f.shape) < 0.1, 0.0, 1.0))
            args[i] = args[i] * f
    ans = R.normal(size=n)
    fg.Model.made = []
    fg.Model.plan = lambda model: (c["status"], ans)
    m = mod()
    q = m.QPSolver() if c["solver"] == "default" else m.QPSolver(solver=c["solver"])
    call = lambda: getattr(q, c20.NAMES[kind])(*[gen.layout(a, c["lay"]) for a in args])
    if c["solver"] == "SCIPY":
        try:
            call()
        except Exception as e:
            if "did not solve" not in str(e):
                raise
            for f in os.listdir("."):
                if f.startswith("bad_"):
                    os.unlink(f)
        cx.ok(not fg.Model.made, "Gurobi was used although scipy was asked for")
        cx.label("scipy")
        return
    err = None
    try:
        y = call()
    except Exception as e:
        err = e
    for f in os.listdir("."):
        if f.startswith("bad_"):
            os.unlink(f)
    M = [k for k in fg.Model.made if k.solved]
    if err is not None and (c["status"] == 2 or not M):
        raise err
    cx.ok(len(M) == 1 and M[0].solved == 1, "{} programs were solved", len(M))
    if c["status"] != 2:
        cx.ok(err is not None, "an answer although Gurobi's status is {}", c["status"])
        cx.label("failure")
    else:
        y = ref.as2d(cx, y, (n, 1), "solution")
        ref.near(cx, y[:, 0], ans, 0.0, "the point Gurobi found")
        cx.nontrivial(n > 1)
    M = M[0]
    obj, cons, vs = M.final
    cx.ok(len(vs) == n, "{} variables instead of {}", len(vs), n)
    cx.ok(all(v[2] == "C" for v in vs), "variables that are not continuous")
    sgn = 1.0 if M.sense == 1 and M.ModelSense == 1 else -1.0
    # the same function up to a constant, the same feasible set
    cc = args[0]
    Qm = args[1] if kind.startswith("qp") else np.zeros((n, n))
    o0 = pval(obj, np.zeros(n))
    size = 1 + np.abs(cc).max() + np.abs(Qm).max()
    for k in range(6):
        t = R.normal(size=n)
        want = float(cc[:, 0].dot(t) + t.dot(Qm).dot(t))
        ref.near(cx, sgn * (pval(obj, t) - o0), want, 1e-12 * size * n * n * (1 + np.abs(t).max()) ** 2, "objective")
    def given(t):
        """signed slack of the documented feasible set; equality: -|residual|"""
        s = []
        if kind in ("lp_eq", "qp_bnd"):
            s += [t - args[-2][:, 0], args[-1][:, 0] - t]
        if kind == "lp_eq":
            s.append(-np.abs(args[1].dot(t) - args[2][:, 0]))
        if kind.endswith("ineq"):
            s.append(args[-2].dot(t) - args[-1][:, 0])
        return float(np.min(np.concatenate(s))) if s else 1.0

    def posed(t):
        s = [1.0]
        for (lb, ub, _), v in zip(vs, t):
            s += [v - lb, ub - v]
        for e, rel in cons:
            v = pval(e, t)
            s.append(v if rel == ">" else -v if rel == "<" else -abs(v))
        return float(min(s))
    # the same half spaces, up to positive factors
    def halves(rows):
        out = []
        for a, b in rows:
            na = float(np.linalg.norm(a))
            if na > 0:
                out.append(np.append(a / na, b / na))
        return out
    want, got = [], []
    if kind in ("lp_eq", "qp_bnd"):
        want += [(np.eye(n)[i], args[-2][i, 0]) for i in range(n)] + [(-np.eye(n)[i], -args[-1][i, 0]) for i in range(n)]
    if kind == "lp_eq":
        want += [(s * a, s * b) for s in (1, -1) for a, b in zip(args[1], args[2][:, 0])]
    if kind.endswith("ineq"):
        want += list(zip(args[-2], args[-1][:, 0]))
    for i, (lb, ub, _) in enumerate(vs):
        got += [(s * np.eye(n)[i], s * v) for s, v in ((1, lb), (-1, ub)) if abs(v) < 1e19]
    for e, rel in cons:
        off = e.get((), 0.0)
        cx.ok(all(len(k) < 2 or v == 0 for k, v in e.items()), "a constraint is not linear")
        a = np.array([e.get((i,), 0.0) for i in range(n)])
        got += [(s * a, -s * off) for s in ((1,) if rel == ">" else (-1,) if rel == "<" else (1, -1))]
    want, got = halves(want), halves(got)
    for A, B, what in ((want, got, "a documented constraint or bound was not posed"),
                       (got, want, "a constraint or bound was posed that is not documented")):
        for a in A:
            near = min([float(np.abs(a - b).max()) for b in B] or [np.inf])
            cx.ok(near <= 1e-12 * (1 + np.abs(a).max()), "{}: {} x >= {}", what, list(a[:-1]), a[-1])
    pts = [x[:, 0]]
    for k in range(8):
        d = R.normal(size=n)
        pts.append(x[:, 0] + d * 10.0 ** R.uniform(-2, 0.5))
    # one step across each constraint or bound alone
    for i in range(n):
        for s in (-1, 1):
            e = np.zeros(n)
            e[i] = s * 2.5 * c["sc"]
            pts.append(x[:, 0] + e)
    if kind == "lp_eq":
        U = np.linalg.svd(args[1])[2][args[1].shape[0]:]
        pts += [x[:, 0] + U.T.dot(R.normal(size=U.shape[0])) * 0.3 * c["sc"] for _ in range(6)]
    if kind.endswith("ineq"):
        for a, b in zip(args[-2], args[-1][:, 0]):
            na = np.linalg.norm(a)
            if na > 0:
                foot = x[:, 0] - a * (a.dot(x[:, 0]) - b) / na ** 2
                pts += [foot - 0.05 * a / na, foot + 0.05 * a / na]
    tol = 1e-9 * (1 + max(np.abs(a).max() for a in args)) ** 2 * n
    for t in pts:
        g, p = given(t), posed(t)
        cx.ok((g >= -tol or p < 0) and (p >= -tol or g < 0), "feasibility of {}: documented slack {}, posed {}", t, g, p)
    cx.label(kind)


SCALE = 5
SUBS = [Sub("program", case(), check, 1500)]
