"""C20: linear and quadratic programs."""
import os
import numpy as np
from hypothesis import strategies as st
from scipy.optimize import linprog
from ..core import Sub
from .. import gen, ref
from active_subspaces.utils import qp_solver

RULE = ("Programs of 1..8 variables and 0..12 constraints built around a known optimum from the optimality conditions "
        "(active and inactive constraints, degenerate multipliers, symmetric and non-symmetric positive definite "
        "quadratic terms, 0 not always feasible), infeasible and unbounded programs.  Non-trivial: at least one active "
        "constraint and more than one variable.")
ASSUMPTIONS = ["Accuracy of scipy's solvers: 1e-6 (linear), 1e-3 relative to the size of the objective (quadratic)",
               "Gurobi is not installed, so only the scipy back end runs"]


@st.composite
def case(draw):
    kind = draw(st.sampled_from(["lp_eq", "lp_ineq", "qp_bnd", "qp_bnd", "qp_ineq", "qp_ineq"]))
    big = kind.startswith("lp") and draw(st.integers(0, 3)) == 0
    n = draw(gen.dim(1, 24 if big else 8))
    return {"kind": kind, "n": n, "M": draw(st.integers(1, 60 if big else 12)), "seed": draw(gen.SEED),
            "fixed": draw(st.integers(0, 4)) == 0, "open": draw(st.integers(0, 3)) == 0,
            "degenerate": draw(st.integers(0, 3)) == 0, "sym": draw(st.sampled_from([True, True, False])),
            "solver": draw(st.sampled_from(["default", "SCIPY", "GUROBI", "other"])),
            "sc": draw(st.sampled_from([1.0, 1.0, 10.0, 0.1, 100.0])), "lay": draw(st.sampled_from(gen.LAYOUTS)),
            "int": draw(st.integers(0, 4)) == 0,
            "os": draw(st.sampled_from([1.0, 1.0, 1e-6, 1e-3, 1e3, 1e6])) if kind.startswith("qp") else 1.0}


def make(c):
    """(args, optimal x, multipliers active, value); the objective in units of c["os"]."""
    args, x, act, Q = make1(c)
    s = c.get("os", 1.0)
    if s != 1.0 and Q is not None:
        args, Q = (s * args[0], s * args[1]) + args[2:], s * Q
    return args, x, act, Q


def make1(c):
    R = np.random.RandomState(c["seed"])
    n, M, sc = c["n"], c["M"], c["sc"]
    if c["int"]:
        rnd = lambda *s: R.randint(-3, 4, size=s).astype(float)
    else:
        rnd = lambda *s: R.normal(size=s)
    x = rnd(n, 1) * sc
    pos = lambda k: np.where(R.uniform(size=(k, 1)) < (0.3 if c["degenerate"] else 0.0), 0.0, R.uniform(0.2, 2, size=(k, 1)))
    Q = None
    if c["kind"].startswith("qp"):
        B, _ = np.linalg.qr(R.normal(size=(n, n)))
        Q = (B * 10.0 ** R.uniform(-0.7, 0.7, size=n)).dot(B.T)
        Q = 0.5 * (Q + Q.T)
        grad = lambda t: 2 * Q.dot(t)
        if not c["sym"]:
            K = R.normal(size=(n, n))
            Qp = Q + (K - K.T)          # same function
        else:
            Qp = Q
    if c["kind"] in ("lp_eq", "qp_bnd"):
        state = R.randint(0, 3, size=(n, 1))         # 0 free, 1 at lower, 2 at upper
        if c["kind"] == "lp_eq":
            M = min(M, n)
            A = rnd(M, n)
            base = A.T.dot(R.normal(size=(M, 1)))
        else:
            base = -grad(x)
        mu = pos(n)
        lb = np.where(state == 1, x, x - R.uniform(0.1, 2, size=(n, 1)) * sc)
        ub = np.where(state == 2, x, x + R.uniform(0.1, 2, size=(n, 1)) * sc)
        if c["fixed"]:              # variables that the bounds fix
            f = (state > 0) & (R.uniform(size=(n, 1)) < 0.5)
            lb, ub = np.where(f, x, lb), np.where(f, x, ub)
        if c.get("open"):           # variables without a bound on one side or both
            o = R.uniform(size=(2, n, 1)) < 0.6
            lb = np.where(o[0] & (state != 1) & (lb < ub), -np.inf, lb)
            ub = np.where(o[1] & (state != 2) & (lb < ub), np.inf, ub)
        cc = base + np.where(state == 1, mu, 0) - np.where(state == 2, mu, 0)
        act = int(np.sum(state > 0))
        if c["kind"] == "lp_eq":
            return (cc, A, A.dot(x), lb, ub), x, act, None
        return (cc, Qp, lb, ub), x, act, Q
    A = rnd(M, n)
    k = R.randint(0, min(M, n) + 1) if c["kind"] == "qp_ineq" else min(M, n)
    active = np.zeros((M, 1), dtype=bool)
    active[R.permutation(M)[:k]] = True
    b = A.dot(x) - np.where(active, 0.0, R.uniform(0.1, 2, size=(M, 1)) * sc)
    g = A.T.dot(np.where(active, pos(M), 0.0))
    if c["kind"] == "lp_ineq":
        return (g, A, b), x, k, None
    return (g - grad(x), Qp, A, b), x, k, Q


def solver(c):
    if c["solver"] == "default":
        return qp_solver.QPSolver()
    return qp_solver.QPSolver(solver="abc" if c["solver"] == "other" else c["solver"])


def soluble(c, args):
    """Whether scipy solves the linear program (HiGHS gives up on one degenerate program in 10000)."""
    cc = args[0].ravel()
    if c["kind"] == "lp_eq":
        A, b, lb, ub = args[1:]
        return linprog(cc, A_eq=A, b_eq=b.ravel(), bounds=list(zip(lb.ravel(), ub.ravel()))).success
    A, b = args[1:]
    return linprog(cc, A_ub=-A, b_ub=-b.ravel(), bounds=[(None, None)] * len(cc)).success


NAMES = {"lp_eq": "linear_program_eq", "lp_ineq": "linear_program_ineq", "qp_bnd": "quadratic_program_bnd",
         "qp_ineq": "quadratic_program_ineq"}


def check(c, cx):
    args, x, act, Q = make(c)
    n = c["n"]
    q = solver(c)
    copies = [a.copy() for a in args]
    try:
        y = getattr(q, NAMES[c["kind"]])(*[gen.layout(a, c["lay"]) for a in args])
    except Exception as ex:
        if "did not solve" in str(ex) and (c["kind"].startswith("qp") or not soluble(c, args)):
            cx.label("scipy failed")
            for f in os.listdir("."):
                if f.startswith("bad_scipy"):
                    os.unlink(f)
            return
        raise
    y = ref.as2d(cx, y, (n, 1), "solution")
    cc = args[0]
    s = max(1.0, float(np.abs(x).max()), float(np.abs(y).max()))
    if c["kind"] in ("lp_eq", "qp_bnd"):
        lb, ub = args[-2], args[-1]
        cx.ok(np.all(y >= lb - 1e-7 * s) and np.all(y <= ub + 1e-7 * s), "bounds violated by {:.3g}",
              float(max((lb - y).max(), (y - ub).max())))
    if c["kind"] == "lp_eq":
        ref.near(cx, args[1].dot(y), args[2], 1e-6 * s * (1 + np.abs(args[1]).max()), "equality constraints")
    if c["kind"].endswith("ineq"):
        A, b = args[-2], args[-1]
        cx.ok(np.all(A.dot(y) >= b - 1e-6 * s * (1 + np.abs(A).max())), "constraint violated by {:.3g}",
              float((b - A.dot(y)).max()))
    if Q is None:
        ref.near(cx, float(cc.T.dot(y)[0, 0]), float(cc.T.dot(x)[0, 0]), 1e-6 * s * (1 + np.abs(cc).sum()), "optimal value")
    else:
        obj = lambda t: float((cc.T.dot(t) + t.T.dot(Q).dot(t))[0, 0])
        s = max(float(np.abs(x).max()), 0.1 * c["sc"])
        size = np.abs(cc).max() * s + np.abs(Q).max() * s * s
        cx.ok(obj(y) <= obj(x) + 1e-4 * size, "value {} at the solution, {} is attainable", obj(y), obj(x))
        # strongly convex: the minimiser is unique
        lam = np.linalg.eigvalsh(Q)[0]
        ref.near(cx, y, x, min(np.sqrt(2e-4 * size * n / lam), 0.03 * s), "minimiser")
    cx.nontrivial(act > 0 and n > 1)
    cx.label(c["kind"], "symmetric" if c["sym"] else "nonsymmetric")


def group_check(c, cx):
    """How often scipy's optimiser may fail on a well-posed quadratic program."""
    fails = 0
    for k in range(12):
        d = dict(c, seed=(c["seed"] + 7919 * k) % 2 ** 31)
        args, x, act, Q = make(d)
        try:
            getattr(solver(d), NAMES[d["kind"]])(*args)
        except Exception as ex:
            if "did not solve" not in str(ex):
                raise
            fails += 1
    for f in os.listdir("."):
        if f.startswith("bad_scipy"):
            os.unlink(f)
    cx.ok(fails <= 2, "{} of 12 well-posed programs were not solved", fails)
    cx.nontrivial(c["n"] > 1)
    cx.label("fails=%d" % fails)


@st.composite
def bad_case(draw):
    return {"kind": draw(st.sampled_from(["lp_eq", "lp_eq_rank", "lp_ineq", "lp_unb", "qp_ineq", "qp_bnd"])),
            "n": draw(gen.dim(1, 6)), "seed": draw(gen.SEED)}


def bad_check(c, cx):
    """No answer instead of a wrong one."""
    R = np.random.RandomState(c["seed"])
    n = c["n"]
    q = qp_solver.QPSolver()
    cc = R.normal(size=(n, 1))
    a = R.normal(size=(1, n))
    a[np.abs(a) < 0.1] = 0.5
    one = np.ones((n, 1))
    try:
        if c["kind"] == "lp_eq":        # |x| <= 1 but a x = 2 |a|_1
            y = q.linear_program_eq(cc, a, np.array([[2 * np.abs(a).sum()]]), -one, one)
        elif c["kind"] == "lp_eq_rank":
            y = q.linear_program_eq(cc, np.vstack((a, a)), np.array([[0.1], [0.3]]), -one, one)
        elif c["kind"] == "lp_ineq":    # a x >= 1, a x <= 0
            y = q.linear_program_ineq(cc, np.vstack((a, -a)), np.array([[1.0], [0.0]]))
        elif c["kind"] == "lp_unb":     # min a x, a x <= 1
            y = q.linear_program_ineq(a.T.copy(), -a, np.array([[-1.0]]))
        elif c["kind"] == "qp_ineq":
            y = q.quadratic_program_ineq(cc, np.eye(n), np.vstack((a, -a)), np.array([[1.0], [0.0]]))
        else:                           # lower bound above upper bound
            y = q.quadratic_program_bnd(cc, np.eye(n), one, -one)
    except Exception:
        cx.nontrivial(n > 1)
        cx.label(c["kind"])
        for f in os.listdir("."):
            if f.startswith("bad_scipy"):
                os.unlink(f)
        return
    cx.fail("{} without a solution was answered with {}".format(c["kind"], np.asarray(y).ravel()))


SCALE = 4
SUBS = [Sub("optimum", case(), check, 4000), Sub("group", case().filter(lambda c: c["kind"].startswith("qp")), group_check, 200),
        Sub("insoluble", bad_case(), bad_check, 400)]
