"""C25: the test functions that ship with the tutorials."""
import importlib.util
import os
import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen, ref

RULE = ("Points of the normalized domain of each shipped model (random, near and on the faces, nominal coordinates), in "
        "batches of 1 to 12 rows.  Non-trivial: at least two points, none of them the centre.")

T = "/repo/tutorials"


def _load(rel):
    path = os.path.join(T, rel)
    spec = importlib.util.spec_from_file_location("vf_tut_" + rel.replace("/", "_")[:-3], path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod


def unit(x, lo, hi):
    lo, hi = np.array(lo, dtype=float), np.array(hi, dtype=float)
    return lo + (hi - lo) * (x + 1) / 2


def f_wing_raw(p):
    Sw, Wfw, A, L, q, l, tc, Nz, Wdg, Wp = p.T
    La = np.deg2rad(L)
    return (0.036 * Sw ** 0.758 * Wfw ** 0.0035 * (A / np.cos(La) ** 2) ** 0.6 * np.cos(La) ** 0.3 * q ** 0.006 * l ** 0.04
            * (100 * tc) ** -0.3 * (Nz * Wdg) ** 0.49 + Sw * Wp)


WLO, WHI = [150, 220, 6, -10, 16, .5, .08, 2.5, 1700, .025], [200, 300, 10, 10, 45, 1, .18, 6, 2500, .08]


def f_wing(x):
    return f_wing_raw(unit(x, WLO, WHI))


def f_borehole(x):
    rw = 0.1 + 0.0161812 * x[:, 0]
    r = np.exp(7.71 + 1.0056 * x[:, 1])
    Tu, Hu, Tl, Hl, L, Kw = unit(x[:, 2:], [63070, 990, 63.1, 700, 1120, 9855], [115600, 1110, 116, 820, 1680, 12045]).T
    ln = np.log(r / rw)
    return 2 * np.pi * Tu * (Hu - Hl) / (ln * (1 + 2 * L * Tu / (ln * rw ** 2 * Kw) + Tu / Tl))


def f_circuit(x):
    Rb1, Rb2, Rf, Rc1, Rc2, beta = unit(x, [50, 25, .5, 1.2, .25, 50], [150, 70, 3, 2.5, 1.2, 300]).T
    Vb1 = 12 * Rb2 / (Rb1 + Rb2)
    bb = beta * (Rc2 + 9)
    return ((Vb1 + 0.74) * bb + 11.35 * Rf + 0.74 * Rf * bb / Rc1) / (bb + Rf)


def f_piston(x):
    M, S, V0, k, P0, Ta, T0 = unit(x, [30, .005, .002, 1000, 90000, 290, 340], [60, .02, .01, 5000, 110000, 296, 360]).T
    A = P0 * S + 19.62 * M - k * V0 / S
    V = S / (2 * k) * (np.sqrt(A ** 2 + 4 * k * P0 * V0 / T0 * Ta) - A)
    return 2 * np.pi * np.sqrt(M / (k + S ** 2 * P0 * V0 / T0 * Ta / V ** 2))


def f_robot(x):
    th = np.cumsum(np.pi * (x[:, :4] + 1), axis=1)
    L = (x[:, 4:] + 1) / 2
    return np.hypot((L * np.cos(th)).sum(axis=1), (L * np.sin(th)).sum(axis=1))


def box(R, M, m):
    return R.uniform(-1, 1, size=(M, m))


MODELS = {
    "borehole": ("test_functions/borehole/borehole_functions.py", "borehole", "borehole_grad", f_borehole, 8),
    "circuit": ("test_functions/otl_circuit/otlcircuit_functions.py", "circuit", "circuit_grad", f_circuit, 6),
    "piston": ("test_functions/piston/piston_functions.py", "piston", "piston_grad", f_piston, 7),
    "robot": ("test_functions/robot/robot_functions.py", "robot", "robot_grad", f_robot, 8),
    "wing": ("test_functions/wing_weight/wing_functions.py", "wing", "wing_grad", f_wing, 10),
    "wing_raw": ("wing_functions.py", "wing", "wing_grad", f_wing_raw, 10),
}
_cache = {}


def model(name):
    if name not in _cache:
        rel, f, g, r, m = MODELS[name]
        mod = _load(rel)
        _cache[name] = (getattr(mod, f), getattr(mod, g))
    return _cache[name] + MODELS[name][3:]


@st.composite
def case(draw):
    return {"model": draw(st.sampled_from(sorted(MODELS))), "M": draw(gen.dim(1, 12)), "seed": draw(gen.SEED),
            "kind": draw(st.sampled_from(["random", "random", "faces", "corner", "centre"])), "lay": draw(st.sampled_from(gen.LAYOUTS)), "int": draw(st.booleans()), "flat": draw(st.booleans())}


def check(c, cx):
    R = np.random.RandomState(c["seed"])
    f, df, rf, m = model(c["model"])
    M = c["M"]
    X = box(R, M, m)
    if c["kind"] == "faces":
        X = np.where(R.uniform(size=X.shape) < 0.3, np.sign(X), X)
    elif c["kind"] == "corner":
        X = np.sign(X)
    elif c["kind"] == "centre":
        X = np.zeros((M, m))
    if c["model"] == "borehole" and c["kind"] not in ("corner", "centre"):
        X[:, :2] = np.clip(R.normal(size=(M, 2)), -3, 3)
    if c["model"] == "robot":
        X[:, 4:] = np.clip(X[:, 4:], -0.98, 1)
        X = X[f_robot(X) > 0.05]           # the distance is not differentiable at the origin
        if X.shape[0] == 0:
            return
        M = X.shape[0]
    P = X
    if c["model"] == "wing_raw":
        P = unit(X, WLO, WHI)
    # known finding (known_findings.jsonl): the borehole model truncates its parameters for integer inputs
    whole = c["int"] and (c["model"] != "borehole" or c.get("known", False))
    if whole and c["model"] != "wing_raw" and np.all(P == np.round(P)):
        P = P.astype(int)       # corners and the centre written as whole numbers
        cx.label("integers")
    P = gen.layout(P, c["lay"])
    P0 = P.astype(float)
    want = rf(P0)
    F = ref.as2d(cx, f(P), (M, 1), "values")
    ref.near(cx, F[:, 0], want, 1e-9 * np.abs(want).max(), "value of " + c["model"])
    G = ref.as2d(cx, df(P), (M, m), "gradients")
    cx.ok(np.array_equal(P, P0), "the input array was changed")
    # central differences with Richardson extrapolation, on the independent formula
    sc = np.ones(m)
    if c["model"] == "wing_raw":
        sc = (np.array(WHI, dtype=float) - np.array(WLO)) / 2
    for j in range(m):
        def cd(h):
            E = np.zeros(m)
            E[j] = h * sc[j]
            return (rf(P0 + E) - rf(P0 - E)) / (2 * h * sc[j])
        h = 2e-3
        a, b, d = cd(h), cd(h / 2), cd(h / 4)
        r1, r2 = (4 * b - a) / 3, (4 * d - b) / 3
        est = (16 * r2 - r1) / 15
        err = np.abs(r2 - r1) * 4 + 1e-9 * (np.abs(want) + np.abs(est) * sc[j]) / sc[j]
        # degrees in, radians out: the tutorial applies the factor pi/180 itself
        g = G[:, j] * (np.pi / 180 if (c["model"] == "wing_raw" and j == 3) else 1.0)
        bad = np.abs(g - est) > err + 1e-7 * np.abs(est)
        cx.ok(not bad.any(), "d {}/dx{} = {} is {}", c["model"], j, g[bad][:1], est[bad][:1])
    # rows are independent of each other, and a single point can be given as a vector's row
    i = R.randint(M)
    ref.near(cx, np.asarray(f(P0[i:i + 1].copy())), F[i:i + 1], 1e-12 * np.abs(F).max(), "one row alone")
    ref.near(cx, np.asarray(df(P0[i:i + 1].copy())), G[i:i + 1], 1e-11 * np.abs(G).max(), "gradient, one row alone")
    if c["flat"]:
        v = np.array(P[i])
        ref.near(cx, ref.as2d(cx, f(v), (1, 1), "value"), F[i:i + 1], 1e-12 * np.abs(F).max(), "one point as a vector")
        ref.near(cx, ref.as2d(cx, df(v), (1, m), "gradient"), G[i:i + 1], 1e-11 * np.abs(G).max(), "gradient, one point as a vector")
        cx.ok(np.array_equal(v, P[i]), "the input vector was changed")
    cx.nontrivial(M > 1 and c["kind"] != "centre")
    cx.label(c["model"], c["kind"])


SCALE = 6
SUBS = [Sub("models", case(), check, 1200)]
