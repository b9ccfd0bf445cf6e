"""C05: finite-difference gradients are the forward differences of the function given."""
import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen, ref
from active_subspaces import gradients as gr
from active_subspaces.utils.simrunners import SimulationRunner

RULE = ("Polynomial, trigonometric, discontinuous and affine functions on 1..10 inputs, 1..25 points in several "
        "layouts and scales, steps from 1e-8 to 2, given as a callable or as a SimulationRunner.  Non-trivial: at least two "
        "points, two inputs and a function that depends on every input.")


@st.composite
def case(draw):
    m, M = draw(gen.dim(1, 10)), draw(gen.dim(1, 25))
    if draw(st.integers(0, 24)) == 0:
        M = draw(gen.many(600))
    off = draw(st.sampled_from([0.0] * 8 + [2e3, -2e3, 1e6]))
    return {"off": off, "X": draw(gen.matrix(M, m, kinds=["normal", "uniform", "lattice", "dup", "zerocol"],
                                 scales=st.sampled_from([1.0, 1.0, 0.1, 20.0, 1e4, 1e6, 1e8]), ints=True)),
            "fk": draw(st.sampled_from(["affine", "poly", "trig", "step"])), "seed": draw(gen.SEED),
            "h": draw(st.sampled_from([None, None, 1e-8, 1e-4, 0.01, 0.5, 2.0, -1e-5, -0.25])), "runner": draw(st.booleans()),
            "fsc": draw(st.sampled_from([1.0, 1.0, 1.0, 1e-12, 1e-6, 1e7])),
            "ret": draw(st.sampled_from(["float", "2d", "1d"]))}


def check(c, cx):
    X = gen.arr(c["X"])
    if c["off"]:
        ro = not X.flags.writeable
        if ro:
            X.setflags(write=True)
        X += int(c["off"]) if X.dtype.kind == "i" else c["off"]
        if ro:
            X.setflags(write=False)
    M, m = X.shape
    R = np.random.RandomState(c["seed"])
    a = R.normal(size=m)
    k = c["fk"]

    def f(x):
        return c["fsc"] * f1s(x)

    def f1s(x):
        x = np.asarray(x, dtype=float).ravel()
        if k == "affine":
            return 2.0 + float(a.dot(x))
        if k == "poly":
            return float(a.dot(x)) + float((a.dot(x)) ** 2) + float(np.sum(a * x ** 3)) + float(np.prod(x[:2]))
        if k == "trig":
            return float(np.sin(a.dot(x)) + np.sum(np.cos((1 + np.arange(m)) * x)))
        return float(np.sum((1.5 ** np.arange(m)) * np.floor(x)))

    calls = []

    def fun(x):
        if not (isinstance(x, np.ndarray) and x.shape == (1, m)):
            calls.append(None)
            return 0.0
        calls.append(tuple(float(t) for t in x.ravel()))
        v = f(x)
        return {"float": v, "2d": np.array([[v]]), "1d": np.array([v])}[c["ret"]]

    h = 1e-6 if c["h"] is None else c["h"]
    arg = SimulationRunner(fun) if c["runner"] else fun
    df = gr.finite_difference_gradients(X, arg) if c["h"] is None else gr.finite_difference_gradients(X, arg, h)
    df = ref.as2d(cx, df, (M, m), "df")
    cx.ok(None not in calls, "the function was called with something other than a 1-by-{} array", m)
    want = np.zeros((M, m))
    pts = set()
    big = c["fsc"] * float(np.abs(a).sum() * np.abs(X).max()) if k in ("affine", "trig") else 0.0
    for i in range(M):
        x = np.array(X[i], dtype=float)
        pts.add(tuple(x))
        f0 = f(x)
        for j in range(m):
            y = x.copy()
            y[j] = x[j] + h
            pts.add(tuple(y))
            f1 = f(y)
            big = max(big, abs(f0), abs(f1))
            want[i, j] = (f1 - f0) / h
    ref.near(cx, df, want, 1e-13 * (c["fsc"] + big) / abs(h), "forward difference, step {:g}".format(h))
    cx.ok(set(calls) <= pts, "the simulation was run at points that are not x or x + h e_j")
    if k == "affine":
        ref.near(cx, df, np.tile(c["fsc"] * a, (M, 1)), 1e-13 * (c["fsc"] + big) / abs(h) + 1e-12 * c["fsc"], "gradient of an affine function")
    cx.nontrivial(M > 1 and m > 1)
    cx.label(k, "runner" if c["runner"] else "callable", c["ret"])


SCALE = 4
SUBS = [Sub("forward_difference", case(), check, 2500)]
