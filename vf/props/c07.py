"""C07: simulation runners apply the function to each row."""
import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen, ref
from active_subspaces.utils import simrunners as sr

RULE = ("Input matrices of 1..300, now and then 2050, rows and 1..10 columns in several layouts (also integer and duplicated rows) and "
        "functions returning floats, ints or arrays of one entry (values) or m entries (gradients), some of them "
        "raising at a chosen row.  Non-trivial: at least two distinct rows.")


class Boom(Exception):
    pass


ERRORS = {k.__name__: k for k in (Boom, ArithmeticError, ValueError, RuntimeError, TypeError, IndexError, KeyError,
                                  AttributeError, MemoryError, OSError, np.linalg.LinAlgError)}


@st.composite
def case(draw):
    m = draw(gen.dim(1, 10))
    M = draw(st.one_of(gen.dim(1, 30), gen.dim(1, 30), gen.dim(1, 30), st.integers(31, 300), gen.many(2050)))
    return {"X": draw(gen.matrix(M, m, ints=True)), "grad": draw(st.booleans()),
            "ret": draw(st.sampled_from(["float", "int", "0d", "1d", "2d"])), "seed": draw(gen.SEED),
            "twice": draw(st.booleans()), "boom": draw(st.one_of(st.none(), st.none(), st.integers(0, M - 1))),
            "exc": draw(st.sampled_from(sorted(ERRORS))), "nan": draw(st.sampled_from([None, None, None, "nan", "inf"])),
            "back": draw(st.integers(0, 3)) == 0, "callable": draw(st.sampled_from(["function", "object"]))}


def check(c, cx):
    X = gen.arr(c["X"])
    M, m = X.shape
    R = np.random.RandomState(c["seed"])
    a = R.normal(size=m)
    rows = [tuple(float(t) for t in X[i]) for i in range(M)]
    scale = max(1e-300, np.max(np.abs(X)))
    log, bad, kept = [], [], []
    back = np.zeros((1, m))
    boom = ERRORS[c["exc"]]("a simulation failed")
    odd = float(c["nan"]) if c["nan"] and c["ret"] != "int" else None
    oddrow = rows[c["seed"] % M]

    def value(r):
        if odd is not None and r == oddrow:
            return odd
        v = float(np.sum(a * np.array(r) / scale)) + 3.0
        return int(round(1000 * v)) if c["ret"] == "int" else v

    def grad(r):
        if odd is not None and r == oddrow:
            return np.hstack((odd, np.arange(m - 1.0)))
        return np.sin(a * np.array(r) / scale) + np.arange(m)

    def fun(x):
        if not (isinstance(x, np.ndarray) and x.shape == (1, m)):
            bad.append(getattr(x, "shape", type(x)))
        r = tuple(float(t) for t in np.asarray(x).ravel())
        log.append(r)
        kept.append(x)
        if c["boom"] is not None and r == rows[c["boom"]]:
            raise boom
        if c["grad"]:
            g = grad(r)
            if c["back"]:               # a simulation that returns the same array every time
                back[0, :] = g
                return back
            return g if c["ret"] in ("1d", "0d", "float") else g.reshape((1, m))
        v = value(r)
        return {"float": v, "int": v, "0d": np.array(v), "1d": np.array([v]), "2d": np.array([[v]])}[c["ret"]]

    class Sim(object):
        def __call__(self, x):
            return fun(x)

    f = fun if c["callable"] == "function" else Sim()
    run = sr.SimulationGradientRunner(f) if c["grad"] else sr.SimulationRunner(f)
    for rep in range(2 if c["twice"] else 1):
        del log[:], kept[:]
        try:
            F = run.run(X)
        except type(boom):
            if c["boom"] is None:
                raise
            cx.label("simulation error propagates")
            return
        cx.ok(c["boom"] is None, "an error raised by the simulation was swallowed")
        cx.ok(not bad, "the function got an argument of shape {} instead of (1, {})", bad[:1], m)
        if odd is None:
            F = ref.as2d(cx, F, (M, m) if c["grad"] else (M, 1), "output")
        else:      # a simulation may return NaN or infinity: that is what the output holds
            cx.ok(isinstance(F, np.ndarray) and F.shape == (M, m if c["grad"] else 1), "output has shape {}", np.shape(F))
        want = np.array([grad(r) for r in rows]) if c["grad"] else np.array([[value(r)] for r in rows])
        cx.ok(np.array_equal(F, want, equal_nan=True), "not what the simulation returned")
        cx.ok([tuple(float(t) for t in x.ravel()) for x in kept] == log, "the arguments that the function kept have changed")
        ref.near(cx, np.nan_to_num(F), np.nan_to_num(want), 0.0, "row i of the output is the function at row i of the input")
        cx.ok(sorted(log) == sorted(rows), "the simulation was run {} times for {} rows, or at other points", len(log), M)
    cx.nontrivial(len(set(rows)) > 1)
    cx.label("gradient" if c["grad"] else "value", c["ret"], "M>30" if M > 30 else "M<=30")


SCALE = 4
SUBS = [Sub("rowwise", case(), check, 2500)]
