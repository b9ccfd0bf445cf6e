"""C18: minimisation over the active variables."""
import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen, ref
from .c16 import setup, hull_excess
from active_subspaces import optimizers as opt

RULE = ("Groups of 8 smooth functions (convex quadratics with interior or exterior minimiser, convex quartics, quadratics "
        "plus bounded waves, tilted double wells) on domains of 2..7 inputs, active dimension 1..3, bounded and unbounded, "
        "with and without a gradient.  Non-trivial: active dimension above one, or the minimiser lies on the boundary, "
        "or several local minimisers.")
ASSUMPTIONS = ["A call may report that scipy's optimiser failed; at least 4 of the 8 functions of a group must be solved",
               "Non-convex functions: first-order optimality only, except double wells, whose basins meet at the origin, "
               "from which the restarts are drawn (not for one bounded variable, where the method is a single search): at most "
               "one in a dozen may be missed"]


def function(R, n, kind, scale):
    """(f, gradient, convex?)"""
    Q, _ = np.linalg.qr(R.normal(size=(n, n)))
    lam = 10.0 ** R.uniform(-0.7, 0.7, size=n)
    H = (Q * lam).dot(Q.T)
    y0 = R.normal(size=n) * scale
    a = R.choice([1.0, 1.0, 0.5, 4.0])
    if kind == "quad":
        return (lambda y: a * 0.5 * float((y - y0).dot(H).dot(y - y0)) + 0.3), (lambda y: a * H.dot(y - y0)), True
    if kind == "quart":
        def f(y):
            t = y - y0
            return a * (float(t.dot(H).dot(t)) + 0.1 * float(t.dot(t)) ** 2)

        def g(y):
            t = y - y0
            return a * (2 * H.dot(t) + 0.4 * float(t.dot(t)) * t)
        return f, g, True
    if kind == "wave":
        u = R.normal(size=n)
        return (lambda y: float(y.dot(H).dot(y)) + np.sin(2 * float(u.dot(y)) + 0.3)), \
            (lambda y: 2 * H.dot(y) + 2 * np.cos(2 * float(u.dot(y)) + 0.3) * u), False
    # tilted double well along a unit direction
    u = Q[:, 0]
    s, b = 0.6, R.choice([-1, 1]) * R.uniform(0.1, 0.3)

    def f(y):
        t = float(u.dot(y)) / s
        r = y - u * float(u.dot(y))
        return (t * t - 1) ** 2 + b * t + float(r.dot(r))

    def g(y):
        t = float(u.dot(y)) / s
        r = y - u * float(u.dot(y))
        return (4 * t * (t * t - 1) + b) / s * u + 2 * r
    return f, g, False


@st.composite
def min_case(draw):
    m = draw(gen.dim(2, 7))
    n = draw(st.sampled_from([k for k in (1, 1, 2, 2, 3) if k <= m]))
    return {"m": m, "n": n, "bounded": draw(st.booleans()), "seed": draw(gen.SEED), "rs": draw(gen.SEED),
            "grad": draw(st.booleans()), "kinds": draw(st.lists(st.sampled_from(["quad", "quad", "quart", "wave", "well"]),
                                                                min_size=8, max_size=8)),
            "scale": draw(st.sampled_from([0.3, 1.0, 3.0])),
            "unit": draw(st.sampled_from([1.0, 1.0, 1.0, 1e-9, 1e-6, 1e-3, 1e3, 1e6]))}


STATS = {"calls": 0, "fails": 0}


def min_check(c, cx):
    su = setup(c)
    if su is None:
        return
    W, e, d, mp = su
    m, n = c["m"], c["n"]
    R = np.random.RandomState(c["seed"] // 11)
    solved = 0
    for q, kind in enumerate(c["kinds"]):
        f, g, convex = function(R, n, kind, c["scale"])

        def avfun(y):
            return c["unit"] * f(np.asarray(y, dtype=float).ravel())

        def avdfun(y):
            return c["unit"] * g(np.asarray(y, dtype=float).ravel())
        gen.reseed(c["rs"], q)
        before = np.random.get_state()
        try:
            ys, fs = opt.av_minimize(avfun, d, avdfun=avdfun) if c["grad"] else opt.av_minimize(avfun, d)
        except Exception as ex:
            if "failed with message" in str(ex):
                continue
            raise
        solved += 1
        after = np.random.get_state()
        cx.ok(np.array_equal(before[1], after[1]) and before[2:] == after[2:],
              "av_minimize changed the state of numpy's random generator")
        ys = ref.as2d(cx, ys, (1, n), "ystar")
        fv = ref.scalar(cx, fs, "fstar") / c["unit"]
        y = ys[0]
        ref.near(cx, fv, f(y), 1e-12 * (1 + abs(fv)), "fstar = f(ystar)")
        gy = g(y)
        tolg = 2e-4 if c["grad"] else 1e-2
        if c["bounded"]:
            V = np.array(d.vertY)
            cx.ok(hull_excess(ys, V) <= 1e-6, "ystar leaves the domain by {:.3g}", hull_excess(ys, V))
            gap = float((gy.dot(y) - V.dot(gy)).max())
            width = float(np.abs(V).max())
            big = max(np.abs(g(v)).max() for v in V) * width + 1
            cx.ok(gap <= tolg * big, "not a first-order minimiser over the domain: {} gap {:.3g}", kind, gap)
            cx.label("interior" if hull_excess(ys, V) < -1e-3 else "boundary")
        else:
            # small functions are minimised relative to their range
            if c["unit"] < 1:
                tolg *= max(1.0, np.ptp([f(p) for p in np.random.RandomState(5).normal(size=(60, n))]))
            cx.ok(np.abs(gy).max() <= tolg, "not a first-order minimiser: {} gradient {:.3g}", kind, np.abs(gy).max())
    cx.label("solved=%d" % solved, "bounded" if c["bounded"] else "unbounded", "n=%d" % n, "grad" if c["grad"] else "nograd")
    # BFGS gives up on large functions, and says so
    cx.ok(solved >= 4 or (c["unit"] > 1 and not c["bounded"]), "only {} of 8 functions were minimised", solved)
    cx.nontrivial(n > 1 or "well" in c["kinds"])


@st.composite
def wells_case(draw):
    c = draw(min_case())
    c["n"] = max(2, c["n"]) if c["bounded"] else c["n"]
    c["m"] = max(c["m"], c["n"])
    c["kinds"] = ["well"] * 12
    c["off"] = draw(st.sampled_from([0.0, 0.0, 30.0, -30.0]))
    return c


def wells_check(c, cx):
    """Several starts: of two wells the better one is found, nearly always (one start would find it about half the time)."""
    su = setup(c)
    if su is None:
        return
    W, e, d, mp = su
    R = np.random.RandomState(c["seed"] // 11)
    seen = miss = 0
    for k in c["kinds"]:
        f, g, _ = function(R, c["n"], k, c["scale"])
        fun = lambda y: c["unit"] * (c["off"] + f(np.asarray(y, dtype=float).ravel()))
        gr = lambda y: c["unit"] * g(np.asarray(y, dtype=float).ravel())
        try:
            ys, fv = opt.av_minimize(fun, d, gr) if c["grad"] else opt.av_minimize(fun, d)
        except Exception as ex:
            if "failed with message" not in str(ex):
                raise
            continue
        u = g(np.zeros(c["n"]))
        P = np.linspace(-1.2, 1.2, 2401)[:, None] * (u / np.linalg.norm(u))
        if c["bounded"] and hull_excess(P[[0, -1]], np.array(d.vertY)) > -1e-3:
            continue
        seen += 1
        miss += bool(ref.scalar(cx, fv, "fstar") / c["unit"] - c["off"] > min(f(p) for p in P) + 1e-3)
    if seen < 8:
        return
    cx.ok(miss <= 1, "the better of two wells was missed {} times in {}", miss, seen)
    cx.nontrivial()
    cx.label("bounded" if c["bounded"] else "unbounded", "n=%d" % c["n"], "misses=%d" % miss)


@st.composite
def end_case(draw):
    m = draw(gen.dim(2, 7))
    n = draw(st.sampled_from([k for k in (1, 1, 1, 2, 3) if k <= m]))
    return {"m": m, "n": n, "bounded": True, "seed": draw(gen.SEED), "rs": draw(gen.SEED), "grad": draw(st.booleans()),
            "k": draw(st.lists(st.sampled_from(["lin", "exp", "near", "far", "log"]), min_size=6, max_size=6)),
            "s": draw(st.sampled_from([1.0, 1.0, 0.01, 100.0, 1e-7, 1e7]))}


def end_check(c, cx):
    """Monotone functions of one direction are minimised at a vertex, exactly."""
    su = setup(c)
    if su is None:
        return
    W, e, d, mp = su
    n = c["n"]
    V = np.array(d.vertY)
    R = np.random.RandomState(c["seed"] // 11)
    solved = 0
    for k in c["k"]:
        u = R.normal(size=n)
        u = u / np.linalg.norm(u)
        t = V.dot(u)
        lo, width = t.min(), t.max() - t.min()
        if n > 1 and np.diff(np.sort(t))[0] < 0.05 * width:
            continue
        v = V[t.argmin()]
        p = {"lin": lambda z: z, "exp": lambda z: np.exp(2 * z), "near": lambda z: (z + 0.02) ** 2, "far": lambda z: (z + 9.0) ** 2,
             "log": lambda z: np.log(z + 0.1)}[k]
        q = {"lin": lambda z: 1.0, "exp": lambda z: 2 * np.exp(2 * z), "near": lambda z: 2 * (z + 0.02), "far": lambda z: 2 * (z + 9.0),
             "log": lambda z: 1 / (z + 0.1)}[k]
        if n > 1 and k in ("log", "near"):
            continue
        s = c["s"]

        def z(y):
            return float((np.asarray(y, dtype=float).ravel() - v).dot(u)) / width
        try:
            f = lambda y: s * float(p(z(y)))
            g = lambda y: s * q(z(y)) * u / width
            ys, fs = opt.av_minimize(f, d, g) if c["grad"] else opt.av_minimize(f, d)
        except Exception as ex:
            if "failed with message" in str(ex):
                continue
            raise
        solved += 1
        ys = ref.as2d(cx, ys, (1, n), "ystar")
        ref.near(cx, ref.scalar(cx, fs, "fstar"), f(ys), 1e-12 * (s + abs(f(ys))), "fstar = f(ystar)")
        ref.near(cx, ys[0], v, (1e-5 if n == 1 else 1e-3) * (1 + np.abs(V).max()), "the minimiser of a monotone function is a vertex")
        cx.nontrivial()
    cx.ok(n > 1 or solved == len(c["k"]), "a function on an interval was not minimised")
    cx.label("n=%d" % n, "solved=%d" % solved)


@st.composite
def det_case(draw):
    c = draw(min_case())
    return c


def det_check(c, cx):
    """The result does not depend on the state of numpy's generator, nor on what was minimised before."""
    su = setup(c)
    if su is None:
        return
    W, e, d, mp = su
    n = c["n"]
    R = np.random.RandomState(c["seed"] // 11)
    f, g, _ = function(R, n, c["kinds"][0], c["scale"])
    f2, g2, _ = function(R, n, c["kinds"][1], c["scale"])
    out = []
    for k in range(2):
        gen.reseed(c["rs"], k)
        if k == 1:
            np.random.normal(size=3)
            try:
                opt.av_minimize(lambda y: f2(y.ravel() if n > 1 or not np.isscalar(y) else np.array([y])), d)
            except Exception as ex:
                if "failed with message" not in str(ex):
                    raise
        try:
            fun = lambda y: f(np.asarray(y, dtype=float).ravel())
            gr = lambda y: g(np.asarray(y, dtype=float).ravel())
            out.append(opt.av_minimize(fun, d, gr) if c["grad"] else opt.av_minimize(fun, d))
        except Exception as ex:
            if "failed with message" not in str(ex):
                raise
            out.append(None)
    cx.ok((out[0] is None) == (out[1] is None), "failed only in one of two identical calls")
    if out[0] is not None:
        ref.near(cx, out[0][0], out[1][0], 0.0, "minimiser of two identical calls")
        ref.near(cx, out[0][1], out[1][1], 0.0, "minimum of two identical calls")
        cx.nontrivial(n > 1 or not c["bounded"])


class Stop(Exception):
    pass


@st.composite
def raise_case(draw):
    return dict(draw(min_case()), after=draw(st.integers(0, 60)), ing=draw(st.booleans()))


def raise_check(c, cx):
    """A function that raises: the caller sees that exception, and numpy's generator is as it was."""
    su = setup(c)
    if su is None:
        return
    W, e, d, mp = su
    f, g, _ = function(np.random.RandomState(c["seed"] // 11), c["n"], c["kinds"][0], c["scale"])
    count = [0]

    def tick(which):
        if which == (c["ing"] and c["grad"]):
            count[0] += 1
            if count[0] > c["after"]:
                raise Stop("no value")

    def fun(y):
        tick(False)
        return f(np.asarray(y, dtype=float).ravel())

    def gr(y):
        tick(True)
        return g(np.asarray(y, dtype=float).ravel())
    gen.reseed(c["rs"])
    before = np.random.get_state()
    try:
        opt.av_minimize(fun, d, gr) if c["grad"] else opt.av_minimize(fun, d)
        raised = False
    except Stop:
        raised = True
    except Exception as ex:
        if "failed with message" not in str(ex):
            raise
        raised = False
    cx.ok(raised == (count[0] > c["after"]), "the exception of the function was swallowed")
    after = np.random.get_state()
    cx.ok(np.array_equal(before[1], after[1]) and before[2:] == after[2:],
          "a minimisation that ends with an exception changed the state of numpy's random generator")
    cx.nontrivial(raised)
    cx.label("raised" if raised else "not raised", "bounded" if c["bounded"] else "unbounded")


def falling(R, n, kind):
    """A function without a minimum on the whole space, and its gradient."""
    u = R.normal(size=n)
    u /= np.linalg.norm(u)
    if kind == "linear":
        return (lambda y: float(u.dot(y)) + 0.7), (lambda y: u.copy())
    if kind == "concave":
        y0 = 0.3 * R.normal(size=n)
        return (lambda y: -float((y - y0).dot(y - y0))), (lambda y: -2.0 * (y - y0))
    if kind == "saddle":
        return (lambda y: float(y.dot(y)) - 3.0 * float(u.dot(y)) ** 2), (lambda y: 2 * y - 6.0 * float(u.dot(y)) * u)
    return (lambda y: -float(np.sum(y ** 4))), (lambda y: -4.0 * y ** 3)


@st.composite
def nomin_case(draw):
    n = draw(st.integers(1, 3))
    return {"m": draw(st.integers(n, 7)), "n": n, "bounded": False, "seed": draw(gen.SEED),
            "grad": draw(st.sampled_from([True, True, True, False])),
            "kind": draw(st.sampled_from(["linear", "concave", "saddle", "quartic"]))}


def nomin_check(c, cx):
    """No minimum, no answer; and a falling function has one on a bounded domain (checked by the other groups)."""
    su = setup(c)
    if su is None:
        return
    f, g = falling(np.random.RandomState(c["seed"] // 11), c["n"], c["kind"])
    fun = lambda y: f(np.asarray(y, dtype=float).ravel())
    gr = lambda y: g(np.asarray(y, dtype=float).ravel())
    with np.errstate(all="ignore"):
        try:
            out = opt.av_minimize(fun, su[2], gr) if c["grad"] else opt.av_minimize(fun, su[2])
        except Exception:
            cx.nontrivial()
            cx.label("no minimum: " + c["kind"])
            return
    cx.fail("a {} function, which has no minimum, got the minimiser {} and minimum {}".format(c["kind"], out[0], out[1]))


SUBS = [Sub("nomin", nomin_case(), nomin_check, 60), Sub("raising", raise_case(), raise_check, 500), Sub("minimize", min_case(), min_check, 1600), Sub("wells", wells_case(), wells_check, 240), Sub("ends", end_case(), end_check, 600), Sub("deterministic", det_case(), det_check, 600)]
