"""C13: designs."""
import numpy as np
from hypothesis import strategies as st
from scipy.spatial import ConvexHull
from scipy.spatial.distance import cdist
from ..core import Sub
from .. import gen, ref
from active_subspaces.utils import designs as dn

RULE = ("Intervals of widely different lengths and offsets with 1..200 points; groups of 10 polytopes (zonotopes and "
        "hulls of random points, 2 or 3 dimensions, not symmetric in general, of any size and place) with 1..12 points; tensor "
        "Gauss-Hermite designs.  Non-trivial: more than one point, or a polytope that is not symmetric.")
ASSUMPTIONS = ["maximin_design may report that SLSQP failed; 4 or 5 of the 10 polytopes of a group must give a "
               "design; at most 4 designs may have less than half, and at most 6 less than the spacing of the best of 60 random designs"]


@st.composite
def int_case(draw):
    return {"a": draw(st.one_of(st.integers(-5, 5), st.floats(-100, 100))),
            "w": draw(st.one_of(st.integers(1, 9), st.floats(1e-3, 1e3))), "N": draw(gen.dim(1, 200))}


def int_check(c, cx):
    a, N = c["a"], c["N"]
    b = a + c["w"]
    y = ref.as2d(cx, dn.interval_design(a, b, N), (N, 1), "design")
    want = np.array([[a + (b - a) * (k + 1.0) / (N + 1.0)] for k in range(N)])
    ref.near(cx, y, want, 1e-12 * (abs(a) + abs(b) + 1e-300), "equally spaced points")
    cx.ok(np.all(y > a) and np.all(y < b), "the design contains an endpoint or leaves the interval")
    cx.nontrivial(N > 1)


def spacing(D, V):
    d = cdist(D, np.vstack((D, V)))
    d[np.arange(len(D)), np.arange(len(D))] = np.inf
    return float(d.min())


@st.composite
def poly_case(draw):
    return {"n": draw(st.sampled_from([2, 2, 3])), "N": draw(st.sampled_from([0, 0, 0, 1, 3, 5])), "seed": draw(gen.SEED), "rs": draw(gen.SEED),
            "kind": draw(st.sampled_from(["zonotope", "hull"])), "sc": draw(st.sampled_from([1.0, 1.0, 3.0, 1e-6, 1e-3, 0.1, 100.0, 1e6])),
            "off": draw(st.sampled_from([0.0, 0.0, 1.0, 1.0, 300.0])), "asp": draw(st.sampled_from([1.0, 1.0, 3.0]))}


def poly_check(c, cx):
    n, sc = c["n"], c["sc"]
    R = np.random.RandomState(c["seed"])
    done, poor, below = 0, 0, 0
    gen.reseed(c["rs"])
    for q in range(10):
        N = c["N"] or int(R.randint(1, 13 if n == 2 else 8))
        while True:
            if c["kind"] == "zonotope":
                m = R.randint(n, 6)
                G = R.normal(size=(m, n))
                P = np.array([np.sign(R.normal(size=m)).dot(G) for _ in range(200)])
                P = P / np.abs(P).max() * 2.0
            else:
                P = R.normal(size=(R.randint(n + 2, 11), n))
                P = 2.5 * (P - P.mean(axis=0))
            B = P[ConvexHull(P).vertices]
            if ConvexHull(B).equations[:, n].max() < -0.25:
                break
        # in the caller's units: V = sc (B + off)
        B = B * np.append(c["asp"], np.ones(n - 1))
        E = ConvexHull(B).equations
        off = c["off"] * R.normal(size=(1, n))
        V = sc * (B + off)
        V0 = V.copy()
        before = np.random.get_state()
        try:
            D = dn.maximin_design(V, N)
        except Exception as e:
            if "SLSQP failed" not in str(e):
                raise
            np.random.set_state(before)
            continue
        after = np.random.get_state()
        cx.ok(before[0] == after[0] and np.array_equal(before[1], after[1]) and before[2:] == after[2:],
              "maximin_design changed the state of numpy's random generator")
        cx.ok(np.array_equal(V, V0), "maximin_design changed the vertices it was given")
        U = ref.as2d(cx, D, (N, n), "design") / sc - off
        over = float((U.dot(E[:, :n].T) + E[:, n]).max())
        cx.ok(over <= 1e-9, "a design point leaves the polytope by {:.3g} of its size", over)
        np.random.uniform(size=q)
        D2 = dn.maximin_design(V, N)
        ref.near(cx, D2, D, 0.0, "a second call with the same polytope")
        done += 1
        if q < 3:
            # a slightly different polytope has its own design
            V2 = V * (1 + 1e-3 * R.uniform(0.3, 1)) + R.uniform(-1, 1, size=(1, n)) * 1e-3 * sc
            E2 = ConvexHull(V2 / sc - off).equations
            state = np.random.get_state()
            try:
                D3 = ref.as2d(cx, dn.maximin_design(V2, N), (N, n), "design")
                cx.ok(not np.array_equal(D3, D), "the design of another polytope was returned")
                cx.ok(float(((D3 / sc - off).dot(E2[:, :n].T) + E2[:, n]).max()) <= 1e-9, "a design point leaves the polytope")
            except Exception as e:
                if "SLSQP failed" not in str(e):
                    raise
                np.random.set_state(state)
        S = R.uniform(B.min(axis=0), B.max(axis=0), size=(4000, n))
        S = S[np.all(S.dot(E[:, :n].T) + E[:, n] <= 0, axis=1)]
        if len(S) < 2 * N:
            continue
        best = max(spacing(S[R.choice(len(S), N, replace=False)], B) for _ in range(60))
        poor += spacing(U, B) < 0.5 * best
        below += spacing(U, B) < best
    cx.ok(done >= (4 if c["N"] else 5), "maximin_design failed on {} of 10 polytopes", 10 - done)
    cx.ok(poor <= 4, "{} of {} designs are not even half as well spread as random ones", poor, done)
    cx.ok(below <= 6, "{} of {} designs are spread worse than random ones", below, done)
    cx.nontrivial(c["N"] != 1 or c["kind"] == "hull")
    cx.label(c["kind"], "n=%d" % n, "N=%d" % c["N"] if c["N"] else "various N", "scale %g" % sc)


@st.composite
def spread_case(draw):
    return {"seed": draw(gen.SEED), "rs": draw(gen.SEED), "many": draw(st.sampled_from([100, 100, 60]))}


def spread_check(c, cx):
    """Over a hundred polygons: 0.4 % of the designs have less than 0.9 of the spacing of the best of 200 random ones
    (about 9 % would, were any one of the three starting points used instead of the best)."""
    R = np.random.RandomState(c["seed"])
    gen.reseed(c["rs"])
    low, done, k = 0, 0, c["many"]
    for q in range(k):
        N = int(R.randint(2, 9))
        while True:
            if q % 2:
                G = R.normal(size=(R.randint(2, 6), 2))
                P = np.array([np.sign(R.normal(size=len(G))).dot(G) for _ in range(200)])
                P = P / np.abs(P).max() * 2.0
            else:
                P = R.normal(size=(R.randint(4, 11), 2))
                P = 2.5 * (P - P.mean(axis=0))
            V = P[ConvexHull(P).vertices]
            E = ConvexHull(V).equations
            if E[:, 2].max() < -0.25:
                break
        try:
            D = ref.as2d(cx, dn.maximin_design(V, N), (N, 2), "design")
        except Exception as e:
            if "SLSQP failed" not in str(e):
                raise
            continue
        done += 1
        S = R.uniform(V.min(axis=0), V.max(axis=0), size=(4000, 2))
        S = S[np.all(S.dot(E[:, :2].T) + E[:, 2] <= 0, axis=1)]
        if len(S) < 100:
            continue
        best = max(spacing(S[R.choice(len(S), N, replace=False)], V) for _ in range(200))
        low += spacing(D, V) < 0.9 * best
    cx.ok(done >= 0.7 * k, "maximin_design failed on {} of {} polygons", k - done, k)
    cx.ok(low <= 7, "{} of {} designs are spread worse than random ones", low, done)
    cx.nontrivial()


@st.composite
def gh_case(draw):
    d = draw(st.integers(1, 4))
    return {"NN": [draw(st.integers(1, {1: 20, 2: 9, 3: 6, 4: 4}[d])) for _ in range(d)]}


def gh_check(c, cx):
    from .c12 import normal_moment
    NN = c["NN"]
    D = ref.as2d(cx, dn.gauss_hermite_design(list(NN)), (int(np.prod(NN)), len(NN)), "design")
    for j, k in enumerate(NN):
        u = np.unique(np.round(D[:, j], 8))
        cx.ok(len(u) == k, "dimension {} has {} distinct coordinates, asked for {}", j, len(u), k)
        # zeros of the probabilists' Hermite polynomial
        H = np.polynomial.hermite_e.HermiteE.basis(k)
        z = np.sort(H.roots())
        ref.near(cx, u, np.sort(np.real(z)), 1e-6 * k, "Gauss-Hermite nodes")
    cx.ok(len({tuple(r) for r in np.round(D, 8).tolist()}) == len(D), "repeated design points")
    cx.nontrivial(len(D) > 1)


SCALE = 3
SUBS = [Sub("interval", int_case(), int_check, 600), Sub("maximin", poly_case(), poly_check, 56), Sub("spread", spread_case(), spread_check, 16),
        Sub("gauss_hermite", gh_case(), gh_check, 200)]
