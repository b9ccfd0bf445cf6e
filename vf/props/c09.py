"""C09: the bounded active-variable domain is the image of the hypercube."""
import itertools
from math import comb
import numpy as np
from scipy.spatial import ConvexHull
from hypothesis import strategies as st
from ..core import Sub
from .. import gen, ref
from active_subspaces import domains as dm

RULE = ("Orthogonal bases of 1..8 inputs and active dimension 1..4 in general position (every sign cell of the "
        "arrangement wide enough to be hit by sampling), and some signed permutations for one active variable; "
        "directions are random, facet normals of the oracle's hull, rows of W1 and coordinate axes; test points "
        "inside, on and outside the oracle's hull.  Planar arrangements with a cell of width 1e-5 to 1e-3.  Zero and parallel rows.  Non-trivial: more inputs than active variables.")
ASSUMPTIONS = ["Rows of W1 other than zero and parallel ones in general position; with n >= 3 and, say, three rows in a plane the "
               "vertex search only stops at its iteration limit"]


def exact_signs(W1):
    """Sign vectors of the vertices, by the oracle: all 2^m corners, keep those that are extreme."""
    m, n = W1.shape
    S = np.array(list(itertools.product([-1.0, 1.0], repeat=m)))
    return S, S.dot(W1)


@st.composite
def case(draw):
    m = draw(gen.dim(1, 8))
    n = draw(st.integers(1, min(m, 4 if m < 7 else 3)))
    return {"m": m, "n": n, "seed": draw(gen.SEED), "kind": draw(st.sampled_from(["random", "random", "random", "axis1"])),
            "via": draw(st.sampled_from(["init", "init", "recompute", "fn"])), "n2": draw(st.integers(1, min(m, 3))),
            "lay": draw(st.sampled_from(["C", "F", "strided"]))}


def check(c, cx):
    m, n = c["m"], c["n"]
    R = np.random.RandomState(c["seed"])
    if c["kind"] == "axis1":
        n = 1
        W = np.eye(m)[:, R.permutation(m)]
        if m > 2:            # some zero entries, not all
            k = R.randint(1, m + 1)
            Q = gen.orth(c["seed"], k)
            B = np.eye(m)
            B[:k, :k] = Q
            W = B[R.permutation(m)]
    else:
        W = gen.orth(c["seed"], m)
    W = gen.layout(W, c["lay"])
    s = gen.subspaces(W, gen.eigs(c["seed"], m, "decay"), n)
    W1 = np.array(s.W1)
    if n > 1 and gen.widest_gap(W1, R) < 0.002:
        cx.label("narrow cell, skipped")
        return
    if c["via"] == "fn" and n > 1:
        Y, X = dm.zonotope_vertices(s.W1, Nsamples=int(R.randint(5000, 20000)))
        dom = None
    elif c["via"] == "fn":
        Y, X = dm.interval_endpoints(s.W1)
        dom = None
    elif c["via"] == "recompute" and (c["n2"] == 1 or gen.widest_gap(np.array(W[:, :c["n2"]]), R) >= 0.002):
        s.partition(c["n2"])
        dom = dm.BoundedActiveVariableDomain(s)
        s.partition(n)
        dom.compute_boundary()
        Y, X = dom.vertY, dom.vertX
    else:
        dom = dm.BoundedActiveVariableDomain(s)
        Y, X = dom.vertY, dom.vertX
        cx.ok(dom.m == m and dom.n == n, "domain has m={}, n={} for a {}-by-{} basis", dom.m, dom.n, m, n)
    total = 2 * sum(comb(m - 1, i) for i in range(n))
    X = ref.as2d(cx, X, (total if n > 1 else 2, m), "vertX")
    Y = ref.as2d(cx, Y, (total if n > 1 else 2, n), "vertY")
    cx.ok(np.all(np.abs(X) <= 1), "vertX leaves the hypercube")
    cx.ok(np.all(np.abs(X) == 1), "vertX are not corners of the hypercube")
    ref.near(cx, X.dot(W1), Y, 1e-12 * m, "vertX maps to vertY")
    cx.ok(len({tuple(x) for x in X.tolist()}) == len(X), "repeated vertices")
    # support function of the zonotope W1'[-1,1]^m
    D = [R.normal(size=(60, n)), np.eye(n), W1[np.linalg.norm(W1, axis=1) > 1e-9]]
    if n > 1:
        S, P = exact_signs(W1)
        H = ConvexHull(P)
        D.append(H.equations[:, :n])
    for u in np.vstack(D):
        for v in (u, -u):
            h = float(np.max(Y.dot(v)))
            want = float(np.sum(np.abs(W1.dot(v))))
            cx.ok(abs(h - want) <= 1e-9 * (1 + want), "support function {} in direction {} should be {}", h, list(v), want)
    if n == 1:
        cx.ok(Y[0, 0] <= Y[1, 0], "interval endpoints out of order")
        ref.near(cx, Y[:, 0], [-np.sum(np.abs(W1)), np.sum(np.abs(W1))], 1e-12 * m, "interval endpoints")
        if dom is not None:
            cx.ok(dom.constraints is None and dom.convhull is None, "an interval has constraints or a hull")
    elif dom is not None:
        vol = sum(2.0 ** n * abs(np.linalg.det(W1[list(I)])) for I in itertools.combinations(range(m), n))
        ref.near(cx, dom.convhull.volume, vol, 1e-8 * vol, "volume of the hull is the zonotope formula")
        if c["via"] == "init":
            # another domain of the same kind, made later, is no concern of this one
            Q = np.linalg.qr(R.normal(size=(n, n)))[0]
            V = np.array(s.eigenvecs)
            V[:, :n] = V[:, :n].dot(Q)
            other = dm.BoundedActiveVariableDomain(gen.subspaces(V, gen.eigs(c["seed"], m, "decay"), n))
            cx.ok(other.vertY is not dom.vertY and other.convhull is not dom.convhull, "two domains share their boundary")
        con = dom.constraints if isinstance(dom.constraints, (list, tuple)) else [dom.constraints]
        cx.ok(all(k["type"] == "ineq" for k in con), "constraints are not inequalities")

        def slack(y):
            return np.concatenate([np.ravel(k["fun"](y)) for k in con])
        A, b = H.equations[:, :n], H.equations[:, n]
        for q in range(25):
            d = R.normal(size=n)
            g = np.max(A.dot(d) / -b)         # gauge: d/g lies on the boundary
            for t, inside in ((0.0, True), (R.uniform(0, 0.999), True), (1.001, False), (R.uniform(1.01, 3), False)):
                ok = bool(np.all(slack(t * d / g) >= -1e-9))
                cx.ok(ok == inside, "point at {} of the way to the boundary: constraints say {}", t,
                      "inside" if ok else "outside")
        for x in R.uniform(-1, 1, size=(10, m)):
            cx.ok(np.all(slack(x.dot(W1)) >= -1e-9), "the image of a point of the cube violates the constraints")
        y0, J = R.normal(size=n), np.vstack([np.reshape(k["jac"](np.zeros(n)), (-1, n)) for k in con])
        ref.near(cx, slack(y0) - slack(np.zeros(n)), J.dot(y0), 1e-9, "constraint Jacobian")
    cx.nontrivial(m > n)
    cx.label("n=%d" % n, "m=%d" % m, c["via"])


@st.composite
def thin_case(draw):
    return {"m": draw(gen.dim(3, 8)), "seed": draw(gen.SEED), "rs": draw(gen.SEED), "lg": draw(st.sampled_from([-3.0, -4.0, -4.0, -4.5])),
            "via": draw(st.sampled_from(["fn", "fn", "init"]))}


def thin_check(c, cx):
    """Two active variables, two nearly parallel rows of W1: a cell that thousands of random directions miss."""
    m = c["m"]
    R = np.random.RandomState(c["seed"])
    B = R.normal(size=(m, 2))
    B[1] = B[0] * R.uniform(0.5, 2) + 10.0 ** c["lg"] * R.uniform(0.5, 2) * np.array([-B[0, 1], B[0, 0]])
    W1 = np.linalg.qr(np.hstack((B[R.permutation(m)], R.normal(size=(m, m - 2)))))[0]
    s = gen.subspaces(W1, gen.eigs(c["seed"], m, "decay"), 2)
    W1 = np.array(s.W1)
    t = np.sort(np.mod(np.arctan2(W1[:, 1], W1[:, 0]), np.pi))
    if m == 2:
        gaps = np.array([t[1] - t[0], np.pi - t[1] + t[0]])
    else:
        gaps = np.append(np.diff(t), np.pi - t[-1] + t[0])
    if gaps.min() < 1e-5:
        return
    gen.reseed(c["rs"])
    if c["via"] == "fn":
        Y, X = dm.zonotope_vertices(s.W1)
    else:
        d = dm.BoundedActiveVariableDomain(s)
        Y, X = d.vertY, d.vertX
    X = ref.as2d(cx, X, (2 * m, m), "vertX")
    Y = ref.as2d(cx, Y, (2 * m, 2), "vertY")
    ref.near(cx, X.dot(W1), Y, 1e-12 * m, "vertX maps to vertY")
    # the sign vectors of the 2m arcs between the normals, exactly
    mid = np.append(t[:-1] + np.diff(t) / 2, t[-1] + gaps[-1] / 2) + np.pi / 2
    S = np.sign(W1.dot(np.vstack((np.cos(mid), np.sin(mid))))).T
    want = {tuple(x) for x in np.vstack((S, -S)).tolist()}
    cx.ok({tuple(x) for x in X.tolist()} == want, "not the corners that map to the vertices")
    cx.nontrivial(gaps.min() < 3e-4)
    cx.label("thinnest cell 1e%d" % int(np.floor(np.log10(gaps.min()))))


@st.composite
def alike_case(draw):
    n = draw(st.integers(1, 3))
    return {"n": n, "k": draw(st.integers(n, 5)), "zero": draw(st.integers(0, 2)), "par": draw(st.integers(0, 3)),
            "seed": draw(gen.SEED), "rs": draw(gen.SEED), "via": draw(st.sampled_from(["fn", "init"]))}


def alike_check(c, cx):
    """Inputs that do not matter (zero rows of W1) and inputs that matter alike (parallel rows)."""
    n, k = c["n"], c["k"]
    R = np.random.RandomState(c["seed"])
    B = R.normal(size=(k, n))
    src = R.randint(0, k, size=c["par"])
    B = np.vstack((B, B[src] * R.choice([-1.0, 1.0, 1.0, 2.0, -0.3], size=(c["par"], 1)), np.zeros((c["zero"], n))))
    B = B[R.permutation(B.shape[0])]
    m = B.shape[0]
    W1 = B.dot(np.linalg.inv(np.linalg.qr(B)[1]))
    W2 = np.linalg.svd(W1)[0][:, n:]
    s = gen.subspaces(np.hstack((W1, W2)), gen.eigs(c["seed"], m, "decay"), n)
    if n > 1:
        real = W1[np.linalg.norm(W1, axis=1) > 0]
        real = real / np.linalg.norm(real, axis=1)[:, None]
        D = []
        for u in real:
            if all(abs(abs(u.dot(v)) - 1) > 1e-9 for v in D):
                D.append(u)
        if len(D) != k or gen.widest_gap(np.array(D), R) < 0.002:
            cx.label("narrow cell, skipped")
            return
    gen.reseed(c["rs"])
    dom = None
    if c["via"] == "fn":
        Y, X = dm.zonotope_vertices(s.W1, maxcount=200) if n > 1 else dm.interval_endpoints(s.W1)
    else:
        dom = dm.BoundedActiveVariableDomain(s)
        Y, X = dom.vertY, dom.vertX
    total = 2 * sum(comb(k - 1, i) for i in range(n)) if n > 1 else 2
    X = ref.as2d(cx, X, (total, m), "vertX")
    Y = ref.as2d(cx, Y, (total, n), "vertY")
    cx.ok(np.all(np.abs(X) == 1), "vertX are not corners of the hypercube")
    ref.near(cx, X.dot(W1), Y, 1e-12 * m, "vertX maps to vertY")
    for u in np.vstack((R.normal(size=(40, n)), np.eye(n))):
        h, want = float(np.max(Y.dot(u))), float(np.sum(np.abs(W1.dot(u))))
        cx.ok(abs(h - want) <= 1e-9 * (1 + want), "support function {} should be {}", h, want)
    dist = np.linalg.norm(Y[:, None] - Y[None], axis=2) + 9 * np.eye(total)
    cx.ok(dist.min() > 1e-9, "two vertices are the same point")
    if dom is not None and n > 1:
        vol = sum(2.0 ** n * abs(np.linalg.det(W1[list(I)])) for I in itertools.combinations(range(m), n))
        ref.near(cx, dom.convhull.volume, vol, 1e-8 * vol, "volume of the hull is the zonotope formula")
    cx.nontrivial(m > k)
    cx.label("n=%d" % n, "%d zero, %d parallel" % (c["zero"], c["par"]))


@st.composite
def nzv_case(draw):
    m = draw(gen.dim(1, 50))
    return {"m": m, "n": draw(st.integers(1, m))}


def nzv_check(c, cx):
    m, n = c["m"], c["n"]
    v = dm.nzv(m, n)
    want = 2 * sum(comb(m - 1, i) for i in range(n))
    cx.ok(int(v) == want and v == int(v), "nzv({}, {}) = {}, expected {}", m, n, v, want)
    cx.nontrivial(n > 1)


@st.composite
def unb_case(draw):
    m = draw(gen.dim(1, 10))
    return {"m": m, "n": draw(st.integers(1, m)), "seed": draw(gen.SEED)}


def unb_check(c, cx):
    s = gen.subspaces(gen.orth(c["seed"], c["m"]), gen.eigs(c["seed"], c["m"], "rand"), c["n"])
    d = dm.UnboundedActiveVariableDomain(s)
    cx.ok(d.m == c["m"] and d.n == c["n"], "unbounded domain: m={}, n={}", d.m, d.n)
    cx.ok(d.subspaces is s, "unbounded domain: other subspaces")
    cx.ok(d.vertY is None and d.vertX is None and d.constraints is None and d.convhull is None,
          "unbounded domain with a boundary")
    cx.nontrivial(c["m"] > c["n"])


SCALE = 6
SUBS = [Sub("zonotope", case(), check, 500), Sub("thin", thin_case(), thin_check, 60),
        Sub("alike", alike_case(), alike_check, 200), Sub("vertex_count", nzv_case(), nzv_check, 300),
        Sub("unbounded", unb_case(), unb_check, 100)]
