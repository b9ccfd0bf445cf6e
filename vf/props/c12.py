"""C12: Gaussian quadrature."""
import itertools
import numpy as np
from scipy import special
from hypothesis import strategies as st
from ..core import Sub
from .. import gen, ref
from active_subspaces.utils import quadrature as gq

RULE = ("Point counts 1..40 per dimension (tensor grids up to 2000 points, 1..4 dimensions with different counts), "
        "all monomials up to the degree of exactness or random polynomials; 41..320 points in one dimension; Jacobi parameters in (-1,4] on "
        "random intervals; random recurrence matrices.  Non-trivial: at least two points in some dimension.")


def normal_moment(k):
    return 0.0 if k % 2 else float(np.prod(np.arange(1.0, k, 2))) if k else 1.0


def legendre_moment(k):
    return 0.0 if k % 2 else 1.0 / (k + 1)


def rule_check(cx, x, w, NN, kind, R):
    d, T = len(NN), int(np.prod(NN))
    x = ref.as2d(cx, x, (T, d), "nodes")
    w = ref.as2d(cx, w, (T, 1), "weights")
    cx.ok(np.all(w >= 0), "negative weight")
    ref.near(cx, w.sum(), 1.0, 1e-11, "weights sum to one")
    mom = normal_moment if kind == "hermite" else legendre_moment
    # tensor structure: lexicographic, last dimension fastest, nodes ascending
    axes = []
    for j in range(d):
        inner = int(np.prod(NN[j + 1:]))
        a = x[::inner, j][:NN[j]]
        cx.ok(np.all(np.diff(a) > 0), "nodes are not distinct and ascending")
        ref.near(cx, a, -a[::-1], 1e-9 * (1 + np.abs(a).max()), "nodes are symmetric")
        axes.append(a)
        if kind == "legendre":
            cx.ok(np.all(np.abs(a) < 1), "a Legendre node leaves (-1,1)")
        # the nodes are the zeros of the orthogonal polynomial
        p0, p1 = np.zeros(len(a)), np.ones(len(a))
        for k in range(NN[j]):
            bk = (float(k) if kind == "hermite" else k * k / (4.0 * k * k - 1.0))
            p0, p1 = p1, (a * p1 - bk * p0) / np.sqrt(k + 1.0 if kind == "hermite" else 0.25)
            p0 = p0 / np.sqrt(k + 1.0 if kind == "hermite" else 0.25)
        dp = np.array([np.prod([(t - u) / (np.sqrt(q + 1.0) if kind == "hermite" else 0.5)
                                for q, u in enumerate(np.delete(a, i))]) for i, t in enumerate(a)])
        ref.near(cx, p1 / (1e-300 + np.abs(dp) * (1.0 if kind == "hermite" else 2.0)), np.zeros(len(a)), 1e-7,
                 "nodes are zeros of the orthogonal polynomial")
    grid = np.array(list(itertools.product(*axes))).reshape((T, d))
    ref.near(cx, x, grid, 1e-12 * (1 + np.abs(x).max()), "nodes form the tensor grid in lexicographic order")
    # exactness on products of monomials of degree <= 2 N_j - 1
    tests = [[0] * d]
    for j in range(d):
        for k in {1, 2, 2 * NN[j] - 1, 2 * NN[j] - 2, R.randint(0, 2 * NN[j])}:
            if 0 <= k <= 2 * NN[j] - 1:
                a = [0] * d
                a[j] = int(k)
                tests.append(a)
    for _ in range(8):
        tests.append([int(R.randint(0, 2 * n)) for n in NN])
    for a in tests:
        v = np.ones(T)
        for j in range(d):
            v = v * x[:, j] ** a[j]
        want = float(np.prod([mom(k) for k in a]))
        size = float(np.sum(np.abs(v) * w[:, 0]))
        ref.near(cx, float(np.dot(v, w[:, 0])), want, (1e-10 * max(NN) if max(a) <= 12 else 1e-6 if max(a) <= 40 else 0.02) * (size + 1e-300),
                 "integral of the monomial {}".format(a))


@st.composite
def case(draw):
    d = draw(st.sampled_from([1, 1, 2, 2, 3, 4]))
    hi = {1: 40, 2: 12, 3: 7, 4: 5}[d]
    NN = [draw(gen.dim(1, hi)) for _ in range(d)]
    return {"NN": NN, "kind": draw(st.sampled_from(["hermite", "legendre"])),
            "form": draw(st.sampled_from(["list", "int"])), "seed": draw(gen.SEED)}


def check(c, cx):
    NN = list(c["NN"])
    R = np.random.RandomState(c["seed"])
    arg = NN[0] if len(NN) == 1 and c["form"] == "int" else list(NN)
    f = gq.gauss_hermite if c["kind"] == "hermite" else gq.gauss_legendre
    x, w = f(arg)
    rule_check(cx, x, w, NN, c["kind"], R)
    if len(NN) == 1:
        g = gq.gh1d if c["kind"] == "hermite" else gq.gl1d
        x1, w1 = g(NN[0])
        rule_check(cx, x1, w1, NN, c["kind"], R)
        x2, w2 = gq.g1d(NN[0], c["kind"].capitalize())
        rule_check(cx, x2, w2, NN, c["kind"], R)
    cx.nontrivial(max(NN) > 1)
    cx.label(c["kind"], "d=%d" % len(NN), "N>20" if max(NN) > 20 else "N<=20")


@st.composite
def jac_case(draw):
    return {"N": draw(st.integers(21, 70)) if draw(st.integers(0, 9)) == 0 else draw(gen.dim(1, 20)), "a": draw(st.one_of(st.sampled_from([0, 0.0, -0.5, 0.5, 1, 2]), st.floats(-0.9, 4))),
            "b": draw(st.one_of(st.sampled_from([0, 0.0, -0.5, 0.5, 1, 2]), st.floats(-0.9, 4))),
            "l": draw(st.sampled_from([-1, 0, -1.0, 0.0, -3.5, 2])), "w": draw(st.sampled_from([1, 2, 2.0, 0.25, 7]))}


def jac_check(c, cx):
    """The recurrence gives orthogonal polynomials for (r-x)^a (x-l)^b: the Gauss rule it defines has the beta moments."""
    N, a, b, l = c["N"], c["a"], c["b"], c["l"]
    r = l + c["w"]
    ab = gq.r_jacobi(N, l, r, a, b)
    cx.ok(isinstance(ab, np.ndarray) and ab.ndim == 2 and ab.shape[1] == 2 and ab.shape[0] >= N, "coefficients of shape {}",
          np.shape(ab))
    cx.ok(np.all(np.isfinite(ab)) and np.all(ab[:, 1] > 0), "coefficients are not finite and positive")
    J = np.diag(ab[:N, 0]) + np.diag(np.sqrt(ab[1:N, 1]), 1) + np.diag(np.sqrt(ab[1:N, 1]), -1)
    e, V = np.linalg.eigh(J)
    w = V[0] ** 2
    cx.ok(np.all(e > l) and np.all(e < r), "Gauss-Jacobi nodes leave the interval")
    t = (e - l) / float(r - l)
    for k in range(2 * N):
        # E t^k for t ~ Beta(b+1, a+1)
        want = float(np.prod([(b + 1.0 + i) / (a + b + 2.0 + i) for i in range(k)]))
        ref.near(cx, float(np.dot(w, t ** k)), want, 1e-10 * N, "moment {} of the Jacobi weight".format(k))
    if ab.shape[0] == N + 1:
        J2 = gq.jacobi_matrix(ab)
        ref.near(cx, np.atleast_2d(J2), J, 1e-13 * (1 + np.abs(J).max()), "jacobi_matrix of the coefficients")
    cx.nontrivial(N > 1)
    cx.label("legendre" if a == 0 and b == 0 else "symmetric" if a == b else "general")


@st.composite
def mat_case(draw):
    n = draw(gen.dim(1, 12))
    return {"n": n, "seed": draw(gen.SEED)}


def mat_check(c, cx):
    R = np.random.RandomState(c["seed"])
    n = c["n"]
    ab = np.column_stack((R.normal(size=n + 1), R.uniform(0.01, 9, size=n + 1)))
    J = ref.as2d(cx, gq.jacobi_matrix(ab.copy()), (n, n), "Jacobi matrix")
    s = np.sqrt(ab[1:n, 1])
    ref.near(cx, J, np.diag(ab[:n, 0]) + np.diag(s, 1) + np.diag(s, -1), 1e-14, "Jacobi matrix")
    if n >= 2:
        h = ref.as2d(cx, gq.r_hermite(n), (n + 1, 2), "r_hermite")
        ref.near(cx, h[:n, 0], np.zeros(n), 0.0, "Hermite alphas")
        ref.near(cx, h[1:n, 1], np.arange(1, n), 1e-14 * n, "Hermite betas")
    cx.nontrivial(n > 1)


@st.composite
def large_case(draw):
    return {"N": draw(st.one_of(st.sampled_from([41, 50, 64, 99, 100, 101, 127, 128, 129, 150, 200, 256, 300]), st.integers(41, 320))),
            "kind": draw(st.sampled_from(["hermite", "legendre"])), "other": draw(st.integers(0, 3)), "at": draw(st.booleans())}


def large_check(c, cx):
    """Many points in one dimension: the nodes and weights are the known ones."""
    N = c["N"]
    if c["kind"] == "hermite":
        x0, w0 = special.roots_hermitenorm(N)
        f = gq.gauss_hermite
    else:
        x0, w0 = special.roots_legendre(N)
        f = gq.gauss_legendre
    w0 = w0 / w0.sum()
    k = c["other"]
    if not k or N > 128:
        k = 0
        x, w = f([N]) if c["at"] else f(N)
        x, w = ref.as2d(cx, x, (N, 1), "nodes"), ref.as2d(cx, w, (N, 1), "weights")
    else:
        x, w = f([k, N] if c["at"] else [N, k])
        x, w = ref.as2d(cx, x, (k * N, 2), "nodes"), ref.as2d(cx, w, (k * N, 1), "weights")
        ref.near(cx, w.sum(), 1.0, 1e-11, "weights sum to one")
        q = w.reshape((k, N) if c["at"] else (N, k)).sum(axis=0 if c["at"] else 1)
        x, w = (x[:N, 1:] if c["at"] else x[::k, :1]), q.reshape((N, 1))
    cx.ok(np.all(w >= 0), "negative weight")
    cx.ok(np.all(np.diff(x[:, 0]) > 0), "nodes are not distinct and ascending")
    ref.near(cx, x[:, 0], x0, 1e-10 * (1 + np.abs(x0).max()), "nodes")
    ref.near(cx, w[:, 0], w0, 1e-11, "weights")
    cx.nontrivial()
    cx.label(c["kind"], "N>128" if N > 128 else "N<=128", "d=2" if k else "d=1")


SCALE = 6
SUBS = [Sub("large", large_case(), large_check, 40),
        Sub("exactness", case(), check, 900), Sub("jacobi", jac_case(), jac_check, 600),
        Sub("matrix", mat_case(), mat_check, 200)]
