"""C11: samplers of the inactive variables."""
import numpy as np
from hypothesis import strategies as st
from scipy.spatial import ConvexHull, Delaunay, HalfspaceIntersection
from ..core import Sub
from .. import gen, ref
from active_subspaces import domains as dm

RULE = ("Orthogonal bases (dense, or block structured so that some inputs do not matter), 2..7 inputs, active points that are "
        "images of interior, face, corner and nearly-corner points; the four samplers, 1..40 samples.  Distribution: "
        "intervals and polygons whose exact law is known.  Non-trivial: the fibre has positive volume, or the active "
        "point is within 1e-3 of the boundary.")
ASSUMPTIONS = ["Distribution tests compare moments and Kolmogorov distances at a level below 1e-9 per test"]

SAMPLERS = {"sample": dm.sample_z, "rejection": dm.rejection_sampling_z, "hitrun": dm.hit_and_run_z,
            "walk": dm.random_walk_z}


def basis(seed, m, kind):
    if kind == "block" and m > 2:
        R = np.random.RandomState(seed)
        k = R.randint(1, m)
        W = np.eye(m)
        W[:k, :k] = gen.orth(seed, k)
        # the inactive directions mix freely; inputs k.. do not influence the active variables
        B = np.eye(m)
        B[1:, 1:] = gen.orth(seed // 3, m - 1)
        return W.dot(B)
    return gen.orth(seed, m)


@st.composite
def case(draw):
    m = draw(gen.dim(2, 7))
    kind = draw(st.sampled_from(["dense", "dense", "block"]))
    n = 1 if kind == "block" else draw(st.integers(1, min(m, 4)))
    return {"m": m, "n": n, "basis": kind, "seed": draw(gen.SEED), "rs": draw(gen.SEED), "N": draw(gen.dim(1, 40)),
            "yk": draw(st.sampled_from(["interior", "centre", "face", "corner", "near", "near", "near"])),
            "delta": draw(st.sampled_from([1e-2, 1e-4, 1e-6, 1e-7, 1e-8, 1e-9, 1e-11])),
            "s": draw(st.sampled_from(["sample", "sample", "rejection", "hitrun", "hitrun", "walk"]))}


def check(c, cx):
    m, n, N = c["m"], c["n"], c["N"]
    R = np.random.RandomState(c["seed"])
    W = basis(c["seed"], m, c["basis"])
    W1, W2 = W[:, :n].copy(), W[:, n:].copy()
    x = R.uniform(-1, 1, size=m)
    if c["yk"] == "centre":
        x[:] = 0
    elif c["yk"] == "face":
        x[R.randint(m)] = R.choice([-1.0, 1.0])
    elif c["yk"] in ("corner", "near"):
        x = np.sign(W1.dot(R.normal(size=n)))
        x[x == 0] = 1.0
        if c["yk"] == "near":
            x = x * (1 - c["delta"])
    y = x.dot(W1)
    gen.reseed(c["rs"])
    Z = SAMPLERS[c["s"]](N, y, W1, W2)
    if c["s"] == "rejection" and Z is None:
        cx.label("rejection gave up")
        if m > n and c["yk"] == "centre" and m - n <= 2:
            cx.fail("rejection sampling found fewer than 1/50 of the points of a fat fibre")
        return
    cx.ok(isinstance(Z, np.ndarray) and Z.shape == (N, m - n), "{}: shape {}, expected {}", c["s"], np.shape(Z), (N, m - n))
    cx.ok(bool(np.all(np.isfinite(Z))), "{}: non-finite sample", c["s"])
    X = W1.dot(y.reshape((n, 1))) + W2.dot(Z.T)
    over = float(np.max(np.abs(X))) - 1.0
    cx.ok(over <= 2e-6, "{}: a sample leaves the polytope -1 <= W1 y + W2 z <= 1 by {:.3g}", c["s"], over)
    if m > n and N > 1 and c["yk"] in ("interior", "centre") and c["s"] != "walk":
        cx.ok(len({tuple(z) for z in Z.tolist()}) == N, "{}: repeated samples in a fat polytope", c["s"])
    cx.nontrivial(m > n)
    cx.label(c["s"], c["yk"], c["basis"])


# ------------------------------------------------------------------ distribution
@st.composite
def dist_case(draw):
    k = draw(st.sampled_from([1, 1, 2]))
    n = draw(st.integers(1, 3))
    return {"n": n, "k": k, "seed": draw(gen.SEED), "rs": draw(gen.SEED),
            "s": draw(st.sampled_from(["sample", "rejection", "hitrun", "walk"])),
            "yk": draw(st.sampled_from(["interior", "face", "near"]))}


def sharpest(P):
    """Smallest angle (degrees) of a convex polygon given by its vertices in order."""
    a, b = np.roll(P, 1, axis=0) - P, np.roll(P, -1, axis=0) - P
    c = np.sum(a * b, axis=1) / np.linalg.norm(a, axis=1) / np.linalg.norm(b, axis=1)
    return float(np.degrees(np.arccos(np.clip(c, -1, 1)).min()))


def dist_check(c, cx):
    n, k = c["n"], c["k"]
    m = n + k
    R = np.random.RandomState(c["seed"])
    W = gen.orth(c["seed"], m)
    W1, W2 = W[:, :n].copy(), W[:, n:].copy()
    x = R.uniform(-1, 1, size=m) * {"interior": 0.9, "face": 0.999, "near": 1.0}[c["yk"]]
    if c["yk"] != "interior":
        x[R.randint(m)] = 0.97
    y = x.dot(W1)
    s = W1.dot(y)
    walk = c["s"] == "walk"
    N = {"hitrun": 8000 if k == 2 else 1500, "walk": 400}.get(c["s"], 3000)
    gen.reseed(c["rs"])
    Z = SAMPLERS[c["s"]](N, y, W1, W2)
    if Z is None:
        return
    Z = ref.as2d(cx, Z, (N, k), "Z")
    # a second call gives samples of its own
    Z2 = SAMPLERS[c["s"]](N, y, W1, W2)
    if Z2 is not None and (k == 1 or c["yk"] == "interior"):
        cx.ok(not np.any(np.all(ref.as2d(cx, Z2, (N, k), "Z") == Z, axis=1)) or float(np.ptp(Z)) < 1e-3,
              "{}: the second call for an active point repeats samples of the first", c["s"])
    # exact polytope
    A = np.vstack((W2, -W2))
    b = np.concatenate((1 - s, 1 + s))
    if k == 1:
        a = A[:, 0]
        hi, lo = np.min(b[a > 1e-12] / a[a > 1e-12]), np.max(b[a < -1e-12] / a[a < -1e-12])
        if hi - lo < 0.05:
            return
        t = np.sort((Z[:, 0] - lo) / (hi - lo))
        if walk:
            # a local random walk: only its support and that it moves
            cx.ok(np.ptp(t) > 0.05, "walk: the samples cover {:.3g} of the interval", float(np.ptp(t)))
        else:
            ks = max(np.max(np.arange(1, N + 1) / float(N) - t), np.max(t - np.arange(N) / float(N)))
            cx.ok(ks <= 3.4 / np.sqrt(N), "{}: Kolmogorov distance {:.3g} from uniform on the fibre", c["s"], float(ks))
    else:
        z0 = x.dot(W2)
        if np.min(b - A.dot(z0)) < 1e-3:
            return
        V = HalfspaceIntersection(np.column_stack((A, -b)), z0).intersections
        V = V[ConvexHull(V).vertices]
        T = Delaunay(V)
        area, mean, sec = 0.0, np.zeros(2), np.zeros((2, 2))
        for t in T.simplices:
            P = V[t]
            v = 0.5 * abs(np.linalg.det(P[1:] - P[0]))
            g = P.mean(axis=0)
            area += v
            mean += v * g
            sec += v * (sum(np.outer(p, p) for p in P) + 9 * np.outer(g, g)) / 12.0
        mean, sec = mean / area, sec / area
        cov = sec - np.outer(mean, mean)
        if np.linalg.cond(cov) > 400:
            return
        L = np.linalg.cholesky(cov)
        U = np.linalg.solve(L, (Z - mean).T).T          # mean 0, covariance I, |U| bounded
        f = {"sample": 1.0, "rejection": 1.0, "hitrun": 9.0, "walk": 40.0}[c["s"]]
        if c["s"] == "hitrun" and np.linalg.cond(cov) < 5 and sharpest(V) > 45:
            f = 2.4         # mixes fast: the measured spread of both statistics is about 2.2/sqrt(N), never above 7.5
            cx.label("hitrun, round polygon")
        if walk:
            cx.ok(np.all(np.ptp(U, axis=0) > 0.1), "walk: the samples do not move")
        else:
            cx.ok(np.all(np.abs(U.mean(axis=0)) <= 7 * f / np.sqrt(N)), "{}: mean off by {} standard deviations", c["s"],
                  list(U.mean(axis=0)))
            ref.near(cx, U.T.dot(U) / N, np.eye(2), 8 * f / np.sqrt(N), c["s"] + ": covariance of uniform samples")
    cx.nontrivial()
    cx.label(c["s"], "k=%d" % k, c["yk"])


@st.composite
def few_case(draw):
    return {"n": draw(st.integers(1, 3)), "seed": draw(gen.SEED), "rs": draw(gen.SEED), "N": draw(st.integers(1, 3)),
            "s": draw(st.sampled_from(["sample", "rejection", "hitrun"]))}


def few_check(c, cx):
    """Many calls for one to three points each: together they follow the same uniform law on the fibre."""
    n, N = c["n"], c["N"]
    R = np.random.RandomState(c["seed"])
    W = gen.orth(c["seed"], n + 1)
    W1, W2 = W[:, :n].copy(), W[:, n:].copy()
    y = (0.9 * R.uniform(-1, 1, size=n + 1)).dot(W1)
    s = W1.dot(y)
    a, b = np.concatenate((W2[:, 0], -W2[:, 0])), np.concatenate((1 - s, 1 + s))
    hi, lo = np.min(b[a > 1e-12] / a[a > 1e-12]), np.max(b[a < -1e-12] / a[a < -1e-12])
    if hi - lo < 0.2:
        return
    gen.reseed(c["rs"])
    t, calls = [], 2700 // N
    for _ in range(calls):
        Z = SAMPLERS[c["s"]](N, y, W1, W2)
        if Z is None:
            return
        t.append((ref.as2d(cx, Z, (N, 1), "Z")[:, 0] - lo) / (hi - lo))
    t = np.array(t)
    for j in range(N):
        u = np.sort(t[:, j])
        ks = max(np.max(np.arange(1, calls + 1) / float(calls) - u), np.max(u - np.arange(calls) / float(calls)))
        cx.ok(ks <= 3.4 / np.sqrt(calls), "{}: point {} of {}: Kolmogorov distance {:.3g} from uniform", c["s"], j + 1, N, float(ks))
        tail = 22.0 / calls
        cx.ok(u[0] < tail and u[-1] > 1 - tail, "{}: {} calls for {} points never came within {:.3g} of an end of the fibre",
              c["s"], calls, N, tail)
    cx.nontrivial()
    cx.label(c["s"], "N=%d" % N)


SUBS = [Sub("few", few_case(), few_check, 40), Sub("feasible", case(), check, 1200), Sub("distribution", dist_case(), dist_check, 320)]
