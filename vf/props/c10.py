"""C10: forward and inverse maps."""
import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen, ref

RULE = ("Orthogonal bases of 1..7 inputs, active dimension 1..min(m,4), bounded and unbounded domains; active points "
        "that are images of interior points, face points and corners of the cube, or just inside the boundary; "
        "N = 1..8 points per active point; several memory layouts.  Non-trivial: there are inactive variables and at "
        "least two active points or N > 1.")


def basis(c):
    m = c["m"]
    if c.get("basis") == "tilted":       # close to the axes: tiny entries
        R = np.random.RandomState(c["seed"])
        return np.linalg.qr(np.eye(m)[:, R.permutation(m)] + 10.0 ** R.uniform(-6, -2) * R.normal(size=(m, m)))[0]
    if c.get("basis") == "sparse" and m > 2 and (c["n"] == 1 or not c["bounded"]):
        R = np.random.RandomState(c["seed"])
        k = R.randint(1, m)
        W = np.eye(m)
        W[:k, :k] = gen.orth(c["seed"], k)
        W[k:, k:] = gen.orth(c["seed"] // 2, m - k)
        return W
    return gen.orth(c["seed"], m)


@st.composite
def fwd_case(draw):
    m = draw(gen.dim(1, 10))
    return {"m": m, "n": draw(st.integers(1, m)), "seed": draw(gen.SEED), "bounded": draw(st.booleans()),
            "X": draw(gen.matrix(draw(gen.many(5010)) if m < 5 and draw(st.integers(0, 29)) == 0 else draw(gen.dim(1, 20)), m, scales=st.sampled_from([1.0, 1.0, 1e-3, 30.0]), ints=True)),
            "basis": draw(st.sampled_from(["dense", "sparse", "tilted"]))}


def fwd_check(c, cx):
    m, n = c["m"], c["n"]
    s = gen.subspaces(basis(c), gen.eigs(c["seed"], m, "rand"), n)
    d, Map = gen.make_domain(s, c["bounded"], c["seed"])
    if d is None:
        return
    X = gen.arr(c["X"])
    mp = Map(d)
    Y, Z = mp.forward(X)
    M = X.shape[0]
    Y = ref.as2d(cx, Y, (M, n), "Y")
    cx.ok(isinstance(Z, np.ndarray) and Z.shape == (M, m - n), "Z has shape {}", np.shape(Z))
    Xf, W = np.asarray(X, dtype=float), np.array(s.eigenvecs)
    sc = 1e-13 * m * (1e-300 + np.abs(Xf).max())
    for i in range(M) if M < 100 else np.random.RandomState(c["seed"]).randint(M, size=40):
        for j in range(n):
            ref.near(cx, Y[i, j], float(np.dot(Xf[i], W[:, j])), sc, "Y is the projection on W1")
        for j in range(m - n):
            ref.near(cx, Z[i, j], float(np.dot(Xf[i], W[:, n + j])), sc, "Z is the projection on W2")
    ref.near(cx, Y.dot(W[:, :n].T) + Z.dot(W[:, n:].T), Xf, sc * 10, "X = Y W1' + Z W2'")
    cx.nontrivial(M > 1 and m > n)
    cx.label("bounded" if c["bounded"] else "unbounded", "n=m" if n == m else "n<m")


@st.composite
def inv_case(draw):
    m = draw(gen.dim(1, 7))
    n = draw(st.integers(1, min(m, 4)))
    NY = draw(gen.dim(1, 6))
    return {"m": m, "n": n, "seed": draw(gen.SEED), "bounded": draw(st.integers(0, 3)) > 0,
            "NY": NY, "N": draw(st.one_of(st.just(None), st.integers(1, 8))),
            "yk": draw(st.lists(st.sampled_from(["interior", "interior", "centre", "face", "corner", "near", "nearer", "tiny"]),
                                min_size=NY, max_size=NY)),
            "basis": draw(st.sampled_from(["dense", "dense", "sparse", "tilted"])),
            "lay": draw(st.sampled_from(gen.LAYOUTS)), "rs": draw(gen.SEED), "again": draw(st.sampled_from([None, None, 0, -1]))}


def active_points(c, W1, R, bounded):
    m = W1.shape[0]
    rows = []
    for k in c["yk"]:
        x = R.uniform(-1, 1, size=m)
        if k == "centre":
            x = np.zeros(m)
        elif k == "face":
            x[R.randint(m)] = R.choice([-1.0, 1.0])
        elif k == "tiny":
            x = x * 10.0 ** R.uniform(-11, -5)
        elif k in ("corner", "near", "nearer"):
            x = np.sign(W1.dot(R.normal(size=W1.shape[1])))
            x[x == 0] = 1.0
            x = x * {"corner": 1.0, "near": 1 - 1e-4, "nearer": 1 - 1e-9}[k]
        if not bounded:
            x = 3 * x
        rows.append(x.dot(W1))
    return np.array(rows)


def inv_check(c, cx):
    m, n = c["m"], c["n"]
    R = np.random.RandomState(c["seed"])
    s = gen.subspaces(basis(c), gen.eigs(c["seed"], m, "rand"), n)
    d, Map = gen.make_domain(s, c["bounded"], c["seed"])
    if d is None:
        return
    mp = Map(d)
    W1 = np.array(s.W1)
    Y = active_points(c, W1, R, c["bounded"])
    yk = list(c["yk"])
    if c["again"] is not None:       # an active point that comes twice
        Y = np.vstack((Y, Y[c["again"]]))
        yk.append(yk[c["again"]])
    gen.reseed(c["rs"])
    N = c["N"] or 1
    X, ind = mp.inverse(gen.layout(Y, c["lay"])) if c["N"] is None else mp.inverse(gen.layout(Y, c["lay"]), N)
    NY = Y.shape[0]
    X = ref.as2d(cx, X, (NY * N, m), "X")
    ind = ref.as2d(cx, ind, (NY * N, 1), "ind")
    ref.near(cx, ind[:, 0], np.repeat(np.arange(NY), N), 0.0, "ind: N consecutive rows per active point")
    ii = ind[:, 0].astype(int)
    ref.near(cx, X.dot(W1), Y[ii], 1e-12 * m * (1 + np.abs(Y).max()), "X maps to its active point")
    # the map's own forward is its left inverse
    ref.near(cx, mp.forward(X)[0], Y[ii], 1e-12 * m * (1 + np.abs(Y).max()), "forward(inverse(Y)) = Y[ind]")
    if c["bounded"]:
        over = np.max(np.abs(X)) - 1.0
        cx.ok(over <= 2e-6, "a point leaves the hypercube by {:.3g}", float(over))
    if m > n and N > 1:
        for k in range(NY):
            if yk[k] in ("interior", "centre") or not c["bounded"]:
                G = X[ii == k]
                cx.ok(len({tuple(r) for r in G.tolist()}) == N, "repeated points for one active point")
    if m > n and c["again"] is not None and yk[-1] in ("interior", "centre"):
        A, B = X[ii == NY - 1], X[ii == c["again"] % (NY - 1)]
        cx.ok(np.min(np.max(np.abs(A[:, None] - B[None]), axis=2)) > 1e-12,
              "an active point that comes twice gets the same inputs both times")
    if m > n and NY > 1 and not c["bounded"]:
        Z = X.dot(np.array(s.W2))
        cx.ok(len({tuple(np.round(r, 9)) for r in Z.tolist()}) == NY * N, "inactive variables repeat across active points")
    cx.nontrivial(m > n and (NY > 1 or N > 1))
    cx.label("bounded" if c["bounded"] else "unbounded", "n=m" if n == m else "n<m", "N=1" if N == 1 else "N>1",
             *(c["yk"] if c["bounded"] else []))


@st.composite
def gauss_case(draw):
    m = draw(gen.dim(2, 6))
    return {"m": m, "n": draw(st.integers(1, m - 1)), "seed": draw(gen.SEED), "rs": draw(gen.SEED),
            "split": draw(st.one_of(st.sampled_from([[1, 4000], [20, 200], [4000, 1]]), gen.many(10050).map(lambda k: [k, 1]),
                                    st.integers(2, 12).map(lambda k: [4000 // k, k]),
                                    st.tuples(st.integers(13, 300), st.integers(100, 4000)).map(lambda t: [max(1, t[1] // t[0]), t[0]])))}


def gauss_check(c, cx):
    """Unbounded inverse: the inactive variables are independent standard normals, whatever the active point."""
    m, n = c["m"], c["n"]
    s = gen.subspaces(gen.orth(c["seed"], m), gen.eigs(c["seed"], m, "rand"), n)
    d, Map = gen.make_domain(s, False)
    R = np.random.RandomState(c["seed"])
    NY, N = c["split"]
    Y = R.normal(size=(NY, n)) * 3
    gen.reseed(c["rs"])
    X, ind = Map(d).inverse(Y, N)
    Z = ref.as2d(cx, X, (NY * N, m), "X").dot(np.array(s.W2))
    ref.near(cx, ref.as2d(cx, ind, (NY * N, 1), "ind")[:, 0], np.repeat(np.arange(NY), N), 0.0,
             "ind: N consecutive rows per active point")
    ref.near(cx, X.dot(np.array(s.W1)), np.repeat(Y, N, axis=0), 1e-12 * m * (1 + np.abs(Y).max()),
             "X maps to its active point")
    T = len(Z)
    if T < 1000:
        return
    z = 7.0 / np.sqrt(T)
    cx.ok(np.all(np.abs(Z.mean(axis=0)) < z), "mean of the inactive variables {}", list(Z.mean(axis=0)))
    ref.near(cx, Z.T.dot(Z) / T, np.eye(m - n), 10.0 / np.sqrt(T), "covariance of the inactive variables")
    if NY >= 300:
        # consecutive points of one active point are independent
        G = Z.reshape((NY, N, m - n))
        for j in range(N):
            for k in range(N):
                if j < k:
                    ref.near(cx, G[:, j].T.dot(G[:, k]) / NY, np.zeros((m - n, m - n)), 10.0 / np.sqrt(NY),
                             "covariance of inactive points {} and {} of one active point".format(j, k))
                ref.near(cx, G[1:, j].T.dot(G[:-1, k]) / (NY - 1), np.zeros((m - n, m - n)), 10.0 / np.sqrt(NY - 1),
                         "covariance of inactive points of consecutive active points")
    k4 = np.mean(Z ** 4, axis=0)
    cx.ok(np.all(np.abs(k4 - 3) < 8 * np.sqrt(96.0 / T)), "fourth moment of the inactive variables {}", list(k4))
    cy = (Y[ind[:, 0].astype(int)].T.dot(Z)) / T / 3.0
    cx.ok(np.all(np.abs(cy) < 8.0 * np.sqrt(np.mean(Y ** 2, axis=0)).reshape((n, 1)) / 3.0 / np.sqrt(T)), "inactive variables depend on the active ones")
    cx.nontrivial()


@st.composite
def many_case(draw):
    return {"m": draw(st.integers(1, 3)), "NY": draw(st.integers(1, 60)), "N": draw(st.integers(9, 400)),
            "seed": draw(gen.SEED), "rs": draw(gen.SEED), "bounded": draw(st.sampled_from([False, False, False, True]))}


def many_check(c, cx):
    """Many inputs per active point: every one belongs to the active point its index names."""
    m, NY, N = c["m"], c["NY"], c["N"]
    if c["bounded"]:
        NY, N = min(NY, 6), min(N, 120)
    s = gen.subspaces(gen.orth(c["seed"], m), gen.eigs(c["seed"], m, "rand"), 1)
    d, Map = gen.make_domain(s, c["bounded"], c["seed"])
    R = np.random.RandomState(c["seed"])
    W1 = np.array(s.W1)
    Y = R.uniform(-1, 1, size=(NY, m)).dot(W1)
    gen.reseed(c["rs"])
    mp = Map(d)
    X, ind = mp.inverse(Y, N)
    X = ref.as2d(cx, X, (NY * N, m), "X")
    ref.near(cx, ref.as2d(cx, ind, (NY * N, 1), "ind")[:, 0], np.repeat(np.arange(NY), N), 0.0,
             "ind: N consecutive rows per active point")
    ref.near(cx, X.dot(W1), np.repeat(Y, N, axis=0), 1e-12 * m * (1 + np.abs(Y).max()), "X maps to its active point")
    if m > 1:
        cx.ok(len({tuple(r) for r in X.tolist()}) == NY * N, "repeated points among {} inputs", NY * N)
    if c["bounded"]:
        cx.ok(np.max(np.abs(X)) <= 1.0 + 2e-6, "a point leaves the hypercube by {:.3g}", float(np.max(np.abs(X)) - 1.0))
    cx.nontrivial(m > 1 and NY > 1)
    cx.label("bounded" if c["bounded"] else "unbounded")


SCALE = 2
SUBS = [Sub("many", many_case(), many_check, 400), Sub("forward", fwd_case(), fwd_check, 1500), Sub("inverse", inv_case(), inv_check, 1000),
        Sub("gaussian", gauss_case(), gauss_check, 120)]
