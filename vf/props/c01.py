"""C01: the gradient-based active subspace is the eigendecomposition of the weighted gradient outer product."""
import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen, ref
from active_subspaces import subspaces as ss

RULE = ("Gradient matrices (1..12 inputs, now and then 25; 1..40 samples, now and then up to 10000; Gaussian, uniform, "
        "lattice, duplicated, low-rank, zero-column, badly scaled, sparse; C/F/strided/reversed/sub-array memory "
        "layout; some integer arrays) with uniform, random, unnormalised, widely spread or partly zero weights.  "
        "Non-trivial: at least two samples with different gradients and two inputs.")


@st.composite
def case(draw):
    m = draw(gen.dim(2, 12)) if draw(st.integers(0, 14)) else 25
    big = draw(st.integers(0, 19)) == 0
    M = draw(gen.many(10050)) if big else draw(gen.dim(1, 40))
    if M > 2100:
        m = draw(gen.dim(2, 4))
    return {"df": draw(gen.matrix(M, m, ints=True)), "w": draw(gen.weights_spec(M)),
            "mode": draw(st.sampled_from(["fn", "compute", "default", "withX"])), "rot": draw(gen.SEED), "neg": draw(st.integers(0, 3)) == 0}


def check(c, cx):
    df, w = gen.arr(c["df"]), gen.weights(c["w"])
    M, m = df.shape
    if c["neg"] and c["mode"] != "default" and M > m:
        # a negative weight, as quadrature rules may have, that leaves the average positive definite
        D = np.asarray(df, dtype=float)
        C0 = ref.wsum(df, w)
        i = int(np.argmax(np.sum(D ** 2, axis=1)))
        s0 = np.linalg.eigvalsh(C0)
        if s0[0] > 1e-6 * s0[-1] > 0:
            q = float(D[i].dot(np.linalg.solve(C0, D[i])))
            w = np.array(w, dtype=float)
            w[i] -= 0.9 / q
            cx.label("negative weight" if w[i, 0] < 0 else "smaller weight")
    if c["mode"] == "fn":
        e, W = ss.active_subspace(df, w)
    else:
        s = ss.Subspaces()
        if c["mode"] == "compute":
            s.compute(df=df, weights=w)
        elif c["mode"] == "withX":
            s.compute(X=np.zeros((M, m)), f=np.ones((M, 1)), df=df, weights=w, sstype='AS')
        else:
            w = np.ones((M, 1)) / M
            s.compute(df=df)
        e, W = s.eigenvals, s.eigenvecs
    C = ref.wsum(df, w)
    ref.eigenpairs(cx, e, W, C, what=c["mode"])
    if c["mode"] != "fn":
        cx.ok(isinstance(s.W1, np.ndarray) and isinstance(s.W2, np.ndarray) and
              s.W1.ndim == 2 and s.W2.ndim == 2 and s.W1.shape[1] >= 1, "W1, W2 not set")
        ref.near(cx, np.hstack((s.W1, s.W2)), W, 0.0, "[W1 W2] = eigenvectors")
        cx.ok(s.e_br is None and s.sub_br is None, "bootstrap ranges without a bootstrap")
    # turning the inputs turns the subspace: same eigenvalues, eigenvectors of Q'CQ
    Q = gen.orth(c["rot"], m)
    e2, W2 = ss.active_subspace(np.asarray(df, dtype=float).dot(Q), w)
    ref.eigenpairs(cx, e2, W2, Q.T.dot(C).dot(Q), rtol=1e-9, what="rotated")
    ref.near(cx, e2, e, 1e-9 * m * max(float(np.max(e)), 1e-300), "eigenvalues under rotation")
    cx.nontrivial(M > 1 and bool(np.ptp(df, axis=0).max() > 0) and bool(np.max(np.abs(C)) > 0))
    cx.label("m=%d" % m if m < 6 else "m>5", c["mode"], "M<m" if M < m else "M>=m", c["w"]["wk"],
             "int" if df.dtype.kind == "i" else "float")


@st.composite
def case_sq(draw):
    m = draw(gen.dim(1, 10))
    return {"seed": draw(gen.SEED), "m": m, "ek": draw(st.sampled_from(["decay", "rand", "rankone", "flat", "pair"])),
            "sc": draw(gen.scale()), "id": draw(st.booleans())}


def check_sq(c, cx):
    m = c["m"]
    W0 = np.eye(m) if c["id"] else gen.orth(c["seed"], m)
    e0 = gen.eigs(c["seed"], m, c["ek"]) * c["sc"]
    if c["ek"] == "pair" and m > 1:
        e0[1] = e0[0]
    C = (W0 * e0[:, 0]).dot(W0.T)
    C = 0.5 * (C + C.T)
    e, W = ss.sorted_eigh(C.copy())
    ref.eigenpairs(cx, e, W, C, rtol=1e-9, what="sorted_eigh")
    ref.near(cx, e, np.sort(e0, axis=0)[::-1], 1e-10 * c["sc"] * m, "sorted_eigh: eigenvalues")
    # where eigenvalues are well separated, the eigenvectors are the prescribed ones with first component >= 0
    for j in range(m):
        gap = np.min(np.abs(np.delete(e0[:, 0], j) - e0[j, 0])) if m > 1 else 1.0
        if gap > 1e-3 * c["sc"] and abs(W0[0, j]) > 1e-6:
            v = W0[:, j] * (1 if W0[0, j] > 0 else -1)
            ref.near(cx, W[:, j], v, 1e-8, "sorted_eigh: eigenvector %d" % j)
            cx.nontrivial(m > 1)
    cx.label(c["ek"])


SCALE = 5
SUBS = [Sub("eigenpairs", case(), check, 2600), Sub("known_spectrum", case_sq(), check_sq, 800)]
