"""C24: conditional expectations and array-shape helpers."""
import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen, ref
from active_subspaces.utils import misc as mi
from active_subspaces import domains as dm

RULE = ("Value arrays with group labels in any order and of any multiplicity (also groups of one, labels as floats, "
        "columns or flat arrays, labels that skip numbers); scalars, lists, tuples, arrays and matrices of 0 to 3 dimensions; input/output pairs "
        "in several memory layouts; row sets with repetitions.  Non-trivial: at least two groups, of different sizes, "
        "whose labels are not in order / an input that has to be expanded / a repeated row.")


@st.composite
def ce_case(draw):
    big = draw(st.integers(0, 9)) == 0
    n = draw(st.one_of(gen.dim(1, 12), gen.many(1030))) if big else draw(gen.dim(1, 12))
    return {"n": n, "extra": draw(gen.many(3000) if big else st.integers(0, 40)), "seed": draw(gen.SEED), "shape": draw(st.sampled_from(["col", "flat", "mixed"])),
            "dtype": draw(st.sampled_from(["int", "int", "float"])), "order": draw(st.sampled_from(["sorted", "shuffled", "shuffled"])),
            "lay": draw(st.sampled_from(gen.LAYOUTS)), "sc": draw(gen.scale()), "off": draw(st.sampled_from([0.0, 0.0, 3.0, 1e4, 1e6, 1e8])),
            "wide": draw(st.integers(0, 2)), "intf": draw(st.integers(0, 7)) == 0,
            "gap": draw(st.sampled_from([0, 0, 1, 3]))}


def ce_check(c, cx):
    R = np.random.RandomState(c["seed"])
    n = c["n"]
    ind = np.concatenate((np.arange(n), R.randint(0, n, size=c["extra"])))
    ind = np.sort(ind) if c["order"] == "sorted" else R.permutation(ind)
    if c["gap"]:         # labels that skip numbers: row i still belongs to label i
        up = np.cumsum(R.randint(0, c["gap"] + 1, size=n) + (np.arange(n) > 0))
        ind, n = up[ind], int(up[-1]) + 1
    M = ind.size
    f = (R.normal(size=M) * 10.0 ** (c["wide"] * R.uniform(-1, 1, size=M)) + c["off"]) * c["sc"]
    if c["intf"]:        # values stored as integers
        f = R.randint(-20, 21, size=M)
    I = ind.astype(float) if c["dtype"] == "float" else ind
    if c["shape"] == "flat":
        F = gen.layout(f, c["lay"])
    else:
        F = gen.layout(f.reshape((M, 1)), c["lay"])
        I = I.reshape((M, 1)) if c["shape"] == "col" else I
    F0, I0 = F.copy(), I.copy()
    Ef, Vf = mi.conditional_expectations(F, I)
    cx.ok(np.shape(Ef) == (n, 1) and np.shape(Vf) == (n, 1), "shapes {} {}, labels up to {}", np.shape(Ef), np.shape(Vf), n - 1)
    ref.as2d(cx, Ef[np.unique(ind)], (np.unique(ind).size, 1), "means")
    ref.as2d(cx, Vf[np.unique(ind)], (np.unique(ind).size, 1), "variances")
    sizes = []
    for i in range(n):
        g = f[ind == i]
        if g.size == 0:
            continue
        sizes.append(g.size)
        mu = g.sum() / g.size
        va = ((g - mu) ** 2).sum() / g.size
        s = np.abs(g).max()
        ref.near(cx, Ef[i], np.array([mu]), 1e-12 * s, "mean of group %d" % i)
        ref.near(cx, Vf[i], np.array([va]), 1e-10 * va + (1e-14 * s) ** 2, "variance of group %d" % i)
        cx.ok(Vf[i, 0] >= 0, "negative variance")
    # law of total variance with group sizes as weights
    # (rows of labels that do not occur are not examined)
    p = np.array(sizes) / float(M)
    Ef, Vf = Ef[np.unique(ind)], Vf[np.unique(ind)]
    tot = (p * Vf[:, 0]).sum() + (p * (Ef[:, 0] - (p * Ef[:, 0]).sum()) ** 2).sum()
    s2 = np.abs(f).max() ** 2
    cx.ok(abs(tot - f.var()) <= 1e-9 * f.var() + 1e-14 * s2, "law of total variance: {} {}", tot, f.var())
    cx.ok(np.array_equal(F, F0) and np.array_equal(I, I0), "an argument was changed")
    cx.nontrivial(n > 1 and len(set(sizes)) > 1 and c["order"] == "shuffled")
    cx.label(c["shape"], c["dtype"])


@st.composite
def al_case(draw):
    return {"kind": draw(st.sampled_from(["int", "float", "npscalar", "list", "tuple", "nested", "a0", "a1", "a2", "a3", "matrix", "ints"])),
            "n": draw(st.integers(1, 6)), "k": draw(st.integers(1, 4)), "seed": draw(gen.SEED),
            "fn": draw(st.sampled_from(["default", "row", "col", "kwrow", "kwcol"]))}


def al_check(c, cx):
    R = np.random.RandomState(c["seed"])
    v = R.normal(size=c["n"])
    w = R.normal(size=(c["n"], c["k"]))
    A = {"int": 3, "float": 2.5, "npscalar": np.float64(1.25), "list": list(v), "tuple": tuple(v), "nested": w.tolist(),
         "a0": np.array(4.5), "a1": v, "a2": w, "a3": R.normal(size=(2, c["n"], c["k"])), "matrix": np.matrix(w),
         "ints": R.randint(-9, 9, size=c["n"])}[c["kind"]]
    f = {"default": mi.atleast_2d, "row": mi.atleast_2d_row, "col": mi.atleast_2d_col,
         "kwrow": lambda a: mi.atleast_2d(a, "row"), "kwcol": lambda a: mi.atleast_2d(a, oned_as="col")}[c["fn"]]
    col = c["fn"] in ("col", "kwcol")
    if c["kind"] == "a0":
        return      # outside the property: rank-0 arrays
    B = f(A)
    cx.ok(isinstance(B, np.ndarray), "not an array: {}", type(B))
    want = np.asarray(A)
    if want.ndim == 0:
        want = want.reshape((1,))
    if want.ndim == 1:
        want = want.reshape((-1, 1)) if col else want.reshape((1, -1))
        cx.nontrivial()
    cx.ok(B.shape == want.shape, "shape {}, not {}", B.shape, want.shape)
    cx.ok(np.array_equal(np.asarray(B), want), "values changed")
    cx.ok(np.asarray(f(B)).shape == want.shape and np.array_equal(np.asarray(f(B)), want), "not idempotent")
    cx.label(c["kind"], c["fn"])


@st.composite
def pi_case(draw):
    return {"M": draw(gen.dim(1, 30)), "m": draw(gen.dim(1, 12)), "seed": draw(gen.SEED), "lay": draw(st.sampled_from(gen.LAYOUTS)),
            "layf": draw(st.sampled_from(gen.LAYOUTS)), "dt": draw(st.sampled_from(["float", "int"]))}


def pi_check(c, cx):
    R = np.random.RandomState(c["seed"])
    M, m = c["M"], c["m"]
    X = R.normal(size=(M, m)) if c["dt"] == "float" else R.randint(-9, 9, size=(M, m))
    f = R.normal(size=(M, 1))
    X1, M1, m1 = mi.process_inputs(gen.layout(X, c["lay"]))
    cx.ok((M1, m1) == (M, m), "sizes {}", (M1, m1))
    cx.ok(X1.shape == (M, m) and np.array_equal(X1, X), "inputs changed")
    X2, f2, M2, m2 = mi.process_inputs_outputs(gen.layout(X, c["lay"]), gen.layout(f, c["layf"]))
    cx.ok((M2, m2) == (M, m), "sizes {}", (M2, m2))
    cx.ok(X2.shape == (M, m) and np.array_equal(X2, X), "inputs changed")
    cx.ok(f2.shape == (M, 1) and np.array_equal(f2, f), "outputs changed")
    cx.nontrivial(M > 1 and m > 1 and c["lay"] != "C")
    cx.label(c["lay"])


@st.composite
def ur_case(draw):
    return {"k": draw(gen.dim(1, 20)), "m": draw(gen.dim(1, 6)), "dup": draw(st.integers(0, 20)), "seed": draw(gen.SEED),
            "kind": draw(st.sampled_from(["sign", "lattice", "lattice", "normal"])), "zeros": draw(st.booleans()), "lay": draw(st.sampled_from(gen.LAYOUTS))}


def ur_check(c, cx):
    R = np.random.RandomState(c["seed"])
    A = {"sign": lambda: np.sign(R.normal(size=(c["k"], c["m"]))), "lattice": lambda: R.randint(-1, 2, size=(c["k"], c["m"])) / 2.0,
         "normal": lambda: R.normal(size=(c["k"], c["m"]))}[c["kind"]]()
    A = A + 0.0
    S = np.vstack((A, A[R.randint(0, c["k"], size=c["dup"])]))
    S = S[R.permutation(S.shape[0])] + 0.0
    if c.get("zeros"):
        S[(S == 0) & (R.uniform(size=S.shape) < 0.5)] = -0.0
    T = dm.unique_rows(gen.layout(S, c["lay"]))
    want = sorted(set(map(tuple, S.tolist())))
    T = np.asarray(T)
    cx.ok(T.ndim == 2 and T.shape == (len(want), c["m"]), "shape {}, there are {} distinct rows", T.shape, len(want))
    cx.ok(sorted(map(tuple, T.tolist())) == want, "not the set of rows")
    cx.nontrivial(len(want) < S.shape[0])
    cx.label(c["kind"])


SCALE = 4
SUBS = [Sub("conditional", ce_case(), ce_check, 1500), Sub("atleast", al_case(), al_check, 600),
        Sub("process", pi_case(), pi_check, 400), Sub("unique", ur_case(), ur_check, 1000)]
