"""Case generators.  A case is a JSON-able dict; arrays are described, and built by `arr`."""
from math import comb
import zlib
import numpy as np
from hypothesis import strategies as st

SEED = st.integers(0, 2 ** 31 - 1)


def dim(lo, hi):
    """Mostly small, but seldom the trivial smallest value; now and then up to hi."""
    L = [lo, lo]
    for k in range(lo + 1, hi + 1):
        L += [k] * (4 if k <= lo + 3 else 2 if k <= lo + 7 else 1)
    return st.sampled_from(L)


BIG = sorted(set([b + d for b in (64, 100, 128, 200, 256, 300, 500, 512, 1000, 1024, 2000, 2048, 4096, 5000, 8192, 10000) for d in (-1, 0, 1, 2)]))


def many(hi):
    """A size for which code that works in blocks, or counts in narrow types, takes another path."""
    return st.one_of(st.sampled_from([b for b in BIG if b <= hi]), st.integers(31, hi))


def scale():
    return st.sampled_from([1.0, 1.0, 1.0, 1.0, 1e-8, 1e-4, 1e-2, 37.0, 1e4, 1e8])


LAYOUTS = ["C", "C", "C", "C", "F", "F", "strided", "strided", "neg", "sub", "ro", "be"]
KINDS = ["normal", "normal", "uniform", "lattice", "dup", "lowrank", "zerocol", "colscale", "sparse"]


def layout(A, how):
    """The same values in another memory layout."""
    if how == "F":
        return np.asfortranarray(A)
    if how == "strided":
        B = np.full((2 * A.shape[0],) + tuple(2 * k for k in A.shape[1:]), np.nan)
        V = B[tuple(slice(None, None, 2) for _ in A.shape)]
        V[...] = A
        return V
    if how == "neg":
        return np.ascontiguousarray(A[::-1])[::-1]
    if how == "sub":
        B = np.full(tuple(k + 3 for k in A.shape), np.nan)
        V = B[tuple(slice(1, 1 + k) for k in A.shape)]
        V[...] = A
        return V
    if how == "ro":
        B = np.array(A, order="C")
        B.setflags(write=False)
        return B
    if how == "be":
        return np.array(A, order="C").astype(">f8")
    return np.array(A, order="C")


def arr(d):
    """Build an array from its description."""
    if isinstance(d, list):
        return np.array(d, dtype=float)
    if "v" in d:
        A = np.array(d["v"], dtype=float)
        if "shape" in d:
            A = A.reshape(d["shape"])
        return layout(A, d.get("lay", "C"))
    R = np.random.RandomState(d["seed"])
    shape = tuple(d["shape"])
    k = d.get("k", "normal")
    if k == "normal":
        A = R.normal(size=shape)
    elif k == "uniform":
        A = R.uniform(-1, 1, size=shape)
    elif k == "positive":
        A = R.uniform(0.05, 1.5, size=shape)
    elif k == "lattice":
        A = R.randint(-4, 5, size=shape) / 4.0
    elif k == "dup":
        A = R.normal(size=shape)
        if shape[0] > 1:
            A = A[R.randint(0, max(1, shape[0] // 2 + 1), size=shape[0])]
    elif k == "lowrank":
        r = max(1, min(shape) - 1 - R.randint(0, max(1, min(shape) - 1)))
        A = R.normal(size=(shape[0], r)).dot(R.normal(size=(r, shape[1])))
    elif k == "zerocol":
        A = R.normal(size=shape)
        A[:, R.randint(0, shape[1], size=max(1, shape[1] // 3))] = 0.0
    elif k == "colscale":
        A = R.normal(size=shape) * 10.0 ** R.uniform(-3, 3, size=(1,) + shape[1:])
    elif k == "sparse":
        A = R.normal(size=shape) * (R.uniform(size=shape) < 0.3)
    elif k == "zero":
        A = np.zeros(shape)
    else:
        raise KeyError(k)
    A = A * d.get("sc", 1.0) + d.get("off", 0.0)
    if d.get("int"):
        return np.round(4 * A).astype(int)
    return layout(A, d.get("lay", "C"))


@st.composite
def matrix(draw, M, m, kinds=None, scales=None, layouts=None, ints=False, elementwise=True):
    """Description of an M-by-m array."""
    if elementwise and M * m <= 12 and draw(st.integers(0, 3)) == 0:
        v = draw(st.lists(st.one_of(st.integers(-3, 3).map(float),
                                    st.floats(-4, 4, allow_nan=False, width=32)), min_size=M * m, max_size=M * m))
        return {"v": v, "shape": [M, m], "lay": draw(st.sampled_from(layouts or LAYOUTS))}
    d = {"seed": draw(SEED), "shape": [M, m], "k": draw(st.sampled_from(kinds or KINDS)),
         "sc": draw(scales if scales is not None else scale()), "lay": draw(st.sampled_from(layouts or LAYOUTS))}
    if ints and draw(st.integers(0, 9)) == 0:
        d["int"] = True
        d["sc"] = 1.0
    return d


def weights_spec(M, zeros=True):
    """Description of an M-by-1 weight vector."""
    kinds = ["uniform", "random", "unnorm", "wide"] + (["zeros"] if zeros and M > 2 else [])
    return st.fixed_dictionaries({"seed": SEED, "wk": st.sampled_from(kinds), "M": st.just(M)})


def weights(d):
    R = np.random.RandomState(d["seed"])
    M = d["M"]
    if d["wk"] == "uniform":
        w = np.ones((M, 1)) / M
    elif d["wk"] == "random":
        w = R.uniform(0.1, 1, size=(M, 1))
        w = w / w.sum()
    elif d["wk"] == "unnorm":
        w = R.uniform(0.1, 3, size=(M, 1)) * 10.0 ** R.randint(-2, 3)
    elif d["wk"] == "wide":
        w = 10.0 ** R.uniform(-2, 2, size=(M, 1))
        w = w / w.sum()
    else:
        w = R.uniform(0.1, 1, size=(M, 1))
        w[R.permutation(M)[:max(1, M // 4)]] = 0.0
        w = w / w.sum()
    return w


def orth(seed, m, kind="random"):
    """A random m-by-m orthogonal matrix whose first row is nonnegative (as the library's eigenvectors)."""
    R = np.random.RandomState(seed)
    Q, T = np.linalg.qr(R.normal(size=(m, m)))
    Q = Q * np.sign(np.diag(T))
    s = np.where(Q[0] < 0, -1.0, 1.0)
    return Q * s


def eigs(seed, m, kind):
    R = np.random.RandomState((seed + 77) % (2 ** 31))
    if kind == "decay":
        e = 10.0 ** (-np.arange(m) * R.uniform(0.1, 1.0))
    elif kind == "rankone":
        e = np.zeros(m)
        e[0] = 1.0
    elif kind == "flat":
        e = np.ones(m)
    elif kind == "steep":
        e = 10.0 ** (-np.arange(m) * R.uniform(2, 5))
    else:
        e = np.sort(R.uniform(0.01, 1, size=m))[::-1]
    return e.reshape((m, 1))


def subspaces(W, e, n):
    """A computed Subspaces object with prescribed eigenpairs, made through the public interface.

    One gradient sample per eigenvector, of length sqrt(M e_i), has exactly these eigenpairs up to rounding; the
    attributes are then set so that tests know W and e exactly.
    """
    from active_subspaces.subspaces import Subspaces
    s = Subspaces()
    s.eigenvals, s.eigenvecs = np.array(e, dtype=float), np.array(W, dtype=float)
    s.partition(int(n))
    return s


def widest_gap(W1, R, ns=4000):
    """Smallest fraction of random directions in one sign cell (0 if a cell was missed)."""
    m, n = W1.shape
    total = 2 * sum(comb(m - 1, i) for i in range(n))
    S = np.sign(R.normal(size=(ns, n)).dot(W1.T))
    U, cnt = np.unique(np.vstack((S, -S)), axis=0, return_counts=True)
    return 0.0 if len(U) < total else cnt.min() / (2.0 * ns)


def distinct_rows(W1):
    """The rows of W1 that are neither zero nor parallel to an earlier one."""
    keep = []
    for w in W1:
        r = np.linalg.norm(w)
        if r > 1e-14 and all(min(np.linalg.norm(w / r - u), np.linalg.norm(w / r + u)) > 1e-8 for u in keep):
            keep.append(w / r)
    return np.array(keep)


def make_domain(s, bounded, seed=0):
    """(domain, map class), or (None, None) when a vertex of the zonotope is too hard to hit by sampling."""
    from active_subspaces import domains as dm
    if not bounded:
        return dm.UnboundedActiveVariableDomain(s), dm.UnboundedActiveVariableMap
    W1 = distinct_rows(np.array(s.W1))
    if W1.shape[1] > 1 and widest_gap(W1, np.random.RandomState(seed)) < 0.002:
        return None, None
    return dm.BoundedActiveVariableDomain(s), dm.BoundedActiveVariableMap


def reseed(*k):
    """Seed numpy's global generator, never with the seed of one of the case's own generators (those are drawn freely,
    and two equal seeds would make the library's random numbers equal to the case's)."""
    np.random.seed((zlib.crc32(repr(k).encode()) ^ 0x5bd1e995) % 2 ** 32)
