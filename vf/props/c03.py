"""C03: dimension choice and partition."""
import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen, ref
from active_subspaces import subspaces as ss
from .c04 import ladle_case, ladle_check

RULE = ("Spectra of length 2..12 (decaying, clustered, with ties, zeros and widely different scales), subspace-error "
        "vectors, and histories of compute/partition calls with valid and invalid dimensions.  Non-trivial: the "
        "minimiser or largest gap is not the first entry, or a history with a rejected call and a later valid one.")


@st.composite
def spec_case(draw):
    m = draw(gen.dim(2, 12))
    kind = draw(st.sampled_from(["free", "int", "exp", "flat", "zeros"]))
    if kind == "int":
        e = [float(x) for x in draw(st.lists(st.integers(0, 5), min_size=m, max_size=m))]
    elif kind == "flat":
        e = [draw(st.sampled_from([0.5, 1.0, 2.0 ** -20]))] * m
    else:
        e = draw(st.lists(st.floats(0, 1, allow_nan=False), min_size=m, max_size=m))
        if kind == "exp":
            e = [10.0 ** (-8 * x) for x in e]
        if kind == "zeros":
            k = draw(st.integers(1, m))
            e = e[:k] + [0.0] * (m - k)
    e = sorted(e, reverse=True)
    return {"e": e, "err": draw(st.lists(st.one_of(st.floats(0, 1), st.sampled_from([0.0, 0.25, 1.0])), min_size=m - 1,
                                         max_size=m - 1)),
            "sc": draw(gen.scale())}


def spec_check(c, cx):
    e = np.array(c["e"]).reshape((-1, 1)) * c["sc"]
    m = e.shape[0]
    gaps = [float(e[i, 0] - e[i + 1, 0]) for i in range(m - 1)]
    n, g = ss.eig_partition(e)
    best = max(gaps)
    cx.ok(1 <= n <= m - 1, "eig_partition: dimension {} outside 1..{}", n, m - 1)
    cx.ok(int(n) == gaps.index(best) + 1, "eig_partition: chose {} but the largest gap {} comes after eigenvalue {}",
          n, gaps, gaps.index(best) + 1)
    ref.near(cx, np.asarray(g).ravel(), gaps, 1e-14 * c["sc"], "eig_partition: gaps")

    err = np.array(c["err"]).reshape((-1, 1))
    bound = [np.sqrt(sum(e[:i + 1, 0])) * err[i, 0] + np.sqrt(sum(e[i + 1:, 0])) for i in range(m - 1)]
    n2, b = ss.errbnd_partition(e, err)
    ref.near(cx, np.asarray(b).ravel(), bound, 1e-12 * (1 + max(bound)) if c["sc"] > 1e-3 else 1e-12 * max(max(bound), 1e-300),
             "errbnd_partition: bound")
    cx.ok(1 <= n2 <= m - 1 and bound[int(n2) - 1] <= min(bound) * (1 + 1e-12),
          "errbnd_partition: chose {} but the bounds are {}", n2, bound)

    if np.sum(e) > 0:
        # the formula again, for a subspace-error vector that starts with 0 and sums to one
        F = np.vstack((np.zeros((1, 1)), err))
        F = F / np.sum(F) if np.sum(F) > 0 else F
        G = F[:, 0] + e[:, 0] / np.sum(e)
        n3, G3 = ss.ladle_partition(e, F)
        ref.near(cx, np.asarray(G3).ravel(), G, 1e-12, "ladle_partition: criterion")
        cx.ok(1 <= n3 <= m and G[int(n3) - 1] <= G.min() + 1e-12, "ladle_partition: chose {} but G = {}", n3, list(G))
        cx.nontrivial(int(n3) > 1)
    cx.nontrivial(gaps.index(best) > 0 or bound.index(min(bound)) > 0)
    cx.label("m=%d" % m if m < 5 else "m>4")


OPS = st.one_of(
    st.tuples(st.just("part"), st.integers(1, 6)),
    st.tuples(st.just("part"), st.integers(1, 6)),
    st.tuples(st.just("bad"), st.sampled_from([0, -1, -3, 7, 100, 1.0, 2.5, "2", None, [1]])),
    st.tuples(st.just("compute"), st.sampled_from(["AS", "OLS", "QPHD", "AS_boot_EVG", "AS_boot_RS", "AS_boot_LI",
                                                   "OLS_boot_RS"]), gen.SEED,
              st.sampled_from(["free", "free", "free", "apart", "apart", "axes"])),
)


@st.composite
def hist_case(draw):
    first = [["compute", draw(st.sampled_from(["AS", "OLS", "AS_boot_LI"])), draw(gen.SEED),
              draw(st.sampled_from(["free", "apart", "axes"]))]]
    return {"m": draw(st.integers(2, 6)), "seed": draw(gen.SEED),
            "ops": first + [list(o) for o in draw(st.lists(OPS, min_size=1, max_size=10))]}


def hist_check(c, cx):
    m = c["m"]
    s = ss.Subspaces()
    model = None            # (eigenvecs copy, n)
    rejected = later = False

    def consistent(what):
        if model is None:
            cx.ok(s.eigenvals is None and s.W1 is None, "{}: state set without a computation", what)
            return
        E, n = model
        ref.near(cx, s.eigenvecs, E, 0.0, what + ": eigenvectors changed")
        W1, W2 = ref.as2d(cx, s.W1, (m, n), what + ": W1"), s.W2
        cx.ok(isinstance(W2, np.ndarray) and W2.shape == (m, m - n), "{}: W2 has the wrong shape", what)
        ref.near(cx, W1, E[:, :n], 0.0, what + ": W1 = first n eigenvectors")
        ref.near(cx, W2, E[:, n:], 0.0, what + ": W2 = the remaining eigenvectors")

    def do_compute(kind, seed, form):
        R = np.random.RandomState(seed)
        M = 5 * m + 25
        X = R.uniform(-1, 1, size=(M, m))
        T = R.normal(size=(m, m))
        f = np.exp(0.3 * X.dot(T[:1].T)) + 0.1 * np.sin(X.dot(T[1:2].T))
        df = R.normal(size=(M, m)).dot(np.diag(10.0 ** -R.uniform(0, 2, size=m))).dot(T)
        if form == "apart":      # the first input on its own: all eigenvectors start with 1 or 0
            df[::2, 0] = 0.0
            df[1::2, 1:] = 0.0
            df[:, 0] *= 10.0 ** R.randint(-1, 2)
        elif form == "axes":
            df = np.zeros((M, m))
            df[np.arange(M), np.arange(M) % m] = R.uniform(0.5, 1, size=M) * np.resize(R.permutation(m) + 1.0, M)
        parts = kind.split("_")
        kw = {}
        if len(parts) > 1:
            kw = {"nboot": int(R.randint(2, 6)), "ptype": parts[2]}
        gen.reseed(seed)
        s.compute(X=X, f=f, df=df, sstype=parts[0], **kw)
        ev = ref.as2d(cx, s.eigenvals, (m, 1), "eigenvals")
        E = ref.as2d(cx, s.eigenvecs, (m, m), "eigenvecs").copy()
        n = s.W1.shape[1]
        pt = parts[2] if len(parts) > 1 else "EVG"
        if pt == "EVG":
            gaps = -np.diff(ev[:, 0])
            cx.ok(gaps[n - 1] >= gaps.max() * (1 - 1e-12) if n <= m - 1 else False,
                  "compute: EVG picked {} with gaps {}", n, list(gaps))
        elif pt == "RS":
            b = [np.sqrt(np.sum(ev[:i + 1])) * s.sub_br[i, 1] + np.sqrt(np.sum(ev[i + 1:])) for i in range(m - 1)]
            cx.ok(n <= m - 1 and b[n - 1] <= min(b) * (1 + 1e-9) + 1e-300, "compute: RS picked {} with bounds {}", n, b)
        else:
            cx.ok(1 <= n <= m, "compute: LI picked {}", n)
        if len(parts) == 1:
            cx.ok(s.e_br is None and s.sub_br is None, "compute: stale bootstrap ranges after a run without bootstrap")
        else:
            cx.ok(s.e_br is not None and s.e_br.shape == (m, 2) and s.sub_br.shape == (m - 1, 3),
                  "compute: bootstrap ranges have the wrong shape")
        return E, n

    for k, o in enumerate(c["ops"]):
        what = "step %d %s" % (k, o)
        if o[0] == "compute":
            model = do_compute(o[1], o[2], o[3] if len(o) > 3 else "free")
        elif model is None:
            continue
        else:
            n = o[1]
            if o[0] == "part" and n <= m:
                s.partition(n)
                model = (model[0], n)
                later = later or rejected
            else:
                if o[0] == "bad" and n == 100:
                    n = m + 1
                try:
                    s.partition(n)
                except (TypeError, ValueError):
                    rejected = True
                else:
                    cx.fail("{}: partition({!r}) accepted with {} inputs".format(what, n, m))
        consistent(what)
    cx.nontrivial(rejected and later)
    cx.label("rejected" if rejected else "clean", "computed" if model else "empty")


SCALE = 4
SUBS = [Sub("choice", spec_case(), spec_check, 3000), Sub("history", hist_case(), hist_check, 700),
        Sub("ladle", ladle_case(), ladle_check, 64)]
