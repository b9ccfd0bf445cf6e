"""C04: bootstrap ranges, by exhaustive enumeration of the replicates of very small samples."""
import itertools
import numpy as np
from hypothesis import strategies as st
from ..core import Sub
from .. import gen, ref
from active_subspaces import subspaces as ss

RULE = ("Gradient samples of 2..4 rows whose M^M possible paired resamples (rows with their weights) are enumerated, "
        "against a bootstrap with enough replicates to see all of them; sets where every resample has a known "
        "subspace (affine or quadratic data); general data for the bounds.  Non-trivial: the resamples differ, or "
        "the known subspace is non-degenerate.")
ASSUMPTIONS = ["numpy's generator draws every one of the M^M resamples within the chosen number of replicates "
               "(failure probability below 1e-8 per case), and the bootstrap mean is compared at 6.5 standard errors"]


def psort(C):
    e, W = np.linalg.eigh(C)
    return e[::-1].copy(), W[:, ::-1].copy()


@st.composite
def enum_case(draw):
    m = draw(st.sampled_from([2, 2, 3]))
    M = draw(st.sampled_from([2, 2, 3]))
    return {"m": m, "M": M, "seed": draw(gen.SEED), "rs": draw(st.integers(0, 2 ** 31 - 1)),
            "w": draw(gen.weights_spec(M, zeros=False)), "kind": draw(st.sampled_from(["free", "compensated"])),
            "withX": draw(st.booleans()), "ptype": draw(st.sampled_from(["EVG", "RS", "LI"]))}


def enum_check(c, cx):
    m, M = c["m"], c["M"]
    R = np.random.RandomState(c["seed"])
    w = gen.weights(c["w"])
    if c["kind"] == "compensated":
        # every row contributes the same rank-one matrix w_i g_i g_i': all resamples agree, if rows keep their weights
        v = R.normal(size=(1, m))
        df = v / np.sqrt(w)
    else:
        df = R.normal(size=(M, m)) / np.sqrt(w)
    nboot = {2: 120, 3: 700}[M]
    s = ss.Subspaces()
    kw = {"X": R.normal(size=(M, m)), "f": R.normal(size=(M, 1))} if c["withX"] else {}
    gen.reseed(c["rs"])
    ptype = c["ptype"] if c["kind"] == "free" else "EVG"
    s.compute(df=df, weights=w, nboot=nboot, ptype=ptype, **kw)
    e, W = s.eigenvals, s.eigenvecs
    e_br = ref.as2d(cx, s.e_br, (m, 2), "e_br")
    sb = ref.as2d(cx, s.sub_br, (m - 1, 3), "sub_br")
    ref.eigenpairs(cx, e, W, ref.wsum(df, w), what="estimate under bootstrap")
    es, ds, dets, gap = [], [], [], []
    for ind in itertools.product(range(M), repeat=M):
        ind = list(ind)
        e0, W0 = psort(ref.wsum(df[ind], w[ind]))
        es.append(np.maximum(e0, 0))
        ds.append([np.linalg.norm(W[:, :j + 1].T.dot(W0[:, j + 1:]), 2) for j in range(m - 1)])
        dets.append([abs(np.linalg.det(W[:, :j + 1].T.dot(W0[:, :j + 1]))) for j in range(m - 1)])
        gap.append((e0[:-1] - e0[1:]) / max(e0[0], 1e-300))
    es, ds, dets, gap = np.array(es), np.array(ds), np.array(dets), np.array(gap)
    sc = es.max()
    ref.near(cx, e_br, np.column_stack((es.min(axis=0), es.max(axis=0))), 1e-9 * sc,
             "eigenvalue ranges are the extremes over all resamples")
    known = gap.min(axis=0) > 1e-5
    for j in range(m - 1):
        if not known[j]:
            continue
        lo, me, hi = sb[j]
        ref.near(cx, lo, ds[:, j].min(), 1e-7, "subspace error %d: lower" % (j + 1))
        ref.near(cx, hi, ds[:, j].max(), 1e-7, "subspace error %d: upper" % (j + 1))
        se = ds[:, j].std() / np.sqrt(nboot)
        ref.near(cx, me, ds[:, j].mean(), 6.5 * se + 1e-7, "subspace error %d: mean over replicates" % (j + 1))
    n = s.W1.shape[1]
    if ptype == "RS":
        b = [np.sqrt(np.sum(e[:i + 1])) * sb[i, 1] + np.sqrt(np.sum(e[i + 1:])) for i in range(m - 1)]
        cx.ok(n <= m - 1 and b[n - 1] <= min(b) * (1 + 1e-9), "RS picked {} with bounds {}", n, b)
    if ptype == "LI" and np.all(known):
        D = 1.0 - dets
        F = np.concatenate(([0.0], D.mean(axis=0)))
        if F.sum() > 1e-3:
            sd = np.concatenate(([0.0], D.std(axis=0))) / np.sqrt(nboot)
            G = F / F.sum() + e[:, 0] / e.sum()
            slack = 8 * (sd.max() / F.sum()) + 1e-6
            cx.ok(G[n - 1] <= G.min() + 2 * slack, "LI picked {} but the criterion is {}", n, list(G))
            cx.label("LI decided")
    cx.nontrivial(c["kind"] == "compensated" or float(np.ptp(es[:, 0])) > 1e-6 * sc)
    cx.label("M=%d" % M, "m=%d" % m, c["kind"], ptype)


@st.composite
def exact_case(draw):
    return {"ss": draw(st.sampled_from(["OLS", "QPHD", "OPG", "AS"])), "m": draw(st.integers(2, 4)),
            "seed": draw(gen.SEED), "nboot": draw(st.integers(1, 25)), "w": draw(st.sampled_from(["default", "random"]))}


def exact_check(c, cx):
    """Data whose every resample determines the same subspace: ranges collapse onto the estimate."""
    m, kind = c["m"], c["ss"]
    R = np.random.RandomState(c["seed"])
    M = {"OLS": 12 * m, "QPHD": 14 * m * m, "OPG": 40, "AS": 6 * m}[kind]
    X = R.uniform(-1, 1, size=(M, m))
    a = R.normal(size=(m, 1))
    w = np.ones((M, 1)) / M if c["w"] == "default" else R.uniform(0.5, 1.0, size=(M, 1))
    kw = {} if c["w"] == "default" else {"weights": w}
    if kind == "QPHD":
        A = np.outer(R.normal(size=m), np.ones(m))
        A = A + A.T
        f = 1.0 + X.dot(a) + 0.5 * np.sum(X.dot(A) * X, axis=1).reshape((M, 1))
        C = a.dot(a.T) + A.dot(A.T) / 3.0
        s = ss.Subspaces()
        s.compute(X=X, f=f, sstype='QPHD', nboot=c["nboot"], **kw)
        rt, known = 1e-6, True
    elif kind == "AS":
        g = R.normal(size=(1, m))
        df = np.tile(g, (M, 1)) / (np.sqrt(w) if c["w"] != "default" else 1.0)
        C = ref.wsum(df, w)
        s = ss.Subspaces()
        s.compute(df=df, nboot=c["nboot"], **kw)
        rt, known = 1e-9, False
    elif kind == "OLS":
        f = 3.0 + X.dot(a)
        C = a.dot(a.T)
        s = ss.Subspaces()
        s.compute(X=X, f=f, sstype='OLS', nboot=c["nboot"], **kw)
        rt, known = 1e-8, False
    else:
        # the resample repeats points, so local models can be rank deficient: only the bounds are checked
        f = 3.0 + X.dot(a) + 0.1 * np.sin(4 * X[:, :1])
        C = None
        s = ss.Subspaces()
        s.compute(X=X, f=f, sstype='OPG', nboot=c["nboot"], **kw)
    e_br = ref.as2d(cx, s.e_br, (m, 2), "e_br")
    sb = ref.as2d(cx, s.sub_br, (m - 1, 3), "sub_br")
    cx.ok(np.all(e_br[:, 0] <= e_br[:, 1]) and np.all(e_br >= 0), "{}: eigenvalue ranges out of order", kind)
    cx.ok(np.all(np.diff(e_br, axis=0) <= 0), "{}: ranges of later eigenvalues exceed those of earlier ones", kind)
    cx.ok(np.all(sb[:, 0] <= sb[:, 1] + 1e-12) and np.all(sb[:, 1] <= sb[:, 2] + 1e-12), "{}: subspace errors out of order", kind)
    cx.ok(np.all(sb >= 0) and np.all(sb <= 1 + 1e-9), "{}: subspace errors outside [0,1]", kind)
    if C is not None:
        ev = np.maximum(np.linalg.eigvalsh(C)[::-1], 0)
        ref.near(cx, e_br, np.column_stack((ev, ev)), rt * ev[0], kind + ": every resample has the same eigenvalues")
        rel = (ev[:-1] - ev[1:]) / ev[0]
        for j in range(m - 1):
            if rel[j] > 1e-2:
                ref.near(cx, sb[j], np.zeros(3), 1e-4, kind + ": every resample has the same subspace")
                cx.nontrivial()
    else:
        cx.nontrivial()
    cx.label(kind)


# --------------------------------------------------------------------------- ladle
@st.composite
def ladle_case(draw):
    m = draw(st.integers(3, 5))
    return {"m": m, "M": draw(st.integers(m + 1, 9)), "seed": draw(gen.SEED), "rs": draw(gen.SEED),
            "lead": draw(st.sampled_from([0.0, 0.0, 0.02, 1.0])), "decay": draw(st.sampled_from([0.3, 0.6, 0.85])),
            "w": draw(st.sampled_from(["default", "random"]))}


def ladle_check(c, cx):
    """Li's criterion over the user's own resamples: enough of them decide which dimension minimises it."""
    m, M = c["m"], c["M"]
    R = np.random.RandomState(c["seed"])
    # directions whose first component nearly vanishes: eigenvector signs are not settled by it
    Q = gen.orth(c["seed"], m)
    df = R.normal(size=(M, m)) * c["decay"] ** np.arange(m)
    T = np.linalg.qr(np.vstack((c["lead"] * Q[:1], Q[1:])).T)[0].T if c["lead"] else np.eye(m)[::-1]
    df = df.dot(T)
    w = np.ones((M, 1)) / M if c["w"] == "default" else R.uniform(0.3, 1.0, size=(M, 1))
    s = ss.Subspaces()
    nboot = 400
    gen.reseed(c["rs"])
    kw = {} if c["w"] == "default" else {"weights": w}
    s.compute(df=df, nboot=nboot, ptype="LI", **kw)
    e, W = s.eigenvals, s.eigenvecs
    D = []
    for _ in range(1200):
        ind = R.randint(M, size=M)
        W0 = psort(ref.wsum(df[ind], w[ind]))[1]
        D.append([0.0] + [1.0 - abs(np.linalg.det(W[:, :j + 1].T.dot(W0[:, :j + 1]))) for j in range(m - 1)])
    D = np.array(D)
    F, T = D.mean(axis=0), D.mean(axis=0).sum()
    if T < 1e-3:
        return
    G = F / T + e[:, 0] / e.sum()
    # standard error of F_j / T by the delta method, twice: the library's and ours
    se = (D / T - np.outer(D.sum(axis=1), F / T ** 2)).std(axis=0) * np.sqrt(1.0 / nboot + 1.0 / 1200)
    n = s.W1.shape[1]
    k = int(np.argmin(G))
    cx.ok(1 <= n <= m, "LI picked {}", n)
    cx.ok(G[n - 1] - G[k] <= 8 * (se[n - 1] + se[k]) + 2e-3, "LI picked {} but the criterion is {} with standard errors {}",
          n, list(G), list(se))
    cx.nontrivial(int(np.sum(G <= G[k] + 8 * (se + se[k]) + 2e-3)) < m)
    cx.label("decided" if np.sum(G <= G[k] + 8 * (se + se[k]) + 2e-3) == 1 else "close", "n=%d" % n)


# --------------------------------------------------------------------------- many samples
@st.composite
def many_case(draw):
    return {"m": draw(st.integers(2, 4)), "M": draw(gen.many(4000)), "seed": draw(gen.SEED), "rs": draw(gen.SEED),
            "at": draw(st.sampled_from([0.0, 0.1, 0.5, 0.9, 1.0])), "big": draw(st.sampled_from([0.2, 1.0, 4.0])),
            "w": draw(st.sampled_from(["default", "random"]))}


def many_check(c, cx):
    """Many samples whose size changes along the rows: the ranges sit where the user's own resamples put them."""
    m, M = c["m"], c["M"]
    R = np.random.RandomState(c["seed"])
    df = R.normal(size=(M, m)) * 0.6 ** np.arange(m)
    df[int(c["at"] * M):] *= c["big"]
    w = np.ones((M, 1)) / M if c["w"] == "default" else R.uniform(0.3, 1.0, size=(M, 1)) / M
    s = ss.Subspaces()
    nboot = 40
    gen.reseed(c["rs"])
    s.compute(df=df, nboot=nboot, **({} if c["w"] == "default" else {"weights": w}))
    e_br = ref.as2d(cx, s.e_br, (m, 2), "e_br")
    sb = ref.as2d(cx, s.sub_br, (m - 1, 3), "sub_br")
    W = s.eigenvecs
    es, ds = [], []
    for _ in range(120):
        ind = R.randint(M, size=M)
        e0, W0 = psort((df[ind] * w[ind]).T.dot(df[ind]))
        es.append(e0)
        ds.append([np.linalg.norm(W[:, :j + 1].T.dot(W0[:, j + 1:]), 2) for j in range(m - 1)])
    for what, own, br in (("eigenvalue", np.array(es), e_br), ("subspace error", np.array(ds), sb[:, [0, 2]])):
        for j in range(own.shape[1]):
            mu, sd = own[:, j].mean(), own[:, j].std()
            lo, hi = br[j]
            # resamples rarely swap two eigenvectors: no upper limit on the errors, which then come near 1
            cx.ok(mu - 9 * sd <= lo <= mu + 0.3 * sd and mu - 0.3 * sd <= hi and (what != "eigenvalue" or hi <= mu + 12 * sd),
                  "{} {}: range {} to {}, but resamples have mean {} and standard deviation {}", what, j + 1, lo, hi, mu, sd)
    for j in range(m - 1):
        d = np.array(ds)[:, j]
        if max(d.max(), sb[j, 2]) > 0.4:
            continue
        ref.near(cx, sb[j, 1], d.mean(), 9 * d.std() * np.sqrt(1.0 / nboot + 1.0 / 120) + 1e-9, "mean subspace error %d" % (j + 1))
    cx.nontrivial(M > 50)
    cx.label("M>1000" if M > 1000 else "M<=1000")


# --------------------------------------------------------------------------- which rows a resample draws
@st.composite
def spread_case(draw):
    return {"M": draw(st.one_of(st.integers(12, 130), gen.many(2100))), "seed": draw(gen.SEED), "rs": draw(gen.SEED),
            "set": draw(st.sampled_from(["even", "half", "third", "blocks", "random", "few", "ends"]))}


def spread_check(c, cx):
    """The leading eigenvalue counts how often rows of a set are drawn: its range over replicates is that of a binomial."""
    M = c["M"]
    R = np.random.RandomState(c["seed"])
    i = np.arange(M)
    S = {"even": i % 2 == 0, "half": i < M // 2, "third": i % 3 == 0, "blocks": (i // 8) % 2 == 0,
         "random": R.uniform(size=M) < 0.4, "few": R.uniform(size=M) < 8.0 / M, "ends": (i < M // 4) | (i >= M - M // 4)}[c["set"]]
    p = S.mean()
    if min(p, 1 - p) * M < 4:
        return
    df = np.where(S, 1.0, 0.0)[:, None] * np.array([[3.0, 4.0]]) / 5
    s = ss.Subspaces()
    # a single replicate has a range of one point
    gen.reseed(c["rs"], 1)
    s.compute(df=df + 0.3 * R.normal(size=(M, 2)), nboot=1)
    one, sb = ref.as2d(cx, s.e_br, (2, 2), "e_br"), ref.as2d(cx, s.sub_br, (1, 3), "sub_br")
    ref.near(cx, one[:, 1], one[:, 0], 0.0, "range of the eigenvalues over one replicate")
    ref.near(cx, sb[:, 1:], np.tile(sb[:, :1], (1, 2)), 1e-15, "range of the subspace error over one replicate")
    nboot = 80
    gen.reseed(c["rs"])
    s.compute(df=df, nboot=nboot)
    lo, hi = ref.as2d(cx, s.e_br, (2, 2), "e_br")[0]
    sd = np.sqrt(p * (1 - p) / M)
    # rounding of the binomial: one count is 1/M
    cx.ok(p - 6.5 * sd - 1.0 / M <= lo <= p + 1.0 / M and p - 1.0 / M <= hi <= p + 6.5 * sd + 1.5 / M and hi - lo >= 2 * sd - 2.0 / M,
          "rows of a set ({}, share {:.3g}) are drawn with shares from {:.5g} to {:.5g} in {} replicates of {} rows; "
          "the standard deviation of a share is {:.3g}", c["set"], p, lo, hi, nboot, M, sd)
    k = np.array([lo, hi]) * M
    ref.near(cx, k, np.round(k), 1e-9 * M, "the eigenvalue is a whole number of rows")
    cx.nontrivial()
    cx.label("set=" + c["set"])


SCALE = 4
SUBS = [Sub("spread", spread_case(), spread_check, 160), Sub("many", many_case(), many_check, 24), Sub("ladle", ladle_case(), ladle_check, 64), Sub("enumerated", enum_case(), enum_check, 160), Sub("known", exact_case(), exact_check, 400)]
