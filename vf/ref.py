"""Oracles shared by several properties.  Nothing here calls the code under test."""
import itertools
import numpy as np


def as2d(cx, A, shape, name):
    """A finite real ndarray of this shape, else a violation."""
    cx.ok(isinstance(A, np.ndarray), "{} is {}, not an ndarray", name, type(A).__name__)
    cx.ok(A.shape == tuple(shape), "{} has shape {}, expected {}", name, A.shape, tuple(shape))
    cx.ok(A.dtype.kind in "fiu", "{} has dtype {}", name, A.dtype)
    cx.ok(bool(np.all(np.isfinite(A))), "{} has non-finite entries", name)
    return np.asarray(A, dtype=float)


def near(cx, A, B, tol, what):
    """max |A-B| <= tol (absolute)."""
    A, B = np.asarray(A, dtype=float), np.asarray(B, dtype=float)
    cx.ok(A.shape == B.shape, "{}: shapes {} and {}", what, A.shape, B.shape)
    if A.size == 0:
        return
    d = float(np.max(np.abs(A - B)))
    cx.ok(d <= tol, "{}: differs by {:.3g} (tolerance {:.3g})", what, d, tol)


def scalar(cx, x, name):
    cx.ok(np.size(x) == 1 and np.asarray(x).dtype.kind in "fiu" and bool(np.isfinite(np.asarray(x).ravel()[0])),
          "{} is not a finite number: {!r}", name, x)
    return float(np.asarray(x, dtype=float).ravel()[0])


def eigenpairs(cx, e, W, C, rtol=1e-10, atol=0.0, what="eigenpairs"):
    """(e, W) is the sorted, sign-normalised eigendecomposition of the psd matrix C."""
    m = C.shape[0]
    e = as2d(cx, e, (m, 1), what + ": eigenvalues")
    W = as2d(cx, W, (m, m), what + ": eigenvectors")
    cx.ok(np.all(e >= 0), "{}: negative eigenvalue {:.3g}", what, float(e.min()))
    cx.ok(np.all(np.diff(e[:, 0]) <= 0), "{}: eigenvalues are not in descending order", what)
    near(cx, W.T.dot(W), np.eye(m), 1e-10 * m, what + ": W'W = I")
    s = max(float(np.max(np.abs(C))), 1e-300)
    near(cx, (W * e[:, 0]).dot(W.T), C, rtol * s * m + atol, what + ": W diag(e) W' = C")
    cx.ok(np.all(W[0, :] >= 0), "{}: an eigenvector has a negative first component", what)


def wsum(df, w):
    """sum_i w_i g_i g_i'"""
    df = np.asarray(df, dtype=float)
    C = np.zeros((df.shape[1], df.shape[1]))
    for i in range(df.shape[0]):
        C += float(w[i, 0]) * np.outer(df[i], df[i])
    return C


def multi_indices(N, m):
    """All exponents of total degree <= N, as tuples."""
    return [a for a in itertools.product(range(N + 1), repeat=m) if sum(a) <= N]


def monomials(X, idx):
    return np.array([[np.prod([x[j] ** a[j] for j in range(len(a))]) for a in idx] for x in X]).reshape(
        (X.shape[0], len(idx)))


def monomials_fast(X, idx):
    B = np.ones((X.shape[0], len(idx)))
    for c, a in enumerate(idx):
        for j, p in enumerate(a):
            if p:
                B[:, c] *= X[:, j] ** p
    return B


def poly_eval(coef, idx, X):
    return monomials_fast(X, idx).dot(np.asarray(coef).reshape((-1, 1)))


def poly_grad(coef, idx, X):
    G = np.zeros(X.shape)
    for k in range(X.shape[1]):
        for c, a in zip(coef, idx):
            if a[k]:
                b = list(a)
                b[k] -= 1
                G[:, k] += c * a[k] * monomials_fast(X, [tuple(b)])[:, 0]
    return G
