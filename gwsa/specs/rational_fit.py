"""Reference definitions for gw_eccentricity.rational_fit."""
import warnings
import numpy as np
import scipy.linalg
from gw_eccentricity.rational_fit import (
    _arnoldi_basis, _eval_arnoldi_basis, _solve_using_varpro, _scale_x,
    is_underdetermined, get_reduced_degrees, RationalFit)


@of("rational_fit:is_underdetermined", "E22")
def underdetermined(degrees, n_points):
    return degrees[0] + degrees[1] + 1 >= n_points


@of("rational_fit:_scale_x", "E22")
def to_unit_interval(x, x_min, x_max):
    return 2 * (x - x_min) / (x_max - x_min) - 1


@of("rational_fit:get_reduced_degrees", "E22")
def lowered_degrees(degrees, n_points):
    m, n = degrees
    denominator_next = True
    while is_underdetermined((m, n), n_points):
        if m <= 0 and n <= 0:
            raise ValueError
        if denominator_next and n > 0:
            n -= 1
        elif m > 0:
            m -= 1
        denominator_next = not denominator_next
    return m, n


@of("rational_fit:RationalFit.__init__", "E22", raises="E22 E07")
def rational_init(self, x, y, degrees, verbose=False):
    if len(x) != len(y):
        raise ValueError
    if not isinstance(degrees, (tuple, list)) or len(degrees) != 2:
        raise ValueError
    m, n = degrees
    if m < 0 or n < 0:
        raise ValueError
    if is_underdetermined(degrees, len(x)):
        warnings.warn("")
    self.x = x
    self.y = y
    self.degrees = degrees
    self.verbose = verbose
    self.x_min = np.min(x)
    self.x_max = np.max(x)
    self.a = None
    self.b = None


@of("rational_fit:RationalFit.__call__", "E22")
def rational_call(self, x_new):
    if self.a is None or self.b is None:
        raise ValueError
    return self.predict(x_new)


@of("rational_fit:RationalFit.predict", "E22")
def rational_predict(self, x_new):
    # same scaling, basis recurrence and normalisation as in the fit
    x = np.asarray(x_new)
    scalar = x.ndim == 0
    x = np.atleast_1d(x)
    m, n = self.degrees
    V = _eval_arnoldi_basis(_scale_x(x, self.x_min, self.x_max), self.H,
                            max(m, n), self.v0_norm)
    r = (V[:, :m + 1] @ self.a) / (V[:, :n + 1] @ self.b)
    return r.item() if scalar else r


@of("rational_fit:RationalFit.fit", "E22")
def rational_fit(self, max_iterations=100, tol=1e-7):
    x = _scale_x(self.x, self.x_min, self.x_max)
    m, n = self.degrees
    q = np.ones_like(self.x)
    old = np.zeros_like(self.y)
    history = []
    for k in range(max_iterations):
        V, H, norm = _arnoldi_basis(x, max(m, n), 1.0 / q)
        P, Q = V[:, :m + 1], V[:, :n + 1]
        try:
            a, b, cond = _solve_using_varpro(P, Q, self.y)
        except np.linalg.LinAlgError:
            break
        a = a.ravel()
        b = b.ravel()
        Qb = Q @ b
        q = np.abs(q * Qb)
        q[q == 0.0] = 1.0
        r = (P @ a) / Qb
        change = np.linalg.norm(r - old)
        history.append({"iteration": k, "a": a, "b": b,
                        "v0_norm": norm, "H": H,
                        "res_norm": np.linalg.norm(r - self.y),
                        "delta_fit": change, "cond": cond})
        if change < tol * np.linalg.norm(self.y):
            break
        old = r
    best = min(history, key=lambda h: h["res_norm"])
    self.a = best["a"]
    self.b = best["b"]
    self.H = best["H"]
    self.v0_norm = best["v0_norm"]
    self.history = history


@of("rational_fit:_arnoldi_basis", "E22")
def basis(x, degree, w=None):
    n = len(x)
    V = np.zeros((n, degree + 1))
    H = np.zeros((degree + 1, degree))
    V[:, 0] = 1.0 if w is None else w
    norm = np.linalg.norm(V[:, 0])
    V[:, 0] /= norm
    for k in range(degree):
        v = V[:, k] * x
        # orthogonalised twice; both projections enter the recurrence
        for _ in range(2):
            h = V[:, :k + 1].T @ v
            H[:k + 1, k] += h
            v -= V[:, :k + 1] @ h
        H[k + 1, k] = np.linalg.norm(v)
        if H[k + 1, k] > 1e-14:
            V[:, k + 1] = v / H[k + 1, k]
        else:
            break
    return V, H, norm


@of("rational_fit:_eval_arnoldi_basis", "E22")
def basis_elsewhere(x, H, degree, v0_norm):
    x = np.atleast_1d(x)
    V = np.zeros((len(x), degree + 1))
    V[:, 0] = 1.0 / v0_norm
    for k in range(degree):
        v = V[:, k] * x - V[:, :k + 1] @ H[:k + 1, k]
        if H[k + 1, k] < 1e-14:
            break
        V[:, k + 1] = v / H[k + 1, k]
    return V


@of("rational_fit:_solve_using_varpro", "E22")
def linearised_solution(P, Q, Y):
    Y = np.atleast_1d(Y)
    if Y.ndim != 1:
        raise ValueError
    q, r = np.linalg.qr(P, mode="reduced")
    A = Y[:, None] * Q
    A = A - q @ (q.T @ A)
    _, s, VH = np.linalg.svd(A, full_matrices=False)
    b = VH.T[:, -1]
    a = scipy.linalg.solve_triangular(r, q.T @ (Y * (Q @ b)))
    return a, b, s[0] / s[-1]
