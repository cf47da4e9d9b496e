"""Executable reference model of the bss_eval metrics.

Written from the definition in the documentation: the square cosine between an
estimate and the space spanned by the shifts of one (SDR) or all (SAR)
references.  No FFT, no Toeplitz view, no code of the library: time-domain lag
products in float64 and dense Cholesky/LDL solves, or an explicit convolution
matrix and a QR factorisation for small problems.

Each square cosine comes with `tau`, a bound on what rounding may do to it in
precision u: the first-order perturbation of b^T A^{-1} b under perturbations
of A, b of the size produced by a backward-stable method, times a safety
factor (calibrated, see DESIGN.md).
"""
import numpy as np
import scipy.linalg as sla

SAFETY = 16.0


def unit(x):
    n = np.linalg.norm(x, axis=-1, keepdims=True)
    return x / np.where(n > 0, n, 1.0)


def lags(x, y, L):
    """r[l, c, d] = sum_t x_c[t] y_d[t + l], l = 0..L-1"""
    T, U = x.shape[-1], y.shape[-1]
    out = np.zeros((L, x.shape[0], y.shape[0]))
    for l in range(min(L, U)):
        m = min(T, U - l)
        out[l] = x[:, :m] @ y[:, l : l + m].T
    return out


def conv_matrix(x, L, rows):
    T = x.shape[-1]
    A = np.zeros((rows, L))
    for l in range(L):
        A[l : l + T, l] = x
    return A


def _tau(u, G_norm, xn, N, coh, T):
    s = np.sqrt(N)
    # sums over T samples, in any order; the rounding of quantised samples is
    # systematic, which double precision can afford to bound
    if u < 1e-12:
        t = max(0.25 * np.sqrt(T), T / 16.0)
    elif T > 16384:
        t = max(0.25 * np.sqrt(T), T / 64.0)
    else:
        t = 0.25 * np.sqrt(T)
    return SAFETY * u * (
        xn**2 * (0.25 * s * G_norm + s) + xn * (s + t) + (4.0 + t) * np.abs(coh) + 1e-3
    )


class Oracle:
    """one batch element: ref (C, T), est (M, U) float64"""

    def __init__(self, ref, est, L, u, load=0.0, zero_mean=False, sar=True, qr=None):
        ref = np.asarray(ref, np.float64)
        est = np.asarray(est, np.float64)
        amp = 1.0
        if zero_mean:
            # cancellation in the mean subtraction amplifies input rounding
            amp = 1.0 + max(
                np.max(np.abs(v.mean(-1)) / (v.std(-1) + 1e-300)) for v in (ref, est)
            )
            ref = ref - ref.mean(-1, keepdims=True)
            est = est - est.mean(-1, keepdims=True)
        self.ref, self.est = unit(ref), unit(est)
        self.L, self.load = L, load or 0.0
        self.u = u * amp
        C, T = ref.shape
        M = est.shape[0]
        if qr is None:
            qr = (C * L) ** 2 * (T + L) < 4e7
        self.qr = qr
        self.lag_xy = lags(self.ref, self.est, L)  # (L, C, M)
        self.lag_xx = lags(self.ref, self.ref, L)  # (L, C, C)
        self._conv = None
        self.c_sdr = np.zeros((C, M))
        self.t_sdr = np.zeros((C, M))
        self.cond_sdr = np.zeros(C)
        for k in range(C):
            c, t, cond = self._solve([k])
            self.c_sdr[k], self.t_sdr[k], self.cond_sdr[k] = c, t, cond
        if sar:
            if C == 1:
                self.c_sar, self.t_sar, self.cond_sar = c, t, cond
            else:
                self.c_sar, self.t_sar, self.cond_sar = self._solve(list(range(C)))

    def gram(self, idx):
        L, n = self.L, len(idx)
        r = self.lag_xx[:, idx][:, :, idx]
        i, j = np.indices((L, L))
        d = j - i
        G = np.empty((n, L, n, L))
        pos = np.abs(d)
        for a in range(n):
            for b in range(n):
                # <x_a[t - i], x_b[t - j]> = sum_s x_b[s] x_a[s + j - i]
                G[a, :, b, :] = np.where(d >= 0, r[pos, b, a], r[pos, a, b])
        return G.reshape(n * L, n * L)

    def _solve(self, idx):
        L, N = self.L, len(idx) * self.L
        G = self.gram(idx)
        b = self.lag_xy[:, idx].transpose(1, 0, 2).reshape(N, -1)
        # a reference with no energy contributes nothing to the span; the
        # regularised system is well posed without a special case
        Gl = G + self.load * np.eye(N)
        if N <= 300:
            ev = np.linalg.eigvalsh(Gl)
            norm, lmin = ev[-1], max(ev[0], 1e-300)
        else:
            norm = np.linalg.norm(Gl, 1)
            lmin = None
        try:
            cf = sla.cho_factor(Gl)
            x = sla.cho_solve(cf, b)
        except np.linalg.LinAlgError:
            x = np.linalg.lstsq(Gl, b, rcond=None)[0]
        if lmin is None:
            # one inverse iteration gives the scale of the smallest eigenvalue
            v = np.random.default_rng(0).standard_normal(N)
            try:
                for _ in range(3):
                    v /= np.linalg.norm(v)
                    v = sla.cho_solve(cf, v)
                lmin = 1.0 / np.linalg.norm(v)
            except Exception:
                lmin = 1e-300
        if self.qr and self.load == 0.0:
            if self._conv is None:
                rows = max(self.ref.shape[-1] + L - 1, self.est.shape[-1])
                self._conv = [conv_matrix(r, L, rows) for r in self.ref]
                self._y = np.zeros((rows, self.est.shape[0]))
                self._y[: self.est.shape[-1]] = self.est.T
            Q, _ = np.linalg.qr(np.concatenate([self._conv[k] for k in idx], axis=1))
            coh = np.sum((Q.T @ self._y) ** 2, axis=0)
        else:
            coh = np.sum(b * x, axis=0)
        xn = np.linalg.norm(x, axis=0)
        tau = _tau(self.u, norm, xn, N, coh, self.ref.shape[-1])
        return coh, tau, norm / lmin

    # intervals ------------------------------------------------------------
    def sir(self):
        c = self.c_sdr / np.maximum(self.c_sar[None], 1e-300)
        return c


def db(c):
    c = np.clip(c, 0.0, 1.0)
    with np.errstate(all="ignore"):
        return 10.0 * np.log10(c / (1.0 - c))


def coh_of_db(v):
    """(c, 1 - c) of a value in dB, accurate at both ends"""
    v = np.asarray(v, np.float64)
    with np.errstate(all="ignore"):
        c = 1.0 / (1.0 + 10.0 ** (-v / 10.0))
        d = 1.0 / (1.0 + 10.0 ** (v / 10.0))
    return c, d


def clamp_eps(clamp_db):
    if clamp_db is None:
        return 0.0
    e = 10.0 ** (-clamp_db / 10.0)
    return e / (1.0 + e)


def db_interval(c_lo, c_hi, u, clamp_db=None):
    """the range of dB values a correct implementation may return when the
    square cosine is in [c_lo, c_hi]"""
    eps = clamp_eps(clamp_db)
    lo = np.clip(c_lo, eps, 1 - eps)
    hi = np.clip(c_hi, eps, 1 - eps)
    # the clamp limits themselves are only representable to within u
    lo = np.clip(np.where(lo >= 1 - eps, 1 - eps - 2 * u, lo), 0, 1)
    hi = np.clip(hi, 0, 1)
    a, b = db(lo), db(hi)
    fa = np.where(np.isfinite(a), np.abs(a), 0.0)
    fb = np.where(np.isfinite(b), np.abs(b), 0.0)
    return a - 64 * u * (1 + fa), b + 64 * u * (1 + fb)


class Expect:
    """oracle over a batch; intervals for every (ref, est) pair"""

    def __init__(self, ref, est, L, u, load=None, zero_mean=False, clamp_db=None, sar=True):
        ref = np.asarray(ref, np.float64)
        est = np.asarray(est, np.float64)
        self.bshape = ref.shape[:-2]
        R = ref.reshape((-1,) + ref.shape[-2:])
        E = est.reshape((-1,) + est.shape[-2:])
        self.u, self.clamp_db = u, clamp_db
        self.items = [
            Oracle(r, e, L, u, load=load, zero_mean=zero_mean, sar=sar)
            for r, e in zip(R, E)
        ]
        self.C, self.M = ref.shape[-2], est.shape[-2]
        sh = self.bshape + (self.C, self.M)
        st = lambda f: np.stack([f(o) for o in self.items]).reshape(sh)
        self.c_sdr, self.t_sdr = st(lambda o: o.c_sdr), st(lambda o: o.t_sdr)
        self.has_sar = sar
        if sar:
            rep = lambda v: np.broadcast_to(v[None], (self.C, self.M))
            self.c_sar, self.t_sar = st(lambda o: rep(o.c_sar)), st(lambda o: rep(o.t_sar))
            self.c_sir = self.c_sdr / np.maximum(self.c_sar, 1e-300)
        self.cond = max(
            max(float(np.max(o.cond_sdr)), float(o.cond_sar) if sar else 0.0)
            for o in self.items
        )

    def bounds(self, which, scale=1.0):
        """coherence interval for every pair"""
        if which == "sdr":
            return self.c_sdr - scale * self.t_sdr, self.c_sdr + scale * self.t_sdr
        if which == "sar":
            return self.c_sar - scale * self.t_sar, self.c_sar + scale * self.t_sar
        a = scale * self.t_sdr
        b = scale * self.t_sar
        lo = np.maximum(self.c_sdr - a, 0) / np.maximum(self.c_sar + b, 1e-300)
        den = self.c_sar - b
        hi = np.where(den > 0, (self.c_sdr + a) / np.where(den > 0, den, 1.0), np.inf)
        r = 4 * self.u
        return lo * (1 - r), hi * (1 + r)

    def tau(self, which):
        lo, hi = self.bounds(which)
        return np.minimum(hi - lo, 2.0) / 2

    def interval(self, which, scale=1.0):
        lo, hi = self.bounds(which, scale)
        return db_interval(lo, hi, self.u, self.clamp_db)

    def value(self, which):
        c = {"sdr": lambda: self.c_sdr, "sar": lambda: self.c_sar, "sir": lambda: self.c_sir}[which]()
        eps = clamp_eps(self.clamp_db)
        return db(np.clip(c, eps, 1 - eps))


def gather(mat, perm, n_ref, n_est):
    """value at (k, perm[k]) (n_ref <= n_est) or (perm[m], m) (n_ref > n_est)"""
    perm = np.asarray(perm)
    if n_ref > n_est:
        mat = np.swapaxes(mat, -2, -1)
    return np.take_along_axis(mat, perm[..., None], axis=-1)[..., 0]
