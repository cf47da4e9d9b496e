"""Signals with a prescribed matrix of square cosines (filter length one)."""
import numpy as np
import scipy.linalg as sla


def orthonormal(rng, n, T):
    q, _ = np.linalg.qr(rng.standard_normal((T, n)))
    return q.T


def from_coherence(rng, coh, T):
    """coh: (C, M), column sums <= 1 -> ref (C, T) orthonormal, est (M, T)"""
    C, M = coh.shape
    q = orthonormal(rng, C + M, T)
    sg = rng.choice([-1.0, 1.0], size=(C, M))
    rest = np.sqrt(np.maximum(1 - coh.sum(0), 0.0))
    est = (sg * np.sqrt(coh)).T @ q[:C] + rest[:, None] * q[C:]
    return q[:C], est


def hadamard(n):
    return sla.hadamard(n).astype(float)


def exact_signals(rng, C, M, table):
    """integer valued: orthogonal references with Hadamard rows; table (C, M) of
    integers, est_m = sum_k table[k, m] ref_k + noise[m] * (another row).
    A column with a single non-zero entry and no noise is a perfect estimate,
    a zero entry is exactly orthogonal."""
    n = 1
    while n < C + M + 1:
        n *= 2
    H = hadamard(n)
    H = H[1:]  # drop the constant row
    return H[:C], H[C : C + M]
