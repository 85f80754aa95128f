"""Reference models, written from the definitions and independent of the code under test.

Only numpy (and PyWavelets for the filter taps) is used here; nothing of pymultifracs."""
import functools

import numpy as np
import pywt


def filter_len(wt_name):
    return len(pywt.Wavelet(wt_name).dec_hi)


def vanishing(wt_name):
    """Vanishing moments of the analysis wavelet."""
    return pywt.Wavelet(wt_name).vanishing_moments_psi


def max_level(n, M):
    return int(np.floor(np.log2(n / (M + 1)))) if n >= M + 1 else 0


def _windows(x, taps, offset, n_out):
    """out[k] = sum_m taps[m] x[2k + offset - m]; positions outside x read as 0."""
    M = len(taps)
    pad = np.zeros((M,) + x.shape[1:])
    y = np.concatenate([pad, x, pad, pad], axis=0)
    idx = 2 * np.arange(n_out)[:, None] + offset + M - np.arange(M)[None, :]
    return np.einsum('m,kmr->kr', taps, y[idx])


def _stage(x, taps):
    """One decimated filtering stage: position k sits on sample 2k+1 of x; it is usable when
    len(taps)-1 samples lie before that sample and len(taps)-1 after, and all read are usable."""
    n, M = len(x), len(taps)
    n_out = n // 2
    out = _windows(x, np.asarray(taps), 1 + (M // 2 - 1), n_out)
    centre = 2 * np.arange(n_out) + 1
    out[(centre < M - 1) | (centre > n - M)] = np.nan
    return out


def coefs(X, wt_name, normalization=1., gamint=0., leaders=False):
    """Wavelet coefficients, scale by scale; (n, R) input. Stops at the first scale with fewer
    than three usable coefficients. Returns {j: (n_j, R)} with NaN at unusable positions."""
    X = np.asarray(X, dtype=float)
    w = pywt.Wavelet(wt_name)
    M = len(w.dec_hi)
    hi, lo = -np.array(w.dec_hi), np.array(w.dec_lo)
    out = {}
    a = X
    for j in range(1, max_level(len(X), M) + 1):
        d = _stage(a, hi) * 2. ** (j * (0.5 - 1. / normalization + gamint))
        a = _stage(a, lo)
        if (~np.isnan(d)).sum(axis=0).min() < 3:
            break
        out[j] = d
    return out


@functools.lru_cache(maxsize=None)
def n_scales(n, M, leaders=True):
    """Number of scales obtained for a signal of n samples (mask only, no filtering)."""
    ok = np.ones(n, bool)
    sv = None
    J = 0
    for j in range(1, max_level(n, M) + 1):
        n_out = len(ok) // 2
        c = 2 * np.arange(n_out) + 1
        h = c + M // 2 - 1
        bad = np.concatenate([[0], np.cumsum(~ok)])
        inside = (M - 1 <= c) & (c <= len(ok) - M) & (h - M + 1 >= 0) & (h < len(ok))
        hc = np.clip(h, 0, len(ok) - 1)
        lc = np.clip(h - M + 1, 0, len(ok))
        ok = inside & (bad[hc + 1] - bad[lc] == 0)
        if ok.sum() < 3:
            break
        if leaders:
            sv = ok.copy() if sv is None else ok | sv[0:2 * n_out:2] | sv[1:2 * n_out:2]
            if len(sv) < 3 or (sv[:-2] | sv[1:-1] | sv[2:]).sum() < 3:
                break
        J = j
    return J


def _nan_all(a, axis):
    return np.isnan(a).all(axis=axis)


def leaders(cf, p):
    """Wavelet leaders (p = inf) or p-leaders before correction, by their definition:
    over the cube 3 lambda (the dyadic interval and its two neighbours) and all scales <= j."""
    out = {}
    for j in cf:
        nk, R = cf[j].shape
        acc = None
        for i in range(1, j + 1):
            w = 2 ** (j - i)
            blk = np.abs(cf[i][:nk * w]).reshape(nk, w, R)
            with np.errstate(all='ignore'):
                if np.isinf(p):
                    v = np.where(np.isnan(blk), -1., blk).max(axis=1)
                    v = np.where(v < 0, np.nan, v)
                else:
                    v = np.where(np.isnan(blk), 0., blk ** p).sum(axis=1) * 2. ** i
                    v = np.where(_nan_all(blk, 1), np.nan, v)
            if acc is None:
                acc = v
            else:
                both = np.stack([acc, v])
                gone = _nan_all(both, 0)
                acc = np.where(np.isnan(both), -1. if np.isinf(p) else 0., both)
                acc = acc.max(axis=0) if np.isinf(p) else acc.sum(axis=0)
                acc[gone] = np.nan
        tri = np.stack([acc[:-2], acc[1:-1], acc[2:]])
        gone = _nan_all(tri, 0)
        tri = np.where(np.isnan(tri), -1. if np.isinf(p) else 0., tri)
        L = tri.max(axis=0) if np.isinf(p) else (tri.sum(axis=0) * 2. ** -j) ** (1. / p)
        L[gone] = np.nan
        if (~np.isnan(L)).sum(axis=0).min() < 3:
            break
        out[j] = L
    return out


def counts(vals):
    return {j: (~np.isnan(v)).sum(axis=0) for j, v in vals.items()}


def wls(x, y, w):
    """Weighted least-squares line, column by column, by solving the normal problem with lstsq."""
    x, y, w = (np.asarray(v, dtype=float) for v in (x, y, w))
    R = y.shape[1]
    w = np.broadcast_to(w.reshape(len(x), -1), y.shape)
    slope, inter = np.zeros(R), np.zeros(R)
    for r in range(R):
        s = np.sqrt(w[:, r])
        if not np.isfinite(y[:, r]).all():
            slope[r] = inter[r] = np.nan
            continue
        xm = (w[:, r] * x).sum() / w[:, r].sum()
        A = np.stack([s * (x - xm), s], axis=1)
        sol = np.linalg.lstsq(A, s * y[:, r], rcond=None)[0]
        slope[r], inter[r] = sol[0], sol[1] - sol[0] * xm
    return slope, inter


def line(vals, nj, j1, j2, weighted):
    """Fit of per-scale values {j: (R,)} over j1..j2."""
    x = np.arange(j1, j2 + 1)
    y = np.stack([vals[j] for j in x])
    w = np.stack([nj[j] for j in x]) if weighted else np.ones_like(y)
    return wls(x, y, w)


def mean_usable(v):
    ok = ~np.isnan(v)
    return np.where(ok, v, 0.).sum(axis=0) / ok.sum(axis=0)


def structure(vals, q):
    """{j: S(j, q)}"""
    return {j: mean_usable(np.where(np.isnan(v), np.nan, np.abs(v) ** q)) for j, v in vals.items()}


def eta(cf, p, j1, j2, weighted):
    S = structure(cf, p)
    return line({j: np.log2(s) for j, s in S.items()}, counts(cf), j1, j2, weighted)[0]


def correct(lead, eta_p, p):
    """Finite-resolution correction of p-leaders, for the realisations with eta_p > 0."""
    out = {}
    for j, L in lead.items():
        c = np.ones(L.shape[1])
        for r, e in enumerate(eta_p):
            if e > 0:
                c[r] = ((1 - 2. ** (-j * e)) / (1 - 2. ** -e)) ** (-1. / p)
        out[j] = L * c
    return out


def cumulants_1d(x, M):
    """Cumulants kappa_1..kappa_M of the empirical distribution of x (biased, no Bessel)."""
    x = np.asarray(x, dtype=float)
    m = x.mean()
    c = x - m
    mu = [1., 0.] + [np.mean(c ** k) for k in range(2, M + 1)]
    kap = [0.] * (M + 1)
    # recursion on central moments: kappa_n = mu_n - sum C(n-1, k-1) kappa_k mu_{n-k}
    from math import comb
    for n in range(2, M + 1):
        kap[n] = mu[n] - sum(comb(n - 1, k - 1) * kap[k] * mu[n - k] for k in range(2, n))
    kap[1] = m
    return np.array(kap[1:M + 1])


def spectrum_UV(v, q):
    """U(j,q), V(j,q) of one scale, one column, usable values only."""
    x = np.abs(v[~np.isnan(v)])
    n = len(x)
    x = x[(x > 0) | (q == 0)]             # zeros carry no weight
    lw = q * np.log(x)
    lw = lw - lw.max()
    R = np.exp(lw)
    R = R / R.sum()
    V = (R * np.log2(x)).sum()
    pos = R > 0
    U = np.log2(n) + (R[pos] * np.log2(R[pos])).sum()
    return U, V
