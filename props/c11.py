"""C11 - cumulants of log-values per scale, log-cumulants as their slopes in base 2."""
from math import factorial

import numpy as np
from scipy import stats
from vf.core import Sub, check, close, st
from vf import gen, ref
from vf.e2e import Setup, analysis, fd

from pymultifracs.cumulants import Cumulants


def verify(cm, vals, n, j1, j2, weighted, formalism):
    J = sorted(vals)
    R = vals[J[0]].shape[1]
    C = np.zeros((n, len(J), R))
    for k, j in enumerate(J):
        for r in range(R):
            v = vals[j][:, r]
            C[:, k, r] = ref.cumulants_1d(np.log(np.abs(v[~np.isnan(v)])), n)
    check(list(cm.j) == J and list(cm.m) == list(range(1, n + 1)), 'orders and scales')
    check(cm.formalism == formalism and cm.nrep == R and cm.n_cumul == n, 'attributes')
    close(cm.values.shape, C.shape, 'shape of C_m(j)')
    # raw moments: rounding grows with the m-th power of the log-values
    mu = 1 + max(np.nanmax(np.abs(np.log(np.abs(v)))) for v in vals.values())
    nj = ref.counts(vals)
    lc = np.zeros((n, R))
    for m in range(n):
        tol = 1e-9 + 1e-14 * factorial(m) * mu ** (m + 1)
        close(cm.values[m], C[m], f'C_{m + 1}(j)', rtol=1e-7, atol=tol)
        lc[m] = ref.line({j: C[m, k] for k, j in enumerate(J)}, nj, j1, j2, weighted)[0] * np.log2(np.e)
        close(cm.log_cumulants[m], lc[m], f'c_{m + 1}', rtol=1e-6, atol=50 * tol)
        close(np.ravel(getattr(cm, f'c{m + 1}')), lc[m], f'attribute c{m + 1}', rtol=1e-6, atol=50 * tol)
        close(np.ravel(getattr(cm, f'C{m + 1}')), C[m].ravel(), f'attribute C{m + 1}', rtol=1e-6, atol=tol)
    if n >= 2:
        close(np.ravel(cm.M), -lc[1], 'M', rtol=1e-6, atol=50 * (1e-9 + 1e-14 * mu ** 2))
    return C


def quantity(c, rec):
    m = c['m']
    vals = gen.build_mrq(m)
    j1, j2 = gen.j_range(c, m['J'])
    cm = Cumulants(gen.make_mrq(m, vals), c['n_cumul'], j1, j2, c['weighted'])
    C = verify(cm, vals, c['n_cumul'], j1, j2, c['weighted'], m['formalism'])
    # an estimator from elsewhere, for the orders it knows
    J = sorted(vals)
    for k, j in enumerate(J):
        v = np.log(np.abs(vals[j][:, 0]))
        v = v[~np.isnan(v)]
        close(C[0, k, 0], v.mean(), 'model of C_1', rtol=1e-9, atol=1e-9)
        if c['n_cumul'] >= 2:
            close(cm.values[1, k, 0], v.var(), 'C_2 against the variance', rtol=1e-7, atol=1e-8)
        if c['n_cumul'] >= 3:
            close(cm.values[2, k, 0], stats.moment(v, 3), 'C_3 against the third moment', rtol=1e-6, atol=1e-7)
    rec.tag(m['nan'], m['formalism'], f'orders {c["n_cumul"]}', f'R={m["R"]}')
    rec.good(c['n_cumul'] >= 2)


def zeros(c, rec):
    """The logarithm of 0 is minus infinity: a zero is not left out silently; other scales are as ever."""
    m = c['m']
    vals = gen.build_mrq(m)
    j1, j2 = gen.j_range(c, m['J'])
    at = 1 + int(c['at'] * (m['J'] - 1))
    for r in range(m['R']):
        use = np.flatnonzero(~np.isnan(vals[at][:, r]))
        vals[at][use[int(c['at'] * (len(use) - 1))], r] = 0.
    with np.errstate(all='ignore'):
        cm = Cumulants(gen.make_mrq(m, vals), c['n_cumul'], j1, j2, c['weighted'])
    for k, j in enumerate(sorted(vals)):
        if j == at:
            check(not np.isfinite(cm.values[0, k]).any(), f'C_1 = {cm.values[0, k]} with a zero at scale {j}')
        else:
            for r in range(m['R']):
                v = np.log(np.abs(vals[j][:, r]))
                v = v[~np.isnan(v)]
                close(cm.values[0, k, r], v.mean(), 'C_1 next to a scale with a zero', rtol=1e-7, atol=1e-9)
                if c['n_cumul'] > 1:
                    close(cm.values[1, k, r], v.var(), 'C_2 next to a scale with a zero', rtol=1e-6, atol=1e-8)
    lc = cm.log_cumulants[0]
    if j1 <= at <= j2:
        check(not np.isfinite(lc).any(), f'c_1 = {lc} with a zero at scale {at}')
    else:
        C = {j: np.array([np.nanmean(np.log(np.abs(v[:, r]))) for r in range(m['R'])]) for j, v in vals.items() if j != at}
        C[at] = np.zeros(m['R'])
        close(lc, ref.line(C, ref.counts(vals), j1, j2, c['weighted'])[0] * np.log2(np.e), 'c_1 away from a zero', rtol=1e-6,
              atol=1e-7)
    rec.tag('inside' if j1 <= at <= j2 else 'outside')
    rec.good()


def signal(c, rec):
    s = Setup(c)
    if not s.ok:
        return
    W = s.wavelet()
    if not s.conditioned(W, 1e-10):
        return
    D = s.mfa(W)
    for side, mrq in (('dwt', W.wt_coefs), ('lwt', W.wt_leaders)):
        if mrq is not None:
            verify(getattr(D, side).cumulants, dict(mrq.values), c['n_cumul'], s.j1, W.j2_eff, c['weighted'],
                   mrq.formalism)
    rec.tag(str(c['p']))
    rec.good(c['n_cumul'] >= 2)


def powers(c, rec):
    """Raising the quantity to a power a multiplies C_m by a^m (and c_m too)."""
    m = c['m']
    a = c['a']
    vals = gen.build_mrq(m)
    j1, j2 = gen.j_range(c, m['J'])
    n = c['n_cumul']
    A = Cumulants(gen.make_mrq(m, vals), n, j1, j2, c['weighted'])
    B = Cumulants(gen.make_mrq(m, {j: np.abs(v) ** a for j, v in vals.items()}), n, j1, j2, c['weighted'])
    mu = (1 + max(np.nanmax(np.abs(np.log(np.abs(v)))) for v in vals.values())) * max(1., abs(a))
    for k in range(n):
        tol = 1e-8 + 1e-13 * factorial(k) * mu ** (k + 1)
        close(B.values[k], a ** (k + 1) * A.values[k], f'C_{k + 1} of the power {a}', rtol=1e-6, atol=tol)
        close(B.log_cumulants[k], a ** (k + 1) * A.log_cumulants[k], f'c_{k + 1} of the power {a}', rtol=1e-5,
              atol=50 * tol)
    rec.good(a != 1 and n >= 2)


COMMON = dict(m=gen.mrqs(), ja=gen.JA, jb=gen.JB, weighted=gen.WEIGHTED)
CHECKS = [
    Sub('quantity', fd(n_cumul=gen.rare(st.integers(1, 6), st.integers(7, 8), 16), **COMMON), quantity, 3200,
        rule='quantities with missing values; non-trivial: at least 2 orders'),
    Sub('signal', fd(**analysis(q=st.just([2.]))), signal, 1200,
        rule='complete analysis of signals against the cumulants of its own quantities; at least 2 orders'),
    Sub('zeros', fd(at=gen.FRAC, n_cumul=st.integers(1, 4), **COMMON), zeros, 600, rule='one zero at one scale; every case'),
    Sub('powers', fd(a=st.sampled_from([2., -1., 0.5, 3., -0.5, 1.3]), n_cumul=st.integers(1, 5), **COMMON), powers,
        1600, rule='quantity against its powers; non-trivial: power != 1 and at least 2 orders'),
]
ASSUMPTIONS = ['every scale has usable values, non-zero but for one (first cumulants only)']
