"""C14 - every exponent is the (weighted) least-squares slope over exactly the requested scales."""
import numpy as np
from vf.core import Sub, check, close, st
from vf import gen, ref
from vf.e2e import Setup, analysis, fd, flat

from pymultifracs.bivariate.bivariate_cumulants import BiCumulants
from pymultifracs.bivariate.bivariate_structurefunction import BiStructureFunction
from pymultifracs.estimation import estimate_hmin
from pymultifracs.mfa import mf_analysis
from pymultifracs.utils import linear_regression

LE = np.log2(np.e)


def regression(c, rec):
    rng = np.random.RandomState(c['seed'])
    n, R = c['n'], c['R']
    x = np.tile((c['x0'] + np.arange(n))[:, None], (1, R)) if c['grid'] else \
        np.sort(rng.uniform(-5, 15, (n, 1)), axis=0) * np.ones((1, R))
    y = c['a'] * x + c['b'] + c['noise'] * rng.standard_normal((n, R))
    w = {'counts': rng.randint(3, 2000, (n, R)), 'float': rng.uniform(0.1, 10, (n, R)),
         'one': np.ones((n, R)), 'dyadic': np.tile(4096 >> np.arange(n)[:, None], (1, R)) + 3}[c['w']]
    if np.ptp(x[:, 0]) < 0.5:
        return
    x0, y0, w0 = x.copy(), y.copy(), w.copy()
    a, b = linear_regression(x, y, w)[:2]
    A, B = ref.wls(x[:, 0], y, w)
    sc = 1 + np.abs(y).max()
    close(a, A, 'slope', rtol=1e-7, atol=1e-8 * sc)
    close(b, B, 'intercept', rtol=1e-7, atol=1e-7 * sc)
    if c['noise'] == 0:
        close(a, np.full(R, c['a']), 'slope of an exact line', atol=1e-8 * sc)
        close(b, np.full(R, c['b']), 'intercept of an exact line', atol=1e-7 * sc)
    out = linear_regression(x, y, w, return_variance=True)
    close(out[0], A, 'slope (with variance)', rtol=1e-7, atol=1e-8 * sc)
    close(out[1], B, 'intercept (with variance)', rtol=1e-7, atol=1e-7 * sc)
    check(np.array_equal(x, x0) and np.array_equal(y, y0) and np.array_equal(w, w0), 'arguments modified')
    rec.tag(c['w'], f'n={n}')
    rec.good(n >= 3 and c['noise'] > 0)


def _fit(v, nj, j1, j2, weighted, R):
    return ref.line({j: v[j - 1] for j in range(j1, j2 + 1)}, nj, j1, j2, weighted)


def slopes(c, rec):
    """Exponents against lines fitted through the published values of each scale."""
    m = c['m']
    vals = gen.build_mrq(m)
    nj = ref.counts(vals)
    R = m['R']
    j1, j2 = gen.j_range(c, m['J'])
    M = gen.make_mrq(m, vals)
    q = np.array(c['q'])
    D = mf_analysis(M, None, j2, j1, c['weighted'], c['n_cumul'], q).dwt
    for i in range(len(q)):
        a, b = _fit(D.structure.logvalues[i], nj, j1, j2, c['weighted'], R)
        close(D.structure.zeta[i], a, f'zeta({q[i]})', rtol=1e-7, atol=1e-7)
        close(D.structure.intercept[i], b, f'intercept of zeta({q[i]})', rtol=1e-6, atol=1e-6)
        close(D.spectrum.Dq[i], 1 + _fit(D.spectrum.U[:, i], nj, j1, j2, c['weighted'], R)[0], f'D({q[i]})', atol=1e-7)
        close(D.spectrum.hq[i], _fit(D.spectrum.V[:, i], nj, j1, j2, c['weighted'], R)[0], f'h({q[i]})', rtol=1e-7, atol=1e-7)
    for k in range(c['n_cumul']):
        a, b = _fit(D.cumulants.values[k], nj, j1, j2, c['weighted'], R)
        sc = 1 + np.abs(D.cumulants.values[k]).max()
        close(D.cumulants.log_cumulants[k], a * LE, f'c_{k + 1}', rtol=1e-7, atol=1e-9 * sc)
        close(D.cumulants.slope[k], a, f'slope of C_{k + 1}', rtol=1e-7, atol=1e-9 * sc)
        close(D.cumulants.intercept[k], b, f'intercept of C_{k + 1}', rtol=1e-6, atol=1e-7 * sc)
    sup = {j: np.log2(np.nanmax(np.abs(v), axis=0)) for j, v in vals.items()}
    a, b = ref.line(sup, nj, j1, j2, c['weighted'])
    got = estimate_hmin(M, j1, j2, c['weighted'], return_y=True)
    close(D.hmin, a, 'hmin', rtol=1e-7, atol=1e-7)
    close(got[0], a, 'hmin', rtol=1e-7, atol=1e-7)
    close(got[1], b, 'intercept of hmin', rtol=1e-6, atol=1e-6)
    close(got[2], np.stack([sup[j] for j in range(j1, j2 + 1)]), 'log2 of the suprema', rtol=1e-9, atol=1e-9)
    rec.tag('weighted' if c['weighted'] else 'plain', f'{j2 - j1 + 1} scales', f'j1={j1}', m['nan'])
    rec.good(j2 - j1 >= 2 and (j1 > 1 or j2 < m['J']))


def _pair(c):
    m = dict(c['m'], R=1)
    a = gen.build_mrq(m)
    b = gen.build_mrq(dict(m, seed=c['seed2'], nan='none', slope=c['slope2']))
    for j in a:
        b[j] = np.where(np.isnan(a[j]), np.nan, b[j] * np.abs(np.nan_to_num(a[j], nan=1.)) ** c['mix'])
    return m, a, b


def bivariate(c, rec):
    m, a, b = _pair(c)
    nj = ref.counts(a)
    j1, j2 = gen.j_range(c, m['J'])
    q = np.array(c['q'])
    P, Q = gen.make_mrq(m, a), gen.make_mrq(m, b)
    sf = BiStructureFunction(P, Q, j1, j2, q, q, c['weighted'])
    cm = BiCumulants(P, Q, c['n_cumul'], j1, j2, c['weighted'])

    def fit(v):
        return [float(u[0]) for u in _fit(np.asarray(v)[:, None], nj, j1, j2, c['weighted'], 1)]
    for i in range(len(q)):
        for k in range(len(q)):
            s, t = fit(sf.logvalues[i, k])
            close(sf.zeta[i, k], s, f'zeta({q[i]}, {q[k]})', rtol=1e-7, atol=1e-7)
            close(sf.intercept[i, k], t, f'intercept of zeta({q[i]}, {q[k]})', rtol=1e-6, atol=1e-6)
    for i in range(c['n_cumul'] + 1):
        for k in range(c['n_cumul'] + 1):
            s, t = fit(cm.values[i, k])
            sc = 1 + np.abs(cm.values[i, k]).max()
            close(cm.log_cumulants[i, k], s * LE, f'c{i}{k}', rtol=1e-7, atol=1e-9 * sc)
            close(cm.slope[i, k], s, f'slope of C{i}{k}', rtol=1e-7, atol=1e-9 * sc)
            close(cm.intercept[i, k], t, f'intercept of C{i}{k}', rtol=1e-6, atol=1e-7 * sc)
    rec.tag('weighted' if c['weighted'] else 'plain')
    rec.good(j2 - j1 >= 2)


def outside(c, rec):
    """Whatever happens at the scales left out changes no exponent, univariate or bivariate."""
    m = dict(c['m'], R=max(1, c['m']['R']))
    vals = gen.build_mrq(m)
    j1, j2 = gen.j_range(c, m['J'])
    rng = np.random.RandomState(c['seed2'])
    other = {j: (v if j1 <= j <= j2 else v * np.exp(2 * rng.standard_normal(v.shape)) * c['gain'])
             for j, v in vals.items()}
    if c['drop'] and j2 < m['J']:
        other = {j: v for j, v in other.items() if j <= j2}
    q = np.array(c['q'])
    outs = []
    for v in (vals, other):
        D = mf_analysis(gen.make_mrq(m, v), gen.make_mrq(m, v), j2, j1, c['weighted'], c['n_cumul'], q)
        o = {k: x for k, x in flat(D).items() if k[2] in ('zeta', 'H', 'log_cumulants', 'Dq', 'hq', '')}
        one = {j: x[:, :1] for j, x in v.items()}
        P, Q = gen.make_mrq(m, one), gen.make_mrq(m, {j: np.abs(x) ** .7 for j, x in one.items()})
        o['bi', 'zeta', ''] = BiStructureFunction(P, Q, j1, j2, q, q, c['weighted']).zeta
        o['bi', 'c', ''] = BiCumulants(P, Q, 2, j1, j2, c['weighted']).log_cumulants
        outs.append(o)
    for k in outs[0]:
        close(outs[1][k], outs[0][k], f'{"/".join(k)} after changes outside scales {j1}..{j2}', rtol=1e-9, atol=1e-10)
    rec.tag('below' if j1 > 1 else '', 'above' if j2 < m['J'] else '', 'dropped' if c['drop'] else 'changed')
    rec.good(j1 > 1 or j2 < m['J'])


def signal(c, rec):
    """From the signal: the requested scales, cut to those the signal has."""
    s = Setup(c)
    if not s.ok:
        return
    j2 = s.j2 + c['over']
    W = s.wavelet(j2=j2)
    want = min(j2, s.J)
    check(W.j2_eff == want, f'effective upper scale {W.j2_eff}, expected {want}')
    if not s.conditioned(W):
        return
    D = s.full(j2=j2)
    for side, M in (('dwt', W.wt_coefs), ('lwt', W.wt_leaders)):
        d = getattr(D, side)
        if d is None:
            continue
        nj = ref.counts(M.values)
        for i, v in enumerate(c['q']):
            a = _fit(d.structure.logvalues[i], nj, s.j1, want, c['weighted'], 0)[0]
            close(d.structure.zeta[i], a, f'{side} zeta({v})', rtol=1e-6, atol=1e-6)
        a = _fit(d.cumulants.values[0], nj, s.j1, want, c['weighted'], 0)[0] * LE
        close(d.cumulants.log_cumulants[0], a, f'{side} c_1', rtol=1e-6, atol=1e-6)
    rec.tag(str(c['p']), 'j2 too large' if j2 > s.J else 'j2 available')
    rec.good(want - s.j1 >= 2)


COMMON = dict(m=gen.mrqs(j_max=9), ja=gen.JA, jb=gen.JB, weighted=gen.WEIGHTED)
CHECKS = [
    Sub('regression', fd(seed=gen.SEED, n=st.integers(2, 14), R=st.integers(1, 3), x0=st.integers(-2, 6),
                         grid=st.booleans(), a=gen.f(-4, 4), b=gen.f(-10, 10), noise=st.sampled_from([0., 1., .1, 5.]),
                         w=st.sampled_from(['counts', 'float', 'one', 'dyadic'])), regression, 2000,
        rule='lines plus noise against a lstsq solution; non-trivial: noise and at least 3 points'),
    Sub('slopes', fd(n_cumul=st.integers(1, 4), q=gen.q_lists(), **COMMON), slopes, 1600,
        rule='all exponents of a quantity; non-trivial: at least 3 scales, strictly inside the available ones'),
    Sub('bivariate', fd(n_cumul=st.integers(1, 5), q=gen.q_lists(), seed2=gen.SEED, mix=gen.f(-1, 1),
                        slope2=gen.f(-1, 1), **COMMON), bivariate, 600,
        rule='all bivariate exponents; non-trivial: at least 3 scales'),
    Sub('outside', fd(n_cumul=st.integers(1, 3), q=gen.q_lists(), seed2=gen.SEED, drop=st.booleans(),
                      gain=st.sampled_from([1., 1e3, 1e-3]), **COMMON), outside, 800,
        rule='values outside [j1, j2] changed or absent; non-trivial: some scale is outside'),
    Sub('signal', fd(over=st.sampled_from([0, 0, 1, 7]), **analysis()), signal, 600,
        rule='complete analysis of signals, also with too large an upper scale; non-trivial: at least 3 scales'),
]
ASSUMPTIONS = ['at least two scales, usable values at each']
