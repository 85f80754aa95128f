"""C18 - correlation summaries: bounds, perfect correlation, and the bivariate spectrum."""
import numpy as np
from vf.core import Sub, check, close, st
from vf import gen, ref
from vf.e2e import Setup, analysis, fd
from props.c14 import _pair

from pymultifracs.bivariate.bivariate_cumulants import BiCumulants
from pymultifracs.bivariate.bivariate_structurefunction import BiStructureFunction

Q = np.array([0., 1., 2.])


def summaries(c, rec):
    m, a, b = _pair(c)
    if m['formalism'] == 'wavelet coef' and c['flip']:
        rng = np.random.RandomState(c['seed2'])
        b = {j: v * np.where(rng.rand(*v.shape) < .5, -1, 1) for j, v in b.items()}
    j1, j2 = gen.j_range(c, m['J'])
    P, R = gen.make_mrq(m, a), gen.make_mrq(m, b)
    extra = [v for v in c['q'] if v not in (0., 1., 2.)]
    q1 = np.array(sorted([0., 1., 2.] + extra, reverse=c['flip']))
    q2 = np.array([v for v in c['perm'] if v in (0., 1., 2.) or c['more']])
    sf = BiStructureFunction(P, R, j1, j2, q1, q2, c['weighted'])
    check(sf.coherence is not None and np.shape(sf.coherence) == (m['J'],), f'coherence of shape {np.shape(sf.coherence)}')
    check((np.abs(sf.coherence) <= 1 + 1e-9).all(), f'coherence {sf.coherence} outside [-1, 1]')
    if c['drop'] is not None:
        # without an exponent the coherence is made of: absent, or the same
        without = BiStructureFunction(P, R, j1, j2, q1[q1 != c['drop']] if c['flip'] else q1, q2[q2 != c['drop']], c['weighted'])
        if without.coherence is not None:
            close(without.coherence, sf.coherence, f'coherence without exponent {c["drop"]}', rtol=1e-9, atol=1e-12)
    cm = BiCumulants(P, R, c['n_cumul'], j1, j2, c['weighted'])
    if m['formalism'] == 'wavelet coef':
        check(cm.RHO_MF is None and cm.rho_mf is None, 'multifractal correlation of coefficients')
    else:
        check((np.abs(cm.RHO_MF) <= 1 + 1e-7).all(), f'RHO_MF {cm.RHO_MF} outside [-1, 1]')
        check(np.shape(np.ravel(cm.RHO_MF)) == (m['J'],), 'RHO_MF: one value per scale')
    for k, j in enumerate(sorted(a)):
        ok = ~np.isnan(a[j][:, 0])
        x, y = a[j][ok, 0], b[j][ok, 0]
        close(sf.coherence[k], np.mean(x * y) / np.sqrt(np.mean(x * x) * np.mean(y * y)), f'coherence at scale {j}',
              rtol=1e-8, atol=1e-9)
        if cm.RHO_MF is not None:
            close(np.ravel(cm.RHO_MF)[k], np.corrcoef(np.log(x), np.log(y))[0, 1], f'RHO_MF at scale {j}', rtol=1e-6, atol=1e-6)
    if cm.rho_mf is not None:
        L = cm.log_cumulants
        v = L[0, 2] * L[2, 0]
        if v > 1e-4:
            close(np.ravel(cm.rho_mf)[0], -L[1, 1] / np.sqrt(v), 'rho_mf', rtol=1e-7, atol=1e-8)
    rec.tag(m['formalism'], m['nan'])
    rec.good(abs(c['mix']) > 0.05)


def perfect(c, rec):
    """Y a constant multiple, or a power, of X."""
    m = dict(c['m'], R=1)
    a = gen.build_mrq(m)
    j1, j2 = gen.j_range(c, m['J'])
    g = c['a']
    P, R = gen.make_mrq(m, a), gen.make_mrq(m, {j: g * v for j, v in a.items()})
    sf = BiStructureFunction(P, R, j1, j2, Q, Q, c['weighted'])
    close(sf.coherence, np.full(m['J'], np.sign(g)), 'coherence of (X, a X)', rtol=1e-8)
    if m['formalism'] != 'wavelet coef':
        cm = BiCumulants(P, gen.make_mrq(m, {j: np.abs(v) ** c['e'] for j, v in a.items()}), 2, j1, j2, c['weighted'])
        close(np.ravel(cm.RHO_MF), np.full(m['J'], np.sign(c['e'])), 'RHO_MF of (X, X^e)', rtol=1e-6, atol=1e-5)
        if abs(cm.log_cumulants[2, 0]) > 1e-3:
            close(np.ravel(cm.rho_mf)[0], -np.sign(c['e']) * np.sign(cm.log_cumulants[2, 0]),
                  'rho_mf of (X, X^e)', rtol=1e-5)
    rec.tag(m['formalism'])
    rec.good(g != 1)


def spectrum(c, rec):
    m, a, b = _pair(c)
    j1, j2 = gen.j_range(c, m['J'])
    cm = BiCumulants(gen.make_mrq(m, a), gen.make_mrq(m, b), c['n_cumul'], j1, j2, c['weighted'])
    L = cm.log_cumulants
    c10, c01, c20, c02, c11 = L[1, 0], L[0, 1], L[2, 0], L[0, 2], L[1, 1]
    det = c20 * c02 - c11 ** 2
    if abs(det) < 1e-7 or abs(det) < 1e-6 * (abs(c20 * c02) + c11 ** 2):
        return
    lo, hi, n = c['lo'], c['lo'] + c['width'], c['res']
    h, D = cm.compute_legendre((lo, hi), n)
    close(h, np.linspace(lo, hi, n), 'support', rtol=1e-10, atol=1e-12)
    x, y = h[:, None] - c10, h[None, :] - c01
    exp = 1 + (c02 * x ** 2 + c20 * y ** 2 - 2 * c11 * x * y) / (2 * det)
    close(D, exp, 'D(h1, h2)', rtol=1e-7, atol=1e-9 * (1 + np.abs(exp).max()))
    if c20 < 0 and c02 < 0 and det > 0:
        check((D <= 1 + 1e-9).all(), f'spectrum above 1: {D.max()}')
        rec.tag('concave')
    h0, D0 = cm.compute_legendre()
    check(len(h0) == 100 and D0.shape == (100, 100), 'default resolution')
    close(h0[[0, -1]], np.array([0., 1.5]), 'default support')
    rec.good(n > 1)


def signals(c, rec):
    from pymultifracs.bivariate import bivariate_analysis_full
    s = Setup(c)
    if not s.ok:
        return
    X = np.ravel(s.X if s.X.ndim == 1 else s.X[:, 0]).astype(float)
    Y = gen.build(dict(c['sig'], R=0, layout='C', seed=c['seed2'], kind=c['kind2']))
    same = c['mix'] == 'same'
    Y = c['a'] * X if same else Y
    if not (s.conditioned(s.wavelet(X), 1e-9) and Setup(c, Y).conditioned(Setup(c, Y).wavelet(), 1e-9)):
        return
    D = bivariate_analysis_full(X, Y, s.j1, s.j2, c['norm'], c['gamint'], c['weighted'], c['wt'], s.p, n_cumul=c['n_cumul'])
    check((np.abs(D.dwt.structure.coherence) <= 1 + 1e-9).all(), 'coherence outside [-1, 1]')
    A, B = s.wavelet(X).wt_coefs.values, s.wavelet(Y).wt_coefs.values
    exp = [np.nansum(A[j] * B[j]) / np.sqrt(np.nansum(A[j] ** 2) * np.nansum(B[j] ** 2)) for j in A]
    close(D.dwt.structure.coherence, exp, 'wavelet coherence', rtol=1e-7, atol=1e-8)
    if same:
        close(D.dwt.structure.coherence, np.full(len(A), np.sign(c['a'])), 'coherence of (X, a X)', rtol=1e-6)
    if s.p is not None and c['n_cumul'] < 2:
        check(D.lwt.cumulants.RHO_MF is None and D.lwt.cumulants.rho_mf is None, 'correlation without the cumulants it is made of')
    if s.p is not None and c['n_cumul'] >= 2:
        check((np.abs(D.lwt.cumulants.RHO_MF) <= 1 + 1e-6).all(), 'RHO_MF outside [-1, 1]')
        check((np.abs(D.lwt.structure.coherence) <= 1 + 1e-9).all(), 'coherence of leaders outside [-1, 1]')
        if same:
            close(D.lwt.structure.coherence, np.ones_like(D.lwt.structure.coherence), 'coherence of leaders of (X, a X)', rtol=1e-6)
    rec.tag(str(c['p']), c['mix'])
    rec.good(True)


COMMON = dict(m=gen.mrqs(), ja=gen.JA, jb=gen.JB, weighted=gen.WEIGHTED, seed2=gen.SEED, mix=gen.f(-1.5, 1.5),
              slope2=gen.f(-1, 1), n_cumul=st.integers(2, 3))
CHECKS = [
    Sub('summaries', fd(q=gen.q_lists(), flip=st.booleans(), more=st.booleans(),
                         drop=st.sampled_from([None, 0., 1., 2.]), perm=st.permutations([0., 1., 2., -1., 3., 0.5, -2.]), **COMMON), summaries,
        750, rule='coherence and multifractal correlation of pairs; non-trivial: dependent quantities'),
    Sub('perfect', fd(a=st.sampled_from([1., -1., 3., -0.2, 1e4]), e=st.sampled_from([1., 2., -1., 0.5, -2.]), **COMMON),
        perfect, 450, rule='(X, a X) and (X, X^e); non-trivial: a != 1'),
    Sub('spectrum', fd(lo=gen.f(-1, 1), width=gen.f(0.1, 2), res=st.integers(2, 20), **COMMON), spectrum, 300,
        rule='second-order bivariate spectrum against its closed form; more than one point'),
    Sub('signals', fd(seed2=gen.SEED, kind2=st.sampled_from(gen.KINDS), mix=st.sampled_from(['same', 'other']),
                      a=st.sampled_from([2., -1., -0.3]), **analysis(q=st.just([2.]))), signals, 300,
        rule='pairs of signals through the one-call analysis'),
]
ASSUMPTIONS = ['both quantities are sampled at the same positions; non-zero values; at least 2 orders']
