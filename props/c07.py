"""C07 - fractional integration and normalisation act as exact power laws of scale."""
import numpy as np
from vf.core import Sub, check, close, st
from vf import gen
from vf.e2e import Setup, analysis, fd, flat, same

DG = st.one_of(st.sampled_from([0.5, 1., -0.5, 2., 0.25]), gen.f(-1., 2.))


def coefs(c, rec):
    s = Setup(c)
    if not s.ok:
        return
    g, N = c['g2'], c['norm2']
    W, V = s.wavelet(), s.wavelet(gamint=g, normalization=N)
    check(V.wt_coefs.gamint == g, 'fractional integration exponent not recorded')
    e = (g - 1 / N) - (c['gamint'] - 1 / c['norm'])
    for j in W.wt_coefs.values:
        close(V.wt_coefs.values[j], W.wt_coefs.values[j] * 2. ** (j * e), f'coefficients at scale {j}, '
              f'gamint {c["gamint"]}->{g}, norm {c["norm"]}->{N}', rtol=1e-9)
    rec.tag(f'norm {N}')
    rec.good(e != 0)


def trade(c, rec):
    """A norm p is the L1 norm with gamint + 1 - 1/p: everything but the recorded H agrees."""
    s = Setup(c)
    if not s.ok:
        return
    N = c['norm']
    W = s.wavelet()
    V = s.wavelet(normalization=1, gamint=c['gamint'] + 1 - 1 / N)
    if not s.conditioned(W):
        return
    if W.eta_p is not None:
        close(V.eta_p, W.eta_p, 'eta_p', rtol=1e-8, atol=1e-8)
        if (np.abs(W.eta_p) < 1e-6).any():
            return
    for name in ('wt_coefs', 'wt_leaders'):
        a, b = getattr(W, name), getattr(V, name)
        if a is None:
            continue
        for j in a.values:
            close(b.values[j], a.values[j], f'{name} at scale {j}', rtol=1e-7)
    A, B = flat(s.mfa(W)), flat(s.mfa(V))
    for side in ('dwt', 'lwt'):
        k = (side, 'structure', 'H')
        if k in A:
            close(B[k], A[k] - (1 - 1 / N), f'{side} H', rtol=1e-6, atol=1e-6)
    same(A, B, f'norm {N}', rtol=1e-5, atol=1e-6, skip=[('structure', 'H'), ('cumulants', 'values')])
    rec.tag(f'norm {N}', str(c['p']))
    rec.good(N != 1)


def estimates(c, rec):
    """gamint -> gamint + d on coefficients: shifts of exponents by d, H and D unchanged."""
    s = Setup(c)
    if not s.ok:
        return
    d = c['dg']
    W, V = s.wavelet(), s.wavelet(gamint=c['gamint'] + d)
    if not s.conditioned(W):
        return
    A, B = flat(s.mfa(W)), flat(s.mfa(V))
    q = np.array(c['q'])
    shift = {('structure', 'zeta'): q[:, None] * d, ('spectrum', 'hq'): d, ('hmin', ''): d,
             ('structure', 'H'): 0., ('spectrum', 'Dq'): 0.}
    for (part, f), e in shift.items():
        k = ('dwt', part, f)
        if k in A:
            close(B[k], A[k] + e, f'{part} {f}, gamint {c["gamint"]} + {d}', rtol=1e-6, atol=1e-6)
    lc = A['dwt', 'cumulants', 'log_cumulants'].copy()
    lc[0] += d
    mu = 2 + np.abs(A['dwt', 'cumulants', 'values'][0]).max() + abs(d) * s.j2
    for m in range(len(lc)):
        close(B['dwt', 'cumulants', 'log_cumulants'][m], lc[m], f'c{m + 1}, gamint + {d}', rtol=1e-6,
              atol=1e-6 + 1e-12 * mu ** (m + 1))
    j = np.arange(1, A['dwt', 'structure', 'logvalues'].shape[1] + 1)
    close(B['dwt', 'structure', 'logvalues'],
          A['dwt', 'structure', 'logvalues'] + d * q[:, None, None] * j[None, :, None], 'log2 S(j, q)',
          rtol=1e-6, atol=1e-6)
    if W.wt_leaders is not None and 2 in c['q']:
        for w, dat in ((W, A), (V, B)):
            k = ('lwt', 'structure', 'zeta')
            close(dat['lwt', 'structure', 'H'], dat[k][q == 2][0] / 2 - w.wt_leaders.gamint, 'H of leaders', rtol=1e-9, atol=1e-9)
    rec.tag(str(c['p']))
    rec.good(d != 0)


N2 = st.sampled_from([1, 2, 0.5, 3, 1.5, 4, 0.8, 16, 40])
CHECKS = [
    Sub('coefs', fd(g2=DG, norm2=N2, **analysis()), coefs, 800,
        rule='same signal, other gamint and norm; non-trivial: another power of scale'),
    Sub('trade', fd(**analysis(norm=N2)), trade, 600,
        rule='norm p against L1 with the gamint that compensates; non-trivial: norm != 1'),
    Sub('estimates', fd(dg=DG, **analysis(ints=False)), estimates, 800,
        rule='complete analysis with gamint and gamint + d; non-trivial: d != 0'),
]
ASSUMPTIONS = ['signals without coefficients at rounding level']
