"""C15 - uniform regularity exponent hmin and Hurst exponent."""
import numpy as np
from vf.core import Sub, check, close, recorded, st
from vf import gen, ref
from vf.e2e import Setup, analysis, fd

from pymultifracs.estimation import compute_hurst, estimate_hmin

FINDING = 'hmin-not-warned'


def _warn(ws):
    return [w for w in ws if 'h_min' in str(w.message) or 'hmin' in str(w.message)]


def verify(M, vals, j1, j2, weighted, rec):
    nj = ref.counts(vals)
    sup = {j: np.log2(np.nanmax(np.abs(v), axis=0)) for j, v in vals.items()}
    a, b = ref.line(sup, nj, j1, j2, weighted)
    with recorded() as ws:
        h, i = estimate_hmin(M, j1, j2, weighted)
    close(h, a, 'hmin', rtol=1e-7, atol=1e-7)
    close(i, b, 'intercept', rtol=1e-6, atol=1e-6)
    with recorded() as off:
        h2, i2, y = estimate_hmin(M, j1, j2, weighted, warn=False, return_y=True)
    close(h2, h, 'hmin without warnings')
    close(i2, i, 'intercept without warnings')
    close(y, np.stack([sup[j] for j in range(j1, j2 + 1)]), 'log2 of the suprema', rtol=1e-9, atol=1e-9)
    check(not _warn(off), 'a warning although they were turned off')
    if (a > 1e-9).all():
        check(not _warn(ws), f'hmin = {h} > 0 but a warning')
    elif (a < -1e-9).any() and not _warn(ws):
        rec.finding(FINDING, f'hmin = {h} < 0 without the documented warning')
    S = ref.structure(vals, 2.)
    z = ref.line({j: np.log2(v) for j, v in S.items()}, nj, j1, j2, weighted)[0]
    hurst, sf, curve = compute_hurst(M, j1, j2, weighted)
    close(hurst, z / 2, 'Hurst exponent', rtol=1e-7, atol=1e-7)
    close(curve, np.log2(np.stack([S[j] for j in sorted(vals)])), 'log2 S(j, 2)', rtol=1e-8, atol=1e-8)
    close(sf.zeta[0], z, 'zeta(2)', rtol=1e-7, atol=1e-7)
    return a


def quantity(c, rec):
    m = c['m']
    vals = gen.build_mrq(m)
    j1, j2 = gen.j_range(c, m['J'])
    a = verify(gen.make_mrq(m, vals), vals, j1, j2, c['weighted'], rec)
    rec.tag(m['nan'], f'R={m["R"]}', 'negative' if (a < 0).any() else 'positive')
    rec.good(j2 - j1 >= 1)


def signal(c, rec):
    s = Setup(c)
    if not s.ok:
        return
    W = s.wavelet()
    if not s.conditioned(W, 1e-10):
        return
    verify(W.wt_coefs, dict(W.wt_coefs.values), s.j1, s.j2, c['weighted'], rec)
    D = s.mfa(W)
    for side, M in (('dwt', W.wt_coefs), ('lwt', W.wt_leaders)):
        if M is not None:
            h, _ = estimate_hmin(M, s.j1, s.j2, c['weighted'])
            close(getattr(D, side).hmin, h, f'{side} hmin of the complete analysis', rtol=1e-9, atol=1e-9)
    h, _, _ = compute_hurst(W.wt_coefs, s.j1, s.j2, c['weighted'])
    if 2 in c['q']:
        close(h - c['gamint'], D.dwt.structure.H, 'H of the complete analysis', rtol=1e-8, atol=1e-8)
    rec.tag(str(c['p']))
    rec.good(True)


def limit(c, rec):
    """hmin is the limit of zeta(q)/q, and no coefficient regularity is below it at any scale pair."""
    m = dict(c['m'], spread=1.)
    vals = gen.build_mrq(m)
    J = m['J']
    from pymultifracs.structurefunction import StructureFunction
    M = gen.make_mrq(m, vals)
    q = 600. if J <= 7 else 300.         # 2^(0.2 J q) must be a number
    vals2 = {j: v / np.nanmax(np.abs(v), axis=0) * 2. ** (m['slope'] * 0.1 * j) for j, v in vals.items()}
    M = gen.make_mrq(m, vals2)
    sf = StructureFunction(M, np.array([q]), 1, J, c['weighted'])
    h, _ = estimate_hmin(M, 1, J, c['weighted'])
    close(h, np.full(m['R'], m['slope'] * 0.1), 'hmin of prescribed suprema', atol=1e-8)
    nj = max(v.shape[0] for v in vals.values())
    check((np.abs(sf.zeta[0] / q - h) <= 3 * np.log2(nj) / q).all(), f'zeta({q})/{q} = {sf.zeta[0] / q}, hmin {h}')
    rec.good(True)


CHECKS = [
    Sub('quantity', fd(m=gen.mrqs(), ja=gen.JA, jb=gen.JB, weighted=gen.WEIGHTED), quantity, 3200,
        rule='quantities with missing values; non-trivial: at least 2 scales'),
    Sub('signal', fd(**analysis()), signal, 1600, rule='complete analysis of signals; at least 2 scales'),
    Sub('limit', fd(m=gen.mrqs(), weighted=gen.WEIGHTED), limit, 800, rule='prescribed suprema at each scale'),
]
ASSUMPTIONS = ['non-zero values at each scale; the warning is judged when |hmin| > 1e-9']
