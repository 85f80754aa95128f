"""C13 - quantities that scale exactly give back exactly their exponents."""
import numpy as np
from vf.core import Sub, check, close, st
from vf import gen
from vf.e2e import fd

from pymultifracs.bivariate.bivariate_cumulants import BiCumulants
from pymultifracs.bivariate.bivariate_structurefunction import BiStructureFunction
from pymultifracs.estimation import compute_hurst, estimate_hmin
from pymultifracs.mfa import mf_analysis
from pymultifracs.multiresquantity import MultiResolutionQuantity

LE = np.log2(np.e)
FORM = st.sampled_from(['wavelet coef', 'wavelet leader', 'wavelet p-leader'])


def _messy(v, rng, pad, signs):
    """Shuffle one scale, add missing values anywhere and random signs: no estimate may see it."""
    v = rng.permutation(v)
    if signs:
        v = v * np.where(rng.rand(len(v)) < 0.5, -1., 1.)
    out = np.full(len(v) + pad, np.nan)
    out[np.sort(rng.permutation(len(out))[:len(v)])] = v
    return out


def _mrq(form, gam, cols):
    q = MultiResolutionQuantity(form, gam)
    for j in range(1, len(cols[0]) + 1):
        vs = [c[j - 1] for c in cols]
        n = max(len(v) for v in vs)
        m = np.full((n, len(vs)), np.nan)
        for r, v in enumerate(vs):
            m[:len(v), r] = v
        q.add_values(m, j)
    return q


def selfsimilar(c, rec):
    """|d(j, k)| = 2^{jh} v_k: zeta = q h, c1 = h, c_m = 0, D = 1, hmin = h, whatever the weights."""
    rng = np.random.RandomState(c['seed'])
    J, h = c['J'], c['h']
    cols = []
    for r in range(c['R']):
        v = np.exp(c['spread'] * rng.standard_normal(c['n']))
        cols.append([_messy(v * 2. ** (j * h[r % len(h)]), rng, int(rng.randint(0, 6)),
                            c['form'] == 'wavelet coef') for j in range(1, J + 1)])
    H = np.array([h[r % len(h)] for r in range(c['R'])])
    M = _mrq(c['form'], c['gamint'], cols)
    j1, j2 = gen.j_range(c, J)
    q = np.array(c['q'])
    D = mf_analysis(M, M, j2, j1, c['weighted'], c['n_cumul'], q)
    for d in (D.dwt, D.lwt):
        close(d.structure.zeta, q[:, None] * H, 'zeta(q)', atol=1e-7)
        if 2 in c['q']:
            close(d.structure.H, H - c['gamint'], 'H', atol=1e-7)
        exp = np.zeros((c['n_cumul'], c['R']))
        exp[0] = H
        mu = 3 + 2 * np.abs(H).max() * J + 4 * c['spread']
        for m in range(c['n_cumul']):
            close(d.cumulants.log_cumulants[m], exp[m], f'c_{m + 1}', atol=1e-7 + 1e-12 * mu ** (m + 1))
        close(d.spectrum.Dq, np.ones((len(q), c['R'])), 'D(q)', atol=1e-7)
        close(d.spectrum.hq, np.tile(H, (len(q), 1)), 'h(q)', atol=1e-7)
        close(d.hmin, H, 'hmin', atol=1e-7)
    close(compute_hurst(M, j1, j2, c['weighted'])[0], H, 'Hurst exponent', atol=1e-7)
    close(estimate_hmin(M, j1, j2, c['weighted'])[0], H, 'hmin', atol=1e-7)
    rec.tag(c['form'], f'R={c["R"]}')
    rec.good(any(c['h']))


def _levels(J, B, w, rng_of):
    """Cascade: at scale j, products of J + 1 - j factors taken among the B weights."""
    out, v = [], np.ones(1)
    for _ in range(J):
        v = np.repeat(v, B) * np.tile(w, len(v))
        out.append(v)
    return out[::-1]


def cascade(c, rec):
    """Multiplicative cascade with B weights: closed forms of every exponent."""
    B = len(c['w'])
    J = {2: 8, 3: 6, 4: 5}[B]
    rng = np.random.RandomState(c['seed'])
    cols, ws = [], []
    for r in range(c['R']):
        w = np.array(c['w']) ** (1 + 0.3 * r)
        ws.append(w)
        cols.append([_messy(v, rng, c['pad'], c['form'] == 'wavelet coef') for v in _levels(J, B, w, rng)])
    M = _mrq(c['form'], c['gamint'], cols)
    j1, j2 = gen.j_range(c, J)
    q = np.array(c['q'])
    D = mf_analysis(M, M, j2, j1, c['weighted'], c['n_cumul'], q)
    for d in (D.dwt, D.lwt):
        for r, w in enumerate(ws):
            l = np.log(w)
            k = [l.mean(), l.var(), ((l - l.mean()) ** 3).mean(),
                 ((l - l.mean()) ** 4).mean() - 3 * l.var() ** 2]
            close(d.structure.zeta[:, r], [-np.log2(np.mean(w ** v)) for v in q], 'zeta(q)', atol=1e-6)
            for m in range(min(4, c['n_cumul'])):
                close(d.cumulants.log_cumulants[m, r], -k[m] * LE, f'c_{m + 1}', atol=1e-6, rtol=1e-6)
            for i, v in enumerate(q):
                p = w ** v / (w ** v).sum()
                close(d.spectrum.hq[i, r], -(p * np.log2(w)).sum(), f'h({v})', atol=1e-6)
                close(d.spectrum.Dq[i, r], 1 - np.log2(B) - (p * np.log2(p)).sum(), f'D({v})', atol=1e-6)
            close(d.hmin[r], -np.log2(w.max()), 'hmin', atol=1e-7)
            close(np.ravel(d.cumulants.M)[r], k[1] * LE, 'M', atol=1e-6)
    rec.tag(c['form'], f'B={B}', f'R={c["R"]}')
    rec.good(len(set(c['w'])) > 1)


def bicascade(c, rec):
    """Two cascades on the same tree: joint exponents, correlation and coherence in closed form."""
    B = min(len(c['w']), len(c['w2']))
    a, b = np.array(c['w'][:B]), np.array(c['w2'][:B])
    if c['form'] == 'wavelet coef':
        a, b = a * np.array(c['s1'][:B]), b * np.array(c['s2'][:B])
    J = {2: 8, 3: 6, 4: 5}[B]
    rng = np.random.RandomState(c['seed'])
    ca, cb = [], []
    for x, y in zip(_levels(J, B, a, rng), _levels(J, B, b, rng)):
        o = rng.permutation(len(x))
        n = len(x) + c['pad']
        at = np.sort(rng.permutation(n)[:len(x)])
        u, v = np.full(n, np.nan), np.full(n, np.nan)
        u[at], v[at] = x[o], y[o]
        ca.append(u)
        cb.append(v)
    M1, M2 = _mrq(c['form'], c['gamint'], [ca]), _mrq(c['form'], c['gamint'], [cb])
    j1, j2 = gen.j_range(c, J)
    q = np.array([0., 1., 2.] + [v for v in c['q'] if v not in (0., 1., 2.)])
    sf = BiStructureFunction(M1, M2, j1, j2, q, q, c['weighted'])
    for i, u in enumerate(q):
        for k, v in enumerate(q):
            close(sf.zeta[i, k], -np.log2(np.mean(np.abs(a) ** u * np.abs(b) ** v)), f'zeta({u}, {v})', atol=1e-6)
    coh = np.mean(a * b) / np.sqrt(np.mean(a * a) * np.mean(b * b))
    close(np.ravel(sf.coherence), coh ** (J + 1. - np.arange(1, J + 1)), 'coherence', atol=1e-8)
    cm = BiCumulants(M1, M2, c['n_cumul'], j1, j2, c['weighted'])
    la, lb = np.log(np.abs(a)), np.log(np.abs(b))
    cov = np.mean((la - la.mean()) * (lb - lb.mean()))
    for name, val in (('c10', la.mean()), ('c01', lb.mean()), ('c20', la.var()), ('c02', lb.var()), ('c11', cov)):
        close(np.ravel(getattr(cm, name))[0], -val * LE, name, atol=1e-6)
    if c['form'] != 'wavelet coef' and min(la.var(), lb.var()) > 1e-3:
        rho = cov / np.sqrt(la.var() * lb.var())
        close(np.ravel(cm.rho_mf)[0], rho, 'rho_mf', atol=1e-5)
        close(np.ravel(cm.RHO_MF), np.full(J, rho), 'RHO_MF(j)', atol=1e-6)
    rec.tag(c['form'], f'B={B}')
    rec.good(len(set(c['w'])) > 1 and len(set(c['w2'])) > 1)


W = st.lists(gen.f(0.15, 1.6), min_size=2, max_size=4)
SG = st.lists(st.sampled_from([1., -1., 1.]), min_size=4, max_size=4)
COMMON = dict(seed=gen.SEED, form=FORM, gamint=st.sampled_from([0., 0., 0.5, 1., -0.3]), weighted=gen.WEIGHTED,
              ja=gen.JA, jb=gen.JB, n_cumul=st.integers(2, 4), pad=st.integers(0, 9))
CHECKS = [
    Sub('selfsimilar', fd(J=st.integers(3, 9), n=st.integers(8, 80), h=st.lists(gen.f(-1., 2.), min_size=1, max_size=3),
                          R=st.integers(1, 3), spread=gen.f(0.1, 1.5), q=gen.q_lists(), **COMMON), selfsimilar, 1200,
        rule='quantities exactly 2^{jh} times the same values, shuffled and with gaps; non-trivial: h != 0'),
    Sub('cascade', fd(w=W, R=st.integers(1, 2), q=gen.q_lists(), **COMMON), cascade, 1000,
        rule='multiplicative cascades with 2 to 4 weights; non-trivial: different weights'),
    Sub('bicascade', fd(w=W, w2=W, s1=SG, s2=SG, q=gen.q_lists(neg=False), **COMMON), bicascade, 800,
        rule='pairs of cascades on one tree; non-trivial: both multifractal'),
]
ASSUMPTIONS = ['quantities filled in scale by scale from scale 1']
