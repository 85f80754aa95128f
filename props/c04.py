"""C04 - p-leaders: local l^p norms of coefficients, with the finite-resolution correction."""
import numpy as np
from vf.core import Sub, check, close, recorded, st
from vf import gen, ref
from vf.e2e import GAM, NORM, Setup, analysis, fd, two

P = st.one_of(st.sampled_from([2, 1, 3, 0.5, 2.0, 4, 1.5, 2.7, 6, 0.25, 5, 1.0, 3.0, 7, 8, 9, 10, 12, 16.5]), gen.f(0.3, 6.))


def _warned(ws):
    return [w for w in ws if 'correction' in str(w.message)]


def reference(c, rec):
    s = Setup(c)
    if not s.ok:
        return
    with recorded() as ws:
        W = s.wavelet()
    p = s.p
    cf, L = W.wt_coefs.values, W.wt_leaders.values
    check(W.wt_leaders.formalism == 'wavelet p-leader', f'labelled {W.wt_leaders.formalism!r}')
    check(W.wt_leaders.gamint == c['gamint'], 'fractional integration exponent not recorded')
    mult = np.abs(cf[1][~np.isnan(cf[1])])
    if not mult.max() > 0 or not all((np.nansum(np.abs(v), axis=0) > 0).all() for v in cf.values()):
        return
    eta = ref.eta(cf, p, s.j1, s.j2, c['weighted'])
    close(W.eta_p, eta, 'eta_p', rtol=1e-8, atol=1e-8)
    if (np.abs(eta) < 1e-6).any():
        return
    exp = ref.correct(ref.leaders({j: np.abs(v) for j, v in cf.items()}, p), eta, p)
    check(sorted(L) == sorted(exp), f'scales {sorted(L)}, expected {sorted(exp)}')
    for j in exp:
        close(L[j], exp[j], f'p-leaders (p={p}) at scale {j}', rtol=1e-7)
    low = (eta <= 0)
    if low.any():
        check(_warned(ws), f'eta_p = {eta} and no warning that the correction was not applied')
    else:
        check(not _warned(ws), f'eta_p = {eta} > 0 but a warning says the correction was not applied')
    rec.tag(f'p={c["p"]}' if c['p'] in gen.P_EXPS else 'p other',
            'none corrected' if low.all() else 'mixed' if low.any() else 'all corrected',
            'weighted' if c['weighted'] else 'plain', f'j1={s.j1}')
    rec.good(len(L) >= 2)


def mixed(c, rec):
    """Rough and smooth realisations together: each is corrected, or not, on its own."""
    rng = np.random.RandomState(c['sig']['seed'])
    n = c['sig']['n']
    z = rng.standard_normal((n, len(c['rough'])))
    X = np.stack([np.diff(np.append(z[:, i], 0.)) if r else np.cumsum(np.cumsum(z[:, i]))
                  for i, r in enumerate(c['rough'])], axis=1)
    s = Setup(c, X)
    if not s.ok:
        return
    with recorded() as ws:
        W = s.wavelet()
    eta = np.asarray(W.eta_p)
    check(eta.shape == (X.shape[1],), f'eta_p of shape {eta.shape} for {X.shape[1]} realisations')
    if (np.abs(eta) < 1e-6).any():
        return
    low = eta <= 0
    check(bool(_warned(ws)) == bool(low.any()), f'eta_p={eta}: warnings {[str(w.message) for w in _warned(ws)]}')
    raw = ref.leaders({j: np.abs(v) for j, v in W.wt_coefs.values.items()}, s.p)
    for j, v in W.wt_leaders.values.items():
        for r in range(X.shape[1]):
            fac = 1. if low[r] else ((1 - 2. ** (-j * eta[r])) / (1 - 2. ** -eta[r])) ** (-1 / s.p)
            close(v[:, r], raw[j][:, r] * fac, f'realisation {r}, scale {j}, eta_p={eta[r]}', rtol=1e-7)
    rec.tag('mixed' if low.any() and not low.all() else 'uniform')
    rec.good(low.any() and not low.all())


def gaps(c, rec):
    """Missing samples: norms over the coefficients that remain."""
    s = Setup(c)
    if not s.ok:
        return
    X = gen.punch(s.X, c['gaps'])
    own = ref.coefs(X, c['wt'], c['norm'], c['gamint'])
    full = ref.leaders({j: np.abs(v) for j, v in own.items()}, s.p)
    if len(full) < 2 or sorted(full) != sorted(own) or s.j1 >= min(s.j2, max(full)):
        return
    W = s.wavelet(X)
    cf, L = W.wt_coefs.values, W.wt_leaders.values
    check(sorted(L) == sorted(full), f'scales {sorted(L)}, expected {sorted(full)}')
    eta = ref.eta(cf, s.p, s.j1, W.j2_eff, c['weighted'])
    close(W.eta_p, eta, 'eta_p, missing samples', rtol=1e-8, atol=1e-8)
    if (np.abs(eta) < 1e-6).any():
        return
    exp = ref.correct(ref.leaders({j: np.abs(v) for j, v in cf.items()}, s.p), eta, s.p)
    for j in exp:
        close(L[j], exp[j], f'p-leaders (p={s.p}) at scale {j}, missing samples', rtol=1e-7)
        check(np.array_equal(W.wt_leaders.nj[j], (~np.isnan(L[j])).sum(axis=0)), f'scale {j}: counts')
    rec.tag(f'R={X.shape[1]}')
    rec.good(any(np.isnan(L[j]).any() for j in L))


CHECKS = [
    Sub('reference', fd(**analysis(p=P, big=4000, kinds=gen.KINDS + gen.SPARSE)), reference, 1800,
        rule='signal x wavelet x p in [0.25, 6] x scale range x weights against the definition, '
             'eta_p from the structure function of order p; non-trivial: at least 2 scales'),
    Sub('gaps', fd(gaps=gen.GAPS, **analysis(p=P, n_max=1500, ints=False)), gaps, 800,
        rule='signals with missing samples; non-trivial: some p-leader is missing'),
    Sub('mixed', fd(**dict(analysis(p=P, gamint=st.just(0.), norm=st.just(1), n_min=100),
                           rough=st.lists(st.booleans(), min_size=1, max_size=4))), mixed, 800,
        rule='rough and smooth realisations side by side; non-trivial: some corrected, some not'),
]
ASSUMPTIONS = ['real signals, missing samples given as NaN, not identically zero; |eta_p| > 1e-6 where the sign decides']
