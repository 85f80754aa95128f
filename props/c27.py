"""C27 - end to end: the parameters of synthesised processes are recovered from them."""
import numpy as np
from vf.core import Sub, check, st
from vf import gen
from vf.e2e import fd

from pymultifracs.fractal_analysis import fractal_analysis
from pymultifracs.mfa import mf_analysis_full
from pymultifracs.signal import Signal
from pymultifracs.simul import fbm, mrw, mrw_cumul

N, R = 4096, 12


def near(v, exp, tol, what):
    check(abs(v - exp) < tol, lambda: f'{what}: estimated {v:.3f}, process has {exp:.3f} (tolerance {tol})')


def recover(c, rec):
    H, lam, p = c['H'], c['lam'], gen.pval(c['p'])
    np.random.seed(c['seed'] % 2**32)
    kw = dict(sigma=c['sigma']) if c['sigma'] != 1 else {}
    if lam == 0:
        X = fbm((N, R), H, **kw)
    elif c['cumul']:
        X = mrw_cumul((N, R), H + lam ** 2, -lam ** 2, N, **kw)
    else:
        X = mrw((N, R), H, lam, N, **kw)
    g = c['gamint'] if c['norm'] == 1 else 0.
    a = dict(weighted=c['weighted'], wt_name=c['wt'], p_exp=p, q=[-1., 0., 1., 2.] if p else [0., 1., 2.], n_cumul=2,
             gamint=g, normalization=c['norm'])
    d = mf_analysis_full(X, 3, 7, **a)
    # the norm shifts exponents by 1 - 1 / p, integration by gamint (removed from H only)
    shift = 1 - 1 / c['norm']
    near(d.dwt.structure.H.mean() - shift, H, 0.15, 'H')
    s = d.lwt or d.dwt
    near(s.cumulants.c1.mean() - shift - g, H + lam ** 2, 0.15, 'c1')
    near(s.cumulants.c2.mean(), -lam ** 2, 0.08 if p else 0.35, 'c2')
    if p:
        check(s.cumulants.M.shape == s.cumulants.c2.shape, 'M')
        near(s.spectrum.hq[list(s.spectrum.q).index(0)].mean() - shift - g, H + lam ** 2, 0.16, 'h at q=0')
        near(s.spectrum.Dq[list(s.spectrum.q).index(0)].mean(), 1., 0.05, 'D at q=0')
        z = s.structure.zeta
        q = np.array([-1., 0., 1., 2.])
        for k, v in enumerate(q):
            near(z[k].mean() - v * (shift + g), v * (H + lam ** 2) - lam ** 2 * v ** 2 / 2, 0.15 * max(abs(v), 0.2), f'zeta({v})')
    # power spectrum |f|^-(2H + 1); one realisation is noisier
    fs = 100.
    b = np.mean([fractal_analysis(X[:, r], fs, 3, (0.7 * fs / 2 ** 9, 0.8 * fs / 2 ** 3)).beta for r in range(R)])
    near(b, -(2 * H + 1), 0.5, 'spectral slope')
    S = Signal(X, fs)
    S.wavelet_analysis(3, 7, c['norm'], g, c['weighted'], c['wt'], p)
    near(S.hurst()[0].mean() - shift - g, H, 0.15, 'Signal.hurst')
    rec.tag('fBm' if lam == 0 else 'MRW', f'p={c["p"]}')
    rec.good()


CHECKS = [
    Sub('recover', fd(H=gen.f(0.35, 0.85), lam=st.sampled_from([0, 0, 0.1, 0.2, 0.3]), seed=gen.SEED,
                      p=st.sampled_from(['inf', 2, 1, None]), wt=st.sampled_from(['db2', 'db3', 'sym3']),
                      gamint=st.sampled_from([0., 0., 0.25, 0.5]), norm=st.sampled_from([1, 1, 2]),
                      sigma=st.sampled_from([1, 7.]), weighted=gen.WEIGHTED, cumul=st.booleans()), recover, 400, 12000,
        rule='12 realisations of 4096 samples each; every case'),
]
ASSUMPTIONS = ['estimates averaged over 12 realisations, tolerances about four times the calibrated bias and noise']
