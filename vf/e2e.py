"""Shared pieces of the end-to-end checks: one analysis described by a JSON case."""
import math

import numpy as np

from . import gen, ref
from .core import check, close, st

NORM = st.sampled_from([1, 1, 2, 0.5, 3, 1.5, 4, 16])
GAM = st.sampled_from([0., 0., 0.5, 1., -0.5, 1.3, 2.])
FORMALISMS = st.sampled_from([None, 'inf', 'inf', 2, 1, 3, 0.5, 1.5, 4, 2.7])


def fd(**kw):
    return st.fixed_dictionaries(kw)


def two(X):
    return X[:, None] if X.ndim == 1 else X


def analysis(p=FORMALISMS, gamint=GAM, norm=NORM, wavelets=gen.WAVELETS, q=None, n_min=40,
             n_max=900, **kw):
    """Fields of a case describing one complete analysis."""
    return dict(sig=gen.signals(n_min=n_min, n_max=n_max, **kw), wt=st.sampled_from(wavelets),
                norm=norm, gamint=gamint, p=p, weighted=gen.WEIGHTED, ja=gen.JA, jb=gen.JB,
                q=gen.q_lists() if q is None else q, n_cumul=gen.rare(st.integers(1, 5), st.integers(6, 8), 10))


class Setup:
    def __init__(self, c, X=None):
        self.c = c
        self.X = gen.build(c['sig']) if X is None else X
        self.p = gen.pval(c['p'])
        self.J = ref.n_scales(len(self.X), ref.filter_len(c['wt']), leaders=self.p is not None)
        r = gen.j_range(c, self.J)
        self.ok = r is not None
        if self.ok:
            self.j1, self.j2 = r

    def wavelet(self, X=None, **over):
        from pymultifracs.wavelet import wavelet_analysis
        c = self.c
        kw = dict(p_exp=self.p, wt_name=c['wt'], j1=self.j1, j2=self.j2, gamint=c['gamint'],
                  normalization=c['norm'], weighted=c['weighted'])
        kw.update(over)
        return wavelet_analysis(self.X if X is None else X, **kw)

    def mfa(self, W, **over):
        from pymultifracs.mfa import mf_analysis
        c = self.c
        kw = dict(j1=self.j1, weighted=c['weighted'], n_cumul=c['n_cumul'], q=np.array(c['q']))
        kw.update(over)
        return mf_analysis(W.wt_coefs, W.wt_leaders, W.j2_eff, **kw)

    def full(self, X=None, **over):
        from pymultifracs.mfa import mf_analysis_full
        c = self.c
        kw = dict(j1=self.j1, j2=self.j2, normalization=c['norm'], gamint=c['gamint'],
                  weighted=c['weighted'], wt_name=c['wt'], p_exp=self.p, q=np.array(c['q']),
                  n_cumul=c['n_cumul'])
        kw.update(over)
        return mf_analysis_full(self.X if X is None else X, **kw)

    def conditioned(self, W, ratio=1e-7):
        """No coefficient lost in the rounding of the signal (logs and negative moments of such
        values are rounding noise)."""
        m = gen.top(self.X)
        for j, v in W.wt_coefs.values.items():
            gain = 2. ** (j * (1 - 1 / self.c['norm'] + self.c['gamint']))
            a = np.abs(v[~np.isnan(v)])
            if not (a.min() > ratio * m * gain * 2. ** (j / 2)):
                return False
        if W.wt_leaders is not None:
            for v in W.wt_leaders.values.values():
                if not (np.nanmin(v) > 0):
                    return False
        return True


FIELDS = dict(structure=('logvalues', 'values', 'zeta', 'H'), cumulants=('values', 'log_cumulants'),
              spectrum=('U', 'V', 'Dq', 'hq'))


def flat(data):
    """Every number of a result of multifractal analysis: {(dwt|lwt, part, field): array}."""
    out = {}
    for side in ('dwt', 'lwt'):
        d = getattr(data, side)
        if d is None:
            continue
        for part, names in FIELDS.items():
            o = getattr(d, part)
            if o is None:
                continue
            for f in names:
                v = getattr(o, f)
                if v is not None:
                    out[side, part, f] = np.array(v)
        if d.hmin is not None:
            out[side, 'hmin', ''] = np.array(d.hmin)
    return out


def same(a, b, what, rtol=1e-9, atol=1e-9, skip=()):
    check(set(a) == set(b), f'{what}: different outputs {sorted(set(a) ^ set(b))}')
    for k in a:
        if k in skip or k[1:] in skip:
            continue
        if k[1] == 'cumulants' and len(a[k]) > 5:
            # formed from raw moments of a variable that is not centred
            v = a[k[0], 'cumulants', 'values']
            L = 1 + top(v[0]) + 4 * np.sqrt(top(v[1]))
            for m in range(5, len(a[k])):
                close(b[k][m], a[k][m], f'{what}: {"/".join(k)}, order {m + 1}', rtol=rtol,
                      atol=max(atol, 1e-13 * math.factorial(m + 1) * L**(m + 1)))
            close(b[k][:5], a[k][:5], f'{what}: {"/".join(k)}', rtol=rtol, atol=atol)
            continue
        close(b[k], a[k], f'{what}: {"/".join(k)}', rtol=rtol, atol=atol)


def top(v):
    v = np.abs(v[np.isfinite(v)])
    return v.max() if v.size else 0.


def column(a, r, skip_axis=None):
    """Keep one realisation (last axis) of every output."""
    return {k: v[..., r:r + 1] for k, v in a.items()}
