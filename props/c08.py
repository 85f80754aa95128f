"""C08 - realisations are analysed independently of one another."""
import numpy as np
from vf.core import Sub, check, close, st
from vf import gen, ref
from vf.e2e import Setup, analysis, fd, flat, same, column, two


def _mats(W):
    out = {}
    for name in ('wt_coefs', 'wt_leaders'):
        m = getattr(W, name)
        if m is not None:
            out.update({(name, j): v for j, v in m.values.items()})
            out.update({(name, 'nj', j): np.asarray(v)[None] for j, v in m.nj.items()})
    if W.eta_p is not None:
        out['eta_p', 0] = np.asarray(W.eta_p)[None]
    return out


def _hetero(c):
    """Realisations of different nature side by side."""
    s = c['sig']
    return np.stack([gen.build(dict(s, R=0, layout='C', kind=k, seed=(s['seed'] + 7 * i) % 2**31,
                                    amp=s['amp'] * c['amps'][i % len(c['amps'])]))
                     for i, k in enumerate(c['cols'])], axis=1)


def columns(c, rec):
    X = _hetero(c)
    s = Setup(c, X)
    if not s.ok:
        return
    W = s.wavelet()
    if W.eta_p is not None and (np.abs(W.eta_p) < 1e-7).any():
        return
    every, est = _mats(W), flat(s.mfa(W))
    R = X.shape[1]
    for r in range(R):
        alone = s.wavelet(X[:, r] if c['flat'] else X[:, r:r + 1])
        one = _mats(alone)
        check(set(one) == set(every), f'scales of realisation {r} depend on the others')
        for k in one:
            close(one[k], every[k][:, r:r + 1], f'{k}: realisation {r} of {R} against the same alone', rtol=1e-8,
                  atol=1e-12 * gen.top(X) if k[0] == 'wt_coefs' else 0.)
        check(alone.j2_eff == W.j2_eff, 'effective upper scale')
        if s.conditioned(alone):
            same(flat(s.mfa(alone)), column(est, r), f'realisation {r} of {R} against the same alone', rtol=1e-6,
                 atol=1e-6)
            if R > 1:
                rec.good()
    rec.tag(f'R={R}', str(c['p']), 'flat' if c['flat'] else 'column')


def permuted(c, rec):
    X = _hetero(c)
    s = Setup(c, X)
    if not s.ok:
        return
    R = X.shape[1]
    idx = np.array([int(v * R) % R for v in c['take']])     # permutation, repetition or selection
    W, V = s.wavelet(X), s.wavelet(np.ascontiguousarray(X[:, idx]))
    if W.eta_p is not None and (np.abs(W.eta_p) < 1e-7).any():
        return
    if not s.conditioned(W):
        return
    A, B = _mats(W), _mats(V)
    check(set(A) == set(B), 'scales')
    for k in A:
        close(B[k], A[k][:, idx], f'{k} for realisations {idx.tolist()}', rtol=1e-8)
    F, G = flat(s.mfa(W)), flat(s.mfa(V))
    same({k: v[..., idx] for k, v in F.items()}, G, f'realisations {idx.tolist()}', rtol=1e-6, atol=1e-6)
    rec.tag(f'R={R}->{len(idx)}', str(c['p']))
    rec.good(R > 1)


def gaps(c, rec):
    """Realisations with their own missing samples: the scales that are left are the same as alone."""
    X0 = _hetero(c)
    s = Setup(c, X0)
    if not s.ok:
        return
    R = X0.shape[1]
    X = gen.punch(X0, c['gaps'])
    own = ref.coefs(X, c['wt'], leaders=False)
    J = len(own)
    if J <= s.j1:
        return
    j2 = min(J, s.j2)
    W = s.wavelet(X, j2=j2)
    if W.eta_p is not None and (np.abs(W.eta_p) < 1e-7).any():
        return
    if W.j2_eff <= s.j1 or not _conditioned(s, W):
        return
    every, est = _mats(W), flat(s.mfa(W))
    for r in range(R):
        alone = s.wavelet(X[:, r] if c['flat'] else X[:, r:r + 1], j2=j2)
        one = _mats(alone)
        # further scales may be usable alone
        check(set(every) <= set(one), f'scales of realisation {r} are lost alone')
        for k in every:
            if k[0] == 'wt_leaders' and s.p not in (None, np.inf) and alone.j2_eff != W.j2_eff:
                continue
            close(one[k], every[k][:, r:r + 1], f'{k}: realisation {r} of {R}, missing samples, against alone', rtol=1e-8,
                  atol=1e-12 * gen.top(X) if k[0] == 'wt_coefs' else 0.)
        if max(alone.wt_coefs.values) == J and alone.j2_eff == W.j2_eff:
            same(flat(s.mfa(alone)), column(est, r), f'realisation {r} of {R}, missing samples, against alone', rtol=1e-6,
                 atol=1e-6)
            rec.good(R > 1)
    rec.tag(f'R={R}', str(c['p']))


def _conditioned(s, W):
    m = np.nanmin(np.abs(s.X).max(axis=0))
    for j, v in W.wt_coefs.values.items():
        gain = 2. ** (j * (1 - 1 / s.c['norm'] + s.c['gamint']))
        if not np.nanmin(np.abs(v)) > 1e-7 * m * gain * 2. ** (j / 2):
            return False
    return W.wt_leaders is None or all(np.nanmin(v) > 0 for v in W.wt_leaders.values.values())


def mrq(c, rec):
    """Estimators on a quantity with missing values that differ between realisations."""
    from pymultifracs.mfa import MFractalData, mf_analysis
    m = c['m']
    vals = gen.build_mrq(m)
    j1, j2 = gen.j_range(c, m['J'])
    kw = dict(j2_eff=j2, j1=j1, weighted=c['weighted'], n_cumul=c['n_cumul'], q=np.array(c['q']))

    def run(v):
        return flat(mf_analysis(gen.make_mrq(m, v), None, **kw))
    every = run(vals)
    for r in range(m['R']):
        same(run({j: v[:, r:r + 1] for j, v in vals.items()}), column(every, r), f'realisation {r} of {m["R"]}',
             rtol=1e-7, atol=1e-8)
    rec.tag(f'R={m["R"]}', m['nan'])
    rec.good(m['R'] > 1 and m['nan'] == 'scattered')


def spectrum(c, rec):
    """Wavelet PSD of signals side by side."""
    from pymultifracs.psd import wavelet_estimation
    X = _hetero(c)
    nm = c['nm']
    if ref.n_scales(len(X), 2 * nm, False) < 3:
        return
    if c['gaps']:
        X = gen.punch(X, c['gaps'])
        if len(ref.coefs(X, f'db{nm}')) < 1:
            return
    P = wavelet_estimation(X, c['fs'], nm)
    n = len(P.freq)          # further scales may be usable alone
    for r in range(X.shape[1]):
        Q = wavelet_estimation(X[:, r], c['fs'], nm)
        check(len(Q.freq) == n or c['gaps'] and len(Q.freq) > n, 'scales')
        close(Q.psd[:n], P.psd[:, r:r + 1], f'wavelet PSD, realisation {r}', rtol=1e-7)
        close(Q.freq[:n], P.freq, 'frequencies', rtol=1e-12)
    rec.tag(f'R={X.shape[1]}', 'missing samples' if c['gaps'] else 'complete')
    rec.good(X.shape[1] > 1)


COLS = dict(cols=gen.rare(st.lists(st.sampled_from(gen.KINDS), min_size=1, max_size=4),
                          st.lists(st.sampled_from(gen.KINDS), min_size=5, max_size=9), 12),
            amps=st.lists(st.sampled_from([1., 1e-3, 20., 1e4]), min_size=1, max_size=3))
CHECKS = [
    Sub('columns', fd(flat=st.booleans(), **COLS, **analysis(ints=False)), columns, 320,
        rule='each realisation alone (vector or column) against all together; non-trivial: several '
             'realisations, complete analysis compared'),
    Sub('gaps', fd(flat=st.booleans(), gaps=gen.GAPS, **COLS, **analysis(ints=False, n_max=1500)), gaps, 320,
        rule='realisations with their own missing samples; non-trivial: several realisations, complete analysis compared'),
    Sub('permuted', fd(take=st.lists(gen.FRAC, min_size=1, max_size=4), **COLS, **analysis(ints=False)), permuted, 240,
        rule='realisations permuted, repeated or selected; non-trivial: several realisations'),
    Sub('mrq', fd(m=gen.mrqs(r_max=4), ja=gen.JA, jb=gen.JB, weighted=gen.WEIGHTED, q=gen.q_lists(),
                  n_cumul=st.integers(1, 5)), mrq, 400,
        rule='quantities with missing values; non-trivial: several realisations with their own gaps'),
    Sub('spectrum', fd(sig=gen.signals(n_min=100), nm=st.integers(1, 5), gaps=st.one_of(st.just([]), gen.GAPS), fs=st.sampled_from([1., 10., 250.]), **COLS),
        spectrum, 240, rule='wavelet PSD; non-trivial: several realisations'),
]
ASSUMPTIONS = ['missing samples given as NaN; complete analyses compared when no coefficient is at rounding level']
