"""C01 - wavelet coefficients are border-free inner products with the dilated wavelet."""
import numpy as np
import pywt
from vf.core import Sub, check, close, st
from vf import gen, ref

from pymultifracs.wavelet import wavelet_analysis

NORM = st.sampled_from([1, 1, 2, 0.5, 3, 1.5, 4, 25])
GAM = st.sampled_from([0., 0., 0.5, 1., -0.5, 1.3, 2., -1.6, 3.])


KIN = {}
for _w in pywt.wavelist(kind='discrete'):
    KIN.setdefault(pywt.Wavelet(_w).dec_len, []).append(_w)


def _analysis(X, wt, c):
    return wavelet_analysis(X, p_exp=gen.pval(c['p']), wt_name=wt, j1=1, j2=c['j2'],
                            gamint=c['gamint'], normalization=c['norm'], weighted=c['weighted'])


def base(n_max=900, **kw):
    return dict(sig=gen.signals(n_max=n_max, **kw), wt=st.sampled_from(gen.WAVELETS), norm=NORM,
                gamint=GAM, p=st.sampled_from([None, None, 'inf', 2, 1]),
                j2=st.sampled_from([None, 10, 3, 5]), weighted=gen.WEIGHTED)


def _enough(X, c):
    """The signal has the scales the formalism asks for."""
    J = gen.scales_for(len(X), c['wt'], leaders=c['p'] is not None)
    return J >= 2 or c['p'] in (None, 'inf')


def _two(X):
    return X[:, None] if X.ndim == 1 else X


def tolerance(X, c, j):
    return 1e-11 * (1e-300 + gen.top(X)) * 4. ** j * 2. ** (j * (0.5 - 1 / c['norm'] + c['gamint']))


def reference(c, rec):
    X = gen.build(c['sig'])
    wt = c['wt']
    J = gen.scales_for(len(X), wt, leaders=c['p'] is not None)
    if not _enough(X, c):
        return
    # whatever wavelet was used before, possibly one of the same length
    kin = [w for w in KIN.get(ref.filter_len(wt), []) if w != wt]
    if kin:
        wavelet_analysis(np.cumsum(np.arange(64.)), wt_name=kin[int(c['before'] * (len(kin) - 1))], j2=1)
    W = _analysis(X, wt, c)
    exp = ref.coefs(_two(X), wt, c['norm'], c['gamint'])
    got = W.wt_coefs.values
    rec.tag(wt, f'J={J}', f'p={c["p"]}', f'R={c["sig"]["R"]}', c['sig']['layout'])
    rec.good(J >= 2)
    check(W.wt_coefs.formalism == 'wavelet coef', 'coefficients are not labelled as such')
    check(W.wt_coefs.gamint == c['gamint'], 'fractional integration exponent not recorded')
    check(set(got) <= set(exp), f'scales {sorted(got)} but the signal only supports {sorted(exp)}')
    check(len(got) >= J, f'scales {sorted(got)} returned, {J} are usable')
    for j in got:
        close(got[j], exp[j], f'coefficients at scale {j}', rtol=1e-8, atol=tolerance(X, c, j))
    if c['p'] is None:
        check(W.wt_leaders is None, 'leaders returned without having been requested')


def gaps(c, rec):
    """Missing samples: exactly the coefficients that need one are missing, whatever stood there."""
    X0 = _two(gen.build(dict(c['sig'], layout='C')))
    X = gen.punch(X0, c['gaps'])
    exp = ref.coefs(X, c['wt'], c['norm'], c['gamint'])
    if len(exp) < 2:
        return
    c = dict(c, p=None)
    before = X.copy()
    W = _analysis(X[:, 0] if c['flat'] and X.shape[1] == 1 else X, c['wt'], c)
    got = W.wt_coefs.values
    check(np.array_equal(X, before, equal_nan=True), 'signal modified')
    check(sorted(got) == sorted(exp), f'scales {sorted(got)}, expected {sorted(exp)}')
    full = _analysis(X0, c['wt'], c).wt_coefs.values
    for j in got:
        tol = tolerance(X0, c, j)
        close(got[j], exp[j], f'coefficients at scale {j}, missing samples', rtol=1e-8, atol=tol)
        use = ~np.isnan(got[j])
        check(np.array_equal(W.wt_coefs.nj[j], use.sum(axis=0)), f'scale {j}: counts {W.wt_coefs.nj[j]}')
        close(np.where(use, full[j], 0.), np.where(use, got[j], 0.), f'scale {j}: missing samples filled in', rtol=1e-8,
              atol=tol)
    rec.tag(c['wt'], f'R={X.shape[1]}')
    rec.good(any((np.isnan(got[j]) & ~np.isnan(full[j])).any() for j in got))


def embedding(c, rec):
    """The same samples inside a longer signal, at a multiple of 2^J, give the same values."""
    X = _two(gen.build(dict(c['sig'], layout='C')))
    wt = c['wt']
    if not _enough(X, c):
        return
    W = _analysis(X, wt, c).wt_coefs.values
    if not W:
        return
    J = max(W)
    lead = c['lead'] * 2 ** J
    rng = np.random.RandomState(c['seed2'])
    A = gen.top(X) * c['outer']
    Y = np.concatenate([A * rng.standard_normal((lead, X.shape[1])), X,
                        A * rng.standard_normal((c['trail'], X.shape[1]))])
    V = _analysis(Y, wt, c).wt_coefs.values
    rec.tag(wt, f'J={J}')
    rec.good(J >= 2 and lead + c['trail'] > 0)
    for j in W:
        check(j in V, f'scale {j} is lost when the signal is longer')
        sh = lead >> j
        big = V[j][sh:sh + len(W[j])]
        check(len(big) == len(W[j]), f'scale {j}: fewer positions in the longer signal')
        use = ~np.isnan(W[j])
        check(not np.isnan(big[use]).any(), f'scale {j}: usable value lost in a longer signal')
        close(np.where(use, W[j], 0.), np.where(use, big, 0.),
              f'scale {j}: coefficients inside a longer signal', rtol=1e-8,
              atol=tolerance(np.concatenate([X, Y]), c, j))


def locality(c, rec):
    """Changing one sample only moves coefficients whose dilated wavelet covers it, linearly."""
    X = _two(gen.build(dict(c['sig'], layout='C')))
    wt = c['wt']
    n, M = len(X), ref.filter_len(wt)
    if not _enough(X, c):
        return
    pos = int(c['at'] * (n - 1))
    Y = X.copy()
    Y[pos] += c['jump'] * (1 + gen.top(X))
    W, V = _analysis(X, wt, c).wt_coefs.values, _analysis(Y, wt, c).wt_coefs.values
    check(sorted(W) == sorted(V), 'the scales depend on the values')
    D = np.zeros_like(X)
    D[pos] = Y[pos] - X[pos]
    lin = ref.coefs(D, wt, c['norm'], c['gamint'])
    touched = 0
    for j in W:
        check(np.array_equal(np.isnan(W[j]), np.isnan(V[j])), f'scale {j}: mask depends on the values')
        tol = tolerance(np.concatenate([X, Y]), c, j)
        close(V[j] - W[j], lin[j], f'scale {j}: effect of one sample', rtol=1e-7, atol=tol)
        # dilated support: samples 2^j k + [.. (M-1)(2^j - 1) before .. after]
        k = np.arange(len(W[j]))
        reach = (M - 1) * (2 ** j - 1) + 2 ** j
        far = np.abs(2 ** j * (k + 1) - 1 - pos) > reach
        close(np.where(far[:, None], np.nan_to_num(V[j] - W[j]), 0.), np.zeros_like(W[j]),
              f'scale {j}: coefficients far from the changed sample moved', atol=tol)
        touched += int((np.nan_to_num(np.abs(lin[j])) > tol).sum())
    rec.tag(wt, 'touched' if touched else 'in border')
    rec.good(touched > 0)


def linear(c, rec):
    s = dict(c['sig'], layout='C', R=1)
    X = gen.build(s)
    Y = gen.build(dict(s, seed=c['seed2'], kind=c['kind2']))
    a, b = c['a'], c['b']
    wt = c['wt']
    if not _enough(X, c):
        return
    WX, WY, WZ = (_analysis(Z, wt, c).wt_coefs.values for Z in (X, Y, a * X + b * Y))
    check(sorted(WX) == sorted(WY) == sorted(WZ), 'the scales depend on the values')
    rec.tag(wt)
    rec.good(len(WX) >= 2 and a and b)
    for j in WX:
        tol = tolerance(np.concatenate([X, Y]) * (1 + abs(a) + abs(b)), c, j)
        close(WZ[j], a * WX[j] + b * WY[j], f'scale {j}: linearity', rtol=1e-7, atol=tol)


def fd(**kw):
    return st.fixed_dictionaries(kw)


CHECKS = [
    Sub('reference', fd(before=gen.FRAC, **base(big=9000, kinds=gen.KINDS + gen.SPARSE)), reference, 3600,
        rule='signal x wavelet x norm x gamint x formalism against a windowed-inner-product model; '
             'non-trivial: at least 2 scales'),
    Sub('gaps', fd(gaps=gen.GAPS, flat=st.booleans(), **dict(base(n_max=1500, ints=False))), gaps, 1600,
        rule='signals with missing samples; non-trivial: they make some coefficient missing'),
    Sub('embedding', fd(**base(n_max=500, r_max=2), lead=st.integers(0, 3), trail=st.integers(0, 300),
                        outer=st.sampled_from([1., 30., 1e3]), seed2=gen.SEED), embedding, 1600,
        rule='signal inside a longer one with unrelated samples around; non-trivial: at least 2 '
             'scales and something added'),
    Sub('locality', fd(**base(n_max=700, r_max=2), at=gen.FRAC, jump=gen.f(-5., 5.)), locality, 1600,
        rule='one sample changed; non-trivial: some usable coefficient moves'),
    Sub('linear', fd(**base(n_max=700), a=gen.f(-3., 3.), b=gen.f(-3., 3.), seed2=gen.SEED,
                     kind2=st.sampled_from(gen.KINDS)), linear, 1200,
        rule='a X + b Y; non-trivial: both factors non-zero, at least 2 scales'),
]
ASSUMPTIONS = ['real signals, missing samples given as NaN; filter taps are those of PyWavelets']
