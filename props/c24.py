"""C24 - scales and frequencies correspond; build_q_log gives the documented exponents."""
import numpy as np
from vf.core import Sub, check, close, st
from vf import gen, ref
from vf.e2e import fd

from pymultifracs.psd import wavelet_estimation
from pymultifracs.utils import build_q_log, fband2scale, freq2scale, scale2freq


def inverse(c, rec):
    fs, rng = c['fs'], np.random.RandomState(c['seed'])
    for s in (c['s'], int(c['s']), float(c['s'])):
        f = scale2freq(s, fs)
        close(f, 0.75 * fs / 2. ** s, 'scale2freq', rtol=1e-12)
        close(freq2scale(f, fs), s, 'freq2scale(scale2freq)', rtol=1e-9, atol=1e-9)
    S = np.arange(1, 15)
    close(scale2freq(S, fs), [0.75 * fs / 2. ** s for s in range(1, 15)], 'scale2freq of integer scales', rtol=1e-12)
    S = rng.uniform(-2, 15, 7)
    close(freq2scale(scale2freq(S, fs), fs), S, 'arrays', rtol=1e-9, atol=1e-9)
    F = fs * np.exp(rng.uniform(-8, 1, 6))
    close(scale2freq(freq2scale(F, fs), fs), F, 'scale2freq(freq2scale)', rtol=1e-9)
    close(freq2scale(3 * F, 3 * fs), freq2scale(F, fs), 'only f / fs matters', rtol=1e-9, atol=1e-9)
    rec.good(c['s'] != int(c['s']))


def band(c, rec):
    """fband2scale gives the smallest and the largest scale whose frequency is in the band."""
    fs, a, b = c['fs'], c['a'], c['b']
    a, b = (a, b) if a >= b else (b, a)          # scales: a >= b
    exact = fs == 2 ** round(np.log2(fs))        # f / fs is then exact at integer scales: limits included
    for v in (a, b):
        if v != round(v) and abs(v - round(v)) < 1e-6 or v == round(v) and not exact:             # rounding decides there
            return
    rec.tag('limit on a scale' if a == round(a) or b == round(b) else 'limits between scales')
    lo, hi = 0.75 * fs * 2. ** -a, 0.75 * fs * 2. ** -b
    j1, j2 = fband2scale((lo, hi), fs)
    inside = [j for j in range(-5, 25) if lo <= 0.75 * fs * 2. ** -j <= hi]
    check(isinstance(j1, int) and isinstance(j2, int), 'scales are integers')
    if inside:
        check((j1, j2) == (inside[0], inside[-1]), f'band {(lo, hi)} at {fs}: {(j1, j2)}, expected '
                                                   f'{(inside[0], inside[-1])}')
    else:
        check(j1 > j2, f'empty band gives {(j1, j2)}')
    check(fband2scale([lo, hi], fs) == (j1, j2), 'list')
    rec.tag(f'{min(len(inside), 8)} scales')
    rec.good(len(inside) > 0)


def wavelet(c, rec):
    X = gen.build(c['sig'])
    if ref.n_scales(len(X), 2 * c['nm'], False) < 2:
        return
    w = wavelet_estimation(X, c['fs'], c['nm'])
    j = np.arange(1, len(w.freq) + 1)
    close(w.freq, [scale2freq(int(v), c['fs']) for v in j], 'frequencies of the wavelet PSD', rtol=1e-12)
    close(freq2scale(w.freq, c['fs']), j, 'scales of the wavelet PSD', rtol=1e-9)
    k = int(c['k'] * (len(j) - 1))
    check(fband2scale((w.freq[-1] * 0.9, w.freq[k] * 1.1), c['fs']) == (k + 1, len(j)), 'band covering scales')
    rec.good(len(j) > 2)


def q_log(c, rec):
    lo, hi, n = c['lo'], c['hi'], c['n']
    q = build_q_log(lo, hi, n)
    check(isinstance(q, np.ndarray) and q.ndim == 1, 'type')
    check((np.diff(q) > 0).all(), f'not strictly increasing: {q}')
    close(q, -q[::-1], 'symmetric', rtol=1e-12)
    check(all(v in q for v in (-2, -1, 0, 1, 2)), f'-2, -1, 0, 1, 2 not all in {q}')
    exp = np.exp(np.log(lo) + (np.log(hi) - np.log(lo)) * np.arange(n) / max(n - 1, 1))
    every = np.concatenate([exp, -exp, [-2, -1, 0, 1, 2]])
    d = np.abs(q[:, None] - every[None, :])
    check((d.min(axis=1) <= 1e-9 * np.abs(q)).all(), f'unexpected values in {q}')
    check((d.min(axis=0) <= 1e-9 * np.abs(every)).all(), f'missing values in {q}')
    check(len(q) <= 2 * n + 5, 'too many values')
    rec.tag('integers' if lo == int(lo) else 'fractions')
    rec.good(n > 1)


FS = st.sampled_from([1., 2, 10., 250, 512., 1000.5, 44100., 1e-3])
EDGE = st.one_of(gen.f(0, 15), gen.f(-3, 15), st.integers(-3, 15))
CHECKS = [
    Sub('inverse', fd(s=st.one_of(gen.f(-3, 20), st.integers(1, 15)), fs=FS, seed=gen.SEED), inverse, 6000,
        rule='scale to frequency and back; non-trivial: fractional scale'),
    Sub('band', fd(a=EDGE, b=EDGE, fs=FS), band, 8000,
        rule='bands against enumeration of scales; non-trivial: at least one scale inside'),
    Sub('wavelet', fd(sig=gen.signals(n_min=80, n_max=500), nm=st.integers(1, 4), fs=FS, k=gen.FRAC), wavelet, 1200,
        rule='frequencies of wavelet PSDs; non-trivial: 3 scales'),
    Sub('q_log', fd(lo=st.one_of(gen.f(0.01, 5), st.sampled_from([1, 0.1, 2, 0.5]), gen.f(-12, -2).map(lambda v: 10. ** v)),
                    hi=st.one_of(gen.f(0.01, 20), st.sampled_from([10, 2, 5, 8.])), n=st.integers(1, 40)), q_log, 8000,
        rule='exponents against the documented set; non-trivial: more than one value'),
]
