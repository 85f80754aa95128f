"""C05 - amplitude and polarity of the signal change no exponent."""
import numpy as np
from vf.core import Sub, check, close, st
from vf import gen
from vf.e2e import FIELDS, Setup, analysis, fd, flat, two

AMP = st.one_of(st.sampled_from([-1., 2., -0.5, 1024., -3., 1e-3, 1e6, -1e5, 1e-8, 1e-13, -3e-16, 2e-20, 1e12, -1e17]), gen.f(0.01, 50.))
SHIFT = {('structure', 'logvalues'), ('structure', 'values'), ('cumulants', 'values'), ('spectrum', 'V')}


def univariate(c, rec):
    s = Setup(c)
    if not s.ok:
        return
    a = c['a']
    X = np.array(s.X, dtype=float)
    W, V = s.wavelet(X), s.wavelet(a * X)
    if not s.conditioned(W):
        return
    if W.eta_p is not None:
        close(V.eta_p, W.eta_p, f'eta_p of {a} X', rtol=1e-7, atol=1e-7)
        if (np.abs(W.eta_p) < 1e-5).any():
            return
    A, B = flat(s.mfa(W)), flat(s.mfa(V))
    check(set(A) == set(B), f'outputs differ: {set(A) ^ set(B)}')
    q = np.array(c['q'])
    l2, ln = np.log2(abs(a)), np.log(abs(a))
    for F in (A, B):         # powers beyond the range of floating-point numbers
        if any(np.abs(F[k]).max() > 950 for k in F if k[2] == 'logvalues'):
            return
    for k in A:
        exp = A[k].copy()
        if k[1:] == ('structure', 'logvalues'):
            exp = exp + (q * l2)[:, None, None]
        elif k[1:] == ('structure', 'values'):
            close(B[k], exp * (abs(a) ** q)[:, None, None], f'{k} of {a} X', rtol=1e-5)
            continue
        elif k[1:] == ('cumulants', 'values'):
            exp[0] += ln
            # raw moments of log-values of mean mu: the cancellation grows with |mu|^m
            mu = 1 + max(np.abs(A[k][0]).max(), np.abs(exp[0]).max()) + 3 * np.sqrt(np.abs(A[k][1:2]).max(initial=1.))
            for m in range(len(exp)):
                close(B[k][m], exp[m], f'{k} order {m + 1} of {a} X', rtol=1e-5,
                      atol=1e-6 + 1e-13 * mu ** (m + 1))
            continue
        elif k[1:] == ('cumulants', 'log_cumulants'):
            mu = 1 + np.abs(A[k[:2] + ('values',)][0]).max() + abs(ln)
            for m in range(len(exp)):
                close(B[k][m], exp[m], f'{k} order {m + 1} of {a} X', rtol=1e-5,
                      atol=1e-6 + 1e-12 * mu ** (m + 1))
            continue
        elif k[1:] == ('spectrum', 'V'):
            exp = exp + l2
        close(B[k], exp, f'{"/".join(k)} of {a} X', rtol=1e-5, atol=2e-6)
    rec.tag(str(c['p']), 'flip' if a < 0 else 'same sign')
    rec.good(a != 1)


def bivariate(c, rec):
    from pymultifracs.bivariate import bivariate_analysis_full
    s = Setup(c)
    if not s.ok:
        return
    X = two(np.array(s.X, dtype=float))[:, 0]
    Y = gen.build(dict(c['sig'], R=0, layout='C', seed=c['seed2'], kind=c['kind2']))
    if not s.conditioned(s.wavelet(X)) or not s.conditioned(s.wavelet(Y)):
        return
    if s.p is not None and not np.isinf(s.p):
        for Z in (X, Y):
            e = s.wavelet(Z).eta_p
            if (np.abs(e) < 1e-5).any():
                return
    a, b = c['a'], c['b']
    q = np.array([0., 1., 2.] + [v for v in c['q'] if v not in (0., 1., 2.)][:2])
    kw = dict(j1=s.j1, j2=s.j2, normalization=c['norm'], gamint=c['gamint'], weighted=c['weighted'],
              wt_name=c['wt'], p_exp=s.p, q1=q, q2=q, n_cumul=c['n_cumul'])
    F, G = bivariate_analysis_full(X, Y, **kw), bivariate_analysis_full(a * X, b * Y, **kw)
    for side in ('dwt', 'lwt'):
        f, g = getattr(F, side), getattr(G, side)
        check((f is None) == (g is None), f'{side} missing')
        if f is None:
            continue
        sh = q[:, None, None] * np.log2(abs(a)) + q[None, :, None] * np.log2(abs(b))
        if max(np.abs(f.structure.logvalues).max(), np.abs(f.structure.logvalues + sh).max()) > 950:
            return           # powers beyond the range of floating-point numbers
        close(g.structure.logvalues, f.structure.logvalues + sh, f'{side} log2 S(j, q1, q2)', rtol=1e-5, atol=2e-6)
        close(g.structure.zeta, f.structure.zeta, f'{side} zeta(q1, q2)', rtol=1e-5, atol=2e-6)
        if side == 'dwt':
            # odd powers of coefficients keep their sign: only +-1 on the coherence
            close(g.structure.coherence, f.structure.coherence * np.sign(a * b), 'coherence', rtol=1e-6, atol=1e-7)
        else:
            close(g.structure.coherence, f.structure.coherence, 'coherence of leaders', rtol=1e-6, atol=1e-7)
        mu = 2 + abs(np.log(abs(a))) + abs(np.log(abs(b))) + np.abs(f.cumulants.values[0, 1]).max() \
            + np.abs(f.cumulants.values[1, 0]).max()
        for m1 in range(c['n_cumul'] + 1):
            for m2 in range(c['n_cumul'] + 1):
                if m1 and m2 and (m1, m2) != (1, 1) or m1 == m2 == 0:
                    continue
                close(g.cumulants.log_cumulants[m1, m2], f.cumulants.log_cumulants[m1, m2],
                      f'{side} c{m1}{m2}', rtol=1e-5, atol=1e-6 + 1e-12 * mu ** (m1 + m2))
        if f.cumulants.rho_mf is not None and np.isfinite(f.cumulants.rho_mf).all():
            v = abs(float(f.cumulants.log_cumulants[0, 2] * f.cumulants.log_cumulants[2, 0]))
            if v > 1e-6:
                close(g.cumulants.rho_mf, f.cumulants.rho_mf, 'rho_mf', rtol=1e-3, atol=1e-3)
    rec.tag(str(c['p']))
    rec.good(a != 1 or b != 1)


CHECKS = [
    Sub('univariate', fd(a=AMP, **analysis(ints=False)), univariate, 1500,
        rule='complete analysis of X and c X; non-trivial: c != 1'),
    Sub('bivariate', fd(a=AMP, b=AMP, seed2=gen.SEED, kind2=st.sampled_from(gen.KINDS),
                        **analysis(ints=False, r_max=0, n_max=600)), bivariate, 720,
        rule='bivariate analysis of (X, Y) and (a X, b Y); non-trivial: a != 1 or b != 1'),
]
ASSUMPTIONS = ['signals without coefficients at rounding level (their logarithm is noise)']
