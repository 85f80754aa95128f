"""C03 - wavelet leaders are local suprema of coefficients over 3 lambda and all finer scales."""
import numpy as np
from vf.core import Sub, check, close, st
from vf import gen, ref
from vf.e2e import Setup, analysis, fd, two


def reference(c, rec):
    s = Setup(c)
    if not s.ok:
        return
    W = s.wavelet()
    cf, L = W.wt_coefs.values, W.wt_leaders.values
    check(W.wt_leaders.formalism == 'wavelet leader', f'labelled {W.wt_leaders.formalism!r}')
    check(W.wt_leaders.gamint == c['gamint'], 'fractional integration exponent not recorded')
    check(W.eta_p is None, 'eta_p given for wavelet leaders')
    exp = ref.leaders({j: np.abs(v) for j, v in cf.items()}, np.inf)
    check(sorted(L) == sorted(exp), f'scales {sorted(L)}, expected {sorted(exp)}')
    for j in exp:
        close(L[j], exp[j], f'leaders at scale {j}', rtol=1e-12)
    # and from scratch, through the model of the coefficients
    X = two(s.X)
    own = ref.coefs(X, c['wt'], c['norm'], c['gamint'])
    full = ref.leaders({j: np.abs(v) for j, v in own.items()}, np.inf)
    for j in L:
        tol = max(1e-11 * (1e-300 + gen.top(X)) * 4. ** i
                  * 2. ** (i * (0.5 - 1 / c['norm'] + c['gamint'])) for i in range(1, j + 1))
        close(L[j], full[j], f'leaders at scale {j} (from the signal)', rtol=1e-8, atol=tol)
    J = max(L)
    finer = any((exp[j] > 1.0000001 * _own_scale(cf[j])).any() for j in L if j > 1)
    rec.tag(c['wt'], f'J={J}', f'R={c["sig"]["R"]}', 'finer scale dominates' if finer else 'own scale')
    rec.good(J >= 2)


def gaps(c, rec):
    """Missing samples: leaders are suprema over the coefficients that remain."""
    s = Setup(c)
    if not s.ok:
        return
    X = gen.punch(s.X, c['gaps'])
    own = ref.coefs(X, c['wt'], c['norm'], c['gamint'])
    full = ref.leaders({j: np.abs(v) for j, v in own.items()}, np.inf)
    if len(full) < 2:
        return
    W = s.wavelet(X)
    L = W.wt_leaders.values
    check(sorted(L) == sorted(full), f'scales {sorted(L)}, expected {sorted(full)}')
    check(W.j2_eff == min(s.j2, max(full)), f'effective upper scale {W.j2_eff}')
    for j in L:
        tol = max(1e-11 * (1e-300 + gen.top(X)) * 4. ** i
                  * 2. ** (i * (0.5 - 1 / c['norm'] + c['gamint'])) for i in range(1, j + 1))
        close(L[j], full[j], f'leaders at scale {j}, missing samples', rtol=1e-8, atol=tol)
        check(np.array_equal(W.wt_leaders.nj[j], (~np.isnan(L[j])).sum(axis=0)), f'scale {j}: counts')
    rec.tag(c['wt'], f'R={X.shape[1]}')
    rec.good(any(np.isnan(L[j]).any() for j in L))


def _own_scale(d):
    a = np.where(np.isnan(d), -1., np.abs(d))
    return np.maximum(np.maximum(a[:-2], a[1:-1]), a[2:])


def hierarchy(c, rec):
    """Leaders dominate every coefficient below them and never decrease from child to parent."""
    s = Setup(c)
    if not s.ok:
        return
    W = s.wavelet()
    cf, L = W.wt_coefs.values, W.wt_leaders.values
    links = 0
    for j in L:
        for i in range(1, j + 1):
            w = 2 ** (j - i)
            d = np.abs(cf[i])
            for k in range(len(L[j])):          # leader k sits on coefficient position k + 1
                blk = d[k * w:(k + 3) * w]
                top = np.where(np.isnan(blk), 0., blk).max(axis=0)
                check((np.isnan(L[j][k]) & np.isnan(blk).all(axis=0) | (L[j][k] >= top * (1 - 1e-12))).all(),
                      f'scale {j}, position {k}: leader {L[j][k]} below a coefficient {top} of scale {i}')
        if j + 1 in L:
            for k in range(len(L[j + 1])):
                for ch in (2 * (k + 1), 2 * (k + 1) + 1):
                    if 1 <= ch <= len(L[j]):
                        a, b = L[j + 1][k], L[j][ch - 1]
                        ok = ~np.isnan(b)
                        check((~ok | (a >= b * (1 - 1e-12))).all(),
                              f'leader {a} at scale {j + 1} below the leader {b} of its child')
                        links += int(ok.sum())
    rec.tag(c['wt'])
    rec.good(links > 10)


def rescale(c, rec):
    """Sign changes and amplitude: leaders of c X are |c| times those of X."""
    s = Setup(c)
    if not s.ok:
        return
    a = c['a']
    X = np.array(s.X, dtype=float)
    L, M = s.wavelet(X).wt_leaders.values, s.wavelet(X * a).wt_leaders.values
    tol = 1e-12 * gen.top(X) * abs(a)
    check(sorted(L) == sorted(M), 'the scales depend on the amplitude')
    for j in L:
        g = max(4. ** i * 2. ** (i * (0.5 - 1 / c['norm'] + c['gamint'])) for i in range(1, j + 1))
        close(M[j], abs(a) * L[j], f'leaders of {a} X at scale {j}', rtol=1e-9, atol=tol * g)
    rec.tag('a<0' if a < 0 else 'a>0')
    rec.good(len(L) >= 2)


INF = st.just('inf')
CHECKS = [
    Sub('reference', fd(**analysis(p=INF, big=6000, kinds=gen.KINDS + gen.SPARSE)), reference, 1800,
        rule='signal x wavelet x norm x gamint against sup over 3 lambda and finer scales; '
             'non-trivial: at least 2 scales'),
    Sub('gaps', fd(gaps=gen.GAPS, **analysis(p=INF, n_max=1500, ints=False, kinds=gen.KINDS + gen.SPARSE)), gaps, 800,
        rule='signals with missing samples; non-trivial: some leader is missing'),
    Sub('hierarchy', fd(**analysis(p=INF, n_max=400, r_max=2)), hierarchy, 480,
        rule='every leader against every coefficient below it; non-trivial: > 10 parent-child pairs'),
    Sub('rescale', fd(**analysis(p=INF), a=st.sampled_from([-1., 2., -0.25, 3.7, -1e5, 1e-4])), rescale, 480,
        rule='leaders of c X; non-trivial: at least 2 scales'),
]
ASSUMPTIONS = ['real signals, missing samples given as NaN; border coefficients are the missing ones of C01']
