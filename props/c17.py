"""C17 - bivariate moments and cumulants: definition, marginals, symmetry, X with itself."""
from math import factorial

import numpy as np
from vf.core import Sub, check, close, st
from vf import gen, ref
from vf.e2e import Setup, analysis, fd
from props.c14 import _pair

from pymultifracs.bivariate.bivariate_cumulants import BiCumulants
from pymultifracs.bivariate.bivariate_structurefunction import BiStructureFunction
from pymultifracs.cumulants import Cumulants
from pymultifracs.structurefunction import StructureFunction

FINDING = 'joint-cumulants-not-implemented'


def joint_cumulant(x, y, m1, m2):
    """Cumulant of (x repeated m1 times, y repeated m2 times), from raw moments over partitions."""
    z = [x - x.mean()] * m1 + [y - y.mean()] * m2
    if m1 + m2 == 1:
        return (x if m1 else y).mean()

    def parts(s):
        if not s:
            yield []
            return
        h, t = s[0], s[1:]
        for k in range(2 ** len(t)):
            blk = [h] + [v for i, v in enumerate(t) if k >> i & 1]
            rest = [v for i, v in enumerate(t) if not k >> i & 1]
            for p in parts(rest):
                yield [blk] + p
    tot = 0.
    for p in parts(list(range(len(z)))):
        n = len(p)
        tot += (-1) ** (n - 1) * factorial(n - 1) * \
            np.prod([np.mean(np.prod([z[i] for i in b], axis=0)) for b in p])
    return tot


def definition(c, rec):
    m, a, b = _pair(c)
    j1, j2 = gen.j_range(c, m['J'])
    q1, q2 = np.array(c['q']), np.array(c['q2'])
    P, Q = gen.make_mrq(m, a), gen.make_mrq(m, b)
    sf = BiStructureFunction(P, Q, j1, j2, q1, q2, c['weighted'])
    n = c['n_cumul']
    cm = BiCumulants(P, Q, n, j1, j2, c['weighted'])
    J = sorted(a)
    check(list(sf.j) == J and list(cm.j) == J and list(cm.m) == list(range(n + 1)), 'scales and orders')
    check(sf.formalism == cm.formalism == m['formalism'] and sf.gamint == m['gamint'], 'attributes')
    check(sf.logvalues.shape == (len(q1), len(q2), len(J)) and cm.values.shape == (n + 1, n + 1, len(J)), 'shapes')
    for k, j in enumerate(J):
        ok = ~np.isnan(a[j][:, 0])
        x, y = np.abs(a[j][ok, 0]), np.abs(b[j][ok, 0])
        for i, u in enumerate(q1):
            for l, v in enumerate(q2):
                close(sf.logvalues[i, l, k], np.log2(np.mean(x ** u * y ** v)), f'log2 S(j={j}, {u}, {v})',
                      rtol=1e-8, atol=1e-8)
        lx, ly = np.log(x), np.log(y)
        mu = 1 + max(np.abs(lx).max(), np.abs(ly).max())
        for m1 in range(n + 1):
            for m2 in range(n + 1):
                if m1 == m2 == 0 or m1 and m2 and m1 + m2 > 5:
                    continue
                e = joint_cumulant(lx, ly, m1, m2)
                tol = 1e-8 + 1e-13 * mu ** (m1 + m2)
                if m1 and m2 and m1 + m2 > 2:
                    got = cm.values[m1, m2, k]
                    if not abs(got - e) <= tol + 1e-6 * abs(e):
                        check(got == 0, f'C{m1}{m2}(j={j}) = {got}, expected {e}')
                        rec.finding(FINDING, f'C{m1}{m2}(j={j}) = {got}, expected {e}')
                    continue
                close(cm.values[m1, m2, k], e, f'C{m1}{m2}(j={j})', rtol=1e-6, atol=tol)
                close(np.ravel(getattr(cm, f'C{m1}{m2}'))[k], e, f'attribute C{m1}{m2}(j={j})', rtol=1e-6, atol=tol)
    for m1, m2 in ((1, 0), (0, 1), (2, 0), (0, 2), (1, 1)):
        if max(m1, m2) > n:
            continue
        close(np.ravel(getattr(cm, f'c{m1}{m2}')), cm.log_cumulants[m1, m2].reshape(1), f'attribute c{m1}{m2}')
    nj = ref.counts(a)
    s = {j: np.log2(np.mean(np.abs(a[j][~np.isnan(a[j])]) ** q1[0] * np.abs(b[j][~np.isnan(a[j])]) ** q2[-1])).reshape(1)
         for j in J}
    close(sf.zeta[0, -1].reshape(1), ref.line(s, nj, j1, j2, c['weighted'])[0], 'zeta(q1, q2)', rtol=1e-7, atol=1e-7)
    rec.tag(m['nan'], m['formalism'], f'orders {n}')
    rec.good(m['nan'] != 'none' or len(q1) != len(q2))


def marginal(c, rec):
    """q2 = 0 (or m2 = 0) is the univariate analysis of the first quantity, and conversely."""
    m, a, b = _pair(c)
    j1, j2 = gen.j_range(c, m['J'])
    q = np.array(c['q'])
    P, Q = gen.make_mrq(m, a), gen.make_mrq(m, b)
    z = np.array([0.] + [v for v in c['q2'] if v != 0])
    s1 = BiStructureFunction(P, Q, j1, j2, q, z, c['weighted'])
    s2 = BiStructureFunction(P, Q, j1, j2, z, q, c['weighted'])
    cm = BiCumulants(P, Q, c['n_cumul'], j1, j2, c['weighted'])
    for M, L, Z, w in ((P, s1.logvalues[:, 0], s1.zeta[:, 0], 'first'), (Q, s2.logvalues[0], s2.zeta[0], 'second')):
        u = StructureFunction(M, q, j1, j2, c['weighted'])
        close(L, u.logvalues[..., 0], f'log2 S, {w} alone', rtol=1e-8, atol=1e-9)
        close(Z, u.zeta[:, 0], f'zeta, {w} alone', rtol=1e-8, atol=1e-8)
        v = Cumulants(M, c['n_cumul'], j1, j2, c['weighted'])
        mu = 1 + max(np.nanmax(np.abs(np.log(np.abs(x)))) for x in M.values.values())
        for k in range(1, c['n_cumul'] + 1):
            at = (k, 0) if w == 'first' else (0, k)
            tol = 1e-8 + 1e-13 * mu ** k
            close(cm.values[at], v.values[k - 1, :, 0], f'C_{k}(j), {w} alone', rtol=1e-7, atol=tol)
            close(cm.log_cumulants[at], v.log_cumulants[k - 1, 0], f'c_{k}, {w} alone', rtol=1e-6, atol=50 * tol)
    rec.good(len(q) > 1)


def swap(c, rec):
    m, a, b = _pair(c)
    j1, j2 = gen.j_range(c, m['J'])
    q1, q2 = np.array(c['q']), np.array(c['q2'])
    if c['coh']:
        q1, q2 = (np.array([0., 1., 2.] + [v for v in q if v not in (0., 1., 2.)]) for q in (q1, q2))
    P, Q = gen.make_mrq(m, a), gen.make_mrq(m, b)
    s, t = BiStructureFunction(P, Q, j1, j2, q1, q2, c['weighted']), BiStructureFunction(Q, P, j1, j2, q2, q1, c['weighted'])
    close(t.logvalues, np.swapaxes(s.logvalues, 0, 1), 'log2 S of (Y, X)', rtol=1e-9, atol=1e-9)
    close(t.zeta, s.zeta.T, 'zeta of (Y, X)', rtol=1e-9, atol=1e-9)
    if s.coherence is not None:
        close(t.coherence, s.coherence, 'coherence of (Y, X)', rtol=1e-8, atol=1e-9)
    u, v = BiCumulants(P, Q, c['n_cumul'], j1, j2, c['weighted']), BiCumulants(Q, P, c['n_cumul'], j1, j2, c['weighted'])
    close(v.values, np.swapaxes(u.values, 0, 1), 'cumulants of (Y, X)', rtol=1e-8, atol=1e-8)
    close(v.log_cumulants, u.log_cumulants.T, 'log-cumulants of (Y, X)', rtol=1e-7, atol=1e-7)
    if u.rho_mf is not None and np.isfinite(u.rho_mf).all():
        close(v.rho_mf, u.rho_mf, 'rho_mf of (Y, X)', rtol=1e-5, atol=1e-6)
        close(v.RHO_MF, u.RHO_MF, 'RHO_MF of (Y, X)', rtol=1e-5, atol=1e-6)
    if c['n_cumul'] < 2:
        rec.good(True)
        return
    h, L = u.compute_legendre((0.1, 1.2), 9)
    g, N = v.compute_legendre((0.1, 1.2), 9)
    if np.isfinite(L).all() and np.abs(L).max() < 1e6:
        close(N, L.T, 'spectrum of (Y, X)', rtol=1e-5, atol=1e-5)
    rec.good(True)


def itself(c, rec):
    """(X, X): S(q1, q2) is the univariate S(q1 + q2) and C11 the variance."""
    m, a, _ = _pair(c)
    j1, j2 = gen.j_range(c, m['J'])
    q1, q2 = np.array(c['q']), np.array(c['q2'])
    P = gen.make_mrq(m, a)
    s = BiStructureFunction(P, P, j1, j2, q1, q2, c['weighted'])
    for i, u in enumerate(q1):
        w = StructureFunction(P, u + q2, j1, j2, c['weighted'])
        close(s.logvalues[i], w.logvalues[..., 0], f'log2 S({u}, .)', rtol=1e-8, atol=1e-8)
        close(s.zeta[i], w.zeta[:, 0], f'zeta({u}, .)', rtol=1e-7, atol=1e-7)
    cm = BiCumulants(P, P, 2, j1, j2, c['weighted'])
    v = Cumulants(P, 2, j1, j2, c['weighted'])
    close(np.ravel(cm.C11), np.ravel(v.C2), 'C11 of (X, X)', rtol=1e-7, atol=1e-8)
    close(np.ravel(cm.c11), np.ravel(v.c2), 'c11 of (X, X)', rtol=1e-6, atol=1e-6)
    rec.good(len(q1) + len(q2) > 2)


def signals(c, rec):
    """From two signals: quantities of each on their own, then the joint definition."""
    from pymultifracs.bivariate import bivariate_analysis_full
    s = Setup(c)
    if not s.ok:
        return
    X = s.X if s.X.ndim == 1 else s.X[:, :1]
    Y = gen.build(dict(c['sig'], R=0, seed=c['seed2'], kind=c['kind2']))
    if c['mix']:
        Y = c['mix'] * np.std(Y) / max(np.std(X), 1e-12) * np.ravel(X) + Y
    A, B = s.wavelet(X), s.wavelet(Y)
    if not (s.conditioned(A, 1e-9) and Setup(c, Y).conditioned(B, 1e-9)):
        return
    q = c['q']
    D = bivariate_analysis_full(X, Y, s.j1, s.j2, c['norm'], c['gamint'], c['weighted'], c['wt'], s.p,
                                q1=np.array(q), q2=np.array(q), n_cumul=2)
    for side, a, b in (('dwt', A.wt_coefs, B.wt_coefs), ('lwt', A.wt_leaders, B.wt_leaders)):
        if a is None:
            continue
        d = getattr(D, side)
        nj = ref.counts(a.values)
        cov, logs = {}, {}
        for k, j in enumerate(a.values):
            ok = ~np.isnan(a.values[j][:, 0])
            x, y = np.abs(a.values[j][ok, 0]), np.abs(b.values[j][ok, 0])
            logs[j] = np.log2(np.mean(x ** q[0] * y ** q[-1])).reshape(1)
            close(d.structure.logvalues[0, -1, k], logs[j][0], f'{side} log2 S(j={j})', rtol=1e-7, atol=1e-7)
            lx, ly = np.log(x), np.log(y)
            cov[j] = np.mean((lx - lx.mean()) * (ly - ly.mean())).reshape(1)
            close(d.cumulants.values[1, 1, k], cov[j][0], f'{side} C11(j={j})', rtol=1e-6, atol=1e-7)
        close(d.structure.zeta[0, -1], ref.line(logs, nj, s.j1, s.j2, c['weighted'])[0][0], f'{side} zeta', rtol=1e-6, atol=1e-6)
        close(d.cumulants.log_cumulants[1, 1], ref.line(cov, nj, s.j1, s.j2, c['weighted'])[0][0] * np.log2(np.e),
              f'{side} c11', rtol=1e-6, atol=1e-6)
    rec.tag(str(c['p']))
    rec.good(True)


COMMON = dict(m=gen.mrqs(), ja=gen.JA, jb=gen.JB, weighted=gen.WEIGHTED, q=gen.q_lists(), q2=gen.q_lists(),
              seed2=gen.SEED, mix=gen.f(-1.5, 1.5), slope2=gen.f(-1, 1), n_cumul=st.integers(1, 4))
CHECKS = [
    Sub('definition', fd(**COMMON), definition, 960,
        rule='pairs of quantities with the same gaps against joint moments and cumulants; non-trivial: gaps, '
             'or lists of exponents of different lengths'),
    Sub('marginal', fd(**COMMON), marginal, 900, rule='one exponent zero against the univariate analysis; several exponents'),
    Sub('swap', fd(coh=st.booleans(), **COMMON), swap, 720, rule='(X, Y) against (Y, X)'),
    Sub('itself', fd(**COMMON), itself, 720, rule='(X, X) against the univariate analysis; several exponents'),
    Sub('signals', fd(mix=st.sampled_from([0., 0., 1., -2.]), seed2=gen.SEED, kind2=st.sampled_from(gen.KINDS),
                      **analysis(q=gen.q_lists())), signals, 720, rule='pairs of signals through the one-call analysis'),
]
ASSUMPTIONS = ['both quantities are sampled at the same positions; non-zero values; at least 2 orders']
