"""C10 - structure functions are sample moments over usable values; zeta and H follow from them."""
import numpy as np
from vf.core import Sub, check, close, st
from vf import gen, ref
from vf.e2e import Setup, analysis, fd

from pymultifracs.structurefunction import StructureFunction


def verify(sf, vals, q, j1, j2, weighted, gamint, formalism, rtol=1e-9):
    J = sorted(vals)
    R = vals[J[0]].shape[1]
    S = np.array([[ref.structure(vals, v)[j] for j in J] for v in q])
    check(list(sf.j) == J, f'scales {list(sf.j)}')
    check(sf.formalism == formalism and sf.gamint == gamint and sf.nrep == R, 'attributes of the quantity')
    check((sf.j1, sf.j2, bool(sf.weighted)) == (j1, j2, weighted), 'parameters of the fit')
    close(sf.values, S, 'S(j, q)', rtol=rtol)
    close(sf.logvalues, np.log2(S), 'log2 S(j, q)', rtol=1e-8, atol=1e-8)
    nj = ref.counts(vals)
    zeta = np.zeros((len(q), R))
    icpt = np.zeros((len(q), R))
    for i in range(len(q)):
        zeta[i], icpt[i] = ref.line({j: np.log2(S[i, k]) for k, j in enumerate(J)}, nj, j1, j2, weighted)
    close(sf.zeta, zeta, 'zeta(q)', rtol=1e-7, atol=1e-7)
    for i, v in enumerate(q):
        if v == 0:
            close(sf.zeta[i], np.zeros(R), 'zeta(0)', atol=1e-10)
            close(sf.logvalues[i], np.zeros((len(J), R)), 'log2 S(j, 0)', atol=1e-10)
    two = [i for i, v in enumerate(q) if v == 2]
    if not two:
        check(sf.H is None, f'H = {sf.H} although 2 is not among the exponents')
        check(sf.get_intercept() is None, 'an intercept for q = 2 that was not asked for')
    else:
        close(sf.H, zeta[two[0]] / 2 - gamint, 'H', rtol=1e-7, atol=1e-7)
        close(sf.get_intercept(), icpt[two[0]], 'intercept for q = 2', rtol=1e-6, atol=1e-6)


def quantity(c, rec):
    m = c['m']
    vals = gen.build_mrq(m)
    j1, j2 = gen.j_range(c, m['J'])
    c = dict(c, q=[v for v in c['q'] if not m['zeros'] or v >= 0] or [1.5])
    q = np.array(c['q'], dtype=int if c['intq'] and all(v == int(v) and v >= 0 for v in c['q']) else float)
    sf = StructureFunction(gen.make_mrq(m, vals), q, j1, j2, c['weighted'])
    verify(sf, vals, c['q'], j1, j2, c['weighted'], m['gamint'], m['formalism'])
    rec.tag(m['nan'], m['formalism'], f'R={m["R"]}', 'H' if 2 in c['q'] else 'no H', q.dtype.kind,
            'weighted' if c['weighted'] else 'plain')
    rec.good(any(v not in (0, 1, 2) for v in c['q']) or m['nan'] != 'none')


def zeros(c, rec):
    """Values that are exactly 0 count like any other, even when nothing else is left at a scale."""
    m = dict(c['m'], mag=1., zeros=c['zeros'])
    vals = gen.build_mrq(m)
    void = [j for j in vals if int(c['void'] * 3 * m['J']) == j]
    for j in void:
        vals[j][~np.isnan(vals[j])] = 0.
    j1, j2 = gen.j_range(c, m['J'])
    q = [abs(v) for v in c['q']]
    with np.errstate(all='ignore'):
        sf = StructureFunction(gen.make_mrq(m, vals), np.array(q), j1, j2, c['weighted'])
        S = np.array([[ref.structure(vals, v)[j] for j in sorted(vals)] for v in q])
        close(sf.values, S, 'S(j, q) with zeros', rtol=1e-9)
        close(sf.logvalues, np.log2(S), 'log2 S(j, q) with zeros', rtol=1e-8, atol=1e-8)
    for i, v in enumerate(q):
        if v > 0 and any(j1 <= j <= j2 for j in void):
            check(not np.isfinite(sf.zeta[i]).any(), f'zeta({v}) = {sf.zeta[i]} with nothing but zeros at scale {void}')
        else:
            z = ref.line({j: np.log2(S[i, k]) for k, j in enumerate(sorted(vals))}, ref.counts(vals), j1, j2, c['weighted'])[0]
            close(sf.zeta[i], z, f'zeta({v})', rtol=1e-7, atol=1e-7)
    rec.tag('a scale of zeros' if void else 'some zeros')
    rec.good(any((v == 0).any() for v in vals.values()))


def signal(c, rec):
    s = Setup(c)
    if not s.ok:
        return
    W = s.wavelet()
    if not s.conditioned(W, 1e-10):
        return
    D = s.mfa(W)
    for side, mrq in (('dwt', W.wt_coefs), ('lwt', W.wt_leaders)):
        if mrq is None:
            check(getattr(D, side) is None, f'{side} without leaders')
            continue
        verify(getattr(D, side).structure, dict(mrq.values), c['q'], s.j1, W.j2_eff, c['weighted'], c['gamint'],
               mrq.formalism, rtol=1e-8)
    rec.tag(str(c['p']), f'R={c["sig"]["R"]}')
    rec.good(s.j2 - s.j1 >= 1)


def convex(c, rec):
    """log2 S(j, q) is convex in q (Hölder) and S(j, q)^(1/q) grows with q (power means)."""
    m = c['m']
    vals = gen.build_mrq(m)
    q = np.array(sorted(c['q']))
    if len(q) < 3:
        return
    sf = StructureFunction(gen.make_mrq(m, vals), q, 1, m['J'], c['weighted'])
    L = sf.logvalues
    for i in range(1, len(q) - 1):
        t = (q[i] - q[i - 1]) / (q[i + 1] - q[i - 1])
        check((L[i] <= (1 - t) * L[i - 1] + t * L[i + 1] + 1e-8).all(), f'log2 S(j, q) not convex around q={q[i]}')
    nz = np.abs(q) > 0.05
    pm = L[nz] / q[nz][:, None, None]
    check((np.diff(pm, axis=0) >= -1e-7).all(), 'power means decrease with q')
    rec.good(m['spread'] > 0)


COMMON = dict(m=gen.mrqs(), ja=gen.JA, jb=gen.JB, weighted=gen.WEIGHTED)
CHECKS = [
    Sub('quantity', fd(**dict(COMMON, m=gen.mrqs(wide=True)), q=gen.q_lists(big=True), intq=st.booleans()), quantity, 4800,
        rule='quantities with missing values x exponents x scale range; non-trivial: an exponent outside '
             '{0, 1, 2} or missing values'),
    Sub('signal', fd(**analysis()), signal, 1600,
        rule='complete analysis of signals against the moments of its own quantities; non-trivial: two scales'),
    Sub('zeros', fd(zeros=st.sampled_from([0.05, 0.3, 0.8]), void=gen.FRAC, q=gen.q_lists(neg=False), **COMMON), zeros, 800,
        rule='zeros among the values, or alone at a scale; non-trivial: there is one'),
    Sub('convex', fd(q=gen.q_lists().flatmap(lambda a: gen.q_lists().map(lambda b: sorted(set(a + b)))),
                     **COMMON), convex, 1200, rule='convexity and power means in q; at least 3 exponents'),
]
ASSUMPTIONS = ['every scale has usable values (zeros among them for exponents >= 0); exponents in [-10, 12]']
