"""C12 - multifractal spectrum: U, V, and D(q), h(q) as the Legendre transform of zeta."""
import numpy as np
from vf.core import Sub, check, close, st
from vf import gen, ref
from vf.e2e import Setup, analysis, fd

from pymultifracs.mfspectrum import MultifractalSpectrum
from pymultifracs.structurefunction import StructureFunction


def verify(sp, vals, q, j1, j2, weighted, formalism, rtol=1e-7):
    J = sorted(vals)
    R = vals[J[0]].shape[1]
    check(list(sp.j) == J and sp.formalism == formalism and sp.nrep == R, 'attributes')
    U, V = np.zeros((len(J), len(q), R)), np.zeros((len(J), len(q), R))
    for k, j in enumerate(J):
        for i, v in enumerate(q):
            for r in range(R):
                U[k, i, r], V[k, i, r] = ref.spectrum_UV(vals[j][:, r], v)
    close(sp.U, U, 'U(j, q)', rtol=rtol, atol=1e-8)
    close(sp.V, V, 'V(j, q)', rtol=rtol, atol=1e-8)
    nj = ref.counts(vals)
    for i in range(len(q)):
        D = 1 + ref.line({j: U[k, i] for k, j in enumerate(J)}, nj, j1, j2, weighted)[0]
        h = ref.line({j: V[k, i] for k, j in enumerate(J)}, nj, j1, j2, weighted)[0]
        close(sp.Dq[i], D, f'D(q={q[i]})', rtol=1e-6, atol=1e-6)
        close(sp.hq[i], h, f'h(q={q[i]})', rtol=1e-6, atol=1e-6)
        if q[i] == 0:
            close(sp.Dq[i], np.ones(R), 'D(q=0)', atol=1e-9)
            close(sp.U[:, i], np.zeros((len(J), R)), 'U(j, 0)', atol=1e-9)
    top = np.stack([np.log2(nj[j]) for j in J])[:, None, :]
    check((sp.U >= -1e-9).all() and (sp.U <= top + 1e-9).all(), 'U(j, q) outside [0, log2 n_j]')
    order = np.argsort(q)
    check((np.diff(sp.V[:, order], axis=1) >= -1e-9).all(), 'V(j, q) decreases with q')


def quantity(c, rec):
    m = c['m']
    vals = gen.build_mrq(m)
    j1, j2 = gen.j_range(c, m['J'])
    c = dict(c, q=[v for v in c['q'] if not m['zeros'] or v > 0] or [1.5])
    q = np.array(c['q'])
    sp = MultifractalSpectrum(gen.make_mrq(m, vals), j1, j2, c['weighted'], q)
    verify(sp, vals, c['q'], j1, j2, c['weighted'], m['formalism'])
    if m['zeros']:
        # under equal weights, a zero has the logarithm minus infinity
        with np.errstate(all='ignore'):
            s0 = MultifractalSpectrum(gen.make_mrq(m, vals), j1, j2, c['weighted'], np.array([0., 1.]))
        for k, j in enumerate(sorted(vals)):
            z = (vals[j] == 0).any(axis=0)
            with np.errstate(all='ignore'):
                lg = [np.mean(np.log2(np.abs(v[~np.isnan(v)]))) for v in vals[j].T]
            close(s0.V[k, 0], lg, 'V(j, 0) with zeros', rtol=1e-7, atol=1e-8)
            close(s0.U[k, 0], np.zeros(m['R']), 'U(j, 0) with zeros', atol=1e-9)
            rec.tag('zeros at q = 0' if z.any() else 'no zero')
    rec.tag(m['nan'], m['formalism'], f'R={m["R"]}')
    rec.good(any(v != 0 for v in c['q']))


def signal(c, rec):
    s = Setup(c)
    if not s.ok:
        return
    W = s.wavelet()
    if not s.conditioned(W, 1e-9):
        return
    D = s.mfa(W)
    for side, mrq in (('dwt', W.wt_coefs), ('lwt', W.wt_leaders)):
        if mrq is not None:
            verify(getattr(D, side).spectrum, dict(mrq.values), c['q'], s.j1, W.j2_eff, c['weighted'], mrq.formalism)
    rec.tag(str(c['p']))
    rec.good(any(v != 0 for v in c['q']))


def legendre(c, rec):
    """U = q V - log2 S, D = 1 + q h - zeta; V is the derivative of log2 S in q."""
    m = c['m']
    vals = gen.build_mrq(m)
    j1, j2 = gen.j_range(c, m['J'])
    e = 1e-4
    q0 = np.array(c['q'])
    q = np.concatenate([q0, q0 + e, q0 - e])
    mrq = gen.make_mrq(m, vals)
    sp = MultifractalSpectrum(mrq, j1, j2, c['weighted'], q)
    sf = StructureFunction(mrq, q, j1, j2, c['weighted'])
    lg = np.swapaxes(sf.logvalues, 0, 1)
    close(sp.U, q[None, :, None] * sp.V - lg, 'U = q V - log2 S', rtol=1e-7, atol=1e-7)
    close(sp.Dq, 1 + q[:, None] * sp.hq - sf.zeta, 'D = 1 + q h - zeta', rtol=1e-6, atol=1e-6)
    k = len(q0)
    for i in range(k):
        num = (lg[:, k + i] - lg[:, 2 * k + i]) / (2 * e)
        close(sp.V[:, i], num, f'V(j, {q0[i]}) as a derivative', rtol=1e-4, atol=1e-4)
    rec.tag(m['formalism'])
    rec.good(any(v != 0 for v in c['q']))


COMMON = dict(m=gen.mrqs(), ja=gen.JA, jb=gen.JB, weighted=gen.WEIGHTED, q=gen.q_lists())
CHECKS = [
    Sub('quantity', fd(**dict(COMMON, m=gen.mrqs(wide=True), q=gen.q_lists(big=True))), quantity, 3200,
        rule='quantities with missing values against U, V computed value by value; non-trivial: q != 0'),
    Sub('signal', fd(**analysis()), signal, 1200,
        rule='complete analysis of signals against the spectrum of its own quantities; non-trivial: q != 0'),
    Sub('legendre', fd(**COMMON), legendre, 2000, rule='Legendre identities with the scaling function; q != 0'),
]
ASSUMPTIONS = ['every scale has usable, non-zero values (zeros among them for exponents > 0); exponents in [-10, 12]']
