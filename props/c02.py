"""C02 - the scales returned are exactly the usable ones, with their counts."""
import numpy as np
from vf.core import Sub, check, recorded, st
from vf import gen, ref

from pymultifracs.cumulants import Cumulants
from pymultifracs.mfspectrum import MultifractalSpectrum
from pymultifracs.structurefunction import StructureFunction
from pymultifracs.wavelet import wavelet_analysis, decomposition_level


def _usable(v):
    return (~np.isnan(v)).sum(axis=0)


def scales(c, rec):
    X = gen.build(c['sig'])
    n, R = len(X), max(1, c['sig']['R'])
    wt, p = c['wt'], gen.pval(c['p'])
    M = ref.filter_len(wt)
    J = ref.n_scales(n, M, leaders=False)
    JL = ref.n_scales(n, M, leaders=True)
    if p is not None and p != np.inf and JL < 2:
        return
    j2 = c['j2']
    if j2 == 'log2':
        j2 = np.log2(n) - 3            # the rule of thumb, not an integer in general
    if p is not None and p != np.inf and j2 is not None and j2 < 2:
        j2 = 2
    with recorded() as warned:
        W = wavelet_analysis(X, p_exp=p, wt_name=wt, j1=1, j2=j2, gamint=c['gamint'],
                             normalization=1, weighted=True)
    top = decomposition_level(n, wt)
    check(top == ref.max_level(n, M), f'decomposition_level({n}, {wt}) = {top}')
    Jeff = J if p is None else JL
    rec.tag(wt, f'n={n.bit_length()} bits', f'J={Jeff}', 'j2>max' if j2 and j2 > top else 'j2<=max',
            'stopped early' if Jeff < top else 'all levels')
    rec.good(Jeff >= 1)
    sc = list(W.wt_coefs.values)
    check(sc == list(range(1, len(sc) + 1)), f'scales {sc} are not consecutive from 1')
    check(len(sc) in (J, Jeff, min(J, Jeff + 1)) and len(sc) >= Jeff,
          f'{len(sc)} scales of coefficients, {J} are usable')
    if p is None:
        check(len(sc) == J, f'{len(sc)} scales of coefficients, {J} are usable')
    want = Jeff if j2 is None else int(min(Jeff, j2))
    check(W.j2_eff == want and isinstance(W.j2_eff, (int, np.integer)),
          f'effective upper scale {W.j2_eff!r}, expected {want} (n={n}, {wt}, j2={j2})')
    check(W.j2_eff <= top, 'effective upper scale beyond the decomposition level')
    for mrq, name in ((W.wt_coefs, 'coefficients'), (W.wt_leaders, 'leaders')):
        if mrq is None:
            check(name == 'leaders' and p is None, f'{name} missing')
            continue
        if name == 'leaders':
            ls = list(mrq.values)
            check(ls == list(range(1, JL + 1)), f'scales {ls} of leaders, expected 1..{JL}')
        check(list(mrq.nj) == list(mrq.values), f'{name}: counts are not given at each scale')
        for j, v in mrq.values.items():
            check(v.ndim == 2 and v.shape[1] == R, f'{name}, scale {j}: shape {v.shape}')
            u = _usable(v)
            check(u.min() >= 3, f'{name}, scale {j}: only {u.min()} usable values')
            check(np.array_equal(np.asarray(mrq.nj[j]), u),
                  f'{name}, scale {j}: count {mrq.nj[j]} but {u} usable values')
            check(len(v) == (n >> j) - (2 if name == 'leaders' else 0),
                  f'{name}, scale {j}: {len(v)} positions for {n} samples')
        if len(mrq.values):
            check(mrq.nrep == R, f'{name}: nrep {mrq.nrep} for {R} realisations')
            check(len(mrq.get_nj()) == len(mrq.values), f'{name}: get_nj has the wrong length')
            for got, j in zip(mrq.get_nj(), mrq.values):
                check(np.array_equal(got, _usable(mrq.values[j])), f'{name}: get_nj at scale {j}')
            a, b = 1, len(mrq.values)
            lo = a + int(c['ja'] * (b - a))
            part = mrq.get_nj_interv(lo, b)
            check(np.array_equal(part, np.stack([_usable(mrq.values[j]) for j in range(lo, b + 1)])),
                  f'{name}: get_nj_interv({lo}, {b})')
    big = [w for w in warned if 'j2' in str(w.message)]
    if j2 is not None and j2 > top:
        check(big, f'no warning although j2={j2} exceeds the maximum level {top}')
    else:
        check(not big, f'warning although j2={j2} does not exceed the maximum level {top}')


def gaps(c, rec):
    """Missing samples: a scale is kept while every realisation has three usable values, counted one by one."""
    X = gen.punch(gen.build(c['sig']), c['gaps'])
    wt, p = c['wt'], gen.pval(c['p'])
    cf = ref.coefs(X, wt, 1, 0.)
    J = max(cf, default=0)
    JL = max(ref.leaders({j: np.abs(v) for j, v in cf.items()}, p or np.inf), default=0)
    Jeff = J if p is None else JL
    if p is not None and p != np.inf and Jeff < 2:
        return
    j2 = c['j2'] if p in (None, np.inf) or c['j2'] is None else max(2, c['j2'])
    W = wavelet_analysis(X, p_exp=p, wt_name=wt, j1=1, j2=j2, weighted=c['weighted'])
    top = ref.max_level(len(X), ref.filter_len(wt))
    check(W.j2_eff == (Jeff if j2 is None else min(Jeff, j2)), f'effective upper scale {W.j2_eff}, {Jeff} usable, j2={j2}')
    sc = list(W.wt_coefs.values)
    check(sc == list(range(1, len(sc) + 1)) and Jeff <= len(sc) <= J, f'scales {sc} of coefficients, {J} usable')
    check(p is not None or len(sc) == J, f'{len(sc)} scales of coefficients, {J} usable')
    if p is not None:
        check(list(W.wt_leaders.values) == list(range(1, JL + 1)), f'scales {list(W.wt_leaders.values)} of leaders, {JL} usable')
    for mrq in (W.wt_coefs, W.wt_leaders):
        for j, v in (mrq.values.items() if mrq is not None else ()):
            check(_usable(v).min() >= 3, f'scale {j}: {_usable(v)} usable values')
            check(np.array_equal(np.asarray(mrq.nj[j]), _usable(v)), f'scale {j}: count {mrq.nj[j]} but {_usable(v)} usable')
    rec.tag(f'R={X.shape[1]}', 'stopped early' if Jeff < top else 'all levels',
            'counts differ' if any(len(set(_usable(v))) > 1 for v in W.wt_coefs.values.values()) else 'counts agree')
    rec.good(Jeff < top and J >= 1)


def levels(c, rec):
    """decomposition_level: monotone in the length, and never promises an unfilterable scale."""
    wt, n = c['wt'], c['n']
    M = ref.filter_len(wt)
    if n < M + 1:
        return
    top = decomposition_level(n, wt)
    rec.tag(f'level={top}')
    rec.good(top >= 1)
    check(top >= 0 and top == int(top), f'decomposition_level({n}, {wt}) = {top!r}')
    check((M + 1) * 2 ** top <= n < (M + 1) * 2 ** (top + 1), f'decomposition_level({n}, {wt}) = {top}')
    check(decomposition_level(n + c['more'], wt) >= top, 'decreases with the length')


def counts(c, rec):
    """Quantities filled scale by scale: counts of non-missing entries, per realisation."""
    m = c['m']
    vals = gen.build_mrq(m)
    q = gen.make_mrq(m, vals)
    nan = any(np.isnan(v).any() for v in vals.values())
    rec.tag(m['nan'], f'R={m["R"]}')
    rec.good(nan)
    check(q.nrep == m['R'] and q.formalism == m['formalism'] and q.gamint == m['gamint'], 'attributes')
    for j, v in vals.items():
        check(np.array_equal(q.nj[j], _usable(v)), f'scale {j}: count {q.nj[j]} for {_usable(v)} usable')
    check(np.array_equal(q.get_nj_interv(2, m['J']), np.stack([_usable(vals[j]) for j in range(2, m['J'] + 1)])),
          'get_nj_interv')
    check(q.n_scales == len(vals), f'n_scales = {q.n_scales} for {len(vals)} scales')
    # the summaries carry the counts of what they summarise
    a = (1, m['J'], c['weighted'])
    for o in (StructureFunction(q, np.array([1., 2.]), *a), Cumulants(q, 2, *a), MultifractalSpectrum(q, *a, np.array([1., 2.]))):
        name = type(o).__name__
        check(list(o.j) == sorted(vals) == list(o.nj), f'{name}: scales {list(o.j)} and counts at {list(o.nj)}')
        check(o.nrep == m['R'] and o.formalism == m['formalism'], f'{name}: attributes')
        for j, v in vals.items():
            check(np.array_equal(o.nj[j], _usable(v)), f'{name}, scale {j}: count {o.nj[j]} for {_usable(v)} usable')
        check(np.array_equal(o.get_nj_interv(2, m['J']), q.get_nj_interv(2, m['J'])), f'{name}: get_nj_interv')


def fd(**kw):
    return st.fixed_dictionaries(kw)


CHECKS = [
    Sub('scales', fd(sig=gen.signals(n_min=24, n_max=1200, big=20000, huge=120000), wt=st.sampled_from(gen.WAVELETS),
                     p=st.sampled_from([None, 'inf', 2, 1, 3]), gamint=st.sampled_from([0.5, 1., 1.5]),
                     j2=st.one_of(st.sampled_from([None, 'log2', 10]), st.integers(1, 14)), ja=gen.FRAC),
        scales, 10000, rule='lengths 24..120000 x wavelet x formalism x requested scale; '
                           'non-trivial: at least one usable scale'),
    Sub('gaps', fd(sig=gen.signals(n_min=60, n_max=1200, ints=False), gaps=gen.GAPS, wt=st.sampled_from(gen.WAVELETS),
                   p=st.sampled_from([None, 'inf', 2, 1, 3]), j2=st.sampled_from([None, None, 3, 10]),
                   weighted=gen.WEIGHTED), gaps, 2400,
        rule='missing samples, different in each realisation; non-trivial: fewer scales than the length alone allows'),
    Sub('levels', fd(wt=st.sampled_from(gen.WAVELETS), n=st.one_of(st.integers(2, 300), st.integers(300, 10**7)),
                     more=st.integers(0, 1000)), levels, 6000, rule='non-trivial: level >= 1'),
    Sub('counts', fd(m=gen.mrqs(), weighted=gen.WEIGHTED), counts, 3200, rule='non-trivial: some value missing'),
]
ASSUMPTIONS = ['finite signals', 'usable scales are counted by a mask-only model of the filter bank']
