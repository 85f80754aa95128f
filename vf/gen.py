"""Generators of cases. Cases are plain JSON values: every choice is drawn by Hypothesis;
noise is expanded from a drawn integer, so a case is a pure function of its JSON."""
import numpy as np
from hypothesis import strategies as st

from . import ref

SEED = st.integers(0, 2**31 - 1)
FRAC = st.integers(0, 1000).map(lambda v: v / 1000)

# short filters first: they shrink well and leave more scales
WAVELETS = ['db3', 'db2', 'db1', 'db4', 'sym4', 'coif1', 'db5', 'sym5', 'bior2.2', 'rbio1.3',
            'db8', 'sym2', 'coif2', 'haar', 'bior3.1', 'db6', 'db7', 'sym8', 'db10', 'coif3', 'bior4.4',
            'bior1.3', 'sym3', 'bior3.3', 'rbio2.2', 'bior2.4', 'db9']
ORTHO = [w for w in WAVELETS if not w.startswith(('bior', 'rbio'))]
WEIGHTED = st.sampled_from([False, True, False, True, 0, 1])
KINDS = ['walk', 'noise', 'smooth', 'heavy', 'mixture', 'trend', 'bursts']
SPARSE = ['spikes', 'steps', 'pulses']        # exact zeros among the coefficients
P_EXPS = ['inf', 2, 1, 3, 0.5, 2.0, 4, 1.5, 2.7, 6]


def f(lo, hi):
    # floats alone repeat simple values; the integers spread over the whole interval
    return st.one_of(
        st.floats(lo, hi, allow_nan=False, allow_infinity=False).map(lambda v: float(round(v, 6))),
        st.integers(0, 10 ** 6).map(lambda k: float(round(lo + (hi - lo) * k / 10 ** 6, 6))),
        st.integers(0, 10 ** 6).map(lambda k: float(lo + (hi - lo) * (k * 0.6180339887498949 % 1))))


def rare(usual, other, one_in=16):
    """Mostly `usual`, now and then `other`; shrinks to `usual`."""
    return st.integers(0, one_in - 1).flatmap(lambda k: other if k == one_in - 1 else usual)


def signals(n_min=40, n_max=900, r_max=3, kinds=KINDS, one_d=True, ints=True, big=None, huge=None):
    """Description of a real signal of n samples and R realisations (R=0: one-dimensional)."""
    n = st.one_of(st.integers(n_min, n_max),
                  st.sampled_from([v for v in (64, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1024)
                                   if n_min <= v <= n_max] or [n_max]),
                  *([st.integers(n_max, big)] if big else []))
    R = st.integers(0 if one_d else 1, r_max)
    if huge is None:
        huge = 5000 if n_max >= 900 else None
    return st.fixed_dictionaries(dict(
        n=rare(n, st.integers(n_max, huge), 24) if huge else n,
        R=rare(R, st.integers(r_max, 3 * r_max), 16) if r_max > 2 else R,
        kind=st.sampled_from(kinds),
        seed=SEED,
        amp=st.sampled_from([1., 1., 1., 1e-3, 250., 1e4, 3.7e-6]),
        layout=st.sampled_from(['C', 'C', 'F', 'strided', 'fixed', 'reversed']
                               + ['f4', 'int', 'u1', 'i8', 'wide', 'f2', 'big'] * ints
                               + ['bool'] * (ints and 'steps' in kinds)),
    ))


def one(kind, n, rng):
    z = rng.standard_normal(n)
    if kind == 'walk':
        return np.cumsum(z)
    if kind == 'noise':
        return z
    if kind == 'smooth':
        return np.cumsum(np.cumsum(z)) / 10
    if kind == 'heavy':
        return np.cumsum(rng.standard_t(2.5, n))
    if kind == 'mixture':
        t = np.arange(n)
        return np.cumsum(z) + 5 * np.sin(t / 7.) + rng.standard_normal(n)
    if kind == 'trend':
        t = np.arange(n) / n
        return np.cumsum(z) + 40 * t - 25 * t ** 2 + 3
    if kind == 'bursts':
        return np.cumsum(z * np.exp(1.2 * np.sin(np.arange(n) / 23.)))
    x = np.zeros(n)
    if kind == 'spikes':
        k = rng.randint(0, n, 1 + n // 50)
        x[k] = z[k]
        return x
    if kind == 'steps':
        return np.cumsum(np.where(rng.rand(n) < 0.03, np.round(3 * z), 0.))
    if kind == 'pulses':
        return z * (np.sin(np.arange(n) / (3. + n / 40.)) > 0.3)
    raise ValueError(kind)


def top(X):
    """The largest absolute value of a signal of any type."""
    return float(np.nanmax(np.abs(np.asarray(X, dtype=float))))


def build(s):
    """The array described by `s`: (n,) if R is 0, else (n, R)."""
    rng = np.random.RandomState(s['seed'])
    R = max(1, s['R'])
    kinds = [s['kind']] if s['kind'] != 'any' else KINDS
    X = np.stack([one(kinds[i % len(kinds)], s['n'], rng) for i in range(R)], axis=1) * s['amp']
    lay = s.get('layout', 'C')
    if lay == 'int':
        X = np.round(X / s['amp'] * 1000).astype(np.int64)
    elif lay == 'u1':
        X = (np.round(X / np.abs(X).max() * 120 + 128) if np.abs(X).max() > 0 else X).astype(np.uint8)
    elif lay == 'i8':
        X = (np.round(X / np.abs(X).max() * 120) if np.abs(X).max() > 0 else X).astype(np.int8)
    elif lay == 'wide':
        X = np.round(X / s['amp'] * 1e11).astype(np.int64)
    elif lay == 'f4':
        X = X.astype(np.float32)
    elif lay == 'f2':
        X = (X / max(np.abs(X).max(), 1e-300)).astype(np.float16)
    elif lay == 'big':
        X = X.astype('>f8')
    elif lay == 'bool':
        X = X > np.median(X, axis=0)
    elif lay == 'fixed':
        X.flags.writeable = False
    elif lay == 'reversed':
        X = np.ascontiguousarray(X[::-1, ::-1])[::-1, ::-1]
    elif lay == 'F':
        X = np.asfortranarray(X)
    elif lay == 'strided':
        big = np.zeros((s['n'], 2 * R))
        big[:, ::2] = X
        X = big[:, ::2]
    return X[:, 0] if s['R'] == 0 else X


GAPS = st.lists(st.tuples(FRAC, st.sampled_from([1, 1, 2, 5, 17, 40, 150]), st.integers(0, 3)), min_size=1, max_size=4)


def punch(X, gaps):
    """Missing samples: runs (start fraction, length, column; 3: every column) set to NaN, in a (n, R) copy."""
    X = np.array(X, dtype=float)
    X = X[:, None] if X.ndim == 1 else X
    for a, length, col in gaps:
        i = int(a * (len(X) - 1))
        X[i:i + length, slice(None) if col == 3 else col % X.shape[1]] = np.nan
    return X


def pval(p):
    if p == 'inf':
        return np.inf
    return p


def scales_for(n, wt_name, leaders=True):
    """How many scales surely carry at least three usable values (reference count)."""
    return ref.n_scales(n, ref.filter_len(wt_name), leaders)


def j_range(case, nmax):
    """Scale range drawn as two fractions, mapped into [1, nmax] with at least 2 scales."""
    a, b = case['ja'], case['jb']
    if nmax < 2:
        return None
    j1 = 1 + int(a * (nmax - 1))
    j1 = min(j1, nmax - 1)
    j2 = j1 + 1 + int(b * (nmax - j1))
    j2 = min(j2, nmax)
    return j1, j2


JA = st.sampled_from([0., 0., 0.2, 0.35, 0.5, 0.7])
JB = st.sampled_from([1., 1., 0.99, 0.6, 0.3, 0.])


def q_lists(neg=True, with2=None, big=False, long=True):
    """Lists of exponents: integers and fractions, negative ones included."""
    pool = [0., 1., 2., 3., 0.5, 1.5, 2.5, 4., 0.01, 5., 7.]
    if big:
        pool += [10., 9., 12., 8., -8., -10., 1 / 3, 8.5, 11.3, -5.5, -6.25]
    if neg:
        pool += [-1., -2., -0.5, -3., -1.5, -5.]
    one = st.one_of(st.sampled_from(pool), f(-4. if neg else 0., 6.))
    base = st.lists(one, min_size=1, max_size=6, unique=True)
    if long:
        base = rare(base, st.lists(one, min_size=7, max_size=40 if big else 16, unique=True), 20)
    # symmetric sorted sets, as build_q_log makes them
    both = base.map(lambda q: sorted({-v for v in q} | set(q)) if neg else sorted(q))
    base = rare(base, both, 6)
    if with2 is True:
        return base.map(lambda q: q if 2. in q else q + [2.])
    if with2 is False:
        return base.map(lambda q: [v for v in q if v != 2.] or [1.])
    return base


def mrqs(r_max=3, j_max=7, nan=True, wide=False):
    """Description of a multi-resolution quantity given scale by scale, with missing values
    (wide: of any magnitude, and with zeros)."""
    return st.fixed_dictionaries(dict(
        **(dict(mag=st.sampled_from([1., 1., 1., 1e-14, 1e-18, 1e15]), zeros=st.sampled_from([0., 0., 0., 0.1, 0.5])) if wide else {}),
        J=rare(st.integers(3, j_max), st.integers(j_max, 13), 16),
        R=rare(st.integers(1, r_max), st.integers(r_max, 3 * r_max), 16) if r_max > 1 else st.integers(1, r_max),
        n1=rare(st.integers(12, 60), rare(st.integers(60, 3000), st.integers(3000, 20000), 3), 24),
        halve=st.booleans(),
        seed=SEED,
        gamint=st.sampled_from([0., 0., 0.5, 1., -0.3]),
        formalism=st.sampled_from(['wavelet coef', 'wavelet leader', 'wavelet p-leader']),
        nan=st.sampled_from(['none', 'border', 'scattered', 'scattered'] if nan else ['none']),
        slope=f(-1., 2.),
        spread=f(0.1, 1.5),
    ))


def build_mrq(m):
    """-> dict scale -> (n_j, R) array with NaN as missing, at least 3 usable per column."""
    rng = np.random.RandomState(m['seed'])
    vals = {}
    for j in range(1, m['J'] + 1):
        n = max(6, m['n1'] >> (j - 1)) if m['halve'] else m['n1']
        v = np.exp(m['spread'] * rng.standard_normal((n, m['R']))) * 2. ** (m['slope'] * j)
        if m['formalism'] == 'wavelet coef':
            v = v * np.where(rng.rand(n, m['R']) < 0.5, -1., 1.)
        if m['nan'] == 'border':
            b = 1 + int(rng.randint(0, max(1, (n - 3) // 2)))
            if n - 2 * b >= 3:
                v[:b] = np.nan
                v[-b:] = np.nan
        elif m['nan'] == 'scattered':
            for r in range(m['R']):
                k = rng.randint(0, n - 3 + 1)
                v[rng.permutation(n)[:k], r] = np.nan
        v = v * m.get('mag', 1.)
        if m.get('zeros') and n > 8:
            z = rng.rand(n, m['R']) < m['zeros']
            z[np.nanargmax(np.abs(v), axis=0), np.arange(m['R'])] = False
            v[z & ~np.isnan(v)] = 0.
        vals[j] = v
    return vals


def make_mrq(m, vals=None):
    from pymultifracs.multiresquantity import MultiResolutionQuantity
    q = MultiResolutionQuantity(m['formalism'], m['gamint'])
    for j, v in (vals or build_mrq(m)).items():
        q.add_values(v.copy(), j)
    return q
