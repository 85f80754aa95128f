"""C22 - fractional Gaussian noise and Brownian motion have exactly the specified covariance."""
import numpy as np
from scipy.linalg import toeplitz
from vf.core import Sub, check, close, st
from vf import gen
from vf.e2e import fd

from pymultifracs.simul import fbm, fgn


def autocov(n, H, sigma, dt):
    """Covariance of the increments of fBm, from that of fBm."""
    t = dt * np.arange(0, n + 1)
    B = fbm_cov(t, H, sigma)
    return B[1:, 1:] - B[:-1, 1:] - B[1:, :-1] + B[:-1, :-1]


def fbm_cov(t, H, sigma):
    def v(x):
        return np.where(x > 0, np.maximum(x, 1e-300) ** (2 * H), 0.)
    return sigma ** 2 / 2 * (v(t[:, None]) + v(t[None, :]) - v(np.abs(t[:, None] - t[None, :])))


def basis(fn, n, method):
    """Covariance of the output when z0 is white noise (complex for the embedding), and the map."""
    if method == 'chol':
        A = fn((n, n), np.eye(n))
        return A @ A.T
    m = 2 * n - 2
    A, B = fn((n, m), np.eye(m) + 0j), fn((n, m), 1j * np.eye(m))
    return A @ A.T + B @ B.T


def _kw(c):
    kw = {}
    if c['sigma'] != 1:
        kw['sigma'] = c['sigma']
    if c['dt']:
        kw['dt'] = c['dt']
    if c['method'] == 'chol' or c['explicit']:
        kw['method'] = c['method']
    return kw


def exact(c, rec):
    if c['n'] > 300:
        c = dict(c, method='cme')
    n, H, kw = c['n'], c['H'], _kw(c)
    if c['method'] == 'chol':
        H = min(H, 0.95)
    dt = c['dt'] or 1 / n
    S = basis(lambda s, z: fgn(s, H, z0=z, **kw), n, c['method'])
    R = autocov(n, H, c['sigma'], dt)
    tol = 1e-8 * R[0, 0] * max(1, n ** (2 * H) / 100)
    close(S, R, 'covariance of fgn', rtol=0, atol=tol)
    S = basis(lambda s, z: fbm(s, H, z0=z, **kw), n, c['method'])
    F = fbm_cov(dt * np.arange(1, n + 1), H, c['sigma'])
    close(S, F, 'covariance of fbm', rtol=0, atol=1e-8 * F.max() * n)
    rec.tag(c['method'], 'default dt' if not c['dt'] else 'dt', f'H in [{int(H * 4) / 4}, ...]')
    rec.good(n >= 4 and H not in (0.5, 1))


def structure(c, rec):
    """Linear in z0 and sigma, columns independent of each other, scalar shape is one column."""
    n, H, kw = c['n'], c['H'], _kw(c)
    if c['method'] == 'chol':
        H = min(H, 0.95)
    rng = np.random.RandomState(c['seed'])
    m = n if c['method'] == 'chol' else 2 * n - 2
    z = rng.standard_normal((m, 3))
    if c['method'] == 'cme':
        z = z + 1j * rng.standard_normal((m, 3))
    z0 = z.copy()
    np.random.seed((c['seed'] + 1) % 2**32)
    np.random.rand(3)
    before = np.random.get_state()[1:3]
    x = fgn((n, 3), H, z0=z, **kw)
    after = np.random.get_state()[1:3]
    check(before[1] == after[1] and np.array_equal(before[0], after[0]), 'the given noise is used and the random state changes')
    check(np.array_equal(z, z0), 'fgn modified z0')
    check(x.shape == (n, 3) and not np.iscomplexobj(x), f'fgn shape {x.shape}')
    sd = c['sigma'] * (c['dt'] or 1 / n) ** H
    # H = 0 and H = 1 are singular: square roots of eigenvalues that are rounding errors
    at = (1e-9 if 0.01 <= H <= 0.95 else 2e-6) * max(np.abs(x).max(), sd)
    if c['method'] == 'cme':
        close(fgn((n, 2), H, z0=z[:, :2].real, **kw), fgn((n, 2), H, z0=z[:, :2].real + 0j, **kw), 'real noise', atol=at)
    one = fgn(n, H, z0=z[:, 1:2], **kw)
    check(one.shape == (n,), f'scalar shape gives {one.shape}')
    close(one, x[:, 1], 'one realisation', atol=at)
    check(fgn((n, 1), H, z0=z[:, :1], **kw).shape == (n, 1), 'shape (N, 1)')
    close(fgn((n, 3), H, z0=z @ np.diag([2., -1., 0.5]), **kw), x * [2., -1., 0.5], 'multiples of z0', atol=at)
    close(fgn((n, 1), H, z0=z[:, :1] + z[:, 1:2], **kw)[:, 0], x[:, 0] + x[:, 1], 'sum of z0', atol=2 * at)
    kw2 = dict(kw, sigma=c['sigma'] * 3)
    close(fgn((n, 3), H, z0=z, **kw2), 3 * x, 'three times sigma', atol=3 * at)
    dt = c['dt'] or 1 / n
    close(fgn((n, 3), H, z0=z, **dict(kw, dt=5 * dt)), 5 ** H * x, 'five times dt', atol=5 * at)
    b = fbm((n, 3), H, z0=z, **kw)
    close(b, np.cumsum(x, axis=0), 'fbm', atol=n * at)
    check(fbm(n, H, z0=z[:, :1], **kw).shape == (n,), 'fbm of scalar shape')
    # default noise
    np.random.seed(c['seed'] % 2**32)
    u = fgn((n, 2), H, **kw)
    v = fgn((n, 2), H, **kw)
    np.random.seed(c['seed'] % 2**32)
    w = fgn((n, 2), H, **kw)
    np.random.seed(c['seed'] % 2**32)
    s = fbm((n, 2), H, **kw)
    check(u.shape == (n, 2) and np.array_equal(u, w), 'same random seed, different result')
    check(not np.allclose(u, v), 'successive calls return the same noise')
    check(not np.allclose(u[:, 0], u[:, 1]), 'two realisations are equal')
    close(s, np.cumsum(u, axis=0), 'fbm of the same seed', rtol=1e-7, atol=1e-9 * np.abs(u).max())
    rec.tag(c['method'])
    rec.good()


def bound(S, C, r, what, sig=7.):
    """Sample covariance of r zero-mean Gaussian columns against its expectation, at `sig` sigma."""
    d = np.diag(C)
    sd = np.sqrt((C ** 2 + d[:, None] * d[None, :]) / r)
    z = np.abs(S - C) / (sd + 1e-12 * d.max())
    check(z.max() < sig, lambda: f'{what}: sample covariance {z.max():.1f} standard errors from the specified one')


def random(c, rec):
    """The default noise: sample covariance over many realisations."""
    n, H, kw, r = c['n'], c['H'], _kw(c), c['R']
    if c['method'] == 'chol':
        H = min(H, 0.95)
    np.random.seed(c['seed'] % 2**32)
    x = fgn((n, r), H, **kw)
    C = autocov(n, H, c['sigma'], c['dt'] or 1 / n)
    bound(x @ x.T / r, C, r, 'fgn')
    z = np.abs(x.mean(axis=1)) / np.sqrt(np.diag(C) / r)
    check(z.max() < 7, lambda: f'fgn: mean {z.max():.1f} standard errors from 0')
    # realisations do not depend on each other (nor on the neighbouring column)
    d = np.sqrt(np.diag(C).max())
    k = (x[:, :-1] * x[:, 1:]).mean(axis=1) / np.diag(C) * np.sqrt(r - 1)
    check(np.abs(k).max() < 7, lambda: f'fgn: realisations correlated ({np.abs(k).max():.1f} standard errors), {d}')
    q = (x / np.sqrt(np.diag(C))[:, None])
    kurt = np.abs((q ** 4).mean(axis=1) - 3) / np.sqrt(96 / r)
    check(kurt.max() < 9, 'fgn: not Gaussian (kurtosis)')
    rec.tag(c['method'])
    rec.good()


H_ = st.one_of(gen.f(0.01, 0.95), st.sampled_from([0., 0.5, 0.1, 0.3, 0.7, 0.9, 1.]))
S = dict(H=H_, sigma=st.sampled_from([1, 1, 2., 0.3, 10.]), dt=st.sampled_from([None, None, 1, 0.01, 2.5]),
         method=st.sampled_from(['cme', 'cme', 'chol']), explicit=st.booleans(), seed=gen.SEED)
CHECKS = [
    Sub('exact', fd(n=gen.rare(st.integers(2, 70), gen.rare(st.integers(70, 220), st.integers(700, 1300), 20), 24), **S), exact, 12000,
        rule='exact covariance through the basis of initial noises; non-trivial: N >= 4 and correlated'),
    Sub('structure', fd(n=gen.rare(st.integers(3, 300), st.integers(300, 3000), 24), **S), structure, 9000,
        rule='linearity, shapes, seeding, realisations; non-trivial: every case'),
    Sub('random', fd(n=st.integers(2, 24), R=st.sampled_from([3000, 6000]), **S), random, 3000,
        rule='sample covariance of the default noise within 7 standard errors; non-trivial: every case'),
]
ASSUMPTIONS = ['N >= 2; Cholesky for H <= 0.95 (singular covariance at H = 1)',
               'the sample checks accept deviations below 7 standard errors']
