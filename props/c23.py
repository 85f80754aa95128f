"""C23 - multifractal random walks are built from the specified noise and log-correlated weights."""
import importlib
import numpy as np
from scipy.linalg import toeplitz
from vf.core import Sub, check, close, st
from vf import gen
from vf.e2e import fd
from props.c22 import bound

from pymultifracs.simul import fbm, fgn, mrw, mrw_cumul
M = importlib.import_module('pymultifracs.simul.mrw')


def log_cov(n, lam, L, dt=1):
    r = np.zeros(n)
    k = np.arange(int(L / dt))
    r[:len(k)] = lam ** 2 * np.log(L / dt / (k + 1))
    return toeplitz(r)


def steer(n, H, target, **kw):
    """An initial noise for which fgn is the target (fgn is linear in its noise)."""
    m = 2 * n - 2
    A, B = fgn((n, m), H, z0=np.eye(m) + 0j, **kw), fgn((n, m), H, z0=1j * np.eye(m), **kw)
    z = np.linalg.lstsq(np.concatenate([A, B], axis=1), target, rcond=None)[0]
    return (z[:m] + 1j * z[m:])[:, None]


def weights(path, e):
    return np.log(np.diff(path, axis=0, prepend=0.) / e)


def exact(c, rec):
    """With a known noise, the log-weights of mrw have exactly the specified mean and covariance."""
    n, H, lam = c['n'], c['H'], c['lam']
    L = 1.2 + c['L'] * (n - 1.2)
    if c['intL']:
        L = max(2, int(L))
    chol = c['method'] == 'chol'
    if chol:
        H = 0.5        # e is then proportional to its noise
        dt = 1 / n
        e = (1 + 0.3 * np.sin(np.arange(n)))
        z = np.linalg.solve(fgn((n, n), H, method='chol', z0=np.eye(n)), e)[:, None]
    else:
        e = 1 + 0.3 * np.sin(np.arange(n))
        z = steer(n, H, e)
    close(fgn((n, 1), H, z0=z, method=c['method'])[:, 0], e, 'harness: steered noise', rtol=1e-7)
    m = n if chol else 2 * n - 2
    S = 0
    for unit in ([1.] if chol else [1., 1j]):
        zw = unit * np.eye(m)
        p = mrw((n, m), H, lam, L, method=c['method'], z0=(np.repeat(z, m, axis=1), zw))
        check(p.shape == (n, m), f'shape {p.shape}')
        w = weights(p, e[:, None])
        close(w.mean(axis=0), np.full(m, -lam ** 2 * np.log(L) / 2), 'mean log-weight', rtol=1e-6, atol=1e-7)
        w = w - w.mean(axis=0)
        S = S + w @ w.T
    P = np.eye(n) - 1 / n
    C = log_cov(n, lam, L)
    close(S, P @ C @ P, 'covariance of the log-weights', rtol=0, atol=1e-6 * max(C[0, 0], 1e-3))
    rec.tag(c['method'], 'integer L' if L == int(L) else 'fractional L', 'L = N' if L == n else 'L < N')
    rec.good(lam > 0 and n >= 4)


def paths(c, rec):
    """Shapes, sigma, realisations, lam = 0, cumulants, seeding, and the default noises."""
    n, H, lam, kw = c['n'], c['H'], c['lam'], dict(method=c['method'])
    L = max(2, int(c['L'] * n))
    m = n if c['method'] == 'chol' else 2 * n - 2
    rng = np.random.RandomState(c['seed'])
    ze, zw = rng.standard_normal((2, m, 3))
    if c['method'] == 'cme':
        ze, zw = ze + 1j * rng.standard_normal((m, 3)), zw + 1j * rng.standard_normal((m, 3))
    z0, z1 = ze.copy(), zw.copy()
    x = mrw((n, 3), H, lam, L, z0=(ze, zw), **kw)
    at = 1e-8 * np.abs(x).max()
    check(x.shape == (n, 3) and np.isfinite(x).all(), f'shape {x.shape}')
    check(np.array_equal(ze, z0) and np.array_equal(zw, z1), 'mrw modified its noises')
    for r in range(3):
        one = mrw(n, H, lam, L, z0=(ze[:, r:r + 1], zw[:, r:r + 1]), **kw)
        check(one.shape == (n,), f'scalar shape gives {one.shape}')
        close(one, x[:, r], 'one realisation', atol=at)
    one = mrw((n, 1), H, lam, L, z0=(ze[:, :1], zw[:, :1]), **kw)
    check(one.shape == (n, 1), f'shape (n, 1) gives {one.shape}')
    close(one[:, 0], x[:, 0], 'one realisation, (n, 1)', atol=at)
    if 0 < lam and lam ** 2 + H <= 1:
        one = mrw_cumul((n, 1), H + lam ** 2, -lam ** 2, L, **kw)
        check(one.shape == (n, 1), f'mrw_cumul: shape (n, 1) gives {one.shape}')
    close(mrw((n, 3), H, lam, L, sigma=2.5, z0=(ze, zw), **kw), 2.5 * x, 'sigma', atol=at)
    close(mrw((n, 3), H, lam, L, z0=(-ze, zw), **kw), -x, 'opposite noise', atol=at)
    if c['method'] == 'cme':
        close(mrw((n, 3), H, 0., L, z0=(ze, zw), **kw), fbm((n, 3), H, z0=ze, **kw), 'lam = 0 is fBm', atol=at)
    e = fgn((n, 3), H, z0=ze, **kw)
    ok = np.abs(e) > 1e-4 * np.abs(e).max()
    inc = np.diff(x, axis=0, prepend=0.)
    check((np.sign(inc) == np.sign(e))[ok & (np.abs(inc) > 1e-9 * np.abs(x).max())].all(),
          'signs of the increments are not those of the noise')
    if lam <= 0.6:
        # log-weights are linear in lam, up to their mean
        x2 = mrw((n, 3), H, lam / 2, L, z0=(ze, zw), **kw)
        inc2 = np.diff(x2, axis=0, prepend=0.)
        ok &= (np.abs(inc) > 1e-7 * np.abs(x).max()) & (np.abs(inc2) > 1e-7 * np.abs(x2).max())
        with np.errstate(all='ignore'):
            w, w2 = np.log(inc / e), np.log(inc2 / e)
            d = (w + lam ** 2 * np.log(L) / 2) - 2 * (w2 + lam ** 2 * np.log(L) / 8)
        check(np.abs(d[ok]).max(initial=0) < 1e-5, 'log-weights are not proportional to lam')
    if 0 < lam and lam ** 2 + H <= 1:
        np.random.seed(c['seed'] % 2**32)
        a = mrw((n, 2), H, lam, L, **kw)
        np.random.seed(c['seed'] % 2**32)
        b = mrw_cumul((n, 2), H + lam ** 2, -lam ** 2, L, **kw)
        close(b, a, 'mrw_cumul(H + lam^2, -lam^2)', rtol=1e-6, atol=1e-6 * np.abs(a).max())
        close(mrw_cumul((n, 3), H + lam ** 2, -lam ** 2, L, z0=(ze, zw), sigma=2, **kw), 2 * x,
              'mrw_cumul keywords', rtol=1e-6, atol=1e-6 * np.abs(x).max())
    c1, c2 = c['c1'], -c['lam'] ** 2
    if lam > 0 and 0 < c1 + c2:
        close(mrw_cumul((n, 3), c1, c2, L, z0=(ze, zw), **kw),
              (y := mrw((n, 3), c1 + c2, np.sqrt(-c2), L, z0=(ze, zw), **kw)), f'mrw_cumul with c1 = {c1}', rtol=1e-6,
              atol=1e-6 * np.abs(y).max())
    np.random.seed(c['seed'] % 2**32)
    u, v = mrw((n, 2), H, lam, L, **kw), mrw((n, 2), H, lam, L, **kw)
    np.random.seed(c['seed'] % 2**32)
    check(np.array_equal(u, mrw((n, 2), H, lam, L, **kw)), 'same random seed, different result')
    check(not np.allclose(u, v) and not np.allclose(u[:, 0], u[:, 1]), 'repeated noise')
    rec.tag(c['method'])
    rec.good(lam > 0)


def random(c, rec):
    """Default noises: given noise, random weights; given weights, random noise; independence."""
    n, lam, r = c['n'], c['lam'], c['R']
    H = c['H']
    L = max(2, int(c['L'] * n))
    e = 1 + 0.3 * np.sin(np.arange(n))
    z = steer(n, H, e)
    np.random.seed(c['seed'] % 2**32)
    x = mrw((n, r), H, lam, L, z0=(np.repeat(z, r, axis=1), None))
    w = weights(x, e[:, None])
    w = w - w.mean(axis=0)
    P = np.eye(n) - 1 / n
    C = P @ log_cov(n, lam, L) @ P
    bound(w @ w.T / r, C, r, 'log-weights')
    # both random: the squared increments average sigma^2 dt^2H E[e^2w] per position
    x = mrw((n, r), H, lam, L)
    inc = np.diff(x, axis=0, prepend=0.)
    s = np.sign(inc)
    # sign is that of the noise: its correlation depends on H only (arcsine law)
    g = toeplitz([((k + 1) ** (2 * H) + abs(k - 1) ** (2 * H)) / 2 - k ** (2 * H) if k else 1. for k in range(n)])
    exp = 2 / np.pi * np.arcsin(np.clip(g, -1, 1))
    z = np.abs(s @ s.T / r - exp) * np.sqrt(r)
    check(z.max() < 7, lambda: f'mrw: signs of increments {z.max():.1f} standard errors from those of fGn')
    # log |inc| = log |e| + w with w independent of e
    la = np.log(np.abs(inc))
    mean = la.mean()
    expm = H * np.log(1 / n) - (np.euler_gamma + np.log(2)) / 2 - lam ** 2 * np.log(L) / 2
    # variance of the mean of each realisation, estimated from the realisations
    sd = la.mean(axis=0).std() / np.sqrt(r)
    check(abs(mean - expm) < 7 * sd + 1e-9, lambda: f'mrw: mean of log increments {(mean - expm) / sd:.1f} '
                                                    'standard errors from the expected one')
    # E[sign * log-weight] = 0: weights do not depend on the noise
    k = (s * (la - la.mean(axis=1, keepdims=True))).mean(axis=1) / la.std(axis=1) * np.sqrt(r)
    check(np.abs(k).max() < 7, 'mrw: weights depend on the sign of the noise')
    rec.good(lam > 0.05)


def skewed(c, rec):
    n, H, lam, dt, al, be = c['n'], c['H'], c['lam'], c['dt'], c['alpha'], c['beta']
    L = max(2 * dt, int(c['L'] * n) * dt)
    r = 2

    def gen_(**kw):
        np.random.seed(c['seed'] % 2**32)
        a = dict(K0=0., alpha=al, beta=be, dt=dt)
        a.update(kw)
        l = a.pop('lam', lam)
        return M.skewed_mrw((n, r), H, l, L, **a)

    def inc(x):
        return np.diff(x, axis=0, prepend=0.)
    base, pure = gen_(), gen_(lam=0.)
    check(base.shape == (n, r), f'shape {base.shape}')
    e, i0 = inc(pure), inc(base)
    sc = np.abs(base).max()
    ok = (np.abs(i0) > 1e-6 * sc) & (np.abs(e) > 1e-6 * np.abs(pure).max())
    with np.errstate(all='ignore'):
        w = np.log(i0 / e)
    check(np.isfinite(w[ok]).all(), 'signs of the increments are not those of the noise')
    if ok.all():
        close(w.mean(axis=0), np.full(r, -lam ** 2 * np.log(L / dt)), 'mean log-weight', rtol=1e-6, atol=1e-6)
    close(gen_(sigma=2.), 2 * base, 'sigma without skewness', rtol=1e-7, atol=1e-9 * sc)
    K0 = c['K0'] / np.abs(e).max() * dt ** be / 3
    x1, x2 = gen_(K0=K0), gen_(K0=2 * K0)
    i1, i2 = inc(x1), inc(x2)
    ok1 = ok & (np.abs(i1) > 1e-6 * np.abs(x1).max()) & (np.abs(i2) > 1e-6 * np.abs(x2).max())
    with np.errstate(all='ignore'):
        p1, p2 = -np.log(i1 / i0), -np.log(i2 / i0)
    check(np.abs((p2 - 2 * p1)[ok1]).max(initial=0) < 1e-5, 'log-weights are not linear in K0')
    if H == 0.5:
        # skewness at t: sum over the past of K0 tau^-alpha dt^-beta e(t - tau); what is before the
        # start is unknown but bounded
        tau = np.arange(1, n + 1)
        k = K0 / tau ** al / dt ** be
        known = np.zeros((n, r))
        for t in range(n):
            for u in range(1, t + 1):
                known[t] += k[u - 1] * e[t - u]
        sd = np.array([np.sqrt((k[t:] ** 2).sum()) for t in range(n)]) * dt ** H
        dev = np.abs(p1 - known) / (sd[:, None] + 1e-9)
        check((dev[ok1] < 8).all(), lambda: f'skewness is not the specified sum over the past ({dev[ok1].max():.1f} sd)')
        rec.tag('skewness compared')
    np.random.seed(c['seed'] % 2**32)
    a, b = M.skewed_mrw((n, r), H, lam, L, K0=K0, alpha=al, beta=be, dt=dt, do_mirror=True)
    close(a, x1, 'first of the mirrored pair', rtol=1e-9, atol=1e-12 * sc)
    ib = inc(b)
    ok2 = ok1 & (np.abs(ib) > 1e-6 * np.abs(b).max())
    with np.errstate(all='ignore'):
        d = np.log(-(i1 * ib) / i0 ** 2)
    check(np.abs(d[ok2]).max(initial=0) < 1e-5 and np.isfinite(d[ok2]).all(), 'mirror: opposite noise, same weights')
    np.random.seed(c['seed'] % 2**32)
    s = M.skewed_mrw(n, H, lam, L, K0=K0, alpha=al, beta=be, dt=dt)
    check(s.shape == (n,), f'scalar shape gives {s.shape}')
    kw = dict(K0=K0, alpha=al, beta=be, dt=dt, do_mirror=True)
    np.random.seed(c['seed'] % 2**32)
    s = M.skewed_mrw(n, H, lam, L, **kw)
    np.random.seed(c['seed'] % 2**32)
    x1 = M.skewed_mrw((n, 1), H, lam, L, **kw)
    for u, v in zip(s, x1):
        check(u.shape == (n,) and v.shape == (n, 1), f'mirrored pair: shapes {u.shape}, {v.shape}')
        close(u, v[:, 0], 'mirrored pair, scalar and matrix shapes', rtol=1e-9, atol=1e-12 * sc)
    # the convolution itself
    rng = np.random.RandomState(c['seed'])
    z = rng.standard_normal((2 * n, 2))
    full = M.skewness_convolution(z, c['K0'], al, be, dt)
    tau = np.arange(1, n + 1)
    k = c['K0'] / tau ** al / dt ** be
    exp = np.stack([sum(k[u - 1] * z[n + t - u] for u in range(1, n + 1)) for t in range(n)])
    close(full, exp, 'skewness_convolution', rtol=1e-8, atol=1e-9 * np.abs(exp).max())
    zero = np.concatenate([np.zeros((n, 2)), z[n:]])
    close(M.skewness_convolution(zero, c['K0'], al, be, dt), M.skewness_convolution_dumb(z[n:], c['K0'], al, be, dt),
          'fast and direct convolution', rtol=1e-8, atol=1e-9 * np.abs(exp).max())
    rec.tag('dt = 1' if dt == 1 else 'dt')
    rec.good(lam > 0)


def skewed_random(c, rec):
    n, lam, dt, r = c['n'], c['lam'], c['dt'], c['R']
    L = max(2 * dt, int(c['L'] * n) * dt)
    H = c['H']
    np.random.seed(c['seed'] % 2**32)
    x = M.skewed_mrw((n, r), H, lam, L, K0=0., dt=dt, beta=c['beta'], alpha=c['alpha'])
    np.random.seed(c['seed'] % 2**32)
    y = M.skewed_mrw((n, r), H, 0., L, K0=0., dt=dt, beta=c['beta'], alpha=c['alpha'])
    i, e = np.diff(x, axis=0, prepend=0.), np.diff(y, axis=0, prepend=0.)
    k = np.arange(n)
    g = ((k + 1) ** (2 * H) + np.abs(k - 1) ** (2 * H) - 2. * np.where(k, k, 0) ** (2 * H) * (k > 0)) / 2
    C = toeplitz(g) * dt ** (2 * H)
    bound(e @ e.T / r, C, r, 'noise of skewed_mrw')
    w = np.log(i / e)
    use = (np.abs(e) > 1e-7).all(axis=0)
    w = w[:, use] - w[:, use].mean(axis=0)
    P = np.eye(n) - 1 / n
    C = P @ log_cov(n, lam, L, dt) @ P
    bound(w @ w.T / use.sum(), C, use.sum(), 'log-weights of skewed_mrw')
    rec.good()


def planar(c, rec):
    n, H, lam, R = c['n'], c['H'], c['lam'], c['R']
    N = n + n % 2
    L = 1.5 + c['L'] * N * 0.8

    def gen_(lam, H=H, **kw):
        np.random.seed(c['seed'] % 2**32)
        return M.mrw2D((n, R), H, lam, L, **kw)
    B, X = gen_(lam)
    check(B.shape == X.shape == (N, N, R), f'shapes {B.shape} {X.shape}')
    B0, X0 = gen_(0.)
    np.random.seed(c['seed'] % 2**32)
    b, x = M.mrw2D(n, H, lam, L)
    np.random.seed(c['seed'] % 2**32)
    b1, x1 = M.mrw2D((n, 1), H, lam, L)
    close(np.squeeze(b), np.squeeze(b1), 'scalar and matrix shapes', rtol=1e-9)
    close(np.squeeze(x), np.squeeze(x1), 'scalar and matrix shapes', rtol=1e-9)
    B2, X2 = gen_(lam, sigma=3.)
    close(X2, 3 * X, 'sigma', rtol=1e-8)
    close(B2, 3 * B, 'sigma', rtol=1e-7, atol=1e-9 * np.abs(B).max())
    w = np.log(X / X0)
    check(np.isfinite(w).all(), 'signs of the increments')
    close(np.log(gen_(lam / 2)[1] / X0), w / 2, 'log-weights linear in lam', rtol=1e-6, atol=1e-8)
    close(B, M.fract_int_2d(X, H + 1), 'fractional integral', rtol=1e-7, atol=1e-9 * np.abs(B).max())
    B3, X3 = gen_(lam, H=H / 2)
    close(X3, X, 'increments do not depend on H')
    # covariance of the log-weights, averaged over positions and realisations
    a = np.minimum(np.arange(N), N - np.arange(N))
    d = np.sqrt(a[:, None] ** 2 + a[None, :] ** 2)
    C = lam ** 2 * np.log(np.maximum(L / (1 + d), 1))
    ev = np.real(np.fft.fft2(C))
    miss = 2 * np.abs(ev[ev < 0]).sum() / N ** 2
    S = np.real(np.fft.ifft2(np.abs(np.fft.fft2(w, axes=(0, 1))) ** 2, axes=(0, 1))).mean(axis=-1) / N ** 2
    sd = np.sqrt(2 * (C ** 2).sum() / (R * N ** 2))
    z = (np.abs(S - C) - miss) / (sd + 1e-12)
    # few degrees of freedom: heavy tails, hence the wide bound
    check(z.max() < 9, lambda: f'mrw2D: covariance of log-weights {z.max():.1f} standard errors from the specified')
    m = abs(w.mean()) / np.sqrt(np.abs(ev).max() / (R * N ** 2) + 1e-300)
    check(m < 7, lambda: f'mrw2D: mean of the log-weights {m:.1f} standard errors from 0')
    u = np.abs((X0 ** 2).mean() - 1) / np.sqrt(2 / X0.size)
    check(u < 7, lambda: f'mrw2D: variance of the noise {u:.1f} standard errors from 1')
    rec.tag('odd size' if n % 2 else 'even size')
    rec.good()


def modes(c, rec):
    """Power of the log-weights of mrw2D in each mode."""
    n, lam, R = c['n'], c['lam'], c['R']
    N = n + n % 2
    L = 1.5 + c['L'] * N
    out = []
    for v in (lam, 0.):
        np.random.seed(c['seed'] % 2**32)
        out.append(M.mrw2D((n, R), c['H'], v, L)[1])
    w = np.log(out[0] / out[1])
    a = np.minimum(np.arange(N), N - np.arange(N))
    C = lam ** 2 * np.log(np.maximum(L / (1 + np.hypot(a[:, None], a[None, :])), 1))
    ev = np.real(np.fft.fft2(C))
    S = (np.abs(np.fft.fft2(w, axes=(0, 1))) ** 2).mean(axis=-1) / N ** 2
    low = np.where(ev < 0, 0., ev)        # a negative one has no square root: anything up to its modulus
    sd = np.abs(ev) * np.sqrt(2 / R) + 1e-9 * ev.max()
    z = np.maximum(S - np.abs(ev), low - S) / sd
    check(z.max() < 7, lambda: f'mrw2D: power of a mode of the log-weights {z.max():.1f} standard errors from the specified')
    rec.tag('odd size' if n % 2 else 'even size', 'L > N/2' if L > N / 2 else 'L <= N/2')
    rec.good(lam > 0.05)


def waves(c, rec):
    """fract_int_2d divides a plane wave of frequency k by |k|^alpha."""
    N, al = 2 * c['h'], c['H'] * 3 - 0.5
    rng = np.random.RandomState(c['seed'])
    t = np.arange(N)
    x = np.zeros((N, N, 2))
    y = np.zeros((N, N, 2))
    for _ in range(3):
        kx, ky = rng.randint(-N // 2 + 1, N // 2, 2)
        ph, am = rng.uniform(0, 6.28, 2), rng.standard_normal(2)
        wv = am * np.cos(2 * np.pi * (kx * t[:, None, None] + ky * t[None, :, None]) / N + ph)
        x += wv
        y += wv / max(np.hypot(kx, ky), 1.) ** al
    x0 = x.copy()
    close(M.fract_int_2d(x, al), y, 'fract_int_2d', rtol=1e-8, atol=1e-9 * np.abs(y).max())
    check(np.array_equal(x, x0), 'fract_int_2d modified its argument')
    n2 = rng.standard_normal((N, N, 1))
    close(M.fract_int_2d(M.fract_int_2d(n2, al), -al), n2, 'integration then derivation', rtol=1e-7, atol=1e-8)
    close(M.fract_int_2d(np.swapaxes(n2, 0, 1), al), np.swapaxes(M.fract_int_2d(n2, al), 0, 1), 'transposed',
          rtol=1e-7, atol=1e-9)
    rec.good(N >= 4)


LAM = st.one_of(gen.f(0.02, 0.6), st.sampled_from([0.1, 0.2, np.sqrt(0.025)]))
S = dict(H=st.one_of(gen.f(0.05, 0.9), st.sampled_from([0.5, 0.7, 0.8])), lam=LAM, L=gen.FRAC, seed=gen.SEED,
         method=st.sampled_from(['cme', 'cme', 'chol']))
BETA = st.one_of(gen.f(0., 1.5), st.sampled_from([0, 1]))
CHECKS = [
    Sub('exact', fd(n=gen.rare(st.integers(4, 40), st.integers(40, 130), 24), intL=st.booleans(), **S), exact, 2400,
        rule='log-weights against a known noise, over a basis of noises; non-trivial: lam > 0'),
    Sub('paths', fd(n=gen.rare(st.integers(4, 200), st.integers(200, 1500), 24), c1=st.sampled_from([0.5, 0.6, 0.7, 0.75, 0.8, 0.4, 0.3]), **S), paths, 2400,
        rule='linearity, shapes, cumulants, seeding; non-trivial: lam > 0'),
    Sub('random', fd(n=st.integers(4, 20), R=st.sampled_from([3000, 6000]), **S), random, 800,
        rule='default noises within 7 standard errors; non-trivial: lam > 0.05'),
    Sub('skewed', fd(n=gen.rare(st.integers(4, 60), st.integers(60, 400), 24), dt=st.sampled_from([1, 1, 0.5, 2.]), alpha=gen.f(0.2, 2.), beta=BETA,
                     K0=st.one_of(gen.f(0.05, 1.), gen.f(-1., -0.05)), **dict(S, H=st.one_of(st.just(0.5), gen.f(0.05, 0.9)))), skewed, 1600,
        rule='skewed walk: weights, skewness, mirror, convolution; non-trivial: lam > 0'),
    Sub('skewed_random', fd(n=st.integers(4, 20), R=st.sampled_from([3000, 6000]), dt=st.sampled_from([1, 1, 0.5, 2.]),
                            alpha=gen.f(0.2, 2.), beta=BETA, **S), skewed_random, 400, rule='covariances of its two noises; every case'),
    Sub('planar', fd(n=gen.rare(st.integers(6, 33), st.integers(33, 70), 24), R=st.sampled_from([40, 120]), **S), planar, 600,
        rule='2-D walk: weights, sigma, integration; non-trivial: every case'),
    Sub('modes', fd(n=st.integers(5, 16), R=st.sampled_from([1000, 2000]), **S), modes, 300,
        rule='2-D walk: power of each mode of the log-weights; non-trivial: lam > 0.05'),
    Sub('waves', fd(h=gen.rare(st.integers(2, 24), st.integers(24, 80), 24), **S), waves, 600, rule='plane waves; non-trivial: N >= 4'),
]
ASSUMPTIONS = ['1.2 <= L <= N, 0 < lam <= 0.6', 'the sample checks accept deviations below 7 standard errors (9 in 2-D)']
