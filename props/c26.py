"""C26 - figures show the computed values and the fitted lines, and change nothing."""
import copy
import os
import re
import sys
import tempfile

import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt  # noqa: E402
import numpy as np  # noqa: E402
import pandas as pd  # noqa: E402
from vf.core import Sub, check, close, fail, st  # noqa: E402
from vf import gen, ref  # noqa: E402
from vf.e2e import fd  # noqa: E402
from props.c09 import snap  # noqa: E402

from pymultifracs.bivariate.bivariate_cumulants import BiCumulants  # noqa: E402
from pymultifracs.bivariate.bivariate_structurefunction import BiStructureFunction  # noqa: E402
from pymultifracs.cumulants import Cumulants  # noqa: E402
from pymultifracs.estimation import estimate_hmin, plot_hmin  # noqa: E402
from pymultifracs.fractal_analysis import estimate_beta, plot_fractal  # noqa: E402
from pymultifracs.mfspectrum import MultifractalSpectrum  # noqa: E402
from pymultifracs.psd import log_plot, plot_psd, wavelet_estimation, welch_estimation  # noqa: E402
from pymultifracs.signal import Signal  # noqa: E402
from pymultifracs.structurefunction import StructureFunction  # noqa: E402
from pymultifracs.viz import plot_multiscale  # noqa: E402

LOG = {'log2': np.log2, 'log': np.log}


class Scene:
    """Stands in for pyvista (not installed), recording the surface and the axes."""

    class StructuredGrid:
        def __init__(self, *xyz):
            self.points = np.stack([np.asarray(v, float).ravel(order='F') for v in xyz], axis=1)

        def clip_box(self, bounds, invert=True, **kw):
            b = np.asarray(bounds, float).reshape(3, 2)
            inside = ((self.points >= b[:, 0]) & (self.points <= b[:, 1])).all(axis=1)
            out = Scene.StructuredGrid(*self.points[inside != invert].T)
            return out

    def Plotter(self, *a, **kw):
        scene = self

        class Plotter:
            def add_mesh(self, mesh, scalars=None, **kw):
                scene.mesh, scene.scalars = mesh, scalars

            def show_grid(self, **kw):
                scene.grid = kw
            show_bounds = show_grid

            def show(self, **kw):
                scene.shown = True
        return Plotter()


def vertices(surface):
    """Coordinates (3, n) of the vertices of a 3-D surface."""
    if hasattr(surface, '_faces'):  # matplotlib >= 3.10
        P = np.ma.filled(np.ma.asarray(surface._faces, float), np.nan).reshape(-1, 3).T
    else:
        P = np.asarray(surface._vec, float)[:3]
    return P[:, np.isfinite(P).all(axis=0)]


class figures:
    """A clean set of figures, closed afterwards."""

    def __enter__(self):
        plt.close('all')
        self.settings = dict(matplotlib.rcParams)
        return self

    def __exit__(self, kind, *a):
        plt.close('all')
        now = dict(matplotlib.rcParams)
        if kind is None:
            diff = {k: v for k, v in now.items() if str(v) != str(self.settings.get(k))}
            matplotlib.rcParams.update(self.settings)
            check(not diff, f'drawing changed the settings of all later figures: {diff}')


def curves(where):
    axes = where.axes if hasattr(where, 'canvas') and not hasattr(where, 'lines_') and hasattr(where, 'axes') else [where]
    axes = axes if isinstance(axes, (list, tuple)) else [axes]
    return [(np.ravel(np.asarray(l.get_xdata(), float)), np.ravel(np.asarray(l.get_ydata(), float)))
            for a in axes for l in a.get_lines()]


def drawn(where, x, y, what, rtol=1e-6, atol=1e-6):
    """Some line of the axes (or figure) is exactly this curve."""
    x, y = np.ravel(np.asarray(x, float)), np.ravel(np.asarray(y, float))
    for a, b in curves(where):
        if len(a) == len(x) and np.allclose(a, x, rtol=rtol, atol=atol) and \
                np.allclose(b, y, rtol=rtol, atol=atol, equal_nan=True):
            return
    fail(f'{what} is not drawn: expected {np.round(y, 6).tolist()[:8]}, lines: '
         f'{[np.round(b, 6).tolist()[:8] for _, b in curves(where)][:4]}')


def fit(x, y, w):
    x, y, w = (np.asarray(v, float) for v in (x, y, w))
    m, k = (w * x).sum() / w.sum(), (w * y).sum() / w.sum()
    s = (w * (x - m) * (y - k)).sum() / (w * (x - m) ** 2).sum()
    return s, k - s * m


def straight(where, j1, j2, s, i, what):
    """Some line follows the fit from j1 to j2 (drawn with two points or more)."""
    for a, b in curves(where):
        if a.min() == j1 and a.max() == j2 and np.allclose(b, s * a + i, rtol=1e-5, atol=1e-5):
            return
    fail(f'{what}: fitted line not drawn')


def saved(fn):
    with tempfile.TemporaryDirectory(prefix='verif_fig_') as d:
        path = os.path.join(d, 'figure.png')
        fn(path)
        check(os.path.exists(path) and os.path.getsize(path) > 500, 'figure not saved')


def _axes(label, fig):
    a = [x for x in fig.axes if x.get_ylabel() == label]
    check(len(a) == 1, f'{len(a)} axes labelled {label!r} among {[x.get_ylabel() for x in fig.axes]}')
    return a[0]


def named(ax, x, y, title=None, fig=None):
    """The axes say what is along them."""
    check(x in ax.get_xlabel().replace(' ', ''), f'abscissa {x} labelled {ax.get_xlabel()!r}')
    check(y in ax.get_ylabel().replace(' ', ''), f'ordinate {y} labelled {ax.get_ylabel()!r}')
    if title is not None:
        t = fig.get_suptitle() if fig is not None else ax.get_title()
        check(title in t, f'title {t!r} without {title!r}')


def univariate(c, rec):
    m = dict(c['mrq'], R=1)
    if c['spread'] and m['formalism'] == 'wavelet coef':
        m['formalism'] = 'wavelet leader'
    vals = gen.build_mrq(m)
    Q = gen.make_mrq(m, vals)
    j1, j2 = gen.j_range(c, m['J'])
    q = np.array(c['q'])
    J = np.arange(1, m['J'] + 1)
    w = np.array([(~np.isnan(vals[j])).sum() for j in J], float) if c['weighted'] else np.ones(m['J'])
    sel = (J >= j1) & (J <= j2)
    args = (Q, q, j1, j2, c['weighted'])
    with figures():
        k = c['what']
        if k == 'structure':
            o = StructureFunction(*args)
            before = snap(o)
            rows, ignore = c['lay'][1], c['ignore']
            shown = [v for v in q if not (ignore and v == 0)]
            if not shown:
                return
            name = dict(figlabel='other') if c['save'] else {}
            o.plot(nrow=rows, ignore_q0=ignore, figsize=(6, 4), **name)
            check(plt.fignum_exists('other') == bool(name) and len(plt.get_fignums()) == 1, 'name of the figure')
            fig = plt.figure(name.get('figlabel', 'Structure Functions'))
            check(tuple(np.round(fig.get_size_inches(), 6)) == (6, 4), 'figsize')
            check(len(fig.axes) == len(shown), f'{len(fig.axes)} axes for {len(shown)} exponents')
            for v in set(np.round(shown, 3)):
                if sum(np.round(s, 3) == v for s in shown) > 1:
                    return
            for v in shown:
                S = [np.log2(np.nanmean(np.abs(vals[j][:, 0]) ** v)) for j in J]
                ax = _axes(f'q = {v:.3f}', fig)
                drawn(ax, J, S, f'log2 S(j, {v})')
                named(ax, 'j', 'q=', m['formalism'], fig)
                s, i = fit(J[sel], np.array(S)[sel], w[sel])
                straight(ax, j1, j2, s, i, f'q={v}')
                t = [x.get_text() for x in ax.get_legend().get_texts()]
                check(any(abs(float(x.split('=')[1]) - s) < 2e-5 * (1 + abs(s)) for x in t if '=' in x), f'legend {t}, slope {s}')
            plt.close('all')
            if c['save']:
                saved(lambda p: o.plot(filename=p, figsize=(3, 2)))
        elif k == 'scaling':
            o = StructureFunction(*args)
            before = snap(o)
            if len(q) < 2:
                return
            name = dict(figlabel='other') if c['save'] else {}
            o.plot_scaling(**name)
            check(plt.fignum_exists('other') == bool(name) and len(plt.get_fignums()) == 1, 'name of the figure')
            z = []
            for v in q:
                S = [np.log2(np.nanmean(np.abs(vals[j][:, 0]) ** v)) for j in J]
                z.append(fit(J[sel], np.array(S)[sel], w[sel])[0])
            fig = plt.figure(name.get('figlabel', 'Scaling Function'))
            drawn(fig, q, z, 'zeta(q)')
            named(fig.axes[0], 'q', 'zeta(q)', m['formalism'], fig)
            if c['save']:
                saved(lambda p: o.plot_scaling(filename=p))
        elif k == 'cumulants':
            nc = c['lay'][0]
            o = Cumulants(Q, nc, j1, j2, c['weighted'])
            before = snap(o)
            num = 7 if c['save'] else 1
            o.plot(nrow=c['lay'][1], **(dict(fignum=7) if c['save'] else {}))
            check(plt.get_fignums() == [num], 'number of the figure')
            fig = plt.figure(num)
            check(len(fig.axes) == nc, f'{len(fig.axes)} axes for {nc} cumulants')
            for n, v in enumerate(o.m):
                ax = _axes(f'm = {v}', fig)
                drawn(ax, J, o.values[n, :, 0], f'C{v}(j)')
                named(ax, 'j', 'm=', m['formalism'], fig)
                s, i = fit(J[sel], o.values[n, sel, 0], w[sel])
                straight(ax, j1, j2, s, i, f'cumulant {v}')
                t = ax.get_legend().get_texts()[0].get_text()
                check(abs(float(t.split()[-1]) - s * np.log2(np.e)) < 2e-5 * (1 + abs(s)), f'legend {t}, slope {s}')
            plt.close('all')
            if c['save']:
                saved(lambda p: o.plot(filename=p))
        elif k == 'spectrum':
            o = MultifractalSpectrum(Q, j1, j2, c['weighted'], q)
            before = snap(o)
            fig, ax = plt.subplots(1, 2)
            o.plot(ax=ax[0])
            drawn(ax[0], o.hq, o.Dq, 'D(h)')
            named(ax[0], 'h', 'D(h)')
            check(not ax[1].get_lines(), 'drawn in other axes')
            plt.figure()
            o.plot()
            drawn(plt.gca(), o.hq, o.Dq, 'D(h) in the current axes')
            named(plt.gca(), 'h', 'D(h)', m['formalism'], plt.gcf())
            fig, ax = plt.subplots()
            o.plot(ax=ax, fmt='rs--', alpha=0.5, label='mine')
            l = ax.get_lines()[0]
            check((l.get_color(), l.get_marker(), l.get_linestyle(), l.get_alpha(), l.get_label()) == ('r', 's', '--', 0.5, 'mine'),
                  'style of the spectrum')
            if c['save']:
                saved(lambda p: o.plot(filename=p))
        else:
            before = None
            o = Q
            if c['spread'] and m['nan'] == 'none':      # several realisations
                m['R'] = 1 + c['lay'][0] % 3
                vals = gen.build_mrq(m)
                Q = gen.make_mrq(m, vals)
            plot_hmin(Q, j1, j2, c['weighted'], warn=False)
            fig = plt.figure('hmin')
            named(fig.axes[0], 'j', 'log_2(')
            rates = []
            for r in range(m['R']):
                S = np.array([np.log2(np.nanmax(np.abs(vals[j][:, r]))) for j in J])
                drawn(fig, J[sel], S[sel], f'log2 sup of realisation {r}')
                s, i = fit(J[sel], S[sel], w[sel])
                straight(fig, j1, j2, s, i, f'hmin of realisation {r}')
                rates.append(s)
            t = fig.axes[0].get_legend().get_texts()[0].get_text()
            check(abs(float(t.split('=')[-1]) - rates[0]) < 2e-5 * (1 + abs(rates[0])), f'legend {t}, slopes {rates}')
            rec.tag('several realisations' if m['R'] > 1 else 'one realisation')
        if before is not None:
            after = snap(o)
            check(all(np.array_equal(after[n], before[n], equal_nan=isinstance(before[n], np.ndarray)
                                     and before[n].dtype.kind == 'f') for n in before), 'plotting changed the results')
    rec.tag(k)
    rec.good()


def bivariate(c, rec):
    m = dict(c['mrq'], R=1, nan='none')
    a = gen.build_mrq(m)
    b = gen.build_mrq(dict(m, seed=m['seed'] ^ 5))
    b = {j: v * np.abs(a[j]) ** 0.5 for j, v in b.items()}
    A, B = gen.make_mrq(m, a), gen.make_mrq(m, b)
    j1, j2 = gen.j_range(c, m['J'])
    J = np.arange(1, m['J'] + 1)
    sel = (J >= j1) & (J <= j2)
    w = np.array([len(a[j]) for j in J], float) if c['weighted'] else np.ones(m['J'])
    with figures():
        if c['what'] == 'structure':
            q1, q2 = np.array(c['q'][:c['nq'][0]]), np.array(c['q2'][:c['nq'][1]])
            o = BiStructureFunction(A, B, j1, j2, q1, q2, c['weighted'])
            before = snap(o)
            fig = o.plot()
            ax = np.array(fig.axes[:len(q1) * len(q2)]).reshape(len(q1), len(q2))
            for i, u in enumerate(q1):
                for l, v in enumerate(q2):
                    S = np.array([np.log2(np.mean(np.abs(a[j]) ** u * np.abs(b[j]) ** v)) for j in J])
                    drawn(ax[i, l], J, S, f'log2 S(j, {u}, {v})')
                    straight(ax[i, l], j1, j2, *fit(J[sel], S[sel], w[sel]), f'{u}, {v}')
                    named(ax[i, l], 'j' if i == len(q1) - 1 else '', 'S_')
                    t = ax[i, l].get_legend().get_texts()[0].get_text()
                    check(abs(float(t.split(':')[1].strip(' $')) - fit(J[sel], S[sel], w[sel])[0]) < 0.00501, f'legend {t}')
                    both = [float(t) for t in re.findall(r'=(?:np\.\w+\()?(-?[\d.e-]+)', ax[i, l].get_title())]
                    check(np.allclose(both, [u, v]), f'title {ax[i, l].get_title()!r} for {u}, {v}')
        elif c['what'] == 'cumulants':
            n = c['n_cumul']
            if n == 1 and m['formalism'] != 'wavelet coef':
                n = 2
            o = BiCumulants(A, B, n, j1, j2, c['weighted'])
            before = snap(o)
            f1, f2 = o.plot()
            for k in range(1, n + 1):
                for (x, y), name in (((k, 0), f'$C{k}0$(j)'), ((0, k), f'$C0{k}$(j)')):
                    ax = _axes(name, f1)
                    v = o.values[x, y]
                    drawn(ax, J, v, name)
                    s, i = fit(J[sel], v[sel], w[sel])
                    straight(ax, j1, j2, s, i, name)
                    t = ax.get_legend().get_texts()[0].get_text()
                    check(abs(float(t.split(':')[1]) - s * np.log2(np.e)) < 0.00501, f'legend {t}')
            check([a.get_title() for a in f1.axes[:2]] == ['X1', 'X2'], 'which signal is in which column')
            check(any(a.get_xlabel() == 'j' for a in f1.axes), 'no label j')
            v = o.values[1, 1]
            drawn(f2, J, v, 'C11')
            named(f2.axes[0], 'j', 'C11')
            s, i = fit(J[sel], v[sel], w[sel])
            straight(f2, j1, j2, s, i, 'C11')
            t = f2.axes[0].get_legend().get_texts()[0].get_text()
            check(abs(float(t.split(':')[1]) - s * np.log2(np.e)) < 0.00501, f'legend {t}: {s * np.log2(np.e)}')
        else:
            o = BiCumulants(A, B, 2, j1, j2, c['weighted'])
            # cumulants of a genuine pair of multifractal signals
            o.log_cumulants = np.array([[0., 0.3 + 0.9 * c['u'], -0.02 - 0.1 * c['v']],
                                        [0.3 + 0.9 * c['v'], 0., 0.], [-0.02 - 0.1 * c['u'], 0., 0.]])
            o.log_cumulants[1, 1] = -0.8 * c['rho'] * np.sqrt(o.log_cumulants[0, 2] * o.log_cumulants[2, 0])
            before = snap(o)
            o.plot_legendre(resolution=c['res'], figsize=(4, 5), **(dict(h_support=(0.1, 1.4)) if c['save'] else {}))
            fig = plt.gcf()
            check(tuple(np.round(fig.get_size_inches(), 6)) == (4, 5), 'figsize')
            ax = fig.axes[0]
            check(len(ax.collections) == 1, 'surface not drawn')
            P = vertices(ax.collections[0])
            check(P.size > 0, 'empty surface')
            if True:
                b_ = o.log_cumulants[2, 0] * o.log_cumulants[0, 2] - o.log_cumulants[1, 1] ** 2
                h, L = o.compute_legendre((0.2, 1.2), 5)
                c10, c01, c20, c02, c11 = (o.log_cumulants[k] for k in ((1, 0), (0, 1), (2, 0), (0, 2), (1, 1)))

                def ell(x, y):
                    return 1 + (c02 * (x - c10) ** 2 + c20 * (y - c01) ** 2) / 2 / b_ - c11 * (x - c10) * (y - c01) / b_
                close(L, ell(h[:, None], h[None, :]), 'compute_legendre', rtol=1e-7, atol=1e-8)
                check(P[2].max() <= 1 + 1e-9, 'surface above 1')
                lo, hi = (0.1, 1.4) if c['save'] else (0., 1.5)
                check(P[:2].min() >= lo - 1e-9 and P[:2].max() <= hi + 1e-9, 'surface out of h_support')
                # columns of L run along x of the mesh
                d = np.minimum(np.abs(P[2] - ell(P[1], P[0])), np.abs(P[2] - ell(P[0], P[1])))
                check(np.abs(P[2] - ell(P[1], P[0])).max() < 1e-6, f'surface is not D(h1, h2) ({d.max()})')
                # the same surface in pyvista, each axis labelled with the exponent it shows
                scene, real = Scene(), sys.modules.get('pyvista')
                sys.modules['pyvista'] = scene
                try:
                    o.plot_legendre_pv(resolution=c['res'])
                finally:
                    sys.modules.pop('pyvista')
                    if real is not None:
                        sys.modules['pyvista'] = real
                x, y, z = scene.mesh.points.T
                names = [scene.grid[n] for n in ('xlabel', 'ylabel')]
                check(scene.shown and sorted(names) == ['h1', 'h2'], f'labels {names}')
                h1, h2 = (x, y) if names == ['h1', 'h2'] else (y, x)
                check(len(z) > 0 and np.abs(z - ell(h1, h2)).max() < 1e-6, f'pyvista surface is not D(h1, h2) with labels {names}')
                if scene.scalars is not None:
                    close(np.asarray(scene.scalars), z, 'colours of the surface')
                h, L = o.compute_legendre(resolution=200)
                supp = h[(L.max(axis=0) >= 0) | (L.max(axis=1) >= 0)]
                step = (supp[-1] - supp[0]) / (c['res'] - 1)
                top = h[:, None] + 0 * L, h[None, :] + 0 * L
                for got, want in ((h1, top[0][L >= 0]), (h2, top[1][L >= 0])):
                    check(want.min() - 1e-9 - step <= got.min() <= want.min() + 2 * step
                          and want.max() - 2 * step <= got.max() <= want.max() + 1e-9 + step, 'support of the pyvista surface')
        after = snap(o)
        check(all(np.array_equal(after[n], before[n], equal_nan=isinstance(before[n], np.ndarray)
                                 and before[n].dtype.kind == 'f') for n in before), 'plotting changed the results')
    rec.tag(c['what'])
    rec.good()


def spectra(c, rec):
    X = gen.build(dict(c['sig'], R=0))
    X0 = X.copy()
    fs, nm, k = c['fs'], c['nm'], c['what']
    n_fft, seg = c['fft']
    J = ref.n_scales(len(X), 2 * nm, False)
    if J < 3:
        return
    log = LOG[c['log']]
    band = (0.7 * fs * 2. ** -J, 0.5 * fs)
    with figures():
        a, b = welch_estimation(X, fs, n_fft, seg), wavelet_estimation(X, fs, nm)
        if not (a.psd > 0).all() or not (b.psd > 1e-24 * gen.top(X) ** 2).all():
            return
        low = np.inf
        if k == 'plot_psd':
            plot_psd(X, fs, n_fft, seg, nm, c['log'])
        elif k == 'plot_fractal':
            low = c['low'] * fs
            plot_fractal(X, fs, c['log'], band, nm, n_fft, seg, lowpass_freq=low)
        elif k == 'signal':
            s = Signal(X, fs, c['log'])
            s.plot_psd(n_fft, seg, nm, c['pj2'])
            b = wavelet_estimation(X, fs, nm, c['pj2'])
            close(s.wt_psd.psd, b.psd, 'stored PSD', rtol=1e-9)
            close(s.welch_psd.psd, a.psd, 'stored PSD', rtol=1e-9)
        elif k == 'signal fractal':
            s = Signal(X, fs, c['log'])
            s.plot_fractal(nm, band, n_fft, seg)
            f = estimate_beta(b.freq, b.psd, band, c['log'])
            close(s.fractal.beta, f.beta, 'stored slope', rtol=1e-9)
        ax = plt.gca()
        for p, name in ((a, 'Welch'), (b, 'wavelet')):
            u = (p.freq > 0) & (p.freq < low)
            drawn(ax, log(p.freq[u]), log(p.psd[u]), f'{name} PSD')
        t = [x.get_text() for x in ax.get_legend().get_texts()]
        check(t[:2] == ['Fourier', 'Wavelet'], f'legend {t}')
        if 'fractal' in k:
            u = (b.freq >= band[0]) & (b.freq <= band[1])
            s, i = fit(log(b.freq[u]), log(b.psd[u, 0]), np.ones(u.sum()))
            drawn(ax, log(b.freq[u]), s * log(b.freq[u]) + i, 'slope')
            check(len(t) == 3 and abs(float(t[2].split(':')[1]) - s) < 0.00501, f'legend {t}, slope {s}')
        check(ax.get_xlabel() == f'{c["log"]} f', 'label of the axis')
        check(len(curves(ax)) == 2 + ('fractal' in k), f'{len(curves(ax))} lines')
        check(np.array_equal(X, X0), 'signal modified')
    rec.tag(k)
    rec.good()


def lists(c, rec):
    rng = np.random.RandomState(c['seed'])
    log = LOG[c['log']]
    with figures():
        k = c['k']
        fr = [np.abs(np.arange(rng.randint(3, 20)) * rng.uniform(0.1, 3)) for _ in range(k)]
        ps = [np.exp(rng.standard_normal(len(f))) for f in fr]
        low = c['low'] * 10
        if any((f[f < low] > 0).sum() < 1 for f in fr):
            return
        cp = [(f.copy(), p.copy()) for f, p in zip(fr, ps)]
        fig, ax = plt.subplots(1, 2)
        col = ['r', 'g', 'b', 'k'][:k] if c['color'] else None
        sl = []
        for i in range(rng.randint(0, k + 1)):
            sx = np.sort(rng.uniform(-3, 3, rng.randint(2, 30)))
            sl.append((sx, rng.uniform(-3, 3) * sx + i))
        given = dict(color=col, slope=sl, linewidth=[1 + i for i in range(k)] if c['color'] else None,
                     fmt=['--', ':', '-.', '-'][:k] if rng.rand() < 0.5 else None,
                     legend=[f's{9 - i}' for i in range(k)] if c['color'] else None)
        if k % 2:
            given['plot_kwargs'] = dict(alpha=0.5)
        given0 = copy.deepcopy(given)
        log_plot(fr, ps, log=c['log'], lowpass_freq=low, ax=ax[0], title='T', **given)
        check(str(given) == str(given0), f'options modified: {given0} -> {given}')
        # frequencies as ticks
        fig3, ax3 = plt.subplots()
        f3 = fr[-1] if c['low'] > 1 else fr[-1][1:]
        log_plot([f3], [ps[-1][-len(f3):]], log=c['log'], lowpass_freq=low, ax=ax3, xticks=True)
        f3 = f3[(f3 < low) & (f3 > 0)]
        close(ax3.get_xticks(), log(f3), 'ticks', rtol=1e-9, atol=1e-9)
        for t, v in zip(ax3.get_xticklabels(), f3):
            check(abs(float(t.get_text()) - v) <= (0.00501 if v < 1 else 0.0501), f'tick {t.get_text()} at frequency {v}')
        check(ax3.get_ylabel().replace(' ', '').startswith(c['log']) and 'S_2' in ax3.get_ylabel(), f'label {ax3.get_ylabel()}')
        # a figure does not depend on those drawn before it
        fig2, ax2 = plt.subplots(1, 2)
        other = 'log' if c['log'] == 'log2' else 'log2'
        for a, name in zip(ax2, (other, c['log'])):
            log_plot(fr, ps, ax=a, log=name)
            check(a.get_xlabel() == f'{name} f' and a.get_title() == 'Power Spectral Density', 'labels')
            check(a.get_legend() is None and all(str(l.get_label()).startswith('_') for l in a.get_lines()), 'unnamed spectra got a label')
            check([l.get_alpha() for l in a.get_lines()] == [None] * k, 'options of another figure')
            check([l.get_linewidth() for l in a.get_lines()] == [1.5] * k, 'line width')
            check(len({str(l.get_color()) for l in a.get_lines()}) == k, 'colours of the spectra')
            for f, p in zip(fr, ps):
                drawn(a, LOG[name](f[f > 0]), LOG[name](p[f > 0]), 'spectrum')
        L = ax[0].get_lines()
        check(len(L) == k + len(sl) and not ax[1].get_lines(), f'{len(L)} lines for {k} spectra')
        for i in range(k):
            u = (fr[i] > 0) & (fr[i] < low)
            drawn(ax[0], log(fr[i][u]), log(ps[i][u]), f'spectrum {i}')
            mine = [l for l in L if len(np.ravel(l.get_ydata())) == u.sum() and
                    np.allclose(np.ravel(l.get_ydata()), log(ps[i][u]), rtol=1e-9, atol=1e-9)]
            check(len(mine) == 1, f'{len(mine)} lines for spectrum {i}')
            mine = mine[0]
            if c['color']:
                t = [x.get_text() for x in ax[0].get_legend().get_texts()]
                check(t[:k] == given['legend'], f'legend {t}')
                check(mine.get_color() == col[i] and mine.get_linewidth() == 1 + i, 'style')
            if given['fmt']:
                check(mine.get_linestyle() == given['fmt'][i], 'line style')
            if k % 2:
                check(mine.get_alpha() == 0.5, 'plot_kwargs')
        for i, line in enumerate(sl):
            drawn(ax[0], *line, f'slope {i}')
        check(all(np.array_equal(f, g) and np.array_equal(p, r) for f, p, (g, r) in zip(fr, ps, cp)), 'arguments modified')
        check(ax[0].get_title() == 'T', 'title')
        # several subjects and conditions
        f = 2. ** np.arange(-4, 5)
        subj, segs = [f's{i}' for i in range(1 + c['k'])], ['rest', 'task'][:1 + c['color']]
        rows, idx = [], []
        for s in subj:
            for g in segs:
                cut = f[rng.randint(0, 2):len(f) - rng.randint(0, 2)]
                rows.append(dict(freq=cut, mscale=np.exp(rng.standard_normal(len(cut))), slope=(np.log2(f[rng.randint(0, 3):rng.randint(4, 9)]), np.zeros(3))))
                idx.append((s, g))
        df = pd.DataFrame(rows, index=pd.MultiIndex.from_tuples(idx))
        fig, ax = plt.subplots()
        colors = dict(rest='r', task='b', rest_avg='k', task_avg='g')
        plot_multiscale(df, {n: v for n, v in colors.items() if n.split('_')[0] in segs}, ax=ax)
        at = [np.ravel(v)[0] for coll in ax.collections for v in coll.get_segments()]
        at = at or [np.ravel(l.get_xdata())[0] for l in ax.get_lines() if len(set(np.ravel(l.get_xdata()))) == 1]
        check(sorted(np.round(at, 9)) == sorted(np.round([rows[0]['slope'][0][0], rows[0]['slope'][0][-1]], 9)), f'band at {at}')
        for v, lab in zip(ax.get_xticks(), ax.get_xticklabels()):
            lab = lab.get_text().replace('\u2212', '-').split('\n')
            check(abs(float(lab[0]) - v) < 1e-4 and abs(float(lab[1]) / 2. ** v - 1) < 0.051, f'tick {lab} at {v}')
        for (s, g), r in zip(idx, rows):
            drawn(ax, np.log2(r['freq']), np.log2(r['mscale']), f'{s}, {g}')
        for g in segs:
            mine = [r for (s, h), r in zip(idx, rows) if h == g]
            lo, hi = max(r['freq'][0] for r in mine), min(r['freq'][-1] for r in mine)
            ff = f[(f >= lo) & (f <= hi)]
            mean = np.mean([[r['mscale'][list(r['freq']).index(v)] for v in ff] for r in mine], axis=0)
            drawn(ax, np.log2(ff), np.log2(mean), f'average of {g}')
            line = [l for l in ax.get_lines() if l.get_color() == colors[g + '_avg']]
            check(len(line) == 1 and np.allclose(line[0].get_ydata(), np.log2(mean)), f'colour of the average of {g}')
            check(sum(l.get_color() == colors[g] for l in ax.get_lines()) == len(subj), f'colour of {g}')
    rec.good()


UNI = st.sampled_from(['structure', 'structure', 'structure', 'cumulants', 'cumulants', 'cumulants', 'scaling', 'spectrum', 'hmin'])
CHECKS = [
    Sub('univariate', fd(mrq=gen.mrqs(r_max=1), what=UNI, q=gen.q_lists(long=False), ja=gen.JA, jb=gen.JB, weighted=gen.WEIGHTED,
                         lay=st.sampled_from([[n, r] for n in (1, 2, 3, 4, 5) for r in range(1, 6)]), ignore=st.booleans(), spread=st.booleans(),
                         save=st.sampled_from([False, False, False, True])), univariate, 500,
        rule='figures of one quantity: curves, fits, legends; every case'),
    Sub('bivariate', fd(mrq=gen.mrqs(r_max=1, nan=False), what=st.sampled_from(['structure', 'cumulants', 'legendre']),
                        q=gen.q_lists(neg=False, long=False), q2=gen.q_lists(neg=False, long=False), ja=gen.JA, jb=gen.JB, weighted=gen.WEIGHTED,
                        n_cumul=st.integers(1, 4), nq=st.sampled_from([[1, 1], [2, 2], [3, 2], [2, 3], [4, 1], [1, 4], [1, 5], [5, 1], [2, 4]]), u=gen.FRAC, v=gen.FRAC, rho=gen.f(-1, 1), res=st.sampled_from([12, 20]),
                        save=st.booleans()), bivariate, 160, rule='figures of two quantities; every case'),
    Sub('spectra', fd(sig=gen.signals(n_min=140, n_max=1500), fs=st.sampled_from([1., 10., 100.]), nm=st.integers(1, 3),
                      fft=st.sampled_from([(64, None), (64, 32), (32, 64), (101, 50), (128, None)]),
                      log=st.sampled_from(['log2', 'log']), low=st.sampled_from([0.2, 0.4, 2.]),
                      pj2=st.sampled_from([None, 2]),
                      what=st.sampled_from(['plot_psd', 'plot_fractal', 'signal', 'signal fractal'])), spectra, 260,
        rule='figures of power spectra and their slope; every case'),
    Sub('lists', fd(seed=gen.SEED, k=st.integers(1, 4), color=st.booleans(), low=gen.f(0.2, 4.),
                    log=st.sampled_from(['log2', 'log'])), lists, 200, rule='lists of spectra, subjects and averages; every case'),
]
ASSUMPTIONS = ['one realisation (up to three for plot_hmin); the Agg backend; figures are read through matplotlib artists']
