"""Writes DESIGN.md from the text below, properties.jsonl, the checks and tools/catches.json."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf import core

HEAD = """# Design

pymultifracs computes wavelet coefficients, leaders and p-leaders of signals, from them structure functions, cumulants,
spectra and exponents (uni- and bivariate), power spectra and their slope, and synthesises the processes it is tried on.
Nearly everything it promises is a formula over *every* signal and parameter, so every property is decided by
**property-based testing**: structured generators (Hypothesis, with shrinking), and explicit oracles that share no code with
the library: models written from the definitions (`vf/ref.py`), closed forms, exact covariances, metamorphic relations,
differential comparisons between entry points, and model-based call histories. No property had to be left to another
technique; `not_applicable` is empty. C27 and the `random` checks are statistical, with gates wide enough (7 standard errors
or several times the calibrated spread) never to fire by chance in practice, and runs are seeded.

Coverage-guided fuzzing (atheris) was considered and not used: the code is straight-line numpy with few branches, all of
them reached by the generators (see the mutation sweep below); what matters is the value oracle, not the path.

## How a run works

`run.py C05 [--tier thorough] [--replay FILE]` imports `pymultifracs` from `/repo`'s working tree (pure Python, nothing
to build), runs each sub-check of `props/c05.py` in up to 8 seeded shards, and writes `evidence/C05.json` (cases, distinct
non-trivial cases by the rule of each sub-check, classes, samples). Cases are JSON values; on failure Hypothesis shrinks
(45 s at most), the case is written to `replays/` (with the history before it if it does not fail alone in a fresh
process), and `VIOLATION property=... replay=...` is printed, exit 1. A harness error (not a property violation) exits 2.
An exception of the library on a valid request counts as a violation. Seeds come from `VERIF_SEED`.

`vf/boot.py` gives the interpreter of the library (`/opt/venv`) access to Hypothesis only. `vf/gen.py` generates signals
(7 kinds from white noise to doubly integrated and bursty ones, lengths around powers of two and odd, 1-D or several
realisations, amplitudes, memory layouts, float32/int), quantities with missing values, scale ranges, exponent lists. Tolerances
are relative 1e-5..1e-9 with conditioning taken into account (cases whose coefficients are at rounding level are excluded
where logarithms or negative moments would amplify rounding; the rule is in `e2e.Setup.conditioned`).

Checks judge values and observable behaviour only (return values, errors, warnings' categories and presence, drawn artists),
never how the code is written.

## Domains and conventions taken from the code

Where documentation and code differ without a clear right, the property follows the code; each is noted here.

- The minimum number of usable values per scale is 3; a scale is returned when each realisation has 3. `j2` limits the scales used
  in fits, not those computed.
- `estimate_beta` returns the slope itself (the docstring's sign is ambiguous) and, for several columns, the first only.
- `compute_hurst` and `Signal.hurst` do not subtract the fractional integration; `StructureFunction.H` does.
- Fits need two scales; signals too short for two scales are outside the domain (a p-leader analysis then raises an
  AttributeError instead of a clear error). `welch_estimation` needs one segment of signal (it raises ValueError otherwise).
- Bivariate analyses are for one realisation and, with leaders, `n_cumul >= 2`. `Cumulants.plot` / `StructureFunction.plot`
  draw one realisation only.
- H = 1 makes the covariance singular: Cholesky synthesis raises, and the circulant method may warn of rounding-level negatives.
- Results keep a reference to the exponent array given by the caller in the functional interface (`.q`); `Signal` copies it.
- `Signal.data` replaced or modified by the caller is not tracked (documented nowhere; assumed constant).
- `mrw2D` does not squeeze scalar shapes. Pyvista/xvfb figures (`plot_legendre_pv`, `start_xvfb`) cannot run here: not covered.

## Properties
"""
TAIL = """
## Defects found and repaired

Each is one `fix:` commit in /repo; `known_findings.json` lists them with the property that reported it.

{fixed}

## Known findings (not repaired)

- C15 `hmin-not-warned`: `estimate_hmin` warns "hmin < 0" only if hmin is exactly 0 (`0 in hmin`). The correct test makes existing
  tests fail, because their configuration turns the (correct) warning into an error, so it is recorded, not repaired.
- C17 `joint-cumulants-not-implemented`: bivariate cumulants of joint order above (1, 1) are left at 0; implementing them is a feature,
  not a repair.

## False alarms met on the way (corrected in the checks)

Bounds first written too tight for float32 or very smooth signals (rounding-level coefficients have meaningless logarithms:
excluded by `conditioned`), moments counted by the wavelet's nominal order instead of its taps (C06), Cholesky near H = 1 (C22), and
the sign convention of C20. All sub-checks have been run at several seeds and at 6 times their quick counts without alarm.

## Planted bugs

`seeded/` holds changes written from the property texts. Each was confirmed: existing tests pass with it, its demonstration fails with
it and passes without. "first" is the result of the check as it was when the bug was planted, "now" the current one.

{catches}

## Mutation sweep

{mutation}
"""
M={}
M['C01']="`reference`: every coefficient and every missing position against `vf/ref.py:coefs`, which evaluates windowed inner products directly from the filter taps (no convolution routine, no NaN propagation: usability is computed from positions). `embedding`: a signal inside a longer one with unrelated samples around must give the same coefficients at the shifted positions. `locality`: one changed sample moves only coefficients whose support contains it. `linear`: W(aX+bY)=aW(X)+bW(Y). Layouts C/Fortran/strided, float32, int. `gaps`: missing samples remove exactly the coefficients whose filter supports reach them."
M['C02']="`scales`: lengths 24..20000 (all parities, around powers of two) against a mask-only model of the filter bank: number of scales, counts per scale and realisation, `j2_eff`, presence/absence of the warning. `levels`: decomposition level against the closed form. `counts`: nj of quantities with gaps."
M['C03']="`reference`: leaders against the definition over sets (3 lambda, all finer scales), missing iff no usable coefficient is covered. `hierarchy`: each leader dominates every coefficient below and every child leader. `rescale`: leaders of cX. `gaps`: signals with missing samples, leaders from what is left."
M['C04']="`reference`: p-leaders against the definition with eta_p from an independent structure function and regression, then the closed-form correction. `mixed`: rough and smooth realisations side by side: uncorrected exactly where eta_p <= 0, warning exactly then. `gaps`: the same with missing samples, the correction being estimated from what is left."
M['C05']="Complete analyses of X and cX, c of both signs and from 1e-20 to 1e12; bivariate with two different factors. Exponents equal; intercepts/first cumulants/structure functions move by the exact amount."
M['C06']="Add polynomials of each admissible degree (moments counted on the taps, residue of inexact taps allowed for), at magnitudes up to what rounding allows; coefficients, all estimates, wavelet PSD compared."
M['C07']="Same signal under another gamint/normalisation: coefficients and leaders times the exact power of 2^j; norm p equivalent to L1 with compensating gamint; exponents shifted by exact amounts; H net of gamint."
M['C08']="Columns alone (vector or matrix of one column) against all together, with realisations of different nature; permutations, repetitions and selections; quantities with per-realisation gaps; wavelet PSD. `gaps`: different missing samples in each realisation."
M['C09']="Histories of calls on shared signals, transforms, exponent arrays; bitwise snapshot of everything before/after each call, then the same history is replayed and must give identical bits. A second check edits arguments in place (reversal, swaps that keep the sum, one sample, negation, other signal) and spoils earlier results, and compares each call with the same call on fresh copies: this reaches caches and shared buffers. A third copies and pickles results. A fourth runs two to four calls as threads, one at a time, switched between lines of the code (a trace function) as a seeded generator decides, and compares each with the call alone: the schedule is part of the case, so it shrinks and replays."
M['C10']="Structure functions against sample moments in plain numpy with gaps, signs, zero/negative/fractional/large exponents; zeta by independent lstsq; H; convexity of log-moments in q."
M['C11']="Cumulants through central moments (not the raw-moment recursion of the code); slopes by lstsq times log2 e; homogeneity under powers of the quantity."
M['C12']="U, V computed value by value with stabilised weights; D, h as slopes; Legendre identities with the scaling function of the structure function object."
M['C13']="Closed forms: exactly self-similar values (shuffled, gaps) and multiplicative cascades with 2-4 weights (zeta, cumulants, spectrum, hmin), pairs of cascades on one tree for the bivariate exponents and rho."
M['C14']="`linear_regression` against lstsq; all exponents recomputed from the published per-scale values; values at scales outside [j1, j2] changed or removed: nothing moves; end-to-end with too large j2."
M['C15']="hmin, its intercept and Hurst against models with gaps and both weightings; prescribed suprema; the warning judged on prescribed signs (known finding)."
M['C16']="One-call analyses against their parts, minimal against full, omitted against explicit defaults, dictionaries with extra keys, bivariate in one call / from transforms / part by part. `options`: every optional argument left out against its documented default, one at a time; bivariate with leaders of one signal only, different orders and different largest scales for the two signals."
M['C17']="Joint moments and cumulants against plain numpy (k-statistics free, biased joint cumulants through partitions), zero exponent marginals, exchange, X with itself, and through signals."
M['C18']="Bounds of coherence and rho, exactly +-1 for degenerate pairs, ratios recomputed from published moments/cumulants; bivariate spectrum against its closed form on grids."
M['C19']="Welch against direct windowed Fourier sums, frequencies, scaling with amplitude and fs, sinusoids; wavelet PSD against mean squares of model coefficients at model frequencies; both estimators agree on power-law spectra."
M['C20']="Slope/intercept/frequencies against lstsq on the band (limits included, zero frequency excluded); perturbation outside the band, log base, order, factor; composed with the wavelet PSD."
M['C21']="Stateful: a model keeps what the last calls were and gets every answer from the functional interface; histories of 6-14 calls on two signals incl. repeats, refused requests, caller-modified arrays, save=False, one-parameter-at-a-time variations; stored attributes compared after every call; earlier results unchanged at the end. `variations`: sequences of requests that differ in one parameter at a time."
M['C22']="The map from initial noise to path is linear, so the covariance is read off exactly (A A^T against the formula) for both methods; linearity/shape/seed relations; default noise sampled, 7-sigma gate."
M['C23']="The log-weights are recovered exactly by steering the initial noise and their covariance read off as in C22, mean = -variance; path formulas; skewed walk (weights, skewness kernel, mirror relation, direct convolution); 2-D (weights, sigma, integration as a Fourier multiplier on plane waves); sampled covariances at 7 (9 in 2-D) sigma."
M['C24']="Round trips, monotonicity, relation to the frequencies of wavelet PSDs; bands against enumeration of scales; build_q_log against an independent construction."
M['C25']="Parameters inside, exactly at, and arbitrarily close beyond each limit; error expected/forbidden accordingly; warnings about scale limits and embeddings exactly with their cause."
M['C26']="Figures on the Agg backend; the drawn artists are read back: curves = values, fitted line = independent fit over the fitted range, legends/labels, number of panels, files saved in a scratch directory; results and options unchanged by drawing, later figures independent of earlier ones. 3-D surfaces are read back vertex by vertex; pyvista (not installed) is replaced by a stand-in that records mesh and axis labels."
M['C27']="Synthesise-then-analyse, averaged over 12 realisations of 4096 samples; tolerances calibrated at several times the observed spread."
NB={}
out=[]
for l in open(os.path.join(ROOT, 'properties.jsonl')):
    p=json.loads(l); i=p['id']; m=core.load(i)
    out.append(f"### {i} {p['title']}\n\n{M[i]}\n")
    out.append("| check | quick cases | thorough cases | generated over; non-trivial rule |\n|---|---|---|---|")
    for s in m.CHECKS: out.append(f"| {s.name} | {s.quick} | {s.thorough} | {s.rule} |")
    out.append(f"\nBeyond the tests: {p['why_tests_cant']}. Bounds: {'; '.join(getattr(m,'ASSUMPTIONS',None) or ['those of the generators'])}.\n")

k = json.load(open(os.path.join(ROOT, 'known_findings.json')))
cat = json.load(open(os.path.join(ROOT, 'tools', 'catches.json')))
rows = ['| planted bug | needs | first | now |', '|---|---|---|---|']
for c in cat['bugs']:
    meta = os.path.join(ROOT, 'seeded', c['id'], 'meta.json')
    rows.append(f"| {c['id']} | {json.load(open(meta))['needs'] if os.path.exists(meta) else ''} | {c['first']} | {c['now']} |")
with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
    f.write(HEAD + '\n' + '\n'.join(out) + TAIL.format(fixed='\n'.join('- ' + v[7:] for v in k['fixed']),
                                                      catches='\n'.join(rows), mutation=cat['mutation']))
