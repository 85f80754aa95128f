"""Writes properties.jsonl and MANIFEST.json from the table below (run from /verif)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W, MFA, SF, CU, SP = (f'pymultifracs/{n}.py' for n in ('wavelet', 'mfa', 'structurefunction', 'cumulants', 'mfspectrum'))
MRQ, EST, UT, PSD, FRA, SIG, VIZ = (f'pymultifracs/{n}.py' for n in (
    'multiresquantity', 'estimation', 'utils', 'psd', 'fractal_analysis', 'signal', 'viz'))
BM, BC, BS = (f'pymultifracs/bivariate/{n}.py' for n in ('bimfa', 'bivariate_cumulants', 'bivariate_structurefunction'))
FBM, MRW, PZ = (f'pymultifracs/simul/{n}.py' for n in ('fbm', 'mrw', 'pzutils'))

SAMPLED = 'the existing tests analyse a few fixed-parameter random walks or noises and compare exponents within wide tolerances'

# id, title, statement, over, quantifier, why tests cannot, [(mechanism, where)], level note
P = [
 ('C01', 'Wavelet coefficients: border-free inner products with the dilated wavelet',
  'At every scale the coefficients returned by the wavelet analysis are the inner products of the signal with the dilated and '
  'translated wavelet, for the requested wavelet, normalisation and fractional integration, and every position where the wavelet '
  'would overlap a border or a missing (NaN) sample is missing rather than approximated, and no other. They are linear in the signal, depend only on the samples under the '
  'wavelet, and are unchanged when the signal is a stretch (starting at a multiple of the scale step) of a longer one. The signal may be a '
  'vector or one column per realisation, of any memory layout or numeric type.',
  ['inputs', 'configurations'], 'all finite signals x wavelets x normalisations x fractional integrations x scale limits',
  SAMPLED + '; none looks at a coefficient or at a border',
  [('pyramid filtering and border removal', W + ': filtering, _wavelet_coef_analysis')],
  'generated signals against an independent direct-correlation model, plus embedding, locality and linearity relations'),
 ('C02', 'The scales returned are exactly the usable ones, with their counts',
  'An analysis returns every scale, from 1 up, that has enough border-free values for its formalism, and no other; the recorded number of '
  'values per scale and realisation is the number of non-missing ones. The effective upper scale is the requested one cut to the largest '
  'usable scale, and a warning is given exactly when the requested scale exceeds the decomposition level that the signal length allows.',
  ['inputs', 'configurations'], 'all signal lengths and shapes x wavelets x formalisms x upper scales (absent, non-integer, too large)',
  'tests use lengths for which every requested scale exists',
  [('decomposition level, j2_eff', W + ': _decomposition_level, wavelet_analysis'), ('counts', MRQ + ': add_values')],
  'generated lengths including all boundary lengths against closed-form counts'),
 ('C03', 'Wavelet leaders are suprema over three neighbours and all finer scales',
  'Each wavelet leader is the largest absolute border-free coefficient in the dyadic interval of its position and its two neighbours, at its scale and all finer '
  'ones; it is missing only when there is no such coefficient. Hence leaders never fall below any coefficient they cover, never decrease from child to parent, and scale with the amplitude of the signal.',
  ['inputs', 'configurations'], 'all finite signals x wavelets x normalisations x fractional integrations',
  'tests only look at exponents estimated from leaders, with tolerances that hide local errors',
  [('leader recursion', W + ': _compute_leaders, _find_sans_voisin')],
  'generated signals against a set-based model of the definition, monotonicity and domination relations'),
 ('C04', 'p-leaders are local l^p norms, corrected for finite resolution',
  'Each p-leader is the l^p norm of the border-free coefficients, weighted by 2^(finer scale - own scale), over its dyadic interval and two neighbours at its scale and all finer ones, '
  'multiplied by the finite-resolution correction of its realisation. The exponent eta_p is the scaling exponent of the p-th structure function of the coefficients over the '
  'requested scales; realisations whose eta_p is not positive are left uncorrected with a warning, which is given in no other case.',
  ['inputs', 'configurations'], 'all finite signals x p > 0 x wavelets x scale ranges x weighting',
  'tests use one p on one process, for which the correction is nearly constant',
  [('l^p recursion', W + ': _compute_leaders'), ('correction', W + ': _correct_leaders, _estimate_eta_p')],
  'generated signals against a model written from the definition'),
 ('C05', 'Amplitude and polarity of a signal change no exponent',
  'Multiplying a signal by any non-zero constant leaves every exponent of every formalism unchanged: scaling exponents, Hurst, log-cumulants, spectrum, minimal regularity, '
  'eta_p and all bivariate exponents and correlations (up to sign where polarity matters). Only intercepts, first cumulants and structure functions move, by the '
  'exact power or logarithm of the constant.',
  ['inputs', 'configurations'], 'all signals x all non-zero constants x formalisms and parameters, one or two signals',
  'no test scales a signal', [('log-log regression', UT + ': linear_regression'), ('per-scale statistics', SF + ', ' + CU + ', ' + SP)],
  'metamorphic relation on complete analyses'),
 ('C06', 'Polynomial trends below the vanishing moments are invisible',
  'Adding to a signal a polynomial of degree smaller than the number of vanishing moments of the analysing wavelet changes no coefficient, leader, '
  'exponent, spectrum or wavelet power spectral density beyond rounding. This holds up to the borders, since border-affected values are discarded.',
  ['inputs', 'configurations'], 'all signals x polynomials of every admissible degree x wavelets x formalisms',
  'no test adds a trend', [('border removal', W + ': filtering'), ('wavelet PSD', PSD + ': wavelet_estimation')],
  'metamorphic relation, with moments counted on the filter taps'),
 ('C07', 'Fractional integration and normalisation are exact power laws of scale',
  'Changing the fractional integration exponent or the normalisation of the coefficients multiplies every coefficient and leader at scale j by the '
  'corresponding power of 2^j and nothing else. Exponents therefore shift by exactly that amount, a normalisation p is equivalent to the L1 normalisation with '
  'another integration exponent, and H is reported net of the fractional integration.',
  ['inputs', 'configurations'], 'all signals x integration exponents x normalisations x formalisms',
  'tests use two integration exponents and compare only estimates', [('per-scale normalisation', W + ': _wavelet_coef_analysis'), ('H', SF + ': _get_H')],
  'metamorphic relation between parameterisations'),
 ('C08', 'Realisations are analysed independently of one another',
  'Analysing several realisations together gives, for each one, what analysing it alone gives, for every output: coefficients, leaders, counts, eta_p, correction, '
  'exponents, minimal regularity and wavelet power spectral density. Permuting, repeating or selecting realisations permutes, repeats or selects the outputs, and a vector is the same as a '
  'matrix of one column.',
  ['inputs', 'configurations'], 'all sets of realisations of different nature (including different missing values) x parameters',
  'tests average over identically distributed realisations', [('broadcast over realisations', W + ', ' + MRQ), ('regression weights per realisation', UT + ': linear_regression')],
  'differential: columns together against columns alone'),
 ('C09', 'Analyses are pure: inputs and earlier results untouched, repeats agree',
  'No analysis modifies the signals, transforms, exponents or results given to it or returned earlier, whatever is called afterwards. Repeating a call with the same arguments gives the same '
  'numbers bit for bit, in any order of calls and from several threads at once; after an argument was changed by its owner, or a returned result spoilt, a call answers for the present values of its arguments.',
  ['histories', 'inputs'], 'all sequences of calls sharing signals, transforms and exponent arrays',
  'tests make one call each and never compare inputs before and after', [('copies of coefficients in leaders and correction', W + ': wavelet_analysis, _correct_leaders')],
  'generated call histories with bitwise snapshots after each call, then replayed'),
 ('C10', 'Structure functions are sample moments; zeta and H follow from them',
  'The structure function at scale j and exponent q is the average of |value|^q over the non-missing values of the scale, and its logarithm is in base 2. '
  'zeta(q) is the regression slope of that logarithm over the requested scales, H is zeta(2)/2 minus the fractional integration when 2 is among the exponents and absent otherwise.',
  ['inputs', 'configurations'], 'all quantities with any missing values, any signs x exponents of any order, sign and repetition x scale ranges x weighting',
  SAMPLED, [('moments', SF + ': _compute'), ('exponents', SF + ': _compute_zeta, _get_H')], 'reference model in plain numpy'),
 ('C11', 'Cumulants of log-values per scale, log-cumulants as their base-2 slopes',
  'The m-th cumulant at a scale is the m-th cumulant of the natural logarithm of the absolute non-missing values of that scale. The m-th log-cumulant is the '
  'slope of these over the requested scales times log2(e), and is available for every order up to the requested one.',
  ['inputs', 'configurations'], 'all quantities with any missing values and signs x orders x scale ranges x weighting',
  'tests look at the first two log-cumulants within wide tolerances', [('moment-cumulant recursion', CU + ': _compute'), ('slopes', CU + ': _compute_log_cumulants')],
  'independent model through central moments, and additivity and homogeneity relations'),
 ('C12', 'Multifractal spectrum: D(q), h(q) are the Legendre transform of zeta',
  'U and V at each scale are the entropy and the mean logarithm of the values under the weights |value|^q, and D(q), h(q) are their slopes (D plus 1). Hence h is the '
  'derivative of zeta, D = 1 + q h - zeta, D(0) = 1, and D is at most 1 for exactly scaling data.',
  ['inputs', 'configurations'], 'all quantities with missing values x exponents x scale ranges x weighting', 'the tests never compare the spectrum to zeta',
  [('U, V', SP + ': _compute'), ('powers', UT + ': fast_power')], 'reference model plus Legendre relation to the structure function'),
 ('C13', 'Quantities that scale exactly give back exactly their exponents',
  'For values that scale as an exact power law, and for deterministic multiplicative cascades, the estimated scaling exponents, log-cumulants, spectrum, minimal '
  'regularity, H and bivariate exponents and correlations equal their closed forms. This holds for any order, sign, gaps and number of values per scale and for both regression weightings.',
  ['inputs', 'configurations'], 'all exponents, cascade weights, scale ranges, gaps', 'tests can only compare to asymptotic values of random processes',
  [('every estimator', SF + ', ' + CU + ', ' + SP + ', ' + EST + ', ' + BC + ', ' + BS)], 'closed forms on synthetic cascades'),
 ('C14', 'Every exponent is a least-squares slope over exactly the requested scales',
  'Every exponent is the slope of the (optionally count-weighted) least-squares line through the published per-scale values, over all scales from j1 to the effective j2 inclusive and no other. '
  'Intercepts belong to that same line, regression weights are the numbers of values of each scale and realisation, and what lies at other scales has no influence.',
  ['inputs', 'configurations'], 'all quantities and signals x scale ranges x weighting, one or two signals', 'tests use one scale range and never perturb other scales',
  [('regression', UT + ': linear_regression'), ('slices of scales', SF + ', ' + CU + ', ' + SP + ', ' + EST + ', ' + BC + ', ' + BS)], 'independent lstsq solution and perturbation of the other scales'),
 ('C15', 'Minimal regularity and Hurst exponent',
  'The minimal regularity is the slope over the requested scales of the base-2 logarithm of the largest absolute coefficient of each scale, with its intercept, and is the same whether asked with or without warnings. '
  'The Hurst exponent of the coefficients is half the slope of log2 of their mean square. A warning is given when the minimal regularity of a realisation is negative, and not when it is positive.',
  ['inputs', 'configurations'], 'all quantities with gaps and signals x scale ranges x weighting', 'one test compares hmin to a wide interval',
  [('slope of suprema', EST + ': estimate_hmin'), ('Hurst', EST + ': compute_hurst')],
  'reference model; known finding: the warning is never given for negative values (a correct warning fails existing tests)'),
 ('C16', 'One-call analysis = its parts, with the documented defaults',
  'The one-call analysis, univariate or bivariate, gives exactly what the wavelet analysis followed by each estimator gives; exponents may be a list or an array. Coefficients and leaders are reported separately, '
  'leaders only when a formalism for them is asked. Omitted arguments mean the documented defaults, and the minimal analysis gives the same numbers as the full one for the parts it computes.',
  ['inputs', 'configurations'], 'all signals x parameters, given or omitted', 'tests call one entry point with all arguments', [('composition', MFA + ', ' + BM), ('from_dict', MRQ)],
  'differential between entry points'),
 ('C17', 'Bivariate moments and cumulants: definition, marginals, symmetry',
  'The bivariate structure function is the average of |X|^q1 |Y|^q2 and the bivariate cumulant is the joint cumulant of ln|X| and ln|Y|, over the values of each scale; exponents are their slopes. '
  'With one exponent zero they are the univariate ones, exchanging the signals exchanges the exponents, and a signal with itself gives the univariate moment of the summed exponents.',
  ['inputs', 'configurations'], 'all pairs of quantities sampled at the same positions and pairs of signals x exponents x orders', 'the tests check one exponent pair on one process',
  [('moments', BS + ': _compute'), ('cumulants', BC + ': _compute')], 'reference model; known finding: joint cumulants of order above 2 are not implemented and reported as zero'),
 ('C18', 'Correlation summaries: bounds, perfect correlation, bivariate spectrum',
  'Coherence and multifractal correlations are within [-1, 1], and are exactly 1 or -1 when one signal is a multiple (resp. a power) of the other. They are the stated ratios of second-order moments and cumulants, '
  'and the bivariate spectrum is the Legendre transform of the second-order expansion of the joint exponents.',
  ['inputs', 'configurations'], 'all pairs of quantities or signals x parameters', 'no test checks a bound or a degenerate pair',
  [('coherence', BS), ('correlation and spectrum', BC + ': _compute_rho, compute_legendre')], 'invariants and closed forms'),
 ('C19', 'Power spectral densities: Welch and wavelet estimates',
  'The Welch estimate is the average of the periodograms of half-overlapping Hamming-windowed segments, on the matching frequencies; the wavelet estimate at the frequency of each scale is the mean square of the border-free coefficients. '
  'Both scale with the square of the amplitude, the sampling frequency only labels the frequency axis, and a sinusoid peaks at its frequency.',
  ['inputs', 'configurations'], 'all signals at least one segment long x sampling frequencies x transform and segment lengths x vanishing moments', 'the tests only draw the estimates',
  [('Welch', PSD + ': welch_estimation'), ('wavelet', PSD + ': wavelet_estimation')], 'direct Fourier sums and model coefficients'),
 ('C20', 'Spectral slope: least-squares line through the log-spectrum in the band',
  'The spectral slope and intercept are those of the least-squares line through log-spectrum against log-frequency over the frequencies within the requested band, limits included. Values outside the band and the null frequency have no influence, and '
  'the base of the logarithm does not change the slope. An exact power law gives back its exponent.',
  ['inputs', 'configurations'], 'all spectra and frequency grids in any order x bands x logarithm bases', 'no test estimates a slope on a known spectrum', [('fit', FRA + ': estimate_beta')],
  'independent least squares; perturbation outside the band'),
 ('C21', 'Signal object: a call answers for its own arguments, whatever came before',
  'After any sequence of calls on a signal object, including refused ones, each call returns what the corresponding function returns for the signal and the arguments of that call (multifractal analyses use the last wavelet analysis). '
  'Later changes to arrays given as arguments, calls that do not save, or other objects change nothing. Calls that need a wavelet analysis are refused before one was made.',
  ['histories', 'inputs'], 'all sequences of method calls with changing and repeated arguments', 'one test calls the methods once', [('caches keyed by parameters', SIG + ': same_params, _wavelet_analysis, mf_analysis')],
  'model-based call histories: every answer is compared with the functional interface'),
 ('C22', 'Fractional Gaussian noise and Brownian motion have the exact covariance',
  'Both synthesis methods give Gaussian vectors whose covariance is exactly that of fractional Gaussian noise of the requested H, scale and sampling step; fractional Brownian motion is its cumulative sum starting from the first increment. '
  'Realisations are independent, the output is linear in the supplied initial noise and in the scale, and scalar and matrix shapes agree.',
  ['inputs', 'configurations'], 'all lengths, H in [0, 1], scales, steps, methods', 'tests compare one estimated exponent', [('covariance', FBM + ': fgn'), ('factorisations', PZ + ': gaussian_cme, gaussian_chol')],
  'the exact covariance read off the linear map from the initial noise; sampled covariance at 7 sigma'),
 ('C23', 'Multifractal random walks: the specified noise and log-correlated weights',
  'A multifractal random walk is the cumulative sum of fractional Gaussian noise times the exponential of a Gaussian field whose covariance is lambda^2 log(L/(lag+1)) up to lag L and zero beyond, with a mean of minus its variance; noise and weights are independent. '
  'The cumulant parameterisation, the skewed walk and the two-dimensional walk follow their formulas for every parameter, and no weight gives fractional Brownian motion.',
  ['inputs', 'configurations'], 'all lengths, H, lambda, integral scales, sigmas, methods, initial noises', 'tests compare one estimated c1, c2',
  [('weights', MRW + ': gaussian_w'), ('skewness', MRW + ': skewness_convolution'), ('2-D', MRW + ': mrw2D, fract_int_2d')], 'the weights are recovered by steering the initial noise; sampled covariances at 7 sigma'),
 ('C24', 'Scales and frequencies correspond; logarithmic exponent sets as documented',
  'Scale-to-frequency and frequency-to-scale conversions are inverse of each other, decreasing, depend only on frequency relative to the sampling frequency and agree with the frequencies of the wavelet spectral density; the band conversion gives the smallest and largest scales in the band. '
  'The logarithmic exponent set is the logarithmically spaced values between the limits, their opposites and -2, -1, 0, 1, 2, sorted without repetition.',
  ['inputs'], 'all frequencies, scales (integer or not, scalar or array), bands, exponent limits', 'no test touches them', [('conversions', UT + ': scale2freq, freq2scale, fband2scale'), ('exponents', UT + ': build_q_log')],
  'round trips and an independent construction'),
 ('C25', 'Invalid requests are refused, limits accepted, warnings match their cause',
  'Parameters outside their domain (H outside [0, 1], integral scale longer than the signal, unknown method, wavelet or formalism, a walk with a positive second cumulant, non-positive exponent limits, mismatched pairs) raise an error instead of giving finite numbers. Parameters exactly at the limits are accepted, '
  'and warnings about scale limits or a non-positive embedding are given exactly when their cause is present.',
  ['inputs', 'configurations'], 'all parameters within, at and arbitrarily close beyond their limits', 'no test asks for anything invalid', [('checks', FBM + ', ' + MRW + ', ' + PZ + ', ' + MRQ + ', ' + UT + ', ' + W + ', ' + BS + ', ' + BC)],
  'generated parameters on both sides of each limit'),
 ('C26', 'Figures show the computed values and fitted lines, and change nothing',
  'Each plotting method draws exactly the per-scale values it is about, at their scales or frequencies, with the fitted line over the fitted range and exponents in the labels or titles, one panel per exponent or order. Axes are labelled with the quantity they show. Options (log base, size, styles, names of figures, saving) are honoured, '
  'a figure does not depend on those drawn before, and drawing changes no result, no argument and no setting of later figures.',
  ['inputs', 'configurations'], 'all results (number of exponents, orders, scales) x plot options', 'tests only check that some plots do not raise', [('plots', SF + ', ' + CU + ', ' + SP + ', ' + EST + ', ' + PSD + ', ' + FRA + ', ' + VIZ + ', ' + BC + ', ' + BS)],
  'the drawn artists are read back and compared with values and fits'),
 ('C27', 'End to end: parameters of synthesised processes are recovered',
  'Synthesising fractional Brownian motion or a multifractal random walk and analysing it with any wavelet, formalism, integration exponent and weighting recovers H, c1, c2 and the spectral slope within statistical error.',
  ['inputs', 'configurations'], 'all process parameters x analysis parameters', 'tests do this for a few fixed parameters', [('synthesis and analysis', FBM + ', ' + MRW + ', ' + MFA)],
  'statistical: averages over 12 realisations, tolerances several times the observed spread'),
]

assert [p[0] for p in P] == [f'C{i:02d}' for i in range(1, len(P) + 1)]
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for i, title, stmt, over, quant, why, mech, note in P:
        assert len(title) <= 80, (i, len(title))
        files = sorted({w for _, where in mech for part in where.split(', ') for w in [part.split(':')[0].strip()] if w.endswith('.py')})
        f.write(json.dumps(dict(id=i, title=title, statement=stmt, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))) + '\n')
PY = '/opt/venv/bin/python'
checks = [dict(property=p[0], quick_cmd=f'{PY} run.py {p[0]}', thorough_cmd=f'{PY} run.py {p[0]} --tier thorough',
               evidence_file=f'evidence/{p[0]}.json',
               technique='property-based testing (Hypothesis generators, shrinking): ' + (
                   'call histories against a model' if 'histories' in p[3] else 'reference models, closed forms and metamorphic relations'),
               level='exploration',
               level_note='Generated-input search, no proof of absence: ' + p[7] + '. Trusts the models in vf/ and numpy/scipy/pywt filter taps.')
          for p in P]
json.dump(dict(version=1, setup_cmd=f'{PY} -B -c "import vf.core"', checks=checks, not_applicable=[],
               notes='One driver, run.py; properties in props/, generators and reference models in vf/. No hooks in /repo.'),
          open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
