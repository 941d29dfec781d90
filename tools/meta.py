"""Writes properties.jsonl and MANIFEST.json (python3 tools/meta.py).  A property appears once its check exists under checks/."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, state=state, observe=observe))


V, VP, VE, VD = 'PyAnEn/Verify.py', 'PyAnEn/VerifyProb.py', 'PyAnEn/VerifyEnsemble.py', 'PyAnEn/VerifyDeterm.py'
VG, VGA, VH = 'PyAnEn/VerifyProbGaussian.py', 'PyAnEn/VerifyProbGamma.py', 'PyAnEn/VerifyProbGammaHurdle.py'
UV, UA, UD, UC, US, UB, DT = ('PyAnEn/utils_%s.py' % x if x != 'dt' else 'PyAnEn/dist_truncgamma.py' for x in ('verify', 'approximation', 'dist', 'crps', 'ss', 'special_boot', 'dt'))
AI = 'interprocedural abstract interpretation of the Python AST (gated value numbering with symbolic shapes and values); '
TRUST = ('Static, path-joining analysis of the current source, no execution. Trusted: the analyser in vsa/, its models of numpy/scipy/pandas/sklearn/properscoring/ray, and the reference '
         'formulas in spec/. Arithmetic is over the reals extended with NaN; ranks 1-3 and the listed option combinations are enumerated, extents and values are symbolic. '
         'An obligation whose code leaves the modelled subset is counted as undecided in the evidence and raises no alarm.')

prop('C01', 'Saved results are keyed by everything the result depends on',
     'With saving enabled, two calls on the same verifier may share a saved file only if they would compute the same result: different metrics and different argument values '
     '(threshold, direction, number of bins) never read or overwrite each other\'s saved results. Arguments that cannot be spelled out exactly in a file name are not saved at all.',
     ['inputs', 'histories'], 'every metric, threshold value, direction, bin count, and every order of calls',
     'tests save a handful of metrics with one or two thresholds each', [V], [dict(name='to_name and the save_name defaults', where=V), dict(name='_metric_workflow_1', where=V)],
     AI + 'effect analysis of the file names written and read, and injectivity of the name terms', TRUST)
prop('C02', 'Enabling saving never changes a result',
     'For every metric and configuration, the value returned with a working directory set equals the value returned without one, on the first call (when it is saved) and on later calls (when it is '
     'loaded). Saving covers values before averaging and bootstrap, so these are applied exactly once either way.',
     ['histories', 'configurations', 'inputs'], 'every metric, class, averaging axis, bootstrap setting and call repetition',
     'tests compare saved and unsaved values for a few metrics only', [V], [dict(name='_metric_workflow_1/2/3, _save, _load', where=V)],
     AI + 'comparison of the result terms with and without a working directory', TRUST)
prop('C03', 'Changing the configuration never returns a stale saved result',
     'With saving enabled and start_from_scratch left on, any result requested after a configuration change through a public setter equals the result of a new verifier built with the new '
     'configuration: nothing saved under the old configuration is reused.',
     ['histories', 'configurations'], 'every public setter, every metric, any order of metric and setter calls',
     'tests rarely change a setting after saving; the sequences are unbounded', [V, VP, VE, VH], [dict(name='_validate_saving wipes the working directory', where=V), dict(name='setters call _validate', where=V)],
     AI + 'typestate of the working directory across setter calls', TRUST)
prop('C04', 'File-system effects stay inside the working directory',
     'Without a working directory no metric creates, changes or removes any file, except the integration buffer when low-memory integration is asked for; with one, every path written or removed lies '
     'under it (or under the configured integration directory, for that buffer). Existing saved results are deleted only when start_from_scratch is on.',
     ['inputs', 'configurations'], 'every constructor, setter and metric call, with and without a working directory',
     'tests check produced values, not the set of paths touched', [V, UA], [dict(name='_save/_load/_validate_saving', where=V), dict(name='_initialize_memmap/_finalize_memmap', where=UA)],
     'interprocedural effect analysis: every file-system call reachable from the public API with its path term', TRUST)
prop('C05', 'A saved result is complete or absent',
     'A process that dies at any point while saving never leaves a file that a later run would load as a result: a saved result appears under its final name only after it has been written completely.',
     ['crash_points', 'fault_sequences'], 'every crash point during saving',
     'no test kills the process while it saves', [V], [dict(name='_save writes a temporary file, then renames it', where=V)],
     'ordering analysis of the file-system effects of saving (the loaded name is only ever the target of a rename that follows a closed write)', TRUST)
prop('C06', 'Inputs are never modified and results are independent of them',
     'No constructor, setter or metric modifies the forecast, observation or parameter arrays given by the caller, nor the arrays stored in the verifier, and modifying a returned array never changes '
     'the verifier, its inputs or a later result.',
     ['inputs', 'histories', 'configurations'], 'every class, metric, option, and any call sequence',
     'tests look at returned values, rarely at the inputs afterwards', [V, VP, VE, UV, UA, UB, US], [dict(name='copies before in-place operations', where=UV)],
     'interprocedural alias and mutation-effect analysis of array buffers', TRUST)
prop('C07', 'Exactly one of over and below; they are complementary',
     'Every thresholded quantity refuses to run when neither or both of over and below are given, including thresholds equal to zero. The probability of exceeding a threshold is one minus the '
     'probability of not exceeding it, for every forecast type.',
     ['inputs', 'configurations'], 'every thresholded metric, class, threshold value and estimation method',
     'tests call with one valid choice', [V, VE, VG, VGA, VH, UV], [dict(name='exclusive-or assertions in _cdf, binarize_obs, ens_to_prob, iou_*', where=UV)],
     AI + 'reachability of a normal exit, and equality of complementary terms', TRUST)
prop('C08', 'Forecast and observed events share threshold, direction and inequality',
     'Every metric that compares a forecast probability with an observed event (Brier score and its decomposition, ROC, reliability, IOU, integrated CRPS) defines both by the same threshold and the same side, '
     'with values equal to the threshold counted as below for both. Deterministic IOU applies the same strict comparison to forecasts and observations.',
     ['inputs', 'configurations'], 'every thresholded metric, class and threshold, ties included',
     'random real-valued test data never ties with the threshold', [VE, VP, UV], [dict(name='binarize_obs', where=UV), dict(name='_brier/_roc/_reliability/_iou_prob', where=VP)],
     AI + 'term equality against event definitions', TRUST)
prop('C09', 'Probabilities lie in [0, 1]',
     'Every probability produced from a forecast (cdf and sharpness, for ensembles by either estimation method and for every distribution, truncated or not, serial or parallel) lies between zero and one for all valid inputs.',
     ['inputs', 'configurations'], 'all forecasts, thresholds and estimation settings',
     'tests sample moderate thresholds and bandwidths', [UV, UD, DT], [dict(name='clip of the kernel density sum; clipped hurdle mixture', where=UV)],
     AI + 'interval domain over the resulting terms', TRUST)
prop('C10', 'Parallel execution returns exactly the serial result',
     'For any number of workers, chunk size and (where configurable) mapping axis, every metric returns the same values in the same shape and order as with one worker.',
     ['schedules', 'configurations', 'inputs'], 'every parallelised operation, worker count above one, chunk size and mapping axis',
     'tests try one or two worker counts on fixed shapes', [UV, UD, UA], [dict(name='split, process_map and reassembly', where=UV), dict(name='parallel wrappers of distribution functions', where=UD)],
     AI + 'equality of the serial and the parallel result terms (split/map/reassemble normalised away)', TRUST)
prop('C11', 'Numerical integration depends only on grid and verifier',
     'CRPS, mean and variance obtained by numerical integration are the trapezoidal sums over the configured points of the configured (or data-derived) range, and are identical for any number of workers, any '
     'completion order of parallel tasks, and with or without the low-memory buffer.',
     ['schedules', 'configurations', 'inputs'], 'all worker counts, completion orders, memory modes, point counts and ranges',
     'tests cannot enumerate completion orders or ranges', [UA, VH], [dict(name='_crps/_mean/_variance and reordering by index', where=UA), dict(name='_define_integration_range', where=UA)],
     AI + 'completion order modelled as an unknown permutation; equality with the trapezoidal term', TRUST)
prop('C12', 'Integration restores settings and releases resources on every exit',
     'Whether an integration returns or fails at any point, afterwards the process settings it changed have their previous values, its temporary buffer file is gone and the workers it started are shut down.',
     ['fault_sequences', 'crash_points', 'schedules'], 'an exception at any call made during the integration, serial or parallel, either memory mode',
     'no test makes an integration fail half-way', [UA], [dict(name='_workflow try/finally', where=UA)],
     'typestate analysis over normal and exceptional exits (a fault injected at every call site of the abstract execution)', TRUST)
prop('C13', 'Settings: usable defaults, user values kept, read at the time of the call',
     'Importing the package defines a parsable default for every setting it reads and never overwrites a value the user has set. Every operation uses the value a setting has when the operation is called.',
     ['configurations', 'histories'], 'every setting, set before import or between calls',
     'tests set a few variables before use', ['PyAnEn/__init__.py', V, UV, UA, US, UB, UD, UC], [dict(name='Defaults', where='PyAnEn/__init__.py')],
     'lint over every os.environ read plus abstract interpretation of the package initialiser', TRUST)
prop('C14', 'Forecasts and observations are paired at the same location',
     'The per-location value of every metric (before averaging) depends only on the forecast and observation at that location (for the hurdle distribution: given its integration range), and location i of the '
     'result comes from location i of the inputs, for any shape and ensemble axis, also after splitting, flattening, sorting, mapping in parallel and reassembling. Metrics over many samples (correlation, '
     'ROC, reliability, Brier decomposition, binned spread-skill) combine forecasts only with observations of the same location.',
     ['inputs', 'configurations'], 'all metrics and shapes', 'an index mix-up between equal-sized axes is invisible to shape checks',
     [V, VP, VE, UV, UD, UC], [dict(name='moveaxis/reshape/split pairs', where=UV)],
     AI + 'dependence analysis of the result element on input indices', TRUST)
prop('C15', 'Bootstrap intervals are quantiles and mean of resampled statistics',
     'With bootstrap enabled, every metric that supports it returns, at a size-three axis, the lower quantile, the mean and the upper quantile of the statistic over the configured number of repeats, '
     'each computed from the requested number of draws with replacement out of the averaging axes of that location (and of that bin, for binned diagrams); paired quantities are resampled together. '
     'The quantiles are the symmetric ones of the configured confidence, and explicit arguments win over settings.',
     ['inputs', 'configurations'], 'every bootstrapped metric, axis choice, repeats, confidence, sample count',
     'tests are random and check loose bounds', [V, UV, US, UB], [dict(name='boot_vec/boot_arr and the bootstrap variants', where=UV)],
     AI + 'term equality against reference bootstrap constructions (draws are symbolic)', TRUST)
prop('C16', 'Averaging covers exactly the requested axes',
     'Every metric aggregates over all samples of exactly the averaging axes (all axes when none are given) and keeps the others in their original order, with per-bin, bin-count and bootstrap axes at the same '
     'place for every choice. Axes may be given as an integer, tuple or list, negative or in any order.',
     ['inputs', 'configurations'], 'every metric, rank and set of averaging axes',
     'tests use few axis choices on shapes with distinct sizes', [V, UV, US, UB], [dict(name='moving sample axes to the front', where=UV)],
     AI + 'term equality over an enumeration of axis choices', TRUST)
prop('C17', 'NaN handling follows the skip-NaN setting',
     'With skipping enabled, averaging, bootstrap statistics, spread, rank histograms, correlation and binned spread-skill ignore missing values (for paired quantities, pairs with either '
     'value missing); with it disabled a missing value is never silently dropped by them: it makes the result missing or is refused. The setting is honoured in every accepted spelling.',
     ['inputs', 'configurations'], 'every aggregation, both settings, any pattern of missing values',
     'tests contain few NaN patterns', [V, VE, VP, UV, US, UB], [dict(name='nan-aware branches', where=UV)],
     AI + 'nan-propagating and nan-ignoring aggregations are distinct terms', TRUST)
prop('C18', 'Distribution parameters mean the same everywhere',
     'For each parametric forecast, cdf, sampled members and CRPS describe one and the same distribution built from the given mean, standard deviation, shift, probability of precipitation '
     '(with no probability below zero) and truncation at zero. The deterministic value and the variance are the given mean and squared standard deviation, for the hurdle distribution those '
     'integrated from its cdf; sampled members are clipped to zero only as configured.',
     ['inputs', 'configurations'], 'all parameters, thresholds, truncation flags and worker counts',
     'tests compare a few parameter sets', [UD, UC, DT, VG, VGA, VH], [dict(name='parameter conversions', where=UD)],
     AI + 'term equality of the distribution constructors', TRUST)
prop('C19', 'The ensemble axis position does not matter',
     'The same ensemble with members along the first or the last axis, given explicitly, negatively or guessed, gives identical results for every metric; an axis that is neither is refused. '
     'Changing the ensemble axis or the collapse function later is equivalent to constructing with it.',
     ['inputs', 'configurations', 'histories'], 'every metric, rank, axis spelling and worker count',
     'tests compare few metrics across axis positions', [VE, UV], [dict(name='_guess_ensemble_axis, _collapse_ensembles', where=VE), dict(name='ens_to_prob, rank_histogram axis moves', where=UV)],
     AI + 'equality of the result terms of both layouts', TRUST)
prop('C20', 'Unsupported metrics and options fail loudly',
     'A metric that a verifier type does not define, an unknown estimation method, and an unknown comparison criterion end in an exception; they never return a value and never save one.',
     ['inputs', 'configurations'], 'every class and metric, every setting value', 'tests call supported combinations',
     [V, VP, UV, 'PyAnEn/utils_significance.py'], [dict(name='NotImplementedError stubs', where=V), dict(name='unknown method branches', where=UV)],
     AI + 'no normal exit on any path', TRUST)
prop('C21', 'Invalid inputs and settings are refused when given',
     'Constructors and setters refuse forecasts and observations of different shape or type, missing parameters, and configuration values of the wrong type, whatever the other settings are; valid ones are accepted.',
     ['inputs', 'configurations', 'histories'], 'every constructor and setter argument', 'tests pass valid arguments',
     [V, VP, VE, VD, VG, VGA, VH], [dict(name='_validate chain', where=V)],
     AI + 'no normal exit for invalid abstract arguments; normal exit for valid ones', TRUST)
prop('C22', 'The Diebold-Mariano test statistic',
     'The test returns the Harvey-corrected statistic of the mean loss difference divided by the root of its long-run variance estimate (autocovariances up to horizon minus one), and its two-sided p-value '
     'from a t distribution with n-1 degrees of freedom, for each loss criterion; swapping the two forecasts negates the statistic and keeps the p-value. Arrays of different lengths and invalid horizons or criteria are refused.',
     ['inputs'], 'all series, horizons and criteria', 'no test exercises it', ['PyAnEn/utils_significance.py'], [dict(name='diebold_mariano_test, autocovariance', where='PyAnEn/utils_significance.py')],
     AI + 'term equality against the reference statistic', TRUST)
prop('C23', 'Opening ensemble files: coordinates, time units, names and handles',
     'Opening a single file decodes its name matrices and attaches the known coordinate variables to their dimensions; opening a set of files opens them in sorted order and adds missing lead times, test times and station locations '
     'from the root group of the same files; both mark every known time variable as seconds since 1970-01-01, rename the test-time dimension to the common name when there is no such dimension, decode times only when asked, and leave '
     'everything else as stored. Station coordinates added by the default preprocessing are chunk number plus position over number of stations. Helper file handles are closed on every exit and closing the returned dataset closes its files.',
     ['inputs', 'fault_sequences'], 'all datasets by presence or absence of each dimension and variable',
     'no test opens a file', ['PyAnEn/IO.py'], [dict(name='open_dataset, open_mfdataset, __add_coords__', where='PyAnEn/IO.py')],
     AI + 'term equality over the enumeration of present names against a model of the file library, and typestate of file handles', TRUST)
prop('C24', 'Each metric computes its defining formula',
     'Error, squared error, absolute error, root mean square error, variance, spread, Brier score, correlation, intersection over union and the deterministic forecast value equal their textbook definitions at every location, '
     'for every verifier type, where the deterministic value is the collapsed ensemble or the distribution mean.',
     ['inputs', 'configurations'], 'all inputs of rank 1-3, every class and metric', 'tests compare with hand-computed values on small data',
     [V, VD, VE, VP, VG, VGA, VH, UB, UV], [dict(name='private metric methods', where=VP)],
     AI + 'term equality against reference formulas', TRUST)
prop('C25', 'CRPS equals its reference form for every forecast type',
     'CRPS is the ensemble formula for ensembles (whether or not computed slice by slice), the closed form for Gaussian, truncated Gaussian and shifted Gamma forecasts (with either math backend), and '
     'the integrated Brier score for the Gamma hurdle forecast.',
     ['inputs', 'configurations'], 'all inputs and backends', 'tests compare with approximations at loose tolerance',
     [UC, VE, VG, VGA, VH, UA], [dict(name='crps_gamma, crps_truncated_gaussian', where=UC)],
     AI + 'term equality against closed forms', TRUST)
prop('C26', 'Rank histogram and probability integral transform',
     'The rank of an observation is one plus the number of smaller members, plus a uniformly random number of the members equal to it; it is computed per location from that location\'s members only and is missing exactly where data '
     'are missing and skipped. For distributions without sampled members the probability integral transform is the cdf at the observation, randomised uniformly below its value at observations of exactly '
     'zero if so configured. A flat histogram has reliability index zero.',
     ['inputs', 'configurations'], 'all members, observations and tie patterns',
     'tests compare with a reference implementation on data with few ties', [UV, VP, V], [dict(name='rankdata, rank_histogram', where=UV), dict(name='_pit', where=VP)],
     AI + 'term equality against reference constructions (random draws are symbolic)', TRUST)
prop('C27', 'Reliability diagram, ROC curve and Brier decomposition',
     'The reliability diagram returns, per occupied equal-width bin over [0,1], the mean forecast probability and the observed frequency of the same samples, and counts over the same bins; the ROC curve uses '
     'all forecast-event pairs; the Brier decomposition returns reliability, resolution and uncertainty with bin-size weights, over the averaging axes.',
     ['inputs', 'configurations'], 'all probabilities (0 and 1 included), bins and axes', 'tests use few bins and axes',
     [UV, UB, VP, VE], [dict(name='_reliability_*', where=UV), dict(name='brier_decomp', where=UB), dict(name='calculate_roc', where=UV)],
     AI + 'term equality against reference constructions', TRUST)
prop('C28', 'Binned spread-skill pairs variance and squared error of the same samples',
     'Per kept location, samples are ordered by forecast variance and cut into the requested number of nearly equal bins; each bin reports the root of the mean variance and of the mean squared error of the same '
     'samples, pairs with a missing value being left out only when skipping is enabled.',
     ['inputs', 'configurations'], 'all shapes, axes and bin counts', 'tests check monotonic spread on random data',
     [US, VP, VE], [dict(name='_binned_spread_skill_*', where=US)],
     AI + 'term equality against the reference construction', TRUST)
prop('C29', 'Writing and reading grids',
     'Writing a matrix refuses anything but two dimensions, never replaces an existing file unless told to, and writes the dimensions followed by every row in order with all its values in the documented text form, missing values as nan; '
     'the file is closed on every exit. Reading station coordinates returns the requested pair of variables from the requested group and closes the file.',
     ['inputs', 'fault_sequences'], 'all matrices and files', 'no test writes or reads one', ['PyAnEn/Grid.py'], [dict(name='write_matrix, read_station_coordinates', where='PyAnEn/Grid.py')],
     AI + 'effect order and text-term equality', TRUST)

NA = [
    ('N01', 'Numerical accuracy of integration and kernel density',
     'Integrated CRPS, mean and variance, and kernel-density probabilities converge to the exact values as the number of points grows, within a stated error for given data.',
     ['inputs', 'configurations'], 'all inputs and resolutions', 'tests check loose tolerances on a few cases', [UA, UV],
     'an error bound depends on run-time magnitudes of data, range and smoothness; no static argument over the source bounds it (the construction itself is decided by C11 and C18)'),
    ('N02', 'Bootstrap intervals have their nominal coverage',
     'Over repeated experiments a bootstrap interval covers the population statistic with about the configured confidence.',
     ['inputs'], 'all populations and sample sizes', 'needs a statistical experiment', [UV],
     'a statistical statement about random draws and populations, not a property of program structure (the construction of the interval is decided by C15)'),
    ('N03', 'Sampled members follow the forecast distribution',
     'The empirical distribution of sampled members converges to the forecast cdf as the number of members grows.',
     ['inputs'], 'all parameters', 'needs a statistical experiment', [UD, DT],
     'depends on the random generators of scipy at run time; only the parameters handed to them are decidable from source (C18)'),
    ('N04', 'Low-memory integration bounds peak memory',
     'With low-memory integration the peak memory of an integration does not grow with the number of integration points.',
     ['inputs', 'configurations'], 'all shapes and point counts', 'tests do not measure memory', [UA],
     'peak resident memory depends on the allocator, memory-mapped page cache and temporaries inside numpy, none visible in the source'),
]


def main():
    done = [p for p in P if os.path.exists(os.path.join(ROOT, 'checks', p['id'].lower() + '.py'))]
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in done:
            an = {'files': p['files'], 'mechanism': p['mech'], 'hook_needed': None}
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': an}) + '\n')
        for id, title, st, over, text, why, files, _ in NA:
            f.write(json.dumps({'id': id, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [], 'hook_needed': None}}) + '\n')
    m = {'version': 1, 'setup_cmd': 'true',
         'checks': [{'property': p['id'], 'quick_cmd': 'python3 run.py %s quick' % p['id'], 'thorough_cmd': 'python3 run.py %s thorough' % p['id'],
                     'technique': 'static analysis: ' + p['technique'], 'level': 'other', 'level_note': p['note']} for p in done],
         'not_applicable': [{'property': n[0], 'reason': n[-1]} for n in NA]}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    for p in P:
        assert len(p['title']) <= 80, p['id']
        assert p['statement'].count('. ') <= 2, (p['id'], p['statement'].count('. '))


main()
