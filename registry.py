#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json:  python3 registry.py  rewrites both."""
import json
import os

ROOT = os.path.dirname(os.path.abspath(__file__))
CORE, TM, OM = 'bayesloop/core.py', 'bayesloop/transitionModels.py', 'bayesloop/observationModels.py'
PARSER, PRE, HELP, FIO, JEFF = ('bayesloop/parser.py', 'bayesloop/preprocessing.py', 'bayesloop/helper.py',
                                'bayesloop/fileIO.py', 'bayesloop/jeffreys.py')
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe:
        d['anchors']['observe_at'] = observe
    PROPS.append(d)


T_POINT = 'The tests compare a few rounded numbers for one data set per model; they cannot cover all '

prop('C01', 'Model evidence is the exact marginal likelihood in every fit mode',
     'The evidence reported after a fit equals the probability (density) of the data summed over all parameter '
     'trajectories on the grid: prior probability of the first parameter value times transition probabilities times '
     'likelihoods. Full, forward-only and evidence-only fits report the same value.',
     ['inputs', 'configurations'], 'all likelihood values and priors, all transition models and time stamps',
     T_POINT + 'likelihood values and priors.', [CORE, TM],
     [('forward pass', CORE + ': Study.fit'), ('prior', CORE + ': Study._computePrior'),
      ('forward transition', TM + ': computeForwardPrior')], ['logEvidence, log10Evidence'])
prop('C02', 'Forward-only fits give the exact filtering distributions',
     'After a forward-only fit, the parameter distribution of each time step equals Bayes\' rule applied to the data '
     'up to and including that step: the previous distribution is propagated by the transition model of that time '
     'stamp and multiplied by the likelihood. Data of later steps have no influence.',
     ['inputs', 'configurations'], 'all likelihood values and priors, all transition models, all time stamps',
     T_POINT + 'likelihood values, grids and transition models.', [CORE, TM],
     [('forward pass', CORE + ': Study.fit'), ('forward transition', TM + ': computeForwardPrior')],
     ['posteriorSequence'])
prop('C03', 'Full fits give the exact smoothing distributions',
     'After a full fit, the parameter distribution of each time step equals the exact conditional distribution given '
     'all data points, past and future, for the static model, random walks, change-points, independent '
     'observations and their serial and combined use.',
     ['inputs', 'configurations'], 'all likelihood values and priors; reversible transition models; any time stamps',
     T_POINT + 'likelihood values; no test compares with an exact summation over trajectories.', [CORE, TM],
     [('backward pass', CORE + ': Study.fit'), ('backward transition', TM + ': computeBackwardPrior')],
     ['posteriorSequence'])
prop('C04', 'Local evidence is predictive (forward) or leave-one-out density (full fit)',
     'After forward-only and evidence-only fits the local evidence of a step is the density of that data point given '
     'all earlier ones, so that the product of all local evidence values equals the model evidence. After a full fit '
     'it is the density of the data point given all other data points.',
     ['inputs', 'configurations'], 'all positive likelihoods and priors, all grids and reversible transition models',
     T_POINT + 'likelihood values; only sums of local evidence are tested, for one data set.', [CORE],
     [('forward pass', CORE + ': Study.fit'), ('backward pass', CORE + ': Study.fit')], ['localEvidence'])
prop('C05', 'Every parameter distribution is non-negative and sums to one',
     'For every transition model and both fit modes, the parameter distribution of each time step has no negative '
     'entry and a total probability of one.',
     ['inputs', 'configurations'], 'all positive likelihoods and priors, all transition models incl. non-integer drifts',
     T_POINT + 'inputs; normalisation is never tested.', [CORE, TM],
     [('normalisation', CORE + ': Study.fit'), ('transitions', TM)], ['posteriorSequence'])
prop('C06', 'Means, marginal distributions and time averages are exact summaries',
     'Posterior mean values, marginal distributions at a time stamp, sequences of marginal distributions and the '
     'time-averaged distribution of every parameter are the exact sums over the joint posterior distributions. '
     'Densities are probabilities divided by the grid spacing of that parameter.',
     ['inputs', 'configurations'], 'all posterior distributions, one to three parameters, any grid and time stamps',
     T_POINT + 'posteriors; summaries are tested for one or two parameters and one data set.', [CORE],
     [('summaries', CORE + ': getParameterMeanValues, getParameterDistribution(s)')], ['return values'])
prop('C07', 'Reading, plotting or evaluating results never changes them',
     'Accessor methods, plots, simulations and evaluated queries - including ones that are rejected with an error - '
     'leave all fit results unchanged: calling anything again in any order gives the same values. An online '
     'study can continue with further data afterwards as if it had not been read.',
     ['inputs', 'histories'], 'all results, all sequences of read operations of the listed kinds',
     'Tests call each accessor once on fresh results.', [CORE, PARSER],
     [('accessors', CORE), ('queries', PARSER)], ['all result attributes'])
prop('C08', 'A missing data point has no influence on the results',
     'A data point that is NaN (in one or in all data dimensions) leaves all results as if that value had not been '
     'observed: distributions, evidence and local evidence (which is one if the complete point is missing).',
     ['inputs', 'configurations'], 'all positions of missing values, all likelihoods and priors, all study types',
     'No test contains missing data.', [OM, CORE], [('missing data', OM + ': processedPdf')], ['all results'])
prop('C09', 'Impossible data give zero evidence and no stale results',
     'If the model assigns probability zero to the data, the log-evidence is minus infinity in every fit mode and no '
     'finite result of an earlier fit remains. Data that are excluded only for a part of the parameter values give '
     'exact finite results.',
     ['inputs', 'configurations'], 'all positions of impossible observations, all other likelihood values',
     'Tests contain no impossible data.', [CORE], [('zero norm', CORE + ': Study.fit')], ['logEvidence'])
prop('C10', 'Constant factors of likelihoods and priors do not change distributions',
     'Multiplying the likelihood of a time step by a positive constant multiplies the evidence by it and changes no '
     'parameter or hyper-parameter distribution. Multiplying the prior values by a positive constant changes nothing.',
     ['inputs', 'configurations'], 'all positive constants, likelihoods and priors',
     'Relates two runs; tests look at single runs.', [CORE, TM], [('normalisation', CORE + ': Study.fit')],
     ['posteriorSequence, logEvidence'])
prop('C11', 'Hyper-studies average exactly over the hyper-parameter grid',
     'The probability of each combination of hyper-parameter values is proportional to its prior probability times '
     'the evidence of the fit with these values; evidence, parameter distributions and means are the '
     'exact weighted averages of the individual fits. Marginal and joint hyper-parameter distributions '
     'are the exact sums of the complete distribution, with values in the requested order.',
     ['inputs', 'configurations'], 'all likelihoods, priors and hyper-priors; nested transition models; all fit modes',
     T_POINT + 'likelihoods and hyper-priors; nesting and joint distributions are sampled at single points.',
     [CORE], [('hyper-grid', CORE + ': HyperStudy._createHyperGrid'), ('averaging', CORE + ': HyperStudy.fit'),
              ('marginals', CORE + ': getHyperParameterDistribution, getJointHyperParameterDistribution')])
prop('C12', 'Parallel fits give the same results as fits with one process',
     'Distributing the hyper-parameter grid over any number of worker processes (also more workers than '
     'combinations) gives the same evidence, distributions, mean values and hyper-parameter distributions as a fit '
     'with a single process, and leaves the study in the same state.',
     ['inputs', 'configurations', 'schedules'], 'all likelihoods and hyper-priors; numbers of workers 2 to 5',
     'Tests do not run parallel fits.', [CORE], [('splitting', CORE + ': HyperStudy._parallelFit'),
                                                ('merging', CORE + ': HyperStudy.fit')])
prop('C13', 'Change-point studies consider exactly the ordered combinations',
     'A change-point study averages over those combinations of change- or break-points that are strictly '
     'increasing in the order of their definition; all other combinations have probability zero, and the prior '
     'weights of the admissible ones keep their ratios and the total prior mass.',
     ['inputs', 'configurations'], 'all likelihoods and hyper-priors; up to three points; other hyper-parameters',
     'Tests fit one data set with flat priors.', [CORE], [('mask', CORE + ': ChangepointStudy.fit')])
prop('C14', 'Duration distributions follow from the joint change-point distribution',
     'The probability of a duration is the total probability of all pairs of change-points with that '
     'difference, every possible duration is listed once in increasing order, and the probabilities sum to one, '
     'whichever order the names are given in.',
     ['inputs', 'configurations'], 'all joint distributions (likelihoods, priors), any time stamps',
     'Tests look at one sum for one data set.', [CORE], [('durations', CORE + ': getDurationDistribution')])
prop('C15', 'Online studies reproduce forward-only fits step by step',
     'After each data point, an online study with one transition model has the evidence, local evidence and '
     'parameter distribution of a forward-only fit of the data seen so far, for every transition model.',
     ['inputs', 'histories', 'configurations'], 'all likelihoods and priors, every prefix of the data',
     'Tests compare final values for one data set.', [CORE], [('step', CORE + ': OnlineStudy.step')])
prop('C16', 'Online model averaging weights models by prior and evidence',
     'In an online study, hyper-parameter values are weighted by prior and accumulated evidence, '
     'transition models by their prior and accumulated evidence, the local model distribution by prior and '
     'predictive density of the latest data point, and the reported parameter distribution is the exact weighted average.',
     ['inputs', 'histories', 'configurations'], 'all likelihoods, priors and hyper-priors; one to three models',
     'Tests compare final values for one data set.', [CORE], [('step', CORE + ': OnlineStudy.step')])
prop('C17', 'Online history accessors return the stored values of the requested time',
     'With stored history, the accessors of an online study return for every past time stamp the values that were '
     'current after the corresponding data point; accessors for the current time return the latest values, '
     'and mean values are the exact means of the stored distributions.',
     ['inputs', 'histories'], 'all likelihoods, every time stamp, all accessors',
     'Tests check single entries.', [CORE], [('accessors', CORE + ': OnlineStudy')])
prop('C18', 'Hyper-parameters are set, read and restored by name in nested models',
     'Values and priors given for a hyper-parameter are used for exactly that hyper-parameter, wherever it occurs in '
     'nested combined and serial models; reading a value by name returns the value currently set, and fits over '
     'hyper-parameter grids leave the user\'s values and priors in place.',
     ['inputs', 'configurations'], 'all hyper-parameter values and priors; nesting up to three levels',
     'Tests use at most one level of nesting and look at single numbers.', [CORE, HELP],
     [('unpacking', CORE + ': _unpackHyperParameters, _setAllHyperParameters'), ('index search', HELP)])
prop('C19', 'Optimisation evaluates and keeps the hyper-parameter values it reports',
     'During optimisation, the objective for a set of values is the negative log-evidence of the model with these '
     'values assigned to the selected hyper-parameters by name, with all others unchanged. Afterwards the optimal '
     'values are set and the final fit uses them.',
     ['inputs', 'configurations'], 'all likelihoods, every result of the optimiser, all selections',
     'Tests optimise one data set and compare rounded numbers.', [CORE],
     [('objective', CORE + ': _optimizationStep'), ('driver', CORE + ': optimize')])
prop('C20', 'Serial models apply the sub-model of the current time interval',
     'A serial transition model uses, for each transition, the sub-model of the interval between break-points that '
     'contains the time stamp, resets to the prior at change-points, and lets deterministic sub-models count time '
     'from the start of their interval.',
     ['inputs', 'configurations'], 'all distributions, break-points and time stamps; up to four sub-models',
     'Tests fit one serial model with one data set.', [TM], [('schedule', TM + ': SerialTransitionModel')])
prop('C21', 'Combined models apply all sub-models one after the other',
     'A combined transition model changes a distribution like its sub-models applied one after the other, in '
     'the order given, for any nesting of combined and serial models.',
     ['inputs', 'configurations'], 'all distributions, sub-models and time stamps', 'Tests fit one combined model.',
     [TM], [('composition', TM + ': CombinedTransitionModel')])
prop('C22', 'Random walks move only the target parameter with the given width',
     'Random-walk models convolve the distribution along the chosen parameter (both for the bivariate walk) '
     'with the stated increment distribution in units of that parameter\'s grid spacing and conserve total probability; '
     'the Gaussian walk keeps the marginal distributions of all other parameters, width zero leaves distributions '
     'unchanged, and a change of the width takes effect at the next step.',
     ['inputs', 'configurations'], 'all distributions; grids, targets and widths listed',
     'Tests fit one grid per model; a wrong axis or scaling with equal spacings would not be noticed.', [TM],
     [('kernels', TM + ': GaussianRandomWalk, AlphaStableRandomWalk, BivariateRandomWalk')])
prop('C23', 'Regime-switch and not-equal models keep a minimal probability',
     'The regime-switch model raises every parameter value to at least the given minimal density and normalises; '
     'the not-equal model first inverts the distribution, so that the most probable value becomes the '
     'least probable one. Neither ever returns a zero or negative probability.',
     ['inputs', 'configurations'], 'all distributions and thresholds', 'Tests fit one data set.', [TM],
     [('floor', TM + ': RegimeSwitch, NotEqual')])
prop('C24', 'Deterministic models shift distributions by the change of the function',
     'A deterministic model moves the distribution of the target parameter by f(t+1)-f(t) in the forward direction '
     'and back by the same amount in the backward direction, with the current values of its hyper-parameters '
     'and without changing other parameters.',
     ['inputs', 'configurations'], 'all distributions; whole-number displacements exactly; all time stamps',
     'Tests fit one linear function.', [TM], [('shift', TM + ': Deterministic')])
prop('C25', 'Observation models evaluate their stated likelihoods and Jeffreys priors',
     'Each observation model returns the exact probability (density) of a data point for all parameter values of the '
     'grid - Bernoulli, Poisson, Gaussian, Gaussian mean, Laplace, white noise, AR(1), scaled AR(1), SciPy, SymPy and '
     'custom models - and parameter values outside the admissible range of a probability have probability zero. '
     'Default Jeffreys priors are proportional to the square root of the Fisher information.',
     ['inputs'], 'all data values and parameter grids of the listed sizes',
     'Tests fit one data set per model and compare rounded evidence values.', [OM, JEFF],
     [('likelihoods', OM + ': pdf methods'), ('Jeffreys priors', OM + ': jeffreys; ' + JEFF)])
prop('C26', 'Data, segments and time stamps are aligned',
     'Multi-dimensional data points multiply the likelihoods of their dimensions; models that need several '
     'data points per step see consecutive segments, each result belongs to the time stamp of the last '
     'point of its segment, and data order is never changed.',
     ['inputs', 'configurations'], 'all data, segment lengths 1 to 3, all time stamps',
     'Tests use one data set each.', [OM, PRE, CORE], [('windows', PRE + ': movingWindow'),
                                                      ('dimensions', OM + ': processedPdf')])
prop('C27', 'Parameter grids and priors are interpreted alike in every form',
     'Closed and open intervals give the stated equally spaced grids and custom values are used as given. A prior '
     'stated as array, function or SymPy random variables gives the same parameter distributions whenever the values '
     'agree up to a constant factor; arrays and functions are normalised on the grid, densities of random variables '
     'are used as they are.',
     ['inputs', 'configurations'], 'all prior values, one to three parameters', 'Tests set one prior of each kind.',
     [CORE, HELP], [('grid', CORE + ': setObservationModel'), ('intervals', HELP + ': cint, oint'),
                    ('prior', CORE + ': _computePrior')])
prop('C28', 'Objects supplied by the user are never modified',
     'Fitting, stepping, optimising, evaluating and reading never change data arrays, time stamps, priors, parameter '
     'or hyper-parameter values that the user passed in, and values already returned stay as they are when the study '
     'is used further.',
     ['inputs', 'histories'], 'all values of the arrays; all study types', 'Tests never look at inputs afterwards.',
     [CORE, TM, OM], [('copies', CORE)])
prop('C29', 'Queries return the exact probability of a condition',
     'A query for a condition between arithmetic expressions of parameters and hyper-parameters returns the total '
     'posterior probability of all parameter values (of all mentioned time stamps and studies, independent across '
     'times and studies) that fulfil it, for all comparison operators; complementary conditions add up to one.',
     ['inputs', 'configurations'], 'all posteriors; expressions, operators and times listed',
     'Tests evaluate five queries for one data set.', [PARSER], [('evaluation', PARSER + ': Parser.__call__')])
prop('C30', 'Query arithmetic follows the usual precedence and functions',
     'Expressions in queries are evaluated with the usual precedence, associativity, parentheses and NumPy functions, '
     'and a query without comparison returns the distribution of the derived quantity: its values cover all '
     'outcomes and its probabilities sum to one.',
     ['inputs', 'programs'], 'all parameter values and posteriors; expressions listed',
     'Tests evaluate five queries.', [PARSER], [('grammar', PARSER + ': Parser')])
prop('C31', 'Results depend on the current data, models and options only',
     'Fitting again, or after other fits, other models, other data or an interrupted configuration, gives the same '
     'results as a new study with the final settings; a fit with other options in between changes nothing.',
     ['inputs', 'histories'], 'all data; the listed sequences of operations',
     'Tests use new studies.', [CORE, TM], [('state', CORE + ': Study attributes'), ('kernel cache', TM)])
prop('C32', 'Saved studies are restored completely',
     'A study that is saved and loaded again reports the same results, can be read in the same way and, fitted again '
     'or continued with further data, behaves like the original.',
     ['inputs', 'histories'], 'all results; all study types', 'Tests save and load without comparing results.',
     [FIO], [('file access', FIO + ': save, load')])
prop('C33', 'Predictive simulations average the likelihood over the posterior',
     'The predictive distribution for a set of data values at a time stamp (or for the time average) is the likelihood '
     'of each value averaged over the parameter distribution of that time; probabilities are '
     'normalised, densities are not changed.',
     ['inputs', 'configurations'], 'all posteriors, data values and time stamps', 'Tests check one number.', [CORE],
     [('prediction', CORE + ': simulate')])
prop('C34', 'Invalid requests are rejected and never answered with wrong results',
     'Unknown parameter, hyper-parameter or model names, unknown time stamps, inconsistent models, wrong '
     'numbers of values and results that have not been computed raise an error for every study type, instead of a '
     'value, and leave the study usable.',
     ['inputs', 'configurations'], 'all results; the listed invalid requests', 'Tests check few error conditions.',
     [CORE, TM, PARSER], [('checks', CORE + ': _checkConsistency and accessors')])
prop('C35', 'Estimated parameter values suit the data and the default prior',
     'If no parameter values are given, the built-in observation models choose an equally spaced grid from the data '
     'that are not missing: (0, 1) for the Bernoulli probability, (0, 1.25 max) for the Poisson rate, mean +- 2 '
     'standard deviations for the means of the Gaussian and Laplace models, the range of observed '
     'means widened by its length on both sides for the Gaussian mean model, (0, 2 standard deviations) for standard deviations, (0, sqrt(2) standard '
     'deviations) for the scale of the Laplace model, (-1, 1) for correlation '
     'coefficients; the ends are left out where the likelihood or the default prior is singular, and the fit '
     'gives a finite evidence. Parameter values that are given are used unchanged.',
     ['inputs', 'configurations'], 'all data values and positions of missing values, all built-in observation models',
     'Tests use given parameter values or a single data set.', [OM, CORE],
     [('estimates', OM + ': estimateParameterValues'), ('use', CORE + ': Study.set, Study.loadData')])

prop('C36', 'Plots show the values that the corresponding accessors return',
     'The plots of all study types (distributions of parameters and hyper-parameters at one time, averaged or as a '
     'series, joint distributions, durations, model probabilities) show exactly the values, probabilities or densities '
     'and mean values that the accessor returns without plotting, on an axis that covers the time stamps and the '
     'parameter boundaries, with labels that name the parameter shown; values of irregularly '
     'spaced hyper-parameters are labelled. plot() shows the same as the specific method. This includes '
     'studies of a single time step.',
     ['inputs', 'configurations'], 'all likelihoods, all listed study types and plots', 'Tests only check that plotting does not fail.',
     [CORE], [('parameters', CORE + ': Study.getParameterDistribution, getParameterDistributions, plotParameterEvolution, plot'),
              ('hyper-parameters', CORE + ': HyperStudy.getHyperParameterDistribution, getJointHyperParameterDistribution, plot'),
              ('durations', CORE + ': ChangepointStudy.getDurationDistribution'),
              ('online', CORE + ': OnlineStudy.getCurrentParameterDistribution, plotHyperParameterEvolution, plot')])

NOT_APPLICABLE = []

LEVEL_NOTE = ('Bounded: holds for all real-valued inputs (likelihoods, priors, data) of the listed configurations '
              '(grid sizes, numbers of time steps, model structures); exact real arithmetic, NumPy/SciPy primitives '
              'modelled by engine/npx.py and validated against the real package on a witness of every path.')


def main():
    have = [p for p in PROPS if os.path.exists(os.path.join(ROOT, 'props', p['id'].lower() + '.py'))]
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            if p in have or any(n['property'] == p['id'] for n in NOT_APPLICABLE):
                f.write(json.dumps(p) + '\n')
    m = dict(version=1,
             setup_cmd='python3 check.py --setup',
             checks=[dict(property=p['id'], quick_cmd='python3 check.py {} --tier quick'.format(p['id']),
                          thorough_cmd='python3 check.py {} --tier thorough'.format(p['id']),
                          technique='symbolic execution of the real code, z3 decides the assertions',
                          level='model_checking', level_note=LEVEL_NOTE) for p in have],
             not_applicable=NOT_APPLICABLE,
             notes='See DESIGN.md. Known findings and repaired defects: known_findings.txt. No hooks in /repo.')
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
