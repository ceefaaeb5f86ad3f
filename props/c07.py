"""Reading, plotting or evaluating results never changes them."""
import numpy
from .spec import Case, table_model, HyperAxis, hyper_model

BOUNDS = ('studies of all types with 1 or 2 parameters of 2 or 3 values and 2 to 4 time steps; every single read operation '
          '(quick) or every sequence of two (thorough) of the listed ones, including rejected requests; all likelihoods')

ATTRS = ['posteriorSequence', 'posteriorMeanValues', 'logEvidence', 'localEvidence', 'formattedTimestamps', 'marginalGrid',
         'grid', 'rawData', 'rawTimestamps', 'hyperParameterDistribution', 'hyperGridValues', 'hyperGridConstant',
         'logEvidenceList', 'allHyperGridValues', 'mask', 'latticeConstant', 'marginalizedPosterior', 'parameterPosterior',
         'transitionModelDistribution', 'localTransitionModelDistribution', 'transitionModelPosterior', 'hyperParameterSequence',
         'transitionModelSequence', 'localTransitionModelSequence', 'hyperParameterValues', 'hyperPriorValues',
         'hyperGridConstants', 'hyperLogEvidenceList', 'transitionModelPrior', 'averagePosteriorSequence']


def freeze(v):
    if isinstance(v, (list, tuple)) or (hasattr(v, 'ndim') and getattr(v, 'ndim', 0) > 0):
        return [freeze(x) for x in v]
    return v


def snapshot(S):
    out = {}
    for a in ATTRS:
        v = getattr(S, a, None)
        if v is not None:
            out[a] = freeze(v)
    return out


def same(env, label, a, b):
    """equality of two frozen values, including numbers that are not finite"""
    if isinstance(a, list) != isinstance(b, list) or (isinstance(a, list) and len(a) != len(b)):
        env.assert_true(label + ' (shape)', False)
    elif isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            same(env, label + '[%d]' % i, x, y)
    elif a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        env.assert_true(label, a is b or a == b)
    elif a is not b:
        env.assert_eq(label, a, b)


def rejected(f):
    """a request that may be rejected"""
    def g(S):
        try:
            return f(S)
        except Exception:
            return None
    return g


def quiet_plot(f):
    def g(S):
        f(S)
        try:
            import matplotlib.pyplot as plt
            plt.close('all')
        except Exception:
            pass
        return None
    return g


def ops(kind):
    x = [('mean values', lambda S: S.getParameterMeanValues('x')),
         ('distribution', lambda S: S.getParameterDistribution(1, 'x')),
         ('distribution, probabilities', lambda S: S.getParameterDistribution(1, 'x', density=False)),
         ('short form', lambda S: S.getPD(0, 'x')),
         ('distributions', lambda S: S.getParameterDistributions('x')),
         ('distributions, probabilities', lambda S: S.getPDs('x', density=False)),
         ('simulate', lambda S: S.simulate(numpy.array([0, 1]))),
         ('simulate at a time', lambda S: S.simulate(numpy.array([0, 1]), t=1, density=True)),
         ('query', lambda S: S.eval('x@1 > 0.3', silent=True)),
         ('query of two times', lambda S: S.eval('x@1 > 2*x@0', silent=True)),
         ('derived distribution', rejected(lambda S: S.eval('x@1*2 + x@0', silent=True))),
         ('fixed time', lambda S: S.eval('x^2 > 0.3', t=1, silent=True)),
         ('unknown parameter', rejected(lambda S: S.getParameterMeanValues('unknown'))),
         ('unknown parameter of distribution', rejected(lambda S: S.getParameterDistribution(1, 'unknown'))),
         ('unknown parameters of distributions', rejected(lambda S: S.getParameterDistributions('unknown'))),
         ('unknown time', rejected(lambda S: S.getParameterDistribution(99, 'x'))),
         ('unknown time of simulation', rejected(lambda S: S.simulate(numpy.array([0]), t=99))),
         ('invalid query', rejected(lambda S: S.eval('x@99 > 1', silent=True))),
         ('query without time', rejected(lambda S: S.eval('x > 1', silent=True))),
         ('plot', quiet_plot(lambda S: S.plot('x'))), ('plot of a time', quiet_plot(lambda S: S.plot('x', t=1))),
         ('plot of probabilities', quiet_plot(lambda S: S.plot('x', t=1, density=False))),
         ('plot of distribution', quiet_plot(lambda S: S.getParameterDistribution(1, 'x', plot=True))),
         ('plot of distributions', quiet_plot(rejected(lambda S: S.getParameterDistributions('x', plot=True)))),
         ('plot of unknown name', quiet_plot(rejected(lambda S: S.plot('unknown'))))]
    if kind in ('study', 'forward', 'evidence'):
        x += [('hyper-parameter value', lambda S: S.getHyperParameterValue('s')),
              ('unknown hyper-parameter', rejected(lambda S: S.getHyperParameterValue('unknown')))]
    if kind in ('hyper', 'cp'):
        a, b = ('s', 'u') if kind == 'hyper' else ('c', 'd')
        x += [('time average', lambda S: S.getParameterDistribution('avg', 'x')),
              ('hyper-parameter distribution', lambda S: S.getHyperParameterDistribution(a)),
              ('hyper-parameter distribution, short form', lambda S: S.getHPD(b)),
              ('joint distribution', lambda S: S.getJointHyperParameterDistribution([a, b])),
              ('joint distribution, other order', lambda S: S.getJHPD([b, a])),
              ('query of hyper-parameters', lambda S: S.eval('{} > 0.4*{}'.format(a, b), silent=True)),
              ('query of both', lambda S: S.eval('{} > x@1'.format(a), silent=True)),
              ('unknown hyper-parameter', rejected(lambda S: S.getHPD('unknown'))),
              ('unknown joint distribution', rejected(lambda S: S.getJHPD([a, 'unknown']))),
              ('hyper plot', quiet_plot(lambda S: S.plot(a))), ('joint plot', quiet_plot(lambda S: S.getJHPD([a, b], plot=True)))]
    if kind in ('hyper1', 'cp1'):
        a = 's' if kind == 'hyper1' else 'c'
        x += [('time average', lambda S: S.getParameterDistribution('avg', 'x')),
              ('hyper-parameter distribution', lambda S: S.getHyperParameterDistribution(a)),
              ('hyper-parameter distribution, short form', lambda S: S.getHPD(a)),
              ('query of hyper-parameters', lambda S: S.eval('{} > 0.4'.format(a), silent=True)),
              ('query of both', lambda S: S.eval('{} > x@1'.format(a), silent=True)),
              ('unknown hyper-parameter', rejected(lambda S: S.getHPD('unknown'))),
              ('hyper plot', quiet_plot(lambda S: S.plot(a)))]
        # operations on the parameter are covered by the study with two hyper-parameters
        x = [y for y in x if y[0] in ('query', 'distributions', 'plot', 'simulate', 'mean values')] + x[-7:]
    if kind == 'cp':
        x += [('durations', lambda S: S.getDurationDistribution(['c', 'd'])), ('durations, other order', lambda S: S.getDD(['d', 'c'])),
              ('duration plot', quiet_plot(lambda S: S.getDD(['c', 'd'], plot=True))), ('invalid durations', rejected(lambda S: S.getDD(['c'])))]
    if kind == 'online':
        x += [('current distribution', lambda S: S.getCurrentParameterDistribution('x')),
              ('current distribution, probabilities', lambda S: S.getCPD('x', density=False)),
              ('current mean', lambda S: S.getCurrentParameterMeanValue('x')),
              ('mean of a time', lambda S: S.getParameterMeanValue(1, 'x')),
              ('model distribution', lambda S: S.getCurrentTransitionModelDistribution()),
              ('local model distribution', lambda S: S.getCurrentTransitionModelDistribution(local=True)),
              ('model probability', lambda S: S.getCurrentTransitionModelProbability('walk')),
              ('model distributions', lambda S: S.getTransitionModelDistributions()),
              ('local model distributions', lambda S: S.getTransitionModelDistributions(local=True)),
              ('model probabilities', lambda S: S.getTransitionModelProbabilities('walk', local=True)),
              ('hyper-parameter mean', lambda S: S.getHyperParameterMeanValue(1, 's')),
              ('hyper-parameter means', lambda S: S.getHyperParameterMeanValues('s')),
              ('hyper-parameter distribution', lambda S: S.getHyperParameterDistribution(1, 's')),
              ('current hyper-parameter distribution', lambda S: S.getCHPD('s')),
              ('hyper-parameter distributions', lambda S: S.getHPDs('s')),
              ('query of hyper-parameters', lambda S: S.eval('s@1 > 1.2', silent=True)),
              ('unknown hyper-parameter', rejected(lambda S: S.getHPD(1, 'unknown'))),
              ('unknown model', rejected(lambda S: S.getCurrentTransitionModelProbability('unknown'))),
              ('model plot', quiet_plot(lambda S: S.plot('walk'))), ('local model plot', quiet_plot(lambda S: S.plot('walk', local=True))),
              ('hyper plot', quiet_plot(lambda S: S.plot('s'))), ('hyper plot of a time', quiet_plot(lambda S: S.plot('s', t=1)))]
    return x


def configs(tier):
    out = []
    n = 1 if tier == 'quick' else 2
    for name, k in [('study', dict(kind='study', shape=3, T=3, pattern=2)), ('forward-only', dict(kind='forward', shape=3, T=3)),
                    ('two parameters', dict(kind='study', shape=(2, 3), T=2, pattern=3)),
                    ('hyper-study', dict(kind='hyper', shape=3, T=2, pattern=2)), ('change-point study', dict(kind='cp', shape=2, T=4, pattern=4)),
                    ('online study', dict(kind='online', shape=3, T=3, pattern=4)),
                    ('hyper-study, one hyper-parameter', dict(kind='hyper1', shape=3, T=2, pattern=2)),
                    ('change-point study, one change-point', dict(kind='cp1', shape=2, T=4, pattern=4))]:
        for plots in (False, True):
            sel = [i for i, (o, f) in enumerate(ops(k['kind'])) if ('plot' in o) == plots]
            step = 12 if tier == 'quick' else 4
            for i in range(0, len(sel), step):
                q = dict(k, n=n, first=sel[i:i + step])
                if plots or tier == 'thorough':
                    q.update(pattern='bounded', T=max(k['T'], 3))      # plots compare values with their maximum: one symbolic likelihood
                out.append(('{}, {} from {}'.format(name, 'plots' if plots else 'operations', i), q))
    return out


def build(env, kind, c, priors=True, walks=False):
    bl = env.bl
    model = c.model()
    if kind == 'online':
        S = bl.OnlineStudy(storeHistory=True, silent=True)
        S.set(model, silent=True)
        # all models with hyper-parameters, or one of them without
        S.addTransitionModel('static', bl.tm.GaussianRandomWalk('u', [0.5, 0.75], target='x') if walks else bl.tm.Static())
        S.addTransitionModel('walk', bl.tm.GaussianRandomWalk('s', [1., 1.5], target='x'))
        return S
    S = {'hyper': bl.HyperStudy, 'hyper1': bl.HyperStudy, 'cp': bl.ChangepointStudy, 'cp1': bl.ChangepointStudy}.get(kind, bl.Study)(silent=True)
    S.loadData(c.data, silent=True)
    if kind == 'hyper':
        axes = [HyperAxis(env, 's', ['1/4', '3/4'], 'list' if priors else 'ints'), HyperAxis(env, 'u', [1, 2])]
        tm = bl.tm.CombinedTransitionModel(bl.tm.GaussianRandomWalk('s', axes[0].floats, target='x', prior=axes[0].arg),
                                           bl.tm.GaussianRandomWalk('u', axes[1].floats, target='x'))
        if not priors:
            tm = hyper_model(env, 'cp2', [HyperAxis(env, 's', [0, 1], 'ints'), HyperAxis(env, 'u', [2, 3])])[0]
    elif kind == 'hyper1':
        a = HyperAxis(env, 's', ['1/4', '3/4'], 'list' if priors else 'ints')
        tm = bl.tm.GaussianRandomWalk('s', a.floats, target='x', prior=a.arg)
    elif kind == 'cp1':
        tm = bl.tm.ChangePoint('c', 'all')
    elif kind == 'cp':
        tm = hyper_model(env, 'cp2_all', [HyperAxis(env, 'c', [0, 1, 2]), HyperAxis(env, 'd', [0, 1, 2])])[0]
    else:
        tm = bl.tm.GaussianRandomWalk('s', 0.75, target='x')
    S.set(model, tm, silent=True)
    return S


def harness(env, kind, n, first, **k):
    c = Case(env, **k)
    S = build(env, kind, c, k.get('pattern') != 'bounded')
    if kind == 'online':
        for t in range(c.T - 1):
            S.step(t)
    else:
        S.fit(silent=True, forwardOnly=kind == 'forward')
    all_ops = ops(kind)
    before = snapshot(S)
    # every operation is performed once for its answer (on a first pass), then again after the chosen ones
    for i in range(n):
        sel = first if i == 0 else list(range(len(all_ops)))
        j = sel[env.choice('op%d' % i, len(sel))]
        answer = freeze(all_ops[j][1](S))
        name = all_ops[j][0]
        after = snapshot(S)
        env.assert_true('results are still there after: ' + name, sorted(before) == sorted(after))
        for a in before:
            same(env, '{} after: {}'.format(a, name), after.get(a), before[a])
        same(env, 'second answer of: ' + name, freeze(all_ops[j][1](S)), answer)
    after = snapshot(S)
    for a in before:
        same(env, '{} in the end'.format(a), after.get(a), before[a])
    env.observe('post', S.posteriorSequence)
    # further use: as if nothing had been read
    R = build(env, kind, c, k.get('pattern') != 'bounded')
    if kind == 'online':
        for t in range(c.T - 1):
            R.step(t)
        S.step(c.T - 1)
        R.step(c.T - 1)
    else:
        S.fit(silent=True)
        R.fit(silent=True)
    a, b = snapshot(S), snapshot(R)
    for name in ('posteriorSequence', 'logEvidence', 'localEvidence', 'posteriorMeanValues', 'hyperParameterDistribution',
                 'transitionModelDistribution', 'hyperParameterSequence', 'transitionModelSequence'):
        if name in b:
            same(env, '{} of further use'.format(name), a.get(name), b[name])
