"""Invalid requests are rejected and never answered with wrong results."""
import numpy
from .spec import Case, Grid, axes_for, table_model, likelihoods
from .c07 import freeze, same, snapshot, build, quiet_plot

BOUNDS = ('studies of all types with 1 or 2 parameters of 2 or 3 values and 2 to 4 time steps, in every state (new, partly configured, '
          'configured, evidence-only fit, complete fit; online studies with and without history); the listed invalid requests and '
          'configurations; all likelihoods')

x = lambda *a: numpy.array(a)
# requests that are never valid for the studies of c07.build
ALWAYS = [('mean values of an unknown parameter', lambda S: S.getParameterMeanValues('q')),
          ('distribution of an unknown parameter', lambda S: S.getParameterDistribution(1, 'q')),
          ('short form of an unknown parameter', lambda S: S.getPD(1, 'q')),
          ('distribution at an unknown time', lambda S: S.getParameterDistribution(99, 'x')),
          ('distribution between two times', lambda S: S.getParameterDistribution(0.5, 'x')),
          ('distribution at a negative time', lambda S: S.getParameterDistribution(-1, 'x')),
          ('distributions of an unknown parameter', lambda S: S.getParameterDistributions('q')),
          ('plot of an unknown name', quiet_plot(lambda S: S.plot('q'))), ('plot at an unknown time', quiet_plot(lambda S: S.plot('x', t=99))),
          ('plot of the evolution of an unknown name', quiet_plot(lambda S: S.plotParameterEvolution('q'))),
          ('simulation at an unknown time', lambda S: S.simulate(x(0), t=99)), ('simulation between two times', lambda S: S.simulate(x(0), t=0.5)),
          ('query of an unknown parameter', lambda S: S.eval('q@1 > 0.2', silent=True)), ('query at an unknown time', lambda S: S.eval('x@99 > 0.2', silent=True)),
          ('query with two conditions', lambda S: S.eval('x@1 > 0.2 > 0.1', silent=True)), ('query that is no formula', lambda S: S.eval('x@1 + 2x@1 > 3', silent=True)),
          ('query of numbers only', lambda S: S.eval('1 > 0', silent=True)), ('empty query', lambda S: S.eval('', silent=True)),
          ('query with open bracket', lambda S: S.eval('(x@1 > 0', silent=True)), ('query without right side', lambda S: S.eval('x@1 >', silent=True)),
          ('query with unknown function', lambda S: S.eval('foo(x@1) > 0', silent=True)), ('query with text behind', lambda S: S.eval('x@1 > 0 and', silent=True)),
          ('value of an unknown hyper-parameter', lambda S: S.getHyperParameterValue('q')),
          ('optimisation of an unknown hyper-parameter', lambda S: S.optimize('q')),
          ('unknown setting', lambda S: S.set(S.observationModel, foo=1)), ('no model', lambda S: S.set(3)), ('no model at all', lambda S: S.set(None)),
          ('data of unknown type', lambda S: S.loadData(3)), ('data as text', lambda S: S.loadData('abc'))]
STUDY = [('hyper-parameter distribution of a standard study', lambda S: S.getHyperParameterDistribution('s')),
         ('one valid and one unknown hyper-parameter', lambda S: S.optimize(['s', 'q']))]
HYPER = [('distribution of an unknown hyper-parameter', lambda S: S.getHyperParameterDistribution('q')), ('short form', lambda S: S.getHPD('q')),
         ('distribution of a parameter as hyper-parameter', lambda S: S.getHPD('x')),
         ('joint distribution of an unknown hyper-parameter', lambda S: S.getJHPD(['s', 'q'])), ('joint distribution of one', lambda S: S.getJHPD(['s'])),
         ('joint distribution of three', lambda S: S.getJHPD(['s', 'u', 's'])), ('joint distribution without list', lambda S: S.getJHPD(3)),
         ('joint distribution of the same', lambda S: S.getJHPD(['s', 's'])),
         ('query of an unknown hyper-parameter', lambda S: S.eval('q > 1', silent=True)),
         ('query with time of hyper-parameter', lambda S: S.eval('s@99 > 1', silent=True)), ('optimisation', lambda S: S.optimize())]
CP = [('distribution of an unknown change-point', lambda S: S.getHPD('q')), ('durations of one', lambda S: S.getDD(['c'])),
      ('durations of three', lambda S: S.getDD(['c', 'd', 'c'])), ('durations of an unknown one', lambda S: S.getDD(['c', 'q'])),
      ('durations without list', lambda S: S.getDurationDistribution(3)), ('joint distribution of one', lambda S: S.getJHPD(['c'])),
      ('joint distribution of an unknown one', lambda S: S.getJHPD(['q', 'c'])), ('optimisation', lambda S: S.optimize())]
ONLINE = [('mean value at an unknown time', lambda S: S.getParameterMeanValue(99, 'x')), ('mean value of an unknown parameter', lambda S: S.getParameterMeanValue(1, 'q')),
          ('current mean value of an unknown parameter', lambda S: S.getCurrentParameterMeanValue('q')), ('current distribution of an unknown parameter', lambda S: S.getCPD('q')),
          ('hyper-parameter mean at an unknown time', lambda S: S.getHyperParameterMeanValue(99, 's')), ('mean of an unknown hyper-parameter', lambda S: S.getHyperParameterMeanValue(1, 'q')),
          ('means of an unknown hyper-parameter', lambda S: S.getHyperParameterMeanValues('q')), ('hyper-parameter distribution at an unknown time', lambda S: S.getHPD(99, 's')),
          ('distribution of an unknown hyper-parameter', lambda S: S.getHPD(1, 'q')), ('current distribution of an unknown hyper-parameter', lambda S: S.getCHPD('q')),
          ('distributions of an unknown hyper-parameter', lambda S: S.getHPDs('q')), ('probability of an unknown model', lambda S: S.getCurrentTransitionModelProbability('q')),
          ('probabilities of an unknown model', lambda S: S.getTransitionModelProbabilities('q')), ('prior of wrong length', lambda S: S.setTransitionModelPrior([1.])),
          ('prior of wrong length (three)', lambda S: S.setTransitionModelPrior([1., 2., 3.])), ('fit', lambda S: S.fit()), ('optimisation', lambda S: S.optimize()),
          ('joint distribution', lambda S: S.getJHPD(['s', 's'])), ('query of an unknown model', lambda S: S.eval('q > 1', silent=True))]
# requests for results that have to be computed first
RESULTS = [('mean values', lambda S: S.getParameterMeanValues('x')), ('distribution', lambda S: S.getParameterDistribution(1, 'x')),
           ('average distribution', lambda S: S.getParameterDistribution('avg', 'x')), ('distributions', lambda S: S.getParameterDistributions('x')),
           ('plot', quiet_plot(lambda S: S.plot('x'))), ('plot of a time', quiet_plot(lambda S: S.plot('x', t=1))),
           ('simulation', lambda S: S.simulate(x(0))), ('simulation at a time', lambda S: S.simulate(x(0), t=1)),
           ('query', lambda S: S.eval('x@1 > 0.2', silent=True)), ('derived distribution', lambda S: S.eval('x@1 + x@0', silent=True))]
RESULTS_HYPER = [('hyper-parameter distribution', lambda S: S.getHPD('s')), ('joint distribution', lambda S: S.getJHPD(['s', 'u'])),
                 ('query of hyper-parameters', lambda S: S.eval('s > 0.5', silent=True))]
RESULTS_CP = [('distribution', lambda S: S.getHPD('c')), ('durations', lambda S: S.getDD(['c', 'd']))]
RESULTS_ONLINE = [('current distribution', lambda S: S.getCPD('x')), ('current mean value', lambda S: S.getCurrentParameterMeanValue('x')),
                  ('current hyper-parameter distribution', lambda S: S.getCHPD('s')), ('hyper-parameter mean value', lambda S: S.getHyperParameterMeanValue(1, 's')),
                  ('model probability', lambda S: S.getCurrentTransitionModelProbability('walk')), ('mean value of a time', lambda S: S.getParameterMeanValue(1, 'x'))]
# results of earlier time steps, if these are not stored
HISTORY = RESULTS[:7] + [('simulation at a time', lambda S: S.simulate(x(0), t=1)), ('mean value of a time', lambda S: S.getParameterMeanValue(0, 'x')),
                         ('hyper-parameter mean value', lambda S: S.getHyperParameterMeanValue(0, 's')), ('hyper-parameter mean values', lambda S: S.getHyperParameterMeanValues('s')),
                         ('hyper-parameter distribution', lambda S: S.getHPD(0, 's')), ('hyper-parameter distributions', lambda S: S.getHPDs('s')),
                         ('model distributions', lambda S: S.getTransitionModelDistributions()), ('model probabilities', lambda S: S.getTransitionModelProbabilities('walk')),
                         ('query of a time', lambda S: S.eval('x@0 > 0.2', silent=True)), ('query of a hyper-parameter at a time', lambda S: S.eval('s@0 > 1', silent=True)),
                         ('evolution', quiet_plot(lambda S: S.plotParameterEvolution('x')))]
HISTORY = [h for h in HISTORY if h[0] not in ('plot',)]


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    add('study', kind='study', group='always', T=3)
    add('two parameters', kind='study', group='always', shape=(2, 3), T=2, pattern=3)
    add('forward-only', kind='forward', group='always', T=3)
    add('hyper-study', kind='hyper', group='always', T=2, pattern=2)
    add('change-point study', kind='cp', group='always', shape=2, T=4, pattern=4)
    add('online study', kind='online', group='always', T=3, pattern=2)
    add('online study, random walks', kind='online', group='always', T=2, pattern=2, walks=True)
    for kind in ('study', 'hyper', 'cp', 'online'):
        for state in ('new', 'data', 'om', 'models', 'evidence'):
            if kind == 'online' and state in ('data', 'evidence'):
                continue
            add('{} without results, {}'.format(kind, state), kind=kind, group='state', state=state, T=3, shape=2, pattern=2)
    add('online study without history', kind='online', group='history', T=3, pattern=2)
    for name, f in INVALID:
        add('configuration: ' + name, kind=None, group='config', state=name)
    if tier == 'thorough':
        add('longer study', kind='study', group='always', shape=4, T=5, pattern=2)
        add('longer hyper-study', kind='hyper', group='always', shape=3, T=3, pattern=2)
        add('longer online study', kind='online', group='always', shape=4, T=5, pattern=3)
    return out


# configurations that are not valid: functions of (package, observation model, data) that have to be rejected
def fitted(cls, tm, om=None, data=None, **k):
    def f(env, model, data_):
        S = getattr(env.bl, cls)(silent=True)
        S.loadData(data_ if data is None else data, silent=True)
        S.set(model if om is None else om(env), tm(env.bl.tm), silent=True)
        return S, (lambda: S.fit(silent=True, **k))
    return f


def only(f):
    def g(env, model, data):
        return None, (lambda: f(env, model))
    return g


def online(tms, prior=None):
    def f(env, model, data):
        S = env.bl.OnlineStudy(storeHistory=True, silent=True)
        S.set(model, silent=True)

        def go():
            for i, t in enumerate(tms):
                S.addTransitionModel('m%d' % i, t(env.bl.tm))
            if prior is not None:
                S.setTransitionModelPrior(prior)
            S.step(0)
        return None, go
    return f


def setter(*models):
    def g(env, model, data):
        S = env.bl.Study(silent=True)
        return None, (lambda: S.set(*[m(env, model) for m in models], silent=True))
    return g


def optimiser(tm):
    def f(env, model, data):
        S = env.bl.Study(silent=True)
        S.loadData(data, silent=True)
        S.set(model, tm(env.bl.tm), silent=True)

        def go():
            called = []

            def mini(fun, x0):
                called.append(x0)
                y = fun(x0)
                return list(x0), y
            undo = env.minimize_stub(mini)
            try:
                S.optimize()
            finally:
                undo()
        return S, go
    return f


def G(n, v, target='x', **k):
    return lambda t: t.GaussianRandomWalk(n, v, target=target, **k)


def com(*m):
    return lambda t: t.CombinedTransitionModel(*[f(t) for f in m])


def ser(*m):
    return lambda t: t.SerialTransitionModel(*[f(t) for f in m])


ST = lambda t: t.Static()
C = lambda n, v: (lambda t: t.ChangePoint(n, v))
B = lambda n, v: (lambda t: t.BreakPoint(n, v))


def prior_om(prior):
    def f(env):
        g = Grid(env, axes_for((2, 3)))
        return table_model(env, g, [[env.num(1)] * 6] * 4, prior)
    return f


def drift(t, a=0.5):
    return a * t


def drift2(t, a):
    return a * t


INVALID = [
    ('duplicate names', fitted('Study', com(G('s', 0.5), G('s', 1.)))), ('duplicate names, hyper-study', fitted('HyperStudy', com(G('s', [0.5, 1.]), G('s', [1., 2.])))),
    ('duplicate names, change-point study', fitted('ChangepointStudy', com(C('s', 'all'), C('s', 'all')))),
    ('duplicate names, serial model', fitted('Study', ser(G('s', 0.5), B('s', 1), ST))),
    ('duplicate names, online study', online([G('s', 0.5), G('s', 1.)])), ('duplicate names in a model of an online study', online([com(G('s', 0.5), G('s', 1.))])),
    ('duplicate names, evidence only', fitted('Study', com(G('s', 0.5), G('s', 1.)), evidenceOnly=True)),
    ('duplicate names, nested', fitted('Study', com(ST, com(G('s', 0.5), ser(ST, B('b', 1), G('s', 1.)))))),
    ('unknown target', fitted('Study', G('s', 0.5, 'q'))), ('unknown target, alpha-stable', fitted('Study', lambda t: t.AlphaStableRandomWalk('s', 0.5, 'a', 1., target='q'))),
    ('unknown target, deterministic', fitted('Study', lambda t: t.Deterministic(drift, target='q'))), ('unknown target, hyper-study', fitted('HyperStudy', G('s', [0.5, 1.], 'q'))),
    ('unknown target, nested', fitted('Study', com(ST, ser(ST, B('b', 0), G('s', 0.5, 'q'))))),
    ('no target', only(lambda env, m: env.bl.tm.GaussianRandomWalk('s', 0.5))), ('no target, alpha-stable', only(lambda env, m: env.bl.tm.AlphaStableRandomWalk('s', 0.5, 'a', 1.))),
    ('no target, deterministic', only(lambda env, m: env.bl.tm.Deterministic(drift))),
    ('drift without value', only(lambda env, m: env.bl.tm.Deterministic(drift2, target='x'))), ('drift that is no function', only(lambda env, m: env.bl.tm.Deterministic(3, target='x'))),
    ('wrong number of hyper-priors', only(lambda env, m: env.bl.tm.Deterministic(drift, target='x', prior=[None, None]))),
    ('break-point in a combined model', only(lambda env, m: com(ST, B('b', 1))(env.bl.tm))), ('break-point alone', setter(lambda env, m: env.bl.tm.BreakPoint('b', 1))),
    ('break-point alone, online study', online([B('b', 1)])),
    ('break-points in wrong order', only(lambda env, m: ser(ST, B('b', 3), ST, B('d', 1), ST)(env.bl.tm))),
    ('equal break-points', only(lambda env, m: ser(ST, B('b', 1), ST, B('d', 1), ST)(env.bl.tm))),
    ('break-point and change-point in wrong order', only(lambda env, m: ser(ST, B('b', 3), ST, C('d', 1), ST)(env.bl.tm))),
    ('third break-point in wrong order', only(lambda env, m: ser(ST, B('b', 1), ST, B('d', 3), ST, B('e', 2), ST)(env.bl.tm))),
    ('lists of break-points in wrong order', only(lambda env, m: ser(ST, B('b', [3, 4]), ST, B('d', [1, 5]), ST)(env.bl.tm))),
    ('sub-model is missing', only(lambda env, m: ser(ST, B('b', 1))(env.bl.tm))), ('break-point is missing', only(lambda env, m: ser(ST, ST)(env.bl.tm))),
    ('too many break-points', only(lambda env, m: ser(ST, B('b', 1), B('d', 2), ST)(env.bl.tm))),
    ('break-point is missing among three', only(lambda env, m: ser(ST, B('b', 1), ST, ST)(env.bl.tm))),
    ('two observation models', setter(lambda env, m: m, lambda env, m: m)), ('two transition models', setter(lambda env, m: env.bl.tm.Static(), lambda env, m: env.bl.tm.Static())),
    ('class instead of instance', setter(lambda env, m: env.bl.tm.Static)),
    ('prior of wrong size', fitted('Study', ST, prior_om(numpy.ones(3)))), ('transposed prior', fitted('Study', ST, prior_om(numpy.ones((3, 2))))),
    ('prior that would have to be repeated', fitted('Study', ST, prior_om(numpy.ones((2, 1))))), ('flat prior array of the right number of values', fitted('Study', ST, prior_om(numpy.ones(6)))),
    ('prior as text', fitted('Study', ST, prior_om('flat'))), ('prior function with wrong number of parameters', fitted('Study', ST, prior_om(lambda x: x))),
    ('prior of wrong size, hyper-study', fitted('HyperStudy', G('s', [0.5, 1.]), prior_om(numpy.ones((3, 2))))),
    ('hyper-prior too long', fitted('HyperStudy', G('s', [0.5, 1.], prior=numpy.array([1., 2., 3.])))), ('hyper-prior too short', fitted('HyperStudy', G('s', [0.5, 1.], prior=numpy.array([1.])))),
    ('hyper-prior too long, online study', online([G('s', [0.5, 1.], prior=numpy.array([1., 2., 3.]))])),
    ('hyper-prior of wrong length for all change-points', fitted('ChangepointStudy', lambda t: t.CombinedTransitionModel(t.ChangePoint('c', 'all', prior=numpy.ones(7)), t.ChangePoint('d', 'all')))),
    ('hyper-prior function', fitted('HyperStudy', G('s', [0.5, 1.], prior=lambda a, b: a))),
    ('identical change-points in a hyper-study', fitted('HyperStudy', com(C('c', [0, 1]), C('d', [1, 2])))), ('all change-points twice in a hyper-study', fitted('HyperStudy', com(C('c', 'all'), C('d', 'all')))),
    ('identical break-points in a hyper-study', fitted('HyperStudy', ser(ST, B('c', [0, 1]), ST, B('d', [1, 2]), ST))),
    ('change-point study without change-points', fitted('ChangepointStudy', G('s', [0.5, 1.]))), ('change-point study without hyper-parameters', fitted('ChangepointStudy', ST)),
    ('change-points in descending order only', fitted('ChangepointStudy', com(C('c', [1, 2]), C('d', [0, 1])))),
    ('two fixed change-points in descending order', fitted('ChangepointStudy', com(C('c', 2), C('d', 1)))),
    ('identical fixed change-points', fitted('ChangepointStudy', com(C('c', [1]), C('d', 1)))),
    ('change-points and break-points', fitted('ChangepointStudy', com(C('c', 'all'), ser(ST, B('b', 'all'), ST)))),
    ('several serial models in a change-point study', fitted('ChangepointStudy', com(ser(ST, B('c', 'all'), ST), ser(ST, B('b', 'all'), ST)))),
    ('several values in a standard study', fitted('Study', G('s', [0.5, 1.]))), ('all change-points in a standard study', fitted('Study', C('c', 'all'))),
    ('all break-points in a standard study', fitted('Study', ser(ST, B('c', 'all'), ST))), ('several break-points in a standard study', fitted('Study', ser(ST, B('c', [0, 2]), ST))),
    ('all change-points in an online study', online([C('c', 'all')])),
    ('no data', fitted('Study', ST, data=numpy.array([]))), ('no data, hyper-study', fitted('HyperStudy', G('s', [0.5, 1.]), data=numpy.array([]))),
    ('fewer data points than needed', fitted('Study', ST, lambda env: env.bl.om.AR1('x', [0., 0.5], 'y', [1., 2.]), numpy.array([1.]))),
    ('fewer data points than needed, hyper-study', fitted('HyperStudy', G('s', [0.5, 1.]), lambda env: env.bl.om.AR1('x', [0., 0.5], 'y', [1., 2.]), numpy.array([1.]))),
    ('likelihood with too few parameters', only(lambda env, m: env.bl.om.NumPy(lambda data, x: x, 'x', [1., 2.], 'y', [1., 2.]))),
    ('likelihood with too many parameters', only(lambda env, m: env.bl.om.NumPy(lambda data, x, y: x, 'x', [1., 2.]))),
    ('likelihood without data', only(lambda env, m: env.bl.om.NumPy(lambda d, x: x, 'x', [1., 2.]))), ('likelihood that is no function', only(lambda env, m: env.bl.om.NumPy(3, 'x', [1., 2.]))),
    ('unknown option of the observation model', only(lambda env, m: env.bl.om.NumPy(lambda data, x: x, 'x', [1., 2.], foo=3))),
    ('parameter without values', setter(lambda env, m: env.bl.om.NumPy(lambda data, x: x, 'x', None))),
    ('no transition model, online study', online([])), ('prior of wrong length, online study', online([ST, G('s', 1.)], [1.])),
    ('nothing to optimise', optimiser(ST)), ('only change-points to optimise', optimiser(C('c', 1))), ('only break-points to optimise', optimiser(ser(ST, B('c', 1), ST))),
    ('duplicate names in an optimisation', optimiser(com(G('s', 0.5), G('s', 1.)))),
    ('duplicate parameter names in a query', None), ('no transition model', None), ('no observation model', None), ('no data at all', None),
]


def refused(env, label, f):
    try:
        f()
    except Exception:
        return True
    env.assert_true('rejected: ' + label, False)
    return False


def special(env, name, model, c):
    bl = env.bl
    S = bl.Study(silent=True)
    if name == 'duplicate parameter names in a query':
        for X in range(2):
            S = bl.Study(silent=True)
            S.loadData(numpy.arange(c.T), silent=True)
            S.set(model, bl.tm.GaussianRandomWalk('s', 0.5, target='x'), silent=True)
            S.fit(silent=True)
            if X == 0:
                first = S
        refused(env, name, lambda: bl.Parser(first, S))
        refused(env, 'no study', lambda: bl.Parser())
        env.assert_true('done', True)
        env.observe('evidence', S.logEvidence)
        return
    steps = {'no transition model': ('data', 'om'), 'no observation model': ('data', 'tm'), 'no data at all': ('om', 'tm')}[name]
    todo = {'data': lambda X: X.loadData(numpy.arange(c.T), silent=True), 'om': lambda X: X.set(model, silent=True),
            'tm': lambda X: X.set(bl.tm.GaussianRandomWalk('s', 0.5, target='x'), silent=True)}
    out = []
    for cls in ('Study', 'HyperStudy', 'ChangepointStudy'):
        S = getattr(bl, cls)(silent=True)
        for s in steps:
            todo[s](S)
        refused(env, '{}, {}'.format(name, cls), lambda: S.fit(silent=True))
        refused(env, '{}, {}'.format(name, cls), lambda: S.optimize())
        # usable as soon as everything is set
        for s in todo:
            if s not in steps:
                todo[s](S)
        if cls == 'ChangepointStudy':
            S.set(bl.tm.ChangePoint('c', 'all'), silent=True)
        S.fit(silent=True)
        R = getattr(bl, cls)(silent=True)
        for s in ('data', 'om', 'tm'):
            todo[s](R)
        if cls == 'ChangepointStudy':
            R.set(bl.tm.ChangePoint('c', 'all'), silent=True)
        R.fit(silent=True)
        env.observe('evidence', R.logEvidence)
        for n in ('posteriorSequence', 'logEvidence', 'localEvidence'):
            same(env, '{} after rejected fit'.format(n), freeze(getattr(S, n)), freeze(getattr(R, n)))


def harness(env, kind, group, state=None, walks=False, **k):
    bl = env.bl
    if group == 'config':
        c = Case(env, shape=(2, 3), T=4, pattern=5)
        model = table_model(env, c.grid, c.L)
        f = dict(INVALID)[state]
        if f is None:
            return special(env, state, model, c)
        S, go = f(env, model, numpy.arange(c.T))
        refused(env, state, go)
        if S is not None:
            # the same study with a valid model
            for X in (S, type(S)(silent=True)):
                X.loadData(numpy.arange(c.T), silent=True)
                X.set(model, bl.tm.GaussianRandomWalk('w', 0.5, target='x') if type(S) is not bl.ChangepointStudy else bl.tm.ChangePoint('w', [1]), silent=True)
                X.fit(silent=True)
                if X is S:
                    a = [freeze(X.logEvidence), freeze(X.posteriorSequence)]
            env.observe('evidence', X.logEvidence)
            same(env, 'evidence after: ' + state, a[0], freeze(X.logEvidence))
            same(env, 'distributions after: ' + state, a[1], freeze(X.posteriorSequence))
        else:
            env.assert_true('done', True)
        return
    c = Case(env, **k)
    extra = {'study': STUDY, 'forward': STUDY, 'hyper': HYPER, 'cp': CP, 'online': ONLINE}[kind]
    if group == 'always':
        S = build(env, kind, c, walks=walks)
        if kind == 'online':
            for t in range(c.T - 1):
                S.step(t)
        else:
            S.fit(silent=True, forwardOnly=kind == 'forward')
        before = snapshot(S)
        for name, f in ALWAYS + extra:
            if kind == 'online' and name == 'distribution of an unknown time':
                continue
            refused(env, name, lambda: f(S))
        after = snapshot(S)
        env.assert_true('results are still there', sorted(before) == sorted(after))
        for a in before:
            same(env, '{} after rejected requests'.format(a), after.get(a), before[a])
        R = build(env, kind, c, walks=walks)
        if kind == 'online':
            for t in range(c.T - 1):
                R.step(t)
            S.step(c.T - 1)
            R.step(c.T - 1)
        else:
            S.fit(silent=True)
            R.fit(silent=True)
        env.observe('evidence', R.logEvidence)
        a, b = snapshot(S), snapshot(R)
        for name in b:
            same(env, '{} of further use'.format(name), a.get(name), b[name])
        return
    if group == 'history':
        S = bl.OnlineStudy(storeHistory=False, silent=True)
        S.set(table_model(env, c.grid, c.L, c.prior_arg), silent=True)
        S.addTransitionModel('static', bl.tm.Static())
        S.addTransitionModel('walk', bl.tm.GaussianRandomWalk('s', [1., 1.5], target='x'))
        R = build(env, kind, c, walks=walks)
        for t in range(c.T):
            S.step(t)
            R.step(t)
            if t > 0:
                for name, f in HISTORY:
                    refused(env, 'without history: ' + name, lambda: f(S))
            for name in ('marginalizedPosterior', 'logEvidence', 'transitionModelDistribution'):
                same(env, '{} without history'.format(name), freeze(getattr(S, name)), freeze(getattr(R, name)))
        env.observe('evidence', R.logEvidence)
        return
    # states in which there are no results yet
    requests = RESULTS + {'hyper': RESULTS_HYPER, 'cp': RESULTS_CP, 'online': RESULTS_ONLINE}.get(kind, [])
    if kind == 'online':
        S = bl.OnlineStudy(storeHistory=True, silent=True)
    else:
        S = {'hyper': bl.HyperStudy, 'cp': bl.ChangepointStudy}.get(kind, bl.Study)(silent=True)
    full = build(env, kind, c, walks=walks)
    if state == 'models':
        S = full
    elif state == 'evidence':
        S = full
        S.fit(silent=True, evidenceOnly=True)
        requests = RESULTS
    elif state in ('data', 'om'):
        if kind != 'online':
            S.loadData(numpy.arange(c.T), silent=True)
        if state == 'om':
            S.set(table_model(env, c.grid, c.L, c.prior_arg), silent=True)
    for name, f in requests:
        refused(env, '{} without results ({})'.format(name, state), lambda: f(S))
    if state in ('models', 'evidence'):
        R = build(env, kind, c, walks=walks)
        for X in (S, R):
            if kind == 'online':
                X.step(0)
                X.step(1)
            else:
                X.fit(silent=True)
        env.observe('evidence', R.logEvidence)
        a, b = snapshot(S), snapshot(R)
        for name in b:
            same(env, '{} of further use'.format(name), a.get(name), b[name])
    else:
        env.assert_true('done', True)
