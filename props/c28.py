"""Objects supplied by the user are never modified, and returned values stay as they are."""
import numpy
from fractions import Fraction
from .spec import Case, HyperAxis, hyper_model, likelihoods
from .c07 import freeze, same, ops

BOUNDS = ('studies of all types with 1 or 2 parameters of 2 or 3 values and 2 to 4 time steps; fit, forward-only and evidence-only fit, '
          'steps, optimisation, all listed read operations; all likelihoods, priors and hyper-priors; missing data points')


class Watch(object):
    """objects of the user and their values at the beginning"""
    def __init__(self, env):
        self.env, self.items = env, []

    def add(self, label, v):
        self.items.append((label, v, freeze(v)))
        return v

    def check(self, when):
        for label, v, before in self.items:
            same(self.env, '{} unchanged after {}'.format(label, when), freeze(v), before)


def model(env, grid, w, L, prior, stored=True):
    """observation model whose likelihood function returns the arrays stored by the user (without a copy)"""
    arrays = [w.add('likelihood array %d' % i, grid.to_array(row)) for i, row in enumerate(L)]
    watch = w

    def look(data):
        before = freeze(data)
        d = data
        while hasattr(d, '__len__'):
            d = d[0]
        return arrays[int(d)]
    if len(grid.shape) == 1:
        def lik(data, x):
            return look(data)
    else:
        def lik(data, x, y):
            return look(data)
    kw = {} if prior is None else dict(prior=prior)
    args = [w.add('parameter values', a) if not isinstance(a, str) else a for a in grid.args]
    w.add('arguments', args)
    return env.bl.om.NumPy(lik, *args, **kw)


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    for mode in ('full', 'forward', 'evidence'):
        add('study, ' + mode, kind='study', mode=mode, T=3, prior='array', times='irregular')
        add('hyper-study, ' + mode, kind='hyper', mode=mode, T=2, shape=3, pattern=2, prior='array_few')
        add('change-point study, ' + mode, kind='cp', mode=mode, T=4, shape=2, pattern=4)
    add('two parameters', kind='study', mode='full', shape=(2, 3), T=2, prior='array')
    add('two parameters, prior function', kind='study', mode='full', shape=(2, 3), T=2, prior='function_fixed')
    for tm in ('alphastable', 'regime', 'notequal', 'shift', 'independent', 'changepoint', 'serial', 'bivariate'):
        two = tm == 'bivariate'
        add('transition model ' + tm, kind='study', mode='full', tm=tm, shape=(2, 3) if two else 2 if tm == 'notequal' else 3, T=2 if two or tm in ('regime', 'notequal') else 3,
            prior='array_fixed', pattern=[(0, 0)] if tm in ('regime', 'notequal') else (4 if not two else 6))
    add('optimisation', kind='study', mode='optimise', T=3, prior='array')
    add('online study', kind='online', mode='full', T=3, pattern=2, prior='array_few')
    add('online study, current data', kind='online', mode='current', T=3, pattern=2, prior='array_few')
    add('reading of a study', kind='study', mode='read', T=3)
    add('reading of a hyper-study', kind='hyper', mode='read', T=2, pattern=3)
    add('reading of a change-point study', kind='cp', mode='read', T=4, shape=2, pattern=4)
    for i in range(4):
        add('reading of an online study %d' % i, kind='online', mode='read', T=3, pattern=3, part=i)
    add('missing data', kind='missing', mode='full', T=3)
    add('built-in models', kind='builtin', mode='full')
    if tier == 'thorough':
        add('hyper-study, longer', kind='hyper', mode='full', T=3, shape=4, pattern=2, prior='array_few')
        add('two parameters, longer', kind='study', mode='full', shape=(3, 4), T=3, prior='array', pattern=2)
        add('online study, longer', kind='online', mode='full', T=5, pattern=3, prior='array_few')
    return out


def transition(env, w, tm):
    t = env.bl.tm
    if tm is None:
        return t.GaussianRandomWalk('s', 0.75, target='x')
    if tm == 'alphastable':
        return t.AlphaStableRandomWalk('c', 0.5, 'a', 1.5, target='x')
    if tm == 'bivariate':
        return t.BivariateRandomWalk('s', 0.5, 'u', 1., 'r', 0.25)
    if tm == 'regime':
        return t.RegimeSwitch('m', -1)
    if tm == 'notequal':
        return t.NotEqual('m', -1)
    if tm == 'independent':
        return t.Independent()
    if tm == 'changepoint':
        return t.ChangePoint('c', 1)
    if tm == 'shift':
        def drift(t, a=0.5):
            return a * t
        return t.Deterministic(drift, target='x')
    return t.SerialTransitionModel(t.GaussianRandomWalk('s', 0.75, target='x'), t.BreakPoint('b', 0), t.Static(), t.ChangePoint('d', 1),
                                   t.GaussianRandomWalk('u', 0.5, target='x'))


def read_all(S, names):
    out = []
    for o, f in names:
        out.append((o, f(S)))
    return out


def keep(env, values, when):
    return [(o, v, freeze(v)) for o, v in values]


def unchanged(env, kept, when):
    for o, v, before in kept:
        same(env, 'value returned by "{}" {}'.format(o, when), freeze(v), before)


def harness(env, kind, mode, tm=None, part=None, **k):
    if kind == 'missing':
        return missing(env)
    if kind == 'builtin':
        return builtin(env)
    bl = env.bl
    w = Watch(env)
    c = Case(env, **k)
    prior = w.add('prior', c.prior_arg) if c.prior_arg is not None and not callable(c.prior_arg) else c.prior_arg
    extra = likelihoods(env, 2, c.grid.size, 2 if tm not in ('regime', 'notequal') else [], prefix='X')
    om = model(env, c.grid, w, c.L + extra, prior)
    data = w.add('data', numpy.arange(c.T))
    times = w.add('time stamps', numpy.array(c.times))
    reads = [(o, f) for o, f in ops(kind) if 'plot' not in o and 'unknown' not in o and 'invalid' not in o and 'without' not in o and
             (mode == 'read' or 'quer' not in o)]
    if kind == 'online':
        S = bl.OnlineStudy(storeHistory=mode != 'current', silent=True)
        S.set(om, silent=True)
        hv = w.add('hyper-parameter values', [1., 2.])
        hp = w.add('hyper-prior', env.array([env.pos('h0'), env.num(1)]))
        S.addTransitionModel('static', bl.tm.Static())
        S.addTransitionModel('walk', bl.tm.GaussianRandomWalk('s', hv, target='x', prior=hp))
        tp = w.add('prior of transition models', env.array([env.pos('t0'), env.num(2)]))
        S.setTransitionModelPrior(tp)
        if mode == 'current':
            reads = [(o, f) for o, f in reads if 'urrent' in o or 'model probability' in o]
        points = [w.add('data point %d' % t, numpy.array([t])) if mode == 'current' else w.add('data point %d' % t, [t]) if t else t for t in range(c.T)]
        kept = []
        for t in range(c.T):
            S.step(points[t])
            w.check('step %d' % t)
            if t == 1:
                if mode == 'read':
                    reads = reads[part::4]
                kept = keep(env, read_all(S, reads), t)
                w.check('reading')
        unchanged(env, kept, 'after another step')
        env.observe('evidence', S.logEvidence)
        return
    S = {'hyper': bl.HyperStudy, 'cp': bl.ChangepointStudy, 'study': bl.Study}[kind](silent=True)
    S.loadData(data, timestamps=times, silent=True)
    if kind == 'hyper':
        axes = [HyperAxis(env, 's', ['1/4', '3/4'], 'list'), HyperAxis(env, 'u', [1, 2], 'list')]
        hv = [w.add('hyper-parameter values', numpy.array(a.floats)) for a in axes]
        for a in axes:
            w.add('hyper-prior', a.arg)
        t = bl.tm.CombinedTransitionModel(bl.tm.GaussianRandomWalk('s', hv[0], target='x', prior=axes[0].arg),
                                          bl.tm.GaussianRandomWalk('u', hv[1], target='x', prior=axes[1].arg))
    elif kind == 'cp':
        hv = w.add('hyper-parameter values', [0, 1, 2])
        axes = [HyperAxis(env, 'c', [0, 1, 2], 'ints'), HyperAxis(env, 'd', [0, 1, 2])]
        w.add('hyper-prior', axes[0].arg)
        t = bl.tm.CombinedTransitionModel(bl.tm.ChangePoint('c', hv, prior=axes[0].arg), bl.tm.ChangePoint('d', hv))
    else:
        t = transition(env, w, tm)
    S.set(om, t, silent=True)
    w.check('configuration')
    if mode == 'optimise':
        sel = w.add('selection', ['s'])

        def optimiser(fun, x0):
            y = fun(w.add('point', numpy.array([0.5])))
            return w.add('result', [0.5]), y
        undo = env.minimize_stub(optimiser)
        try:
            S.optimize(sel)
        finally:
            undo()
        w.check('optimisation')
        return
    kw = dict(forwardOnly=mode == 'forward', evidenceOnly=mode == 'evidence')
    S.fit(silent=True, **kw)
    w.check('fit')
    env.observe('evidence', S.logEvidence)
    if mode == 'evidence':
        return
    kept = [('posteriorSequence', S.posteriorSequence, None), ('posteriorMeanValues', S.posteriorMeanValues, None),
            ('localEvidence', S.localEvidence, None)]
    if kind != 'study':
        kept += [('hyperParameterDistribution', S.hyperParameterDistribution, None), ('hyperGridValues', S.hyperGridValues, None)]
    kept = [(o, v, freeze(v)) for o, v, _ in kept]
    if mode == 'read' or kind == 'study':
        times_ok = c.times_arg is None
        if kind == 'study' and tm is not None:
            reads = [r for r in reads if 'hyper-parameter' not in r[0]]
        if times_ok:
            kept += keep(env, read_all(S, reads), 'reading')
        else:
            kept += keep(env, [('mean values', S.getParameterMeanValues('x')), ('distributions', S.getParameterDistributions('x'))], '')
        w.check('reading')
    S.fit(silent=True, **kw)
    w.check('another fit')
    unchanged(env, kept, 'after another fit')
    S.loadData(w.add('other data', numpy.array([c.T, c.T + 1] + [0] * (c.T - 2))), silent=True)
    S.fit(silent=True)
    w.check('fit of other data')
    unchanged(env, kept, 'after a fit of other data')


def missing(env):
    """missing values are not replaced in the array of the user"""
    bl = env.bl
    w = Watch(env)
    for shape, segment in (('one', 1), ('two', 1), ('one', 2)):
        def lik(data, x):
            return 1. + x * 0.5
        if shape == 'one':
            data = numpy.array([1., numpy.nan, 3., numpy.nan])
            mask = numpy.isnan(data)
        else:
            data = numpy.array([[1., 2.], [numpy.nan, 1.], [2., numpy.nan], [numpy.nan, numpy.nan]])
            mask = numpy.isnan(data)
        copy = data.copy()
        S = bl.Study(silent=True)
        S.loadData(data, silent=True)
        om = bl.om.NumPy(lik, 'x', env.array([env.num(0), env.num(1), env.num(2)]))
        om.multiplyLikelihoods = shape == 'two'
        om.segmentLength = segment
        S.set(om, bl.tm.GaussianRandomWalk('s', 0.5, target='x'), silent=True)
        S.fit(silent=True)
        env.observe('evidence', S.logEvidence)
        env.assert_true('missing values are kept', bool(numpy.all(numpy.isnan(data) == mask)))
        env.assert_true('other values are kept', bool(numpy.all(data[~mask] == copy[~mask])))


def builtin(env):
    """data and values of models that come with the package"""
    bl = env.bl
    cases = [(bl.om.Poisson, ('x', [1., 2.]), [1, 0, 2]), (bl.om.Bernoulli, ('x', [0.25, 0.5, 0.75]), [1, 0, 1]),
             (bl.om.Gaussian, ('m', [0., 1.], 'x', [1., 2.]), [0.5, 1.5, 0.]), (bl.om.WhiteNoise, ('x', [1., 2.]), [0.5, 1.5, 0.]),
             (bl.om.Laplace, ('m', [0., 1.], 'x', [1., 2.]), [0.5, 1.5, 0.]), (bl.om.AR1, ('r', [0., 0.5], 'x', [1., 2.]), [0.5, 1.5, 0.]),
             (bl.om.GaussianMean, ('x', [0., 1.]), [[0.5, 1.], [1.5, 2.], [0., 1.]])]
    for cls, args, data in cases:
        w = Watch(env)
        args = [w.add(cls.__name__ + ' values', list(a)) if isinstance(a, list) else a for a in args]
        d = w.add(cls.__name__ + ' data', numpy.array(data))
        lst = w.add(cls.__name__ + ' list', [list(r) if isinstance(r, list) else r for r in data])
        ts = w.add('time stamps', [3, 5, 6])
        for arr in (d, lst):
            S = bl.Study(silent=True)
            S.loadData(arr, timestamps=ts, silent=True)
            S.set(cls(*args), bl.tm.RegimeSwitch('m', -1), silent=True)
            S.fit(silent=True)
            w.check('fit')
        env.observe(cls.__name__, S.logEvidence)
