"""Saved studies are restored completely."""
import os
import shutil
import tempfile
import numpy
from .spec import Case, HyperAxis, table_model
from .c07 import freeze, same, snapshot, ops, build, quiet_plot

BOUNDS = ('studies of all types with 1 or 2 parameters of 2 or 3 values and 2 to 4 time steps, saved before the fit, after a fit or '
          'between steps of an online study; all likelihoods; built-in observation models and all transition models with fixed values')


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    for point in ('before', 'after'):
        add('study, ' + point, kind='study', point=point, T=3)
        add('two parameters, ' + point, kind='study', point=point, shape=(2, 3), T=2, pattern=3, prior='array')
        add('hyper-study, ' + point, kind='hyper', point=point, T=2, pattern=2)
        add('change-point study, ' + point, kind='cp', point=point, shape=2, T=4, pattern=4)
    add('forward-only', kind='forward', point='after', T=3)
    add('evidence-only', kind='evidence', point='after', T=3)
    for t in range(4):
        add('online study, after step %d' % t, kind='online', point=t, T=4, pattern=4)
    add('prior function', kind='study', point='before', T=2, prior='function')
    for name in ('poisson', 'bernoulli', 'gaussian', 'laplace', 'whitenoise', 'ar1', 'scaledar1', 'gaussianmean', 'sympy'):
        add('observation model ' + name, kind='om', point=name)
    for name in ('alphastable', 'bivariate', 'regime', 'notequal', 'shift', 'independent', 'changepoint', 'serial', 'combined'):
        add('transition model ' + name, kind='tm', point=name)
    if tier == 'thorough':
        add('hyper-study, longer', kind='hyper', point='after', shape=4, T=3, pattern=2)
        add('two parameters, longer', kind='study', point='after', shape=(3, 4), T=3, pattern=2, prior='array')
    return out


def roundtrip(env, S):
    d = tempfile.mkdtemp(prefix='c32-')
    try:
        f = os.path.join(d, 'study.bl')
        env.bl.save(f, S)
        R = env.bl.load(f)
    finally:
        shutil.rmtree(d)
    env.assert_true('a new object is loaded', R is not S)
    return R


def compare(env, a, b, label):
    x, y = snapshot(a), snapshot(b)
    env.assert_true('attributes ' + label, sorted(x) == sorted(y))
    for n in x:
        if n in y:
            same(env, '{} {}'.format(n, label), y[n], x[n])


def readable(env, kind, S, R):
    for o, f in ops(kind):
        if 'plot' in o or 'unknown' in o or 'invalid' in o or 'quer' in o or 'derived' in o or 'fixed time' in o or 'without' in o:
            continue
        same(env, 'answer of "{}" of the loaded study'.format(o), freeze(f(R)), freeze(f(S)))


def om_cases(env, name):
    """observation model and data"""
    bl = env.bl
    x3, pos = [0., 0.5, 1.], [1., 2.]
    if name == 'poisson':
        return bl.om.Poisson('x', [1., 2., 3.]), [1, 0, 2]
    if name == 'bernoulli':
        return bl.om.Bernoulli('x', [0.25, 0.5, 0.75]), [1, 0, 1]
    if name == 'gaussian':
        return bl.om.Gaussian('x', x3, 's', pos), [0.5, 1.5, 0.]
    if name == 'laplace':
        return bl.om.Laplace('x', x3, 's', pos), [0.5, 1.5, 0.]
    if name == 'whitenoise':
        return bl.om.WhiteNoise('x', pos), [0.5, 1.5, 0.]
    if name == 'ar1':
        return bl.om.AR1('x', [0., 0.5], 's', pos), [0.5, 1.5, 0.]
    if name == 'scaledar1':
        return bl.om.ScaledAR1('x', [0., 0.5], 's', pos), [0.5, 1.5, 0.]
    if name == 'gaussianmean':
        return bl.om.GaussianMean('x', x3), [[0.5, 1.], [1.5, 2.], [0., 1.]]
    from sympy import Symbol, stats
    r = Symbol('r', positive=True)
    return bl.om.SymPy(stats.Exponential('e', r), 'r', [1., 2., 3.], determineJeffreysPrior=False), [0.5, 1.5, 0.25]


def tm_cases(env, name):
    t = env.bl.tm
    g = lambda n, v: t.GaussianRandomWalk(n, v, target='x')
    if name == 'alphastable':
        return t.AlphaStableRandomWalk('c', 0.5, 'a', 1.5, target='x')
    if name == 'bivariate':
        return t.BivariateRandomWalk('s', 0.5, 'u', 1., 'r', 0.25)
    if name == 'regime':
        return t.RegimeSwitch('m', -1)
    if name == 'notequal':
        return t.NotEqual('m', -1)
    if name == 'independent':
        return t.Independent()
    if name == 'changepoint':
        return t.ChangePoint('c', 1)
    if name == 'shift':
        def drift(t, a=0.5):
            return a * t
        return t.Deterministic(drift, target='x')
    if name == 'combined':
        return t.CombinedTransitionModel(g('s', 0.5), t.RegimeSwitch('m', -3))
    return t.SerialTransitionModel(g('s', 0.75), t.BreakPoint('b', 0), t.Static(), t.ChangePoint('d', 1), g('u', 0.5))


def harness(env, kind, point, **k):
    bl = env.bl
    if kind in ('om', 'tm'):
        S = bl.Study(silent=True)
        if kind == 'om':
            om, data = om_cases(env, point)
            tm = bl.tm.GaussianRandomWalk('sig', 0.75, target=om.parameterNames[0])
        else:
            two = point == 'bivariate'
            om = bl.om.Gaussian('x', [0., 0.5, 1.], 'y', [1., 2.]) if two else bl.om.Poisson('x', [1., 1.5, 2.])
            data = [1, 0, 2]
            tm = tm_cases(env, point)
        S.loadData(numpy.array(data), silent=True)
        S.set(om, tm, silent=True)
        R0 = roundtrip(env, S)
        S.fit(silent=True)
        R = roundtrip(env, S)
        compare(env, S, R, 'of the loaded study')
        env.observe('evidence', S.logEvidence)
        for X, label in ((R0, 'of a study saved before the fit'), (R, 'of a study fitted again')):
            X.fit(silent=True)
            compare(env, S, X, label)
        return
    c = Case(env, **k)
    S = build(env, kind, c)
    fitting = dict(silent=True, forwardOnly=kind == 'forward', evidenceOnly=kind == 'evidence')
    if kind == 'online':
        R = None
        for t in range(c.T):
            S.step(t)
            if t == point:
                R = roundtrip(env, S)
                compare(env, S, R, 'of the loaded study')
                if t > 0:
                    readable(env, kind, S, R)
            elif R is not None:
                R.step(t)
                compare(env, S, R, 'of the loaded study after step %d' % t)
        env.observe('evidence', S.logEvidence)
        return
    if point == 'before':
        R = roundtrip(env, S)
        S.fit(**fitting)
        env.assert_true('the saved study is independent', not len(R.posteriorSequence))
    else:
        S.fit(**fitting)
        R = roundtrip(env, S)
        compare(env, S, R, 'of the loaded study')
        if kind not in ('evidence', 'forward') and k.get('prior') is None:
            readable(env, kind, S, R)
    R.fit(**fitting)
    env.observe('evidence', S.logEvidence)
    compare(env, S, R, 'of the loaded study, fitted again')
    # other models and data
    for X in (S, R):
        X.set(bl.tm.Static(), silent=True) if kind != 'cp' else X.set(bl.tm.ChangePoint('q', 'all'), silent=True)
        X.loadData(numpy.array([1, 0]) if kind != 'cp' else numpy.array([1, 0, 2]), silent=True)
        X.fit(**fitting)
    compare(env, S, R, 'of the loaded study with other settings')
