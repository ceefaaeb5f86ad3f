"""Parallel hyper-study fits give the same results as fits with a single process."""
import numpy
from .spec import Case, HyperAxis, hyper_model, table_model

BOUNDS = 'one or two parameters with 2 or 3 values each, 2 to 4 time steps, hyper-grids with 2 to 9 points, 2 to 12 workers'
ASSUMPTIONS = ['worker processes are modelled as functions on deep copies of the study (as pickling does); results are '
               'delivered in the order of the jobs for ordered maps and in any order for unordered maps']
LIMIT = {'quick': 60, 'thorough': 600}


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    g3 = [('s', ['1/4', '3/4', '5/4'], 'list')]
    add('gauss, 2 workers', kind='gauss', axes=g3, jobs=2)
    add('gauss, 3 workers', kind='gauss', axes=g3, jobs=3, prior='array_few')
    g4 = [('s', ['1/4', '1/2', '3/4', '1'], 'list')]
    add('gauss, 4 values, 2 workers (output)', kind='gauss', axes=g4, jobs=2)
    add('gauss, 4 values, 2 workers (silent)', kind='gauss', axes=g4, jobs=2)
    add('more workers than values', kind='gauss', axes=g3, jobs=5)
    add('two axes, 2 workers', kind='gauss2', shape=(2, 2), T=2, pattern=2, jobs=2,
        axes=[('s', ['1', '2']), ('u', ['1/4', '1/2', '1'], 'list')])
    add('two axes, 4 workers', kind='gauss2', shape=(2, 2), T=2, pattern=2, jobs=4,
        axes=[('s', ['1', '2']), ('u', ['1/4', '1/2', '1'], 'list')])
    add('serial, 3 workers', kind='serial', axes=[('s', ['1/4', '3/4'], 'list'), ('b', [0, 1])], jobs=3)
    add('changepoint all, 2 workers', kind='changepoint_all', axes=[('c', [5, 6, 7])], times='offset', T=4, pattern=2,
        jobs=2)
    add('impossible value in one worker', kind='changepoint', axes=[('c', [0, 1, 2], 'list')], T=4, jobs=2,
        zero=[(0, 1), (0, 2), (1, 0)])
    add('all values of one worker impossible', kind='changepoint', axes=[('c', [0, 1], 'list')], T=3, jobs=2,
        zero=[(0, 1), (0, 2), (1, 0)])
    add('forward only', kind='gauss', axes=g3, jobs=2, mode='forward')
    add('evidence only', kind='gauss', axes=g3, jobs=2, mode='evidence')
    add('changepoint study, 2 workers', kind='cp2_all', cls='ChangepointStudy', axes=[('c', [0, 1, 2]), ('d', [0, 1, 2])],
        T=4, pattern=3, jobs=2)
    add('serial changepoint study, 3 workers', kind='serial2_all', cls='ChangepointStudy', T=4, pattern=3, jobs=3,
        axes=[('c', [0, 1, 2]), ('d', [0, 1, 2])])
    add('segments of two, 2 workers', kind='gauss', axes=[('s', ['1/4', '3/4', '3/2'], 'list')], T=2, seg=2, jobs=2, pattern=2)
    if tier == 'thorough':
        for n in (2, 3, 4, 6, 7, 12):
            add('changepoint and gauss, %d workers' % n, kind='cp_gauss', jobs=n, T=4, pattern=3,
                axes=[('c', [0, 1], 'list'), ('s', ['1/4', '3/4', '1'], 'list')])
        add('gauss K4 T4, 2 workers', kind='gauss', shape=4, T=4, axes=[('s', ['1/4', '1/2', '3/4', '5/4', '2'], 'list')],
            jobs=2)
    return out


def harness(env, kind, axes, jobs, mode='full', cls='HyperStudy', **k):
    k.setdefault('T', 3)
    c = Case(env, **k)
    ax = [HyperAxis(env, *a) for a in axes]
    model = c.model()
    undo = env.pool_order(lambda n: env.order('order', n))
    try:
        A, B = [run(env, c, model, kind, ax, mode, cls, n) for n in (1, jobs)]
        # a parallel fit, repeated
        B2 = run(env, c, model, kind, ax, mode, cls, jobs, S=B)
    finally:
        undo()
    for name, X, Y in (('parallel', B, A), ('second parallel', B2, A)):
        for n in ('logEvidence', 'logEvidenceList', 'hyperParameterDistribution', 'hyperGridValues',
                  'flatHyperPriorValues', 'localEvidence'):
            env.assert_eq('{}: {}'.format(name, n), X[n], Y[n])
        for n in ('posteriorSequence', 'posteriorMeanValues'):
            if mode != 'evidence':
                env.assert_eq('{}: {}'.format(name, n), X[n], Y[n])
        for a in ax:
            env.assert_eq('{}: marginal distribution'.format(name), X['hpd ' + a.name], Y['hpd ' + a.name])
            u, v = X['value ' + a.name], Y['value ' + a.name]
            if isinstance(v, str):
                env.assert_true('{}: value of hyper-parameter'.format(name), isinstance(u, str) and u == v)
            else:
                env.assert_eq('{}: value of hyper-parameter'.format(name), u, v)
    env.observe('evidence', B['logEvidence'])
    env.observe('hyper', B['hyperParameterDistribution'])


def run(env, c, model, kind, ax, mode, cls, n, S=None):
    if S is None:
        tm, _ = hyper_model(env, kind, ax)
        S = getattr(env.bl, cls)(silent=True)
        if c.times_arg is None:
            S.loadData(c.data, silent=True)
        else:
            S.loadData(c.data, timestamps=c.times_arg, silent=True)
        S.set(model, tm, silent=True)
    else:
        S = S['study']
    kw = dict(forwardOnly=mode == 'forward', evidenceOnly=mode == 'evidence')
    S.fit(silent=True, nJobs=n, **kw)
    out = dict(study=S)
    for a in ('logEvidence', 'logEvidenceList', 'hyperParameterDistribution', 'hyperGridValues', 'flatHyperPriorValues',
              'localEvidence', 'posteriorSequence', 'posteriorMeanValues'):
        v = getattr(S, a)
        out[a] = list(v) if isinstance(v, list) else v
    for a in ax:
        out['hpd ' + a.name] = S.getHyperParameterDistribution(a.name)[1]
        out['value ' + a.name] = S.getHyperParameterValue(a.name)
    return out
