"""Regime-switch and not-equal models: floor of the distribution."""
import numpy
from fractions import Fraction
from .spec import Grid, axes_for, make_prior, distribution, bare_study, flatten, nested, total, normalise, Case, filtering, build_trans, \
    HyperAxis, hyper_model, table_model, prod

BOUNDS = ('all distributions on grids of 2 to 4 values or 2x2, 2x3; threshold density 10^v with v from a list, or an '
          'arbitrary positive number (symbolic)')


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    for model in ('regime', 'notequal'):
        for v in ('-7', '-1', '-1/4', '0', '1'):
            add('{} K3 {}'.format(model, v), model=model, shape=3, v=v)
        add(model + ' 2x2', model=model, shape=(2, 2), v='-1/2')
        add(model + ' K2', model=model, shape=2, v='-1/3')
        add(model + ' K4', model=model, shape=4, v='-2', pattern='all' if model == 'regime' else 2)
        add(model + ' any threshold K2', model=model, shape=2, v=None)
        add(model + ' any threshold K3', model=model, shape=3, v=None, pattern='all' if model == 'regime' else 2)
        add(model + ' flat distribution', model=model, shape=3, v='-1', flat=True)
        add(model + ' impossible values', model=model, shape=4, v='-1', zeros=(1, 3))
        add(model + ' fit', model=model, shape=2, v='-1/3', fit=3)
    for model in ('regime', 'notequal'):
        for v in (-3, 0, 1):
            add('{} integer {}'.format(model, v), model=model, shape=2, v=str(v), integer=True)
        add(model + ' several integers', model=model, shape=2, v=None, several=[-2, -1], fit=2)
        add(model + ' several values', model=model, shape=2, v=None, several=['-1', '-1/2'], fit=2)
    add('regime 2x3', model='regime', shape=(2, 3), v='-1/4', pattern=3)
    if tier == 'thorough':
        add('regime K5', model='regime', shape=5, v='-1/4', max_paths=3000)
        add('notequal K4 all', model='notequal', shape=4, v='-1', max_paths=3000)
        add('regime fit T4', model='regime', shape=2, v='-1/3', fit=4, max_paths=3000)
        add('regime fit K3', model='regime', shape=3, v='-1/3', fit=3, max_paths=3000)
    return out


def harness(env, model, shape, v, pattern='all', flat=False, zeros=(), fit=None, integer=False, several=None):
    env.fork_max()
    bl = env.bl
    if several:
        _several(env, model, shape, several, fit, pattern)
        return
    if fit:
        c = Case(env, shape=shape, T=fit, trans=(model, v))
        f, norms = filtering(c.tr, c.prior, c.L, c.times)
        S = c.study()
        S.fit(forwardOnly=True, silent=True)
        env.observe('post', S.posteriorSequence)
        env.assert_eq('filtering distributions', S.posteriorSequence, [c.nested(p) for p in f])
        return
    g = Grid(env, axes_for(shape))
    arg, pr = make_prior(env, g, None)
    if flat:
        p = [env.num(Fraction(1, g.size))] * g.size
    elif zeros:
        w = [env.num(0) if k in zeros else env.pos('p%d' % k) for k in range(g.size)]
        p = normalise(w)
    else:
        p = distribution(env, g.size, pattern=pattern)
    if v is None:
        dens = env.pos('threshold')
        value = env.log(dens) / env.log(env.num(10))
    else:
        dens = env.num(10. ** float(Fraction(v)))
        value = int(v) if integer else float(Fraction(v))
    T = (bl.tm.RegimeSwitch if model == 'regime' else bl.tm.NotEqual)('log10pMin', value)
    S = bare_study(env, g, arg, T)
    t = env.real('t')
    given = g.to_array(p)
    r = flatten(T.computeForwardPrior(given, t))
    env.observe('new distribution', r)
    floor = dens * g.dV
    q = p
    if model == 'notequal':
        m = env.maximum(p)
        q = [m - x for x in p]
        if env.is_true(total(q) > 0):
            q = normalise(q)
    q = [x if env.is_true(x >= floor) else floor for x in q]
    env.assert_eq('distribution', r, normalise(q))
    env.assert_eq('total probability', total(r), env.num(1))
    for k, x in enumerate(r):
        env.assert_true('probability %d is positive' % k, x > 0)
    env.assert_eq('given distribution is not altered', given, nested(p, g.shape))
    for i in range(g.size):
        for j in range(g.size):
            if i != j and env.is_true(p[i] >= p[j]):
                a, b = (r[j], r[i]) if model == 'regime' else (r[i], r[j])
                env.assert_true('order of values %d and %d' % (i, j), b - a >= 0)
    # the same transformation is applied in the backward direction
    rb = flatten(T.computeBackwardPrior(given, t))
    env.assert_eq('backward', rb, r)


def _several(env, model, shape, values, T, pattern):
    """each of several thresholds (e.g. integers) is applied in hyper-studies and online studies"""
    c = Case(env, shape=shape, T=T, trans=('static',), pattern=pattern)
    ax = HyperAxis(env, 'p', values)
    want = [filtering(build_trans(env, c.grid, c.prior, (model, v)), c.prior, c.L, c.times) for v in values]
    O = env.bl.OnlineStudy(silent=True)
    O.set(c.model(), silent=True)
    O.addTransitionModel('m', hyper_model(env, model, [ax])[0])
    for t in range(c.T):
        O.step(t)
        for j, (f, norms) in enumerate(want):
            env.assert_eq('online study, value %d, step %d' % (j, t), O.parameterPosterior[0][j], c.nested(f[t]))
    H = env.bl.HyperStudy(silent=True)
    H.loadData(c.data, silent=True)
    H.set(c.model(), hyper_model(env, model, [ax])[0], silent=True)
    H.fit(forwardOnly=True, silent=True)
    env.observe('evidence', H.logEvidence)
    for j, (f, norms) in enumerate(want):
        env.assert_log_eq('evidence of value %d' % j, H.logEvidenceList[j], prod(norms, env.num(1)))
