"""History accessors of online studies return the values that were current at the requested time."""
import numpy
from .spec import Case, HyperAxis, hyper_model, table_model, total, marginal, flatten

BOUNDS = 'one or two parameters with 2 or 3 values each, 2 to 5 data points, one to three transition models; slice with 11 data points'


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    st = ('static', [])
    ga = ('gauss', [('s', ['1/4', '3/4'])])
    gi = ('gauss', [('s', ['1/4', '1/2', '3/2'], 'list')])
    add('static and gauss', models=[st, ga], T=3, pattern=2)
    add('irregular values', models=[gi, st], T=2)
    add('one model', models=[ga], T=3, pattern=2)
    add('single values', models=[('gauss2', [('s', ['1'], 'list'), ('u', ['1', '2'], 'list')]), ('gauss', [('v', ['1/2'], 'list')])],
        shape=(2, 2), T=2, pattern=2)
    add('two hyper-parameters 2x2', models=[('gauss2', [('s', ['1', '2'], 'list'), ('u', ['1', '2', '4'], 'list')]), st],
        shape=(2, 2), T=2, pattern=3)
    add('serial and two parameters', models=[('serial', [('u', ['1', '2', '3']), ('b', [0, 1])]), ga], shape=(2, 3), T=3,
        pattern=4)
    add('values in descending order', models=[('gauss', [('s', ['2', '3/2', '1'], 'list')])], T=3, pattern=3)
    add('data segments of length 2', models=[st, ga], T=3, segment=2)
    add('slice T11', models=[st, ga], shape=5, T=11, pattern=23)
    if tier == 'thorough':
        add('three models T5', models=[st, ga, ('serial', [('u', ['1', '2']), ('b', [0, 1])])], T=5, pattern=7)
    return out


def harness(env, models, segment=1, **k):
    c = Case(env, **k)
    S = env.bl.OnlineStudy(storeHistory=True, silent=True)
    if segment == 1:
        S.set(table_model(env, c.grid, c.L, c.prior_arg), silent=True)
        t0 = 0
    else:
        # a model that uses two consecutive data points (AR1 grid: correlation, noise)
        from .spec import Grid
        c.grid = Grid(env, [('x', '-1/2', '1/2', 2), ('y', '1', '2', 2)])
        S.set(env.bl.om.AR1('x', env.array(c.grid.values[0]), 'y', env.array(c.grid.values[1])), silent=True)
        d = [env.real('d%d' % i, lo=-2, hi=2) for i in range(c.T + 1)]
        t0 = 1
    axes, names = [], []
    for i, (kind, ax) in enumerate(models):
        a = [HyperAxis(env, *x) for x in ax]
        S.addTransitionModel('m%d' % i, env.bl.tm.Static() if kind == 'static' else hyper_model(env, kind, a)[0])
        axes.append(a)
        names.append('m%d' % i)
    if segment == 2:
        S.step(d[0])
    post, hp, tmd, loc, means = [], [], [], [], []
    held = []
    for t in range(c.T):
        S.step(t if segment == 1 else d[t + 1])
        post.append(flatten(S.marginalizedPosterior))
        hp.append([list(x) for x in S.hyperParameterDistribution])
        tmd.append(list(S.transitionModelDistribution))
        loc.append(list(S.localTransitionModelDistribution))
        held.append((S.getCurrentTransitionModelDistribution()[1], S.getCTMD(local=True)[1],
                     S.getCurrentParameterDistribution('x', density=False)[1]))
    g = c.grid
    times = [t0 + t for t in range(c.T)]
    env.observe('tmd', S.transitionModelSequence)
    for t in range(c.T):
        env.assert_eq('returned values of step %d still valid' % t, held[t],
                      (tmd[t], loc[t], marginal(post[t], g.shape, 0)))
    for a, n in enumerate(g.names):
        vals = [pt[a] for pt in g.points]
        mv = [total([x * y for x, y in zip(p, vals)]) for p in post]
        env.assert_eq('mean values of ' + n, S.getParameterMeanValues(n), mv)
        env.assert_eq('current mean value of ' + n, S.getCurrentParameterMeanValue(n), mv[-1])
        marg = [marginal(p, g.shape, a) for p in post]
        for t in range(c.T):
            env.assert_eq('mean value of {} at {}'.format(n, times[t]), S.getParameterMeanValue(times[t], n), mv[t])
            for dens in (True, False):
                s = 1 / g.dx[a] if dens else env.num(1)
                x, p = S.getParameterDistribution(times[t], n, density=dens)
                env.assert_eq('values of ' + n, x, g.values[a])
                env.assert_eq('distribution of {} at {}, density={}'.format(n, times[t], dens), p,
                              [q * s for q in marg[t]])
        for dens in (True, False):
            s = 1 / g.dx[a] if dens else env.num(1)
            x, p = S.getCurrentParameterDistribution(n, density=dens)
            env.assert_eq('current distribution of ' + n, p, [q * s for q in marg[-1]])
            x, p = S.getCPD(n, density=dens)
            env.assert_eq('current distribution of ' + n, p, [q * s for q in marg[-1]])
            x, p = S.getParameterDistributions(n, density=dens)
            env.assert_eq('all distributions of ' + n, p, [[q * s for q in m] for m in marg])
            x, p = S.getPDs(n, density=dens)
            env.assert_eq('all distributions of ' + n, p, [[q * s for q in m] for m in marg])
            x, p = S.getPD('avg', n, density=dens)
            env.assert_eq('average distribution of ' + n, p,
                          [total([m[i] for m in marg]) / c.T * s for i in range(g.shape[a])])
    for local, seq in ((False, tmd), (True, loc)):
        nm, p = S.getTransitionModelDistributions(local=local)
        env.assert_true('names', list(nm) == names)
        env.assert_eq('all distributions of models', p, seq)
        for f in (S.getCurrentTransitionModelDistribution, S.getCTMD):
            nm, p = f(local=local)
            env.assert_true('current names', list(nm) == names)
            env.assert_eq('current distribution of models', p, seq[-1])
        for i, n in enumerate(names):
            env.assert_eq('probabilities of model %d' % i, S.getTransitionModelProbabilities(n, local=local),
                          [x[i] for x in seq])
            env.assert_eq('probabilities of model %d (short form)' % i, S.getTMPs(n, local=local), [x[i] for x in seq])
            env.assert_eq('current probability of model %d (short form)' % i, S.getCTMP(n, local=local), seq[-1][i])
            env.assert_eq('current probability of model %d' % i, S.getCurrentTransitionModelProbability(n, local=local),
                          seq[-1][i])
    for i, ax in enumerate(axes):
        shape = [len(a.values) for a in ax]
        for j, a in enumerate(ax):
            v = [env.num(y) for y in a.values]
            const = env.num(prod_const(ax))
            marg = [[q * const for q in marginal(h[i], shape, j)] for h in hp]
            mv = [total([x * y for x, y in zip(m, v)]) for m in marg]
            env.assert_eq('mean values of ' + a.name, S.getHyperParameterMeanValues(a.name), mv)
            for t in range(c.T):
                env.assert_eq('mean value of ' + a.name, S.getHyperParameterMeanValue(times[t], a.name), mv[t])
                for f in (S.getHyperParameterDistribution, S.getHPD):
                    x, p = f(times[t], a.name)
                    env.assert_eq('values of ' + a.name, x, v)
                    env.assert_eq('distribution of {} at {}'.format(a.name, times[t]), p, marg[t])
            x, p = S.getHyperParameterDistribution('avg', a.name)
            env.assert_eq('average distribution of ' + a.name, p,
                          [total([m[y] for m in marg]) / c.T for y in range(len(v))])
            x, p = S.getCurrentHyperParameterDistribution(a.name)
            env.assert_eq('current distribution of ' + a.name, p, marg[-1])
            x, p = S.getCHPD(a.name)
            env.assert_eq('current distribution of ' + a.name, p, marg[-1])
            # sorted by value
            order = sorted(range(len(v)), key=lambda y: float(eval_frac(a.values[y])))
            for f in (S.getHyperParameterDistributions, S.getHPDs):
                x, p = f(a.name)
                env.assert_eq('sorted values of ' + a.name, x, [v[y] for y in order])
                env.assert_eq('all distributions of ' + a.name, p, [[m[y] for y in order] for m in marg])


def eval_frac(x):
    from fractions import Fraction
    return Fraction(x)


def prod_const(ax):
    from fractions import Fraction
    r = Fraction(1)
    for a in ax:
        r *= a.const
    return r
