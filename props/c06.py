"""Means, marginal distributions and time averages are exact summaries of the posterior distributions."""
from .spec import Case, flatten, marginal, total

BOUNDS = 'one to three parameters with 2 to 5 values each, 1 to 4 time steps; slices (only some likelihoods symbolic) up to 12 values and 14 time steps; every configuration is listed below'
G0 = ('gauss', 0, '3/4')


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    add('K3 T3', shape=3, T=3, prior='array')
    add('K4 T2 offset', shape=4, T=2, times='offset')
    add('2x2 T2', shape=(2, 2), T=2, prior='function')
    add('2x3 T2 year', shape=(2, 3), T=2, times='year', trans=('gauss', 1, '1/2'))
    add('3x2 T3 irregular', shape=(3, 2), T=3, times='irregular', pattern=2)
    add('K3 T1', shape=3, T=1)
    add('2x3 T1 offset', shape=(2, 3), T=1, times='offset')
    add('2x2x2 T2', shape=(2, 2, 2), T=2)
    add('2x3x2 T2', shape=(2, 3, 2), T=2, pattern=3)
    add('forward 2x2 T3', shape=(2, 2), T=3, mode='forward', trans=('gauss', 0, '2'))
    add('forward K3 T4 irregular', shape=3, T=4, mode='forward', times='irregular', trans=G0, pattern=2)
    add('descending grid K3 T2', shape='desc', T=2)
    add('slice 5x4 T4', shape=(5, 4), T=4, pattern=13)
    add('slice 12x3 T12', shape=(12, 3), T=12, pattern=97)
    add('large values', shape='large', T=2, pattern=3)
    add('large values, small spacing', shape='far', T=2, pattern=2)
    add('small values, irregular', shape='small', T=2)
    add('irregular grid', shape='irregular', T=2)
    add('irregular grid 2', shape='irregular 2', T=2, pattern=2)
    add('similar names', shape='similar names', T=2, pattern=2)
    add('similar names 2', shape='similar names 2', T=2, pattern=2)
    add('similar names 3', shape='similar names 3', T=2, pattern=2)
    add('impossible values, forward', shape=3, T=3, mode='forward', trans=G0, zero=[(0, 0), (2, 2)])
    add('impossible values', shape=(2, 2), T=3, trans=('changepoint', 1), zero=[(0, 0), (2, 2)], pattern=2)
    add('segments of two', shape=2, T=3, seg=2)
    add('segments of three, two parameters', shape=(2, 2), T=3, seg=3, pattern=3)
    if tier == 'thorough':
        add('2x3x2 T3', shape=(2, 3, 2), T=3, times='double')
        add('5x4 T3', shape=(5, 4), T=3, pattern=3)
        add('slice 5x4 T12', shape=(5, 4), T=12, pattern=37)
    return out


def harness(env, mode='full', **k):
    c = Case(env, **k)
    S = c.study()
    S.fit(silent=True, **(dict(forwardOnly=True) if mode == 'forward' else {}))
    g = c.grid
    post = [flatten(p) for p in (c.filtered() if mode == 'forward' else c.smoothed())]
    avg = [total([p[i] for p in post]) / c.T for i in range(g.size)]
    for a, name in enumerate(g.names):
        vals = [pt[a] for pt in g.points]
        m = [total([x * v for x, v in zip(p, vals)]) for p in post]
        env.assert_eq('mean values of ' + name, S.getParameterMeanValues(name), m)
        env.assert_eq('stored mean values of ' + name, S.posteriorMeanValues[a], m)
        env.observe('mean', S.getParameterMeanValues(name))
        marg = [marginal(p, g.shape, a) for p in post]
        for dens in (True, False):
            s = 1 / g.dx[a] if dens else env.num(1)
            for t in range(c.T):
                x, p = S.getParameterDistribution(c.times[t], name, density=dens)
                env.assert_eq('values of ' + name, x, g.values[a])
                env.assert_eq('marginal of {} at step {}, density={}'.format(name, t, dens), p,
                              [q * s for q in marg[t]])
            x, p = S.getPD('avg', name, density=dens)
            env.assert_eq('time average of {}, density={}'.format(name, dens), p,
                          [q * s for q in marginal(avg, g.shape, a)])
            x, p = S.getParameterDistributions(name, density=dens)
            env.assert_eq('values of ' + name, x, g.values[a])
            env.assert_eq('sequence of marginals of {}, density={}'.format(name, dens), p,
                          [[q * s for q in r] for r in marg])
        x, p = S.getPDs(name)
        env.assert_eq('default is a density', p, [[q / g.dx[a] for q in r] for r in marg])
