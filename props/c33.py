"""Predictive simulations average the likelihood over the posterior."""
from fractions import Fraction
import numpy
from .spec import Case, Grid, axes_for, table_model, total, flatten, likelihoods

BOUNDS = ('1 or 2 parameters with 2 to 6 values, 1 to 4 time steps, 1 to 5 simulated data values (all likelihoods of data '
          'and simulated values symbolic; for Poisson, Bernoulli and Gaussian models the data are symbolic or listed)')


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    add('one parameter', shape=3, T=3, trans=('gauss', 0, '3/4'))
    add('one parameter, prior', shape=3, T=2, prior='array')
    add('two parameters', shape=(2, 3), T=2, pattern=2, trans=('gauss', 1, '1/2'))
    add('irregular time stamps', shape=3, T=4, times='irregular', trans=('gauss', 0, '1/2'), pattern=3)
    add('forward-only', shape=3, T=3, trans=('gauss', 0, '3/4'), mode='forward')
    add('one simulated value', shape=3, T=2, n=1)
    add('hyper-study', shape=3, T=2, cls='HyperStudy', hyper=['1/4', '3/4'])
    add('hyper-study, prior', shape=2, T=3, cls='HyperStudy', hyper=['1/4', '3/4'], pattern=2, prior='array_few')
    add('change-point study', shape=2, T=3, cls='ChangepointStudy', pattern=2)
    add('online study', shape=3, T=3, cls='OnlineStudy', trans=('gauss', 0, '3/4'))
    add('poisson', kind='poisson')
    add('gaussian', kind='gaussian')
    add('bernoulli', kind='bernoulli')
    add('slice K6 T12', shape=6, T=12, n=4, trans=('gauss', 0, '3/4'), pattern=37)
    add('irregular grid', shape='irregular', T=2, prior='array')
    add('irregular grid of one of two parameters', shape='irregular 2', T=2, trans=('gauss', 0, '2'), pattern=3)
    add('irregular grid, change-point', shape='irregular 2', T=3, trans=('changepoint', 0), pattern=3)
    add('descending grid, random walk', shape='desc', T=3, trans=('gauss', 0, '3/4'), pattern=2)
    if tier == 'thorough':
        add('longer', shape=4, T=4, n=5, trans=('gauss', 0, '3/4'), pattern=2)
        add('two parameters, longer', shape=(3, 4), T=3, n=4, pattern=5, trans=('gauss', 1, '1/2'))
    return out


def compare(env, S, xs, L, times, posts, exact=True):
    """L[i]: likelihood of the i-th simulated value on the grid"""
    n = len(times)
    cases = [(t, flatten(p)) for t, p in zip(times, posts)]
    cases.append((None, [total([flatten(p)[k] for p in posts]) / n for k in range(len(L[0]))]))
    for t, p in cases:
        kw = {} if t is None else dict(t=t)
        d = S.simulate(xs, density=True, **kw)
        want = [total([l * q for l, q in zip(row, p)]) for row in L]
        env.observe('prediction', d)
        env.assert_eq('density at time {}'.format(t), d, want)
        z = total(want)
        env.assert_eq('probability at time {}'.format(t), S.simulate(xs, density=False, **kw), [w / z for w in want])
        env.assert_eq('default: probability at time {}'.format(t), S.simulate(xs, **kw), [w / z for w in want])
        order = list(reversed(range(len(xs))))
        env.assert_eq('density in another order', S.simulate(numpy.array(xs)[order], density=True, **kw), [want[i] for i in order])


def harness(env, kind='table', n=3, mode='full', cls='Study', hyper=None, **k):
    bl = env.bl
    if kind != 'table':
        return real(env, kind)
    c = Case(env, **k)
    extra = likelihoods(env, n, c.grid.size, prefix='X')
    model = table_model(env, c.grid, c.L + extra, c.prior_arg)
    xs = numpy.arange(c.T, c.T + n)
    if cls == 'OnlineStudy':
        S = bl.OnlineStudy(storeHistory=True, silent=True)
        S.set(model, c.tr.build(), silent=True)
        for t in range(c.T):
            S.step(t)
        posts = S.posteriorSequence
    else:
        S = getattr(bl, cls)(silent=True)
        kw = {} if c.times_arg is None else dict(timestamps=c.times_arg)
        S.loadData(numpy.arange(c.T), silent=True, **kw)
        tm = c.tr.build()
        if hyper:
            tm = bl.tm.GaussianRandomWalk('s', [float(Fraction(h)) for h in hyper], target='x')
        elif cls == 'ChangepointStudy':
            tm = bl.tm.ChangePoint('c', 'all')
        S.set(model, tm, silent=True)
        S.fit(silent=True, forwardOnly=mode == 'forward')
        posts = S.posteriorSequence
    compare(env, S, xs, extra, c.times, posts)
    # values that are part of the data
    compare(env, S, numpy.arange(c.T), c.L, c.times, posts)


def real(env, kind):
    bl = env.bl
    S = bl.Study(silent=True)
    if kind == 'poisson':
        g = Grid(env, axes_for(4))
        S.loadData(numpy.array([2, 3]), silent=True)
        S.set(bl.om.Poisson('x', g.args[1], prior=None), bl.tm.Static(), silent=True)
        xs = numpy.array([0, 1, 4])
        fact = {0: 1, 1: 1, 4: 24}
        L = [[p[0] ** int(x) * env.exp(-p[0]) / fact[int(x)] for p in g.points] for x in xs]
    elif kind == 'bernoulli':
        g = Grid(env, [('x', '1/10', '9/10', 5)])
        S.loadData(numpy.array([1, 0, 1]), silent=True)
        S.set(bl.om.Bernoulli('x', g.args[1], prior=None), bl.tm.Static(), silent=True)
        xs = numpy.array([0, 1])
        L = [[p[0] if x else 1 - p[0] for p in g.points] for x in xs]
    else:
        g = Grid(env, [('m', '-1', '1', 3), ('s', '1/2', '3/2', 2)])
        d = env.real('d', lo=-2, hi=2)
        S.loadData(env.array([d, env.num('1/3')]), silent=True)
        S.set(bl.om.Gaussian('m', g.args[1], 's', g.args[3], prior=None), bl.tm.Static(), silent=True)
        xs = numpy.array([-0.5, 0., 1.25])
        L = []
        for x in xs:
            L.append([env.exp(-(env.num(Fraction(x)) - m) * (env.num(Fraction(x)) - m) / (2 * s * s)) /
                      (env.sqrt(2 * env.pi) * s) for m, s in g.points])
    S.fit(silent=True)
    compare(env, S, xs, L, list(range(len(S.posteriorSequence))), S.posteriorSequence)
