"""Queries return the exact probability of a condition."""
import itertools
import math
import numpy
from .spec import Case, table_model, total, prod, flatten, indices

BOUNDS = ('one to three studies with 1 or 2 parameters of 2 to 4 (one: 16) values and 2 or 3 time steps, hyper-parameter grids of 2 '
          'to 6 points; posteriors are those of the studies (all likelihoods symbolic); queries listed in the source')
ASSUMPTIONS = ['(hyper-)parameters of different times and studies, and parameters and hyper-parameters, are treated as '
               'independent, as documented by the package; only finite values of the derived quantity are compared']

# (query, condition on the dictionary of values, names used, keyword arguments)
ONE = [('x@1 > 0.6', lambda v: v['x@1'] > .6), ('x@1 >= 0.5', lambda v: v['x@1'] >= .5),
       ('x@1 < 0.5', lambda v: v['x@1'] < .5), ('x@1 <= 0.5', lambda v: v['x@1'] <= .5),
       ('x@1 == 0.5', lambda v: v['x@1'] == .5), ('0.25 < x@0', lambda v: v['x@0'] > .25),
       ('0.5 >= x@0', lambda v: v['x@0'] <= .5), ('x@0 > 7', lambda v: False), ('x@0 > -7', lambda v: True),
       ('x@0 > x@1', lambda v: v['x@0'] > v['x@1']), ('x@0 == x@1', lambda v: v['x@0'] == v['x@1']),
       ('x@1 - x@0 >= 0.5', lambda v: v['x@1'] - v['x@0'] >= .5), ('x@1 > x@1', lambda v: False),
       ('2*x@1 >= x@1 + 0.5', lambda v: v['x@1'] >= .5), ('x@0*x@1 < 0.5', lambda v: v['x@0'] * v['x@1'] < .5)]
TWO = [('x@1 > y@1', lambda v: v['x@1'] > v['y@1']), ('x@1 >= 2*y@1 - 1.5', lambda v: v['x@1'] >= 2 * v['y@1'] - 1.5),
       ('x@0 > y@1', lambda v: v['x@0'] > v['y@1']), ('y@0 <= 1.25', lambda v: v['y@0'] <= 1.25),
       ('x@0 + y@0 < 1.75', lambda v: v['x@0'] + v['y@0'] < 1.75), ('x@0*y@0 == 3', lambda v: v['x@0'] * v['y@0'] == 3),
       ('y@0 < x@1', lambda v: v['y@0'] < v['x@1'])]
FIXED = [('x > y', lambda v: v['x@1'] > v['y@1']), ('x + y <= 4.2', lambda v: v['x@1'] + v['y@1'] <= 4.2)]
REUSE = [('x@1*x@0 > x@1 - 0.2', lambda v: v['x@1'] * v['x@0'] > v['x@1#'] - .2),
         ('x@0 - x@1 < x@0*0.5', lambda v: v['x@0'] - v['x@1'] < .5 * v['x@0#'])]
STUDIES = [('x@1 > z@0', lambda v: v['x@1'] > v['z@0']), ('z@1 > x@1 + x@0', lambda v: v['z@1'] > v['x@1'] + v['x@0']),
           ('z@1 == x@1', lambda v: v['z@1'] == v['x@1']), ('z@1 + x@1 > 1.2', lambda v: v['z@1'] + v['x@1'] > 1.2)]
STUDIES_S = [('x@1 > z@1', lambda v: v['x@1'] > v['z@1']), ('z@2 > x@1 + x@0', lambda v: v['z@2'] > v['x@1'] + v['x@0']),
             ('z@2 - z@1 >= x@0', lambda v: v['z@2'] - v['z@1'] >= v['x@0'])]
STUDIES_T = [('x > z', lambda v: v['x@1'] > v['z@1']), ('z*2 >= 1 + x', lambda v: v['z@1'] * 2 >= 1 + v['x@1'])]
HYPER = [('s > 0.5', lambda v: v['s'] > .5), ('s <= 0.25', lambda v: v['s'] <= .25), ('x@1 > s', lambda v: v['x@1'] > v['s']),
         ('s < x@0', lambda v: v['s'] < v['x@0']), ('s > 0.1*s + 0.4', lambda v: .9 * v['s'] > .4)]
HYPER2 = [('s > b', lambda v: v['s'] > v['b']), ('b == 0', lambda v: v['b'] == 0), ('s + b <= 1.8', lambda v: v['s'] + v['b'] <= 1.8)]
CHANGE = [('d - c > 1', lambda v: v['d'] - v['c'] > 1), ('c == 0', lambda v: v['c'] == 0), ('d >= 2', lambda v: v['d'] >= 2),
          ('c < d', lambda v: True)]
ONLINE = [('x@1 > 0.6', lambda v: v['x@1'] > .6), ('s@0 > 1.5', lambda v: v['s@0'] > 1.5), ('s@2 > 1.5', lambda v: v['s@2'] > 1.5),
          ('x@0 < x@2', lambda v: v['x@0'] < v['x@2']), ('s@1*x@1 > 0.8', lambda v: v['s@1'] * v['x@1'] > .8),
          ('s@1 >= s@2', lambda v: v['s@1'] >= v['s@2'])]
ONLINE_T = [('x > 0.6', lambda v: v['x@1'] > .6), ('s > 1.5', lambda v: v['s@1'] > 1.5), ('s*x > 0.8', lambda v: v['s@1'] * v['x@1'] > .8)]
ONLINE_N = [('x > 0.6', lambda v: v['x@2'] > .6), ('s > 1.5', lambda v: v['s@2'] > 1.5), ('x < 0.5*s', lambda v: v['x@2'] < .5 * v['s@2'])]
TIMES = [('x@7 > x@4', lambda v: v['x@7'] > v['x@4']), ('x@3 >= 0.5', lambda v: v['x@3'] >= .5)]
SEGMENT = [('x@1 > x@2', lambda v: v['x@1'] > v['x@2']), ('x@2 >= 0.5', lambda v: v['x@2'] >= .5)]
SEGMENT_T = [('x >= 0.5', lambda v: v['x@2'] >= .5)]


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    add('one parameter', queries='ONE', shape=3, T=2)
    add('one parameter, sixteen values', queries='ONE', shape=16, T=2, pattern=2)
    add('two parameters', queries='TWO', shape=(2, 3), T=2, pattern=2)
    add('two parameters, fixed time', queries='FIXED', shape=(2, 3), T=2, t=1)
    add('irregular time stamps', queries='TIMES', shape=3, T=4, times='irregular', pattern=2)
    add('parameter mentioned again after times were combined', queries='REUSE', shape=3, T=2)
    add('two studies', queries='STUDIES', shape=3, T=2, second=0, pattern=2)
    add('two studies, fixed time', queries='STUDIES_T', shape=3, T=2, second=0, t=1)
    add('two studies, other time stamps', queries='STUDIES_S', shape=3, T=2, second=1, pattern=2)
    add('two studies, other time stamps, fixed time', queries='STUDIES_T', shape=3, T=2, second=1, t=1)
    add('two studies, other order, fixed time', queries='STUDIES_T', shape=3, T=2, second=1, t=1, swap=True)
    add('hyper-study', queries='HYPER', shape=3, T=2, hyper=[('gauss', [('s', ['1/4', '1/2', '1'])])], pattern=2)
    add('hyper-study, hyper-priors', queries='HYPER', shape=2, T=2, hyper=[('gauss', [('s', ['1/4', '3/4'], 'list')])])
    add('two hyper-parameters', queries='HYPER2', shape=2, T=3, hyper=[('serial', [('s', ['1/2', '3/2']), ('b', [0, 1])])])
    add('change-point study', queries='CHANGE', shape=2, T=4, pattern=2, cls='ChangepointStudy',
        hyper=[('cp2_all', [('c', [0, 1, 2]), ('d', [0, 1, 2])])])
    add('online study', queries='ONLINE', shape=3, T=3, pattern=3, online=True, hyper=[('gauss', [('s', ['1', '2', '4'])])])
    add('online study, fixed time', queries='ONLINE_T', shape=3, T=3, pattern=3, online=True, t=1,
        hyper=[('gauss', [('s', ['1', '2'])])])
    add('online study without history', queries='ONLINE_N', shape=3, T=3, pattern=3, online='current',
        hyper=[('gauss', [('s', ['1', '2'])])])
    add('segments of two', queries='SEGMENT', shape=3, T=2, seg=2)
    add('segments of two, fixed time', queries='SEGMENT_T', shape=3, T=2, seg=2, t=2)
    if tier == 'thorough':
        add('one parameter, longer', queries='ONE', shape=3, T=4, trans=('gauss', 0, '3/4'), pattern=2)
        add('two studies, random walks', queries='STUDIES', shape=3, T=3, second=0, pattern=3, trans=('gauss', 0, '3/4'))
        add('online study, longer', queries='ONLINE', shape=3, T=4, pattern=2, online=True, hyper=[('gauss', [('s', ['1', '2', '4'])])])
    return out


def sources(S, names, times):
    """(names, list of value tuples, list of probabilities) of every time stamp"""
    pts = list(zip(*[flatten(g) for g in S.grid]))
    return [([n + '@%d' % t for n in names], pts, flatten(p)) for t, p in zip(times, S.posteriorSequence)]


def probability(env, sources, used, cond):
    """total probability of the combinations of values that fulfil the condition; '#' marks an independent copy"""
    src = []
    for copy in ('', '#'):
        for names, pts, ps in sources:
            names = [n + copy for n in names]
            if any(n in used for n in names):
                src.append((names, pts, ps))
    out = [env.num(0)]
    for combo in itertools.product(*[range(len(s[1])) for s in src]):
        v = {}
        for k, (names, pts, ps) in zip(combo, src):
            for n, x in zip(names, pts[k]):
                v[n] = float(x)
        if cond(v):
            out.append(prod([s[2][k] for k, s in zip(combo, src)], env.num(1)))
    return total(out)


class Used(dict):
    """records which values a condition looks at"""
    def __init__(self):
        dict.__init__(self)
        self.names = set()

    def __getitem__(self, n):
        self.names.add(n)
        return 1.


def build(env, c, hyper=None, cls='HyperStudy', online=False):
    """study and its sources"""
    from .spec import HyperAxis, hyper_model
    if online:
        S = env.bl.OnlineStudy(storeHistory=online is True, silent=True)
        S.set(c.model(), silent=True)
        S.addTransitionModel('static', env.bl.tm.Static())
        axes = [HyperAxis(env, *a) for a in hyper[0][1]]
        S.addTransitionModel('walk', hyper_model(env, hyper[0][0], axes)[0])
        hs = []
        for t in range(c.T):
            S.step(t)
            d = list(S.hyperParameterDistribution[1])
            z = total(d)
            hs.append(([axes[0].name + '@%d' % t], [(x,) for x in axes[0].floats], [x / z for x in d]))
        if online is True:
            src = sources(S, c.grid.names, c.times)
        else:
            src = [([n + '@%d' % (c.T - 1) for n in c.grid.names], list(zip(*[flatten(g) for g in S.grid])),
                    flatten(S.marginalizedPosterior))]
        return S, src + hs
    if hyper:
        axes = [HyperAxis(env, *a) for a in hyper[0][1]]
        S = getattr(env.bl, cls)(silent=True)
        S.loadData(c.data, silent=True)
        S.set(c.model(), hyper_model(env, hyper[0][0], axes)[0], silent=True)
        S.fit(silent=True)
        d = list(S.hyperParameterDistribution)
        z = total(d)
        pts = list(itertools.product(*[a.floats for a in axes]))
        return S, sources(S, c.grid.names, c.times) + [([a.name for a in axes], pts, [x / z for x in d])]
    S = c.study()
    S.fit(silent=True)
    return S, sources(S, c.grid.names, c.times)


def harness(env, queries, t=None, second=None, hyper=None, cls='HyperStudy', online=False, swap=False, **k):
    env.bl.core  # noqa
    c = Case(env, **k)
    S, src = build(env, c, hyper, cls, online)
    studies = [S]
    if second is not None:
        from .spec import Grid, likelihoods, normalise
        g = Grid(env, [('z', '1/2', '3/2', 3)])
        L = likelihoods(env, c.T, 3, pattern=2, prefix='M')
        Z = env.bl.Study(silent=True)
        stamps = [t + second for t in range(c.T)]
        Z.loadData(numpy.arange(c.T), timestamps=stamps, silent=True)
        Z.set(table_model(env, g, L), env.bl.tm.Static(), silent=True)
        Z.fit(silent=True, forwardOnly=True)
        studies.append(Z)
        src = src + sources(Z, g.names, stamps)
    P = env.bl.Parser(*(studies[::-1] if swap else studies))
    for q, cond in globals()[queries]:
        u = Used()
        cond(u)
        names = set(u.names)
        if not names:
            names = set(n for s in src for n in s[0] if n in q or (t is not None and n.split('@')[0] in q))
        want = probability(env, src, names, cond)
        known = None
        if queries == 'REUSE':
            known = ('KF-h', want)
            exact = lambda v: cond({n: v[n.rstrip('#')] for n in u.names})
            want = probability(env, src, set(n.rstrip('#') for n in u.names), exact)
        p = P(q, t=t, silent=True)
        env.observe(q, p)
        env.assert_eq('probability of {}'.format(q), p, want, known=known, scale=1)
        if second is None:
            env.assert_eq('probability of {} (method of the study)'.format(q), S.eval(q, t=t, silent=True), want, known=known, scale=1)
        for a, b in (('>=', '<'), ('<=', '>'), ('>', '<='), ('<', '>=')):
            if a in q:
                env.assert_eq('complement of {}'.format(q), p + P(q.replace(a, b), t=t, silent=True), env.num(1), scale=1)
                break
