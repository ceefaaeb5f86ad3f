"""An online study reproduces forward-only fits step by step."""
import numpy
from .spec import (Case, Grid, axes_for, make_prior, build_trans, nested, marginal, filtering, prod, table_model, total,
                   resets, set_offsets)

BOUNDS = 'one or two parameters with 2 to 7 values each, 1 to 9 data points; slices (only some likelihoods symbolic) up to 12 values and 14 time steps; every configuration is listed below'
G0 = ('gauss', 0, '3/4')


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    add('static K3 T3 prior array', shape=3, T=3, prior='array')
    add('static 2x2 T2 prior function', shape=(2, 2), T=2, prior='function')
    add('gauss K3 T3', shape=3, T=3, trans=G0)
    add('gauss axis1 2x3 T2', shape=(2, 3), T=2, trans=('gauss', 1, '1/2'))
    add('gauss set instead of added K3 T3', shape=3, T=3, trans=G0, how='set')
    add('no history K3 T3', shape=3, T=3, trans=G0, history=False)
    add('alphastable K4 T3', shape=4, T=3, trans=('alphastable', 0, '3/2', '3/2'), pattern=2)
    add('bivariate 3x4 T2', shape=(3, 4), T=2, trans=('bivariate', '2/5', '3/2', '1/3'), pattern=3)
    add('changepoint K3 T4', shape=3, T=4, trans=('changepoint', 1), prior='array_few', pattern=2)
    add('independent K3 T3', shape=3, T=3, trans=('independent',), prior='array')
    add('regime K2 T3', shape=2, T=3, trans=('regime', '-1/2'))
    add('notequal K3 T2', shape=3, T=2, trans=('notequal', '-1/2'), pattern=[(0, 0), (1, 2)])
    add('shift quadratic K5 T4', shape=5, T=4, trans=('shift', 0, 'quadratic', '1/2'), pattern=3)
    add('serial K3 T4', shape=3, T=4, pattern=2, trans=('serial', [('static',), G0], [(1, False)]))
    add('serial change K3 T4', shape=3, T=4, pattern=2, trans=('serial', [G0, ('static',)], [(2, True)]), prior='array_few')
    add('serial with drift K5 T4', shape=5, T=4, pattern=3, drift_from=1,
        trans=('serial', [('static',), ('shift', 0, 'quadratic', '1/2', 'a', 1)], [(1, False)]))
    add('combined K5 T3', shape=5, T=3, pattern=3,
        trans=('combined', [('shift', 0, 'linear', '1/2'), ('gauss', 0, '1/4')]))
    add('slice gauss K7 T9', shape=7, T=9, trans=('gauss', 0, '2/5'), pattern=11)
    add('segments of two, change-point', seg=2, shape=3, T=5, trans=('changepoint', 3), prior='array_few')
    add('segments of three, change-point', seg=3, shape=2, T=6, trans=('changepoint', 4), prior='array_few')
    add('segments of two, serial', seg=2, shape=3, T=5, trans=('serial', [('static',), G0], [(3, False)]))
    add('segments of two, drift', seg=2, shape=5, T=4, trans=('shift', 0, 'quadratic', '1/2'))
    add('slice gauss K12 T14', shape=12, T=14, trans=('gauss', 0, '2/5'), pattern=43)
    add('irregular grid', shape='irregular', T=2, prior='array')
    add('irregular grid of one of two parameters', shape='irregular 2', T=2, trans=('gauss', 0, '2'), pattern=3)
    add('irregular grid, change-point', shape='irregular 2', T=3, trans=('changepoint', 0), pattern=3)
    add('descending grid, random walk', shape='desc', T=3, trans=('gauss', 0, '3/4'), pattern=2)
    if tier == 'thorough':
        add('gauss K4 T5', shape=4, T=5, trans=G0)
        add('regime K3 T3', shape=3, T=3, trans=('regime', '-1/4'), max_paths=3000)
        add('slice gauss K7 T20', shape=7, T=20, trans=('gauss', 0, '2/5'), pattern=37)
    return out


def segments(env, seg, shape, T, trans, prior=None):
    from .c26 import rows, table_class
    g = Grid(env, axes_for(shape))
    arg, pr = make_prior(env, g, prior)
    data, table, L = rows(env, g.size, T, seg, None, True, True)
    tr = build_trans(env, g, pr, trans)
    set_offsets(tr)
    times = list(range(seg - 1, T))
    f, norms = filtering(tr, pr, L, times)
    S = env.bl.OnlineStudy(storeHistory=True, silent=True)
    S.set(table_class(env, g, table, seg)(arg), silent=True)
    S.addTransitionModel('model', tr.build())
    n = 0
    for t in range(T):
        S.step(int(data[t]))
        if t < seg - 1:
            continue
        i = t - seg + 1
        n += tr.reset_at(times[i - 1]) if i > 0 else 0
        E = prod(norms[1:i + 1], norms[0])
        env.observe('evidence', S.logEvidence)
        env.assert_log_eq('evidence after point %d' % t, S.logEvidence, E, known=('KF-a', E * prod([g.dV] * n, env.num(1))))
        env.assert_eq('current distribution after point %d' % t, S.marginalizedPosterior, nested(f[i], g.shape))
    env.assert_eq('history of distributions', S.posteriorSequence, [nested(p, g.shape) for p in f])
    O = env.bl.Study(silent=True)
    O.loadData(data, silent=True)
    O.set(table_class(env, g, table, seg)(arg), tr.build(), silent=True)
    O.fit(forwardOnly=True, silent=True)
    env.assert_eq('distributions of a forward-only fit', O.posteriorSequence, [nested(p, g.shape) for p in f])


def harness(env, how='add', history=True, drift_from=None, seg=1, **k):
    if seg > 1:
        return segments(env, seg, **k)
    if 'notequal' in str(k.get('trans')):
        env.fork_max()
    c = Case(env, **k)
    f, norms = filtering(c.tr, c.prior, c.L, c.times)
    S = env.bl.OnlineStudy(storeHistory=history, silent=True)
    S.set(table_model(env, c.grid, c.L, c.prior_arg), silent=True)
    if how == 'add':
        S.addTransitionModel('model', c.tr.build())
    else:
        S.set(c.tr.build(), silent=True)
    n0 = None
    for t in range(c.T):
        S.step(t)
        E = prod(norms[1:t + 1], norms[0])
        env.observe('evidence', S.logEvidence)
        env.assert_log_eq('evidence after step %d' % t, S.logEvidence, E,
                          known=('KF-a', E * c.known_factor(t + 1)))
        for a, name in enumerate(c.grid.names):
            x, p = S.getCurrentParameterDistribution(name, density=False)
            env.assert_eq('distribution of {} after step {}'.format(name, t), p, marginal(f[t], c.grid.shape, a))
            env.assert_eq('mean of {} after step {}'.format(name, t), S.getCurrentParameterMeanValue(name),
                          total([q * pt[a] for q, pt in zip(f[t], c.grid.points)]))
        env.assert_eq('current distribution after step %d' % t, S.marginalizedPosterior, c.nested(f[t]))
    if history:
        env.assert_eq('history of distributions', S.posteriorSequence, [c.nested(p) for p in f])
    # an offline study with the same data
    O = c.study()
    O.fit(forwardOnly=True, silent=True)
    env.assert_eq('evidence of a forward-only fit', env.exp(S.logEvidence), env.exp(O.logEvidence))
    env.assert_eq('distribution of a forward-only fit', S.marginalizedPosterior, O.posteriorSequence[-1])
