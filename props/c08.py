"""A missing data point leaves the results exactly as if nothing had been observed at that time step."""
import numpy
from .spec import (Case, Grid, axes_for, likelihoods, make_prior, build_trans, forward, backward, filtering, normalise,
                   total, timestamps, nested, table_model, prod)

BOUNDS = 'one or two parameters with 2 to 4 values each, 2 to 5 time steps, every set of missing steps listed below'
G0 = ('gauss', 0, '3/4')


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    add('first step K3 T3', shape=3, T=3, missing=[0], prior='array')
    add('middle step K3 T3', shape=3, T=3, missing=[1], trans=G0)
    add('last step 2x2 T3', shape=(2, 2), T=3, missing=[2], trans=('gauss', 0, '2'))
    add('all steps K3 T2 prior array', shape=3, T=2, missing=[0, 1], prior='array')
    add('two steps in a row K3 T4', shape=3, T=4, missing=[1, 2], trans=('changepoint', 1), prior='array_few')
    add('independent K3 T3', shape=3, T=3, missing=[1], trans=('independent',), prior='array')
    add('gaussian model one dimension missing', kind='gauss1', T=2)
    add('gaussian model all dimensions missing', kind='gauss2', T=2)
    add('poisson model', kind='poisson', T=3)
    add('AR1 window', kind='ar1', T=5)
    for seg, D, T, mult in ((1, 2, 3, True), (2, 2, 3, True), (2, 1, 4, True), (3, 2, 3, True), (1, 2, 2, False), (2, 2, 3, False)):
        n = '{} of {} points, {} dimension(s){}'.format('segments', seg, D, '' if mult else ', joint likelihood')
        add(n, kind='cells', seg=seg, D=D, T=T, mult=mult)
        if seg * D < 6:
            add(n + ', online', kind='cells', seg=seg, D=D, T=T, mult=mult, online=True)
    add('online', kind='online', shape=3, T=3, missing=[1], trans=G0)
    add('online first', kind='online', shape=3, T=3, missing=[0], trans=('static',))
    add('hyper study', kind='hyper', shape=3, T=3, missing=[1])
    if tier == 'thorough':
        add('K4 T5', shape=4, T=5, missing=[0, 2, 3], trans=G0)
        add('K3 T6', shape=3, T=6, missing=[5, 1], trans=G0)
        add('online K3 T5', kind='online', shape=3, T=5, missing=[1, 3], trans=G0)
    return out


def cells(env, seg, D, T, mult, online=False):
    """every subset of the data values is missing (one path for each subset)"""
    from .c26 import rows, table_class
    g = Grid(env, axes_for(2))
    arg, pr = make_prior(env, g, 'array_few')
    data, table, L = rows(env, g.size, T, seg, D, mult, True)
    values = data.astype(float)
    pick = env.choice('missing', 2 ** (T * D))
    for i in range(T * D):
        if pick >> i & 1:
            values[i // D, i % D] = numpy.nan
    one = [env.num(1)] * g.size
    L, gone = [], []
    for t in range(T - seg + 1):
        w, v = data[t:t + seg], values[t:t + seg]
        if mult:
            fac = [table[tuple(int(x) for x in w[:, d])] for d in range(D) if not numpy.isnan(v[:, d]).any()]
        else:
            fac = [] if numpy.isnan(v).any() else [table[tuple(int(x) for x in w.ravel())]]
        L.append([one[0] * 1 for _ in one] if not fac else [prod([f[k] for f in fac[1:]], fac[0][k]) for k in range(g.size)])
        gone.append(not fac)
    tr = build_trans(env, g, pr, ('gauss', 0, '3/4'))
    times = list(range(seg - 1, T))
    f, norms = filtering(tr, pr, L, times)
    if online:
        S = env.bl.OnlineStudy(storeHistory=True, silent=True)
        S.set(table_class(env, g, table, seg, mult)(arg), tr.build(), silent=True)
        for row in values:
            S.step(row)
        env.assert_eq('filtering (online)', S.posteriorSequence, [nested(p, g.shape) for p in f])
    else:
        S = env.bl.Study(silent=True)
        S.loadData(values, silent=True)
        S.set(table_class(env, g, table, seg, mult)(arg), tr.build(), silent=True)
        S.fit(silent=True)
        b = backward(tr, pr, L, times)
        env.assert_eq('smoothing', S.posteriorSequence,
                      [nested(normalise([x * y for x, y in zip(u, v)]), g.shape) for u, v in zip(f, b)])
        for i, x in enumerate(gone):
            if x:
                env.assert_eq('local evidence of missing segment', S.localEvidence[i], env.num(1))
    env.observe('post', S.posteriorSequence)
    env.assert_log_eq('evidence', S.logEvidence, prod(norms[1:], norms[0]))


def harness(env, kind='table', T=3, missing=(), shape=3, trans=('static',), prior=None, **k):
    if kind == 'cells':
        return cells(env, T=T, **k)
    np = env.np
    if kind in ('table', 'online', 'hyper'):
        c = Case(env, shape=shape, T=T, trans=trans, prior=prior)
        for t in missing:
            c.L[t] = [env.num(1)] * c.grid.size
        data = numpy.array([numpy.nan if t in missing else float(t) for t in range(T)])
        model = table_model(env, c.grid, c.L, c.prior_arg)
        if kind == 'table':
            S = env.bl.Study(silent=True)
            S.loadData(data, silent=True)
            S.set(model, c.tr.build(), silent=True)
            S.fit(silent=True)
            E = c.evidence()
            env.observe('post', S.posteriorSequence)
            env.assert_eq('smoothing', S.posteriorSequence, [c.nested(p) for p in c.smoothed()])
            env.assert_log_eq('evidence', S.logEvidence, E, known=('KF-a', E * c.known_factor()))
            for t in missing:
                env.assert_eq('local evidence of missing step', S.localEvidence[t], env.num(1))
            S.fit(forwardOnly=True, silent=True)
            env.assert_eq('filtering', S.posteriorSequence, [c.nested(p) for p in c.filtered()])
        elif kind == 'online':
            S = env.bl.OnlineStudy(storeHistory=True, silent=True)
            S.set(model, silent=True)
            S.addTransitionModel('a', c.tr.build())
            for d in data:
                S.step(d)
            env.assert_eq('filtering (online)', S.posteriorSequence, [c.nested(p) for p in c.filtered()])
            env.assert_log_eq('evidence (online)', S.logEvidence, c.evidence())
        else:
            S = env.bl.HyperStudy(silent=True)
            S.loadData(data, silent=True)
            S.set(model, env.bl.tm.GaussianRandomWalk('s', [0.25, 0.75], target='x'), silent=True)
            S.fit(silent=True)
            Es, ps = [], []
            for s in ('1/4', '3/4'):
                tr = build_trans(env, c.grid, c.prior, ('gauss', 0, s))
                a, b = forward(tr, c.prior, c.L, c.times), backward(tr, c.prior, c.L, c.times)
                Es.append(total(a[-1]))
                ps.append([normalise([x * y for x, y in zip(u, v)]) for u, v in zip(a, b)])
            env.assert_log_eq('evidence (hyper)', S.logEvidence, (Es[0] + Es[1]) / 2)
            env.assert_eq('average (hyper)', S.posteriorSequence,
                          [[(x * Es[0] + y * Es[1]) / (Es[0] + Es[1]) for x, y in zip(p, q)]
                           for p, q in zip(ps[0], ps[1])])
        return
    if kind in ('gauss1', 'gauss2'):
        g = Grid(env, [('mean', '-1', '1', 3), ('std', '1', '2', 2)])
        a, b = env.real('a', lo=-2, hi=2), env.real('b', lo=-2, hi=2)
        nan = float('nan')
        if kind == 'gauss1':
            full = [[a, nan], [nan, b]]
            used = [[a], [b]]
        else:
            full = [[a, b], [nan, nan]]
            used = [[a, b], []]
        S = env.bl.Study(silent=True)
        S.loadData(env.array(full), silent=True)
        S.set(env.bl.om.Gaussian('mean', env.array(g.values[0]), 'std', env.array(g.values[1]), prior=None),
              env.bl.tm.Static(), silent=True)
        S.fit(silent=True)
        L = []
        for row in used:
            r = []
            for m, s in g.points:
                v = env.num(1)
                for d in row:
                    v = v * env.exp(-(d - m) * (d - m) / (2 * s * s)) / (env.sqrt(2 * env.pi) * s)
                r.append(v)
            L.append(r)
        p = normalise([x * y for x, y in zip(*L)])
        env.observe('post', S.posteriorSequence)
        env.assert_eq('posterior', S.posteriorSequence, [nested(p, g.shape)] * 2)
        return
    if kind == 'poisson':
        g = Grid(env, [('rate', '1', '3', 3)])
        S = env.bl.Study(silent=True)
        S.loadData(numpy.array([2., numpy.nan, 1.]), silent=True)
        w = [env.pos('w%d' % i) for i in range(3)]
        S.set(env.bl.om.Poisson('rate', env.array(g.values[0]), prior=env.array(w)), env.bl.tm.Static(), silent=True)
        S.fit(silent=True)
        un = [wi * (r * r * env.exp(-r) / 2) * (r * env.exp(-r)) for wi, r in zip(w, g.values[0])]
        env.assert_eq('posterior', S.posteriorSequence, [normalise(un)] * 3)
        env.assert_log_eq('evidence', S.logEvidence, total(un) / total(w))
        return
    if kind == 'ar1':
        g = Grid(env, [('r', '-1/2', '1/2', 3), ('s', '1', '2', 2)])
        a, b, d = env.real('a', lo=-2, hi=2), env.real('b', lo=-2, hi=2), env.real('d', lo=-2, hi=2)
        S = env.bl.Study(silent=True)
        S.loadData(env.array([a, b, float('nan'), d, a]), silent=True)
        S.set(env.bl.om.AR1('r', env.array(g.values[0]), 's', env.array(g.values[1])), env.bl.tm.Static(), silent=True)
        S.fit(silent=True)

        def lik(x0, x1, r, s):
            z = x1 - r * x0
            return env.exp(-z * z / (2 * s * s)) / (env.sqrt(2 * env.pi) * s)
        p = normalise([lik(a, b, r, s) * lik(d, a, r, s) for r, s in g.points])
        env.assert_eq('posterior', S.posteriorSequence, [nested(p, g.shape)] * 4)
