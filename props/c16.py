"""Online model selection and averaging."""
import numpy
from .spec import Case, HyperAxis, HyperCase, hyper_model, table_model, total, prod, nested, build_trans, forward, \
    normalise, marginal

BOUNDS = 'one or two parameters with 2 or 3 values each, 1 to 4 data points, one to three transition models with 1 to 4 ' \
    'combinations of hyper-parameter values each; slice with 12 time steps'
G0 = ('gauss', 0, '3/4')


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    st = ('static', [])
    ga = ('gauss', [('s', ['1/4', '3/4'])])
    g1 = ('gauss', [('s', ['1', '2'], 'list')])        # lattice constant of the hyper-parameter grid is one
    gi = ('gauss', [('s', ['1/4', '1/2', '3/2'], 'list')])   # irregular: lattice constant one
    cp = ('changepoint', [('c', [0, 1, 2])])
    add('static and unit spacing', models=[st, g1], T=3)
    add('static and unit spacing, model prior', models=[st, g1], T=3, tmprior=True, pattern=2)
    add('irregular and static', models=[gi, st], T=2, prior='array_few')
    add('one model, irregular spacing', models=[gi], T=3, pattern=2)
    add('one model, spacing one half', models=[ga], T=3)
    add('spacing one half and static', models=[ga, st], T=3, pattern=2)
    add('spacing one half and static, model prior', models=[st, ga], T=3, tmprior=True, pattern=2)
    add('three models', models=[st, g1, ('serial', [('u', ['1', '2']), ('b', [0, 1])])], T=3, pattern=3)
    add('two hyper-parameters 2x2', models=[('gauss2', [('s', ['1', '2'], 'list'), ('u', ['1', '2', '4'], 'list')]), st],
        shape=(2, 2), T=2, pattern=3)
    add('change-points and static', models=[cp, st], T=4, pattern=4)
    add('single step', models=[st, g1], T=1, tmprior=True)
    add('slice T12', models=[g1, ('gauss', [('v', ['1/4', '1/2', '3/2'], 'list')]), st], shape=5, T=12, pattern=29)
    add('spacings one half and one quarter', models=[('gauss', [('u', ['1/2', '3/4', '1'])]), ga, st], T=3, pattern=3)
    add('segments of two', models=[st, g1], T=3, seg=2, pattern=2)
    # hypotheses that are excluded by the data
    rule = [(0, 2), (1, 0), (2, 1), (2, 2)]
    add('static ruled out', models=[st, cp], T=4, zero=rule)
    add('static ruled out, order', models=[cp, st], T=4, zero=rule, tmprior=True)
    add('static ruled out, two parameters', models=[st, cp, ga], shape=(2, 2), T=4, pattern=2,
        zero=[(1, 0), (1, 1), (2, 2), (2, 3)])
    add('all but one change-point ruled out', models=[cp], T=4, zero=rule)
    add('ruled out at the last step', models=[st, cp], T=2, zero=[(0, 2), (1, 0), (1, 1)])
    add('everything ruled out', models=[st, cp, ga], T=3, zero=[(1, 0), (1, 1), (1, 2)])
    if tier == 'thorough':
        add('three models with prior', models=[st, g1, ('serial', [('u', ['1', '2']), ('b', [0, 1, 2])])], T=4, pattern=5,
            tmprior=True)
        add('two hyper-parameters 2x3', models=[('gauss2', [('s', ['1', '2'], 'list'), ('u', ['1', '2', '4'], 'list')]),
                                                 st], shape=(2, 3), T=3, pattern=4)
    return out


class One(object):
    """model without hyper-parameter grid"""
    def __init__(self, c):
        self.c = c
        self.w = [c.env.num(1)]
        self.trs = [build_trans(c.env, c.grid, c.prior, ('static',))]
        self.const = c.env.num(1)


def is_zero(e):
    return e.c == 0 if hasattr(e, 'c') and hasattr(e, 'm') else e == 0


def norm0(p):
    """normalised weights; all zero if everything is excluded by the data"""
    return list(p) if is_zero(total(p)) else normalise(p)


def harness(env, models, tmprior=False, **k):
    c = Case(env, **k)
    S = env.bl.OnlineStudy(storeHistory=True, silent=True)
    S.set(c.model(), silent=True)
    H, names, axes = [], [], []
    for i, (kind, ax) in enumerate(models):
        a = [HyperAxis(env, *x) for x in ax]
        if kind == 'static':
            S.addTransitionModel('m%d' % i, env.bl.tm.Static())
            H.append(One(c))
        else:
            tm, make = hyper_model(env, kind, a)
            S.addTransitionModel('m%d' % i, tm)
            H.append(HyperCase(c, a, make))
        names.append('m%d' % i)
        axes.append(a)
    n = len(models)
    if tmprior:
        w = [env.pos('tm%d' % i) for i in range(n)]
        S.setTransitionModelPrior(env.array(w), silent=True)
        pm = normalise(w)
    else:
        pm = [env.num(1) / n] * n
    flat = [env.num(1)] * n
    al = [[forward(tr, c.prior, c.L, c.times) for tr in h.trs] for h in H]
    kf = [[[prod([c.grid.dV] * sum(tr.reset_at(x) for x in c.times[:t]), env.num(1)) for t in range(c.T)]
           for tr in h.trs] for h in H]
    previous = {}
    for t in range(c.seg - 1):
        S.step(t)
    for t in range(c.T):
        S.step(t + c.seg - 1)
        res = {}
        for known in (False, True):
            E = [[total(al[i][j][t]) * (kf[i][j][t] if known else 1) for j in range(len(h.trs))]
                 for i, h in enumerate(H)]
            filt = [[norm0(al[i][j][t]) for j in range(len(h.trs))] for i, h in enumerate(H)]
            ev = [total([e * q for e, q in zip(E[i], h.w)]) / (h.const if known else 1) for i, h in enumerate(H)]
            hp = [norm0([e * q for e, q in zip(E[i], h.w)]) for i, h in enumerate(H)]
            tmd = norm0([e * q for e, q in zip(ev, flat if known else pm)])
            old = previous.get(known)
            local = norm0([(e if old is None or is_zero(e) else e / o) * q for e, o, q in zip(ev, old or ev, pm)])
            post = [[total([hp[i][j] * filt[i][j][x] for j in range(len(h.trs))]) for x in range(c.grid.size)]
                    for i, h in enumerate(H)]
            avg = [total([tmd[i] * post[i][x] for i in range(n)]) for x in range(c.grid.size)]
            logev = total([e * q for e, q in zip(ev, pm)])
            res[known] = dict(tmd=tmd, local=local, post=post, avg=avg, ev=logev, hp=hp)
            previous[known] = ev
        A, B = res[False], res[True]
        kid = 'KF-e' if tmprior else ('KF-a' if any(m[0] == 'changepoint' for m in models) else 'KF-f')
        kn = lambda x: (kid, x(B))
        env.observe('tmd', S.transitionModelDistribution)
        env.observe('evidence', S.logEvidence)
        if is_zero(A['ev']):
            env.assert_log_eq('evidence after step %d' % t, S.logEvidence, '-inf')
            continue
        env.assert_log_eq('evidence after step %d' % t, S.logEvidence, A['ev'],
                          known=(kid if kid == 'KF-a' else 'KF-f', B['ev']))
        nm, p = S.getCurrentTransitionModelDistribution()
        env.assert_true('names of models', list(nm) == names)
        env.assert_eq('distribution of models after step %d' % t, p, A['tmd'], known=kn(lambda x: x['tmd']))
        nm, p = S.getCurrentTransitionModelDistribution(local=True)
        env.assert_eq('local distribution of models after step %d' % t, p, A['local'],
                      known=('KF-a' if kid == 'KF-a' else 'KF-f', B['local']))
        for i in range(n):
            env.assert_eq('probability of model %d after step %d' % (i, t), S.getCurrentTransitionModelProbability(names[i]),
                          A['tmd'][i], known=kn(lambda x: x['tmd'][i]))
            env.assert_eq('hyper-parameter distribution of model %d after step %d' % (i, t),
                          S.hyperParameterDistribution[i] * H[i].const, A['hp'][i], known=kn(lambda x: x['hp'][i]))
            env.assert_eq('distribution of parameters, model %d after step %d' % (i, t), S.transitionModelPosterior[i],
                          c.nested(A['post'][i]), known=kn(lambda x: c.nested(x['post'][i])))
            for j, a in enumerate(axes[i]):
                f = lambda x: marginal(x['hp'][i], [len(b.values) for b in axes[i]], j)
                v, p = S.getCurrentHyperParameterDistribution(a.name)
                env.assert_eq('values of ' + a.name, v, [env.num(y) for y in a.values])
                env.assert_eq('distribution of {} after step {}'.format(a.name, t), p, f(A), known=kn(f))
        env.assert_eq('averaged distribution after step %d' % t, S.marginalizedPosterior, c.nested(A['avg']),
                      known=kn(lambda x: c.nested(x['avg'])))
