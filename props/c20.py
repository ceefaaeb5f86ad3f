"""A serial transition model applies the sub-model of the interval that contains the time stamp."""
from fractions import Fraction
from .spec import (Grid, axes_for, make_prior, distribution, bare_study, build_trans, Case, flatten, nested, apply,
                   normalise, set_offsets, applyT, filtering, Shift, Combined, Static, integer_shift)

BOUNDS = ('2 to 4 sub-models, grids of 3 to 5 values (or 2x3); break-points and time stamp are arbitrary real numbers '
          '(symbolic) except for deterministic sub-models, where they are the integers listed')
ASSUMPTIONS = ['break-points are strictly increasing (the package rejects other ones)']

ST, G, IND = ('static',), ('gauss', 0, '3/4'), ('independent',)
G2 = ('gauss', 0, '1/3', 's2')
QUAD = ('shift', 0, 'quadratic', '1/2')
LIN = ('shift', 0, 'linear', '1/2')


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    add('two models, break-point', kind='step', subs=[G, ST], cps=[False])
    add('two models, change-point', kind='step', subs=[G, G2], cps=[True], prior='array')
    add('three models', kind='step', subs=[ST, G, G2], cps=[False, False])
    add('three models mixed', kind='step', subs=[G, IND, G2], cps=[True, False], prior='array')
    add('four models', kind='step', subs=[G, ST, G2, ('gauss', 0, '2', 's3')], cps=[False, True, False], prior='array')
    add('two parameters', kind='step', subs=[('gauss', 1, '1/2'), ('gauss', 0, '2'), ST], cps=[False, True], shape=(2, 3))
    add('backward two models', kind='back', subs=[G, ST], cps=[False])
    add('backward four models', kind='back', subs=[G, ST, G2, ('gauss', 0, '2', 's3')], cps=[False, False, False])
    add('backward change-point', kind='back', subs=[G, G2, ST], cps=[True, False], prior='array')
    add('models and break-points listed separately', kind='step', subs=[G, ST, G2], cps=[False, False], order='models first')
    add('used with another study before', kind='step', subs=[G, IND, G2], cps=[True, False], prior='array', earlier=True)
    add('combined, used with another study before', kind='step', subs=[('combined', [G, IND, G2]), ST], cps=[False], prior='array', earlier=True)
    add('drift after break-point', kind='drift', subs=[ST, QUAD], breaks=[2], ts=[0, 1, 2, 3], shape=6)
    add('drift before and after', kind='drift', subs=[QUAD, LIN, QUAD], breaks=[1, 3], ts=[0, 1, 2, 3, 4], shape=6)
    add('drift late break-points', kind='drift', subs=[LIN, QUAD], breaks=[100], ts=[98, 99, 100, 101, 102], shape=6)
    add('drift in a combined model', kind='drift', subs=[ST, ('combined', [QUAD, ('gauss', 0, '1/4')])], breaks=[5],
        ts=[4, 5, 6], shape=6)
    add('drift in a nested combined model', kind='drift', subs=[ST, ('combined', [ST, ('combined', [ST, QUAD])])], breaks=[5],
        ts=[4, 5, 6], shape=6)
    add('fit with drift', kind='fit', T=4, shape=6, pattern=4,
        trans=('serial', [ST, QUAD, ('gauss', 0, '1/3', 's2')], [(0, False), (2, False)]))
    add('fit year', kind='fit', T=4, shape=6, pattern=4, times='year',
        trans=('serial', [('gauss', 0, '1/3'), QUAD], [(1853, False)]))
    add('fit fractional times', kind='fit', T=4, shape=3, pattern=2, times='fraction',
        trans=('serial', [G, ST, G2], [(1.5, False), (3.5, True)]), prior='array_fixed')
    add('fit irregular', kind='fit', T=5, shape=3, pattern=3, times='irregular',
        trans=('serial', [G, ST, G2], [(4, False), (7, True)]), prior='array_fixed')
    add('fit negative times', kind='fit', T=4, shape=3, pattern=2, times='negative',
        trans=('serial', [G, ST, G2], [(-1, False), (0, True)]), prior='array_fixed')
    add('fit with drift, negative times', kind='fit', T=4, shape=6, pattern=4, times='negative',
        trans=('serial', [('gauss', 0, '1/3'), QUAD], [(-1, False)]))
    add('fit, segments of two', kind='fit', T=4, shape=3, seg=2, pattern=2, trans=('serial', [G, ST, G2], [(2, False), (3, True)]), prior='array_fixed')
    add('fit with drift, segments of two', kind='fit', T=3, shape=6, seg=2, pattern=4, trans=('serial', [('gauss', 0, '1/3'), QUAD], [(2, False)]))
    if tier == 'thorough':
        add('five models', kind='step', subs=[G, ST, G2, ('gauss', 0, '2', 's3'), IND], cps=[False, True, False, True], prior='array')
        add('fit K5 T8', kind='fit', T=8, shape=5, pattern=5, times='irregular',
            trans=('serial', [G, ST, G2, LIN], [(4, False), (7, True), (9, False)]), prior='array_fixed')
    return out


def moved_back(tr, p, t):
    """p moved back by static and deterministic models; None for others"""
    if isinstance(tr, Shift):
        return normalise(integer_shift(p, tr.grid.shape, tr.axis, -tr.points(t)))
    if isinstance(tr, Combined):
        for s in tr.subs:
            p = moved_back(s, p, t) if p is not None else None
        return p
    return p if type(tr) is Static else None


def harness(env, kind, subs=None, cps=None, shape=3, prior=None, breaks=None, ts=None, order=None, earlier=False, **k):
    if kind == 'fit':
        c = Case(env, shape=shape, prior=prior, **k)
        set_offsets(c.tr)
        f, norms = filtering(c.tr, c.prior, c.L, c.times)
        S = c.study()
        S.fit(forwardOnly=True, silent=True)
        env.observe('post', S.posteriorSequence)
        env.assert_eq('filtering distributions', S.posteriorSequence, [c.nested(p) for p in f])
        return
    tm = env.bl.tm
    g = Grid(env, axes_for(shape))
    arg, pr = make_prior(env, g, prior)
    p = distribution(env, g.size)
    if kind == 'drift':
        for t in ts:
            b = [env.num(x) for x in breaks]
            trs = [build_trans(env, g, pr, s) for s in subs]
            args = []
            for i, s in enumerate(trs):
                args.append(s.build())
                if i < len(breaks):
                    args.append(tm.BreakPoint('b%d' % i, breaks[i]))
            S = bare_study(env, g, arg, tm.SerialTransitionModel(*args))
            i = sum(1 for x in breaks if x <= t)
            set_offsets(trs[i], breaks[i - 1] if i > 0 else 0)
            r = S.transitionModel.computeForwardPrior(g.to_array(p), t)
            env.observe('new distribution', r)
            env.assert_eq('distribution after time %d' % t, r, nested(trs[i].step(p, t), g.shape), scale=1)
            q = moved_back(trs[i], p, t)
            if q is not None:
                r = S.transitionModel.computeBackwardPrior(g.to_array(p), t + 1)
                env.assert_eq('distribution, backward to time %d' % t, r, nested(q, g.shape), scale=1)
        return
    n = len(cps)
    b = [env.real('b%d' % i) for i in range(n)]
    for x, y in zip(b, b[1:]):
        env.assume(x < y)
    t = env.real('t')
    trs = [build_trans(env, g, pr, s) for s in subs]
    pts = [(tm.ChangePoint if cps[i] else tm.BreakPoint)('b%d' % i, b[i]) for i in range(n)]
    args = []
    if order == 'models first':
        args = [s.build() for s in trs] + pts
    else:
        for i, s in enumerate(trs):
            args.append(s.build())
            if i < n:
                args.append(pts[i])
    model = tm.SerialTransitionModel(*args)
    if earlier:
        from .c21 import reuse
        reuse(env, model)
    S = bare_study(env, g, arg, model)
    # number of break-points that are not later than t
    i = 0
    while i < n and env.is_true(b[i] <= t):
        i += 1
    hit = any(cps[j] and env.is_true(b[j] == t) for j in range(n))
    if kind == 'step':
        r = S.transitionModel.computeForwardPrior(g.to_array(p), t)
        q = trs[i].step(p, t)
        alt = None
        if hit:
            q = pr
            alt = ('KF-a', nested([x * g.dV for x in pr], g.shape))
    else:
        r = S.transitionModel.computeBackwardPrior(g.to_array(p), t + 1)
        q = applyT(trs[i].matrix(t), p, pr)
        alt = None
        if hit:
            # independent of the parameter value; the package restores the prior
            q = [env.num(Fraction(1, g.size))] * g.size
            alt = ('KF-b', nested([x * g.dV for x in pr], g.shape))
        # backward messages are defined up to a factor
        r = normalise(flatten(r))
        q = normalise(q)
        alt = None if alt is None else ('KF-b', nested(pr, g.shape))
        r = nested(r, g.shape)
    env.observe('new distribution', r)
    env.assert_eq('distribution', r, nested(q, g.shape), known=alt)
