"""A combined transition model acts like its sub-models applied one after the other."""
from .spec import (Grid, axes_for, make_prior, distribution, bare_study, build_trans, Case, flatten, nested, normalise,
                   set_offsets, applyT, filtering, Serial, Combined)

BOUNDS = ('2 to 4 sub-models and up to three levels of nesting, grids of 3 to 6 values (or 2x3, 3x4); all distributions; '
          'time stamps are arbitrary real numbers for models without drift, listed integers otherwise')

G, G2 = ('gauss', 0, '3/4'), ('gauss', 0, '1/3', 's2')
GY = ('gauss', 1, '1/2', 's3')
LIN, QUAD = ('shift', 0, 'linear', '1/2'), ('shift', 0, 'quadratic', '1/2')
ST, IND = ('static',), ('independent',)
RS = ('regime', '-1/4')


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    add('two walks', subs=[G, G2])
    add('walks of two parameters', subs=[G, GY], shape=(2, 3))
    add('walk and static', subs=[ST, G])
    add('walk then floor', subs=[G, RS])
    add('floor then walk', subs=[RS, G])
    add('drift then walk', subs=[LIN, G], shape=6, ts=[0, 3])
    add('walk then drift', subs=[G, QUAD], shape=6, ts=[0, 1, 2])
    add('drift floor walk', subs=[LIN, RS, G], shape=5, ts=[1], pattern=2)
    add('change-point then walk', subs=[('changepoint', 3), G], prior='array')
    add('walk then change-point', subs=[G, ('changepoint', 3)], prior='array')
    add('independent then walk', subs=[IND, G], prior='array')
    add('nested combined', subs=[('combined', [G, ('combined', [RS, G2])]), ST])
    add('nested serial', subs=[('serial', [G, ST], [(2, False)]), G2], ts=[1, 2, 3])
    add('serial of combined', subs=[('serial', [('combined', [RS, G]), ('combined', [G2, RS])], [(2, False)]), ST], ts=[1, 2])
    add('alpha-stable and walk', subs=[('alphastable', 1, '3', '3/2'), ('gauss', 0, '1/3')], shape=(3, 4), pattern=3)
    add('backward walks of two parameters', subs=[G, GY], shape=(2, 3), direction='back')
    add('backward walk and change-point', subs=[('changepoint', 3), G], prior='array', direction='back')
    add('backward change-point and walk', subs=[G, ('changepoint', 3)], prior='array', direction='back')
    add('backward nested', subs=[('combined', [G, GY]), ('serial', [ST, ('gauss', 1, '2', 's5')], [(2, False)])],
        shape=(2, 3), direction='back', ts=[1, 2, 3])
    add('used with another study before', subs=[('changepoint', 3), G], prior='array', earlier=True)
    add('nested, used with another study before', subs=[('combined', [G, ('changepoint', 3)]), ('serial', [ST, G2], [(2, False)])],
        prior='array', earlier=True, ts=[1, 2, 3])
    add('drift, used with another study before', subs=[LIN, G], shape=6, ts=[0, 3], earlier=True)
    add('fit drift and walk', kind='fit', T=3, shape=6, pattern=4, trans=('combined', [QUAD, G2]))
    add('fit nested drift after a break-point', kind='fit', T=4, shape=6, pattern=4,
        trans=('serial', [ST, ('combined', [ST, ('combined', [QUAD, G2])])], [(1, False)]))
    add('fit fractional times', kind='fit', T=4, shape=3, pattern=2, times='fraction', prior='array_fixed',
        trans=('combined', [('combined', [ST, ('changepoint', 1.75)]), ('serial', [ST, G2], [(1.5, False)])]))
    add('fit nested 2x3', kind='fit', T=3, shape=(2, 3), pattern=4, times='offset',
        trans=('combined', [('serial', [ST, GY], [(5, False)]), ('gauss', 0, '2', 's7')]))
    add('fit, segments of two', kind='fit', T=3, shape=6, seg=2, pattern=4, trans=('combined', [QUAD, G2]))
    if tier == 'thorough':
        add('four walks 3x4', subs=[('gauss', 0, '1/3'), ('gauss', 1, '3', 's1'), ('gauss', 0, '1', 's2'), ('gauss', 1, '1', 's3')], shape=(3, 4))
        add('fit drift floor walk', kind='fit', T=4, shape=6, pattern=7, trans=('combined', [LIN, RS, G2]), max_paths=3000)
    return out


def reuse(env, model):
    """the same model objects are first used with a study that has another grid and another prior"""
    o = Grid(env, [('x', '3', '7', 3)])
    w = [env.num(5), env.num(1), env.num(2)]
    S = bare_study(env, o, o.to_array(w), model)
    for t in (2, 3):
        S.transitionModel.computeForwardPrior(o.to_array(normalise([env.num(1), env.num(3), env.num(1)])), t)


def harness(env, kind='step', subs=None, shape=3, prior=None, ts=None, pattern='all', direction='forward', earlier=False, **k):
    if kind == 'fit':
        c = Case(env, shape=shape, prior=prior, pattern=pattern, **k)
        set_offsets(c.tr)
        f, norms = filtering(c.tr, c.prior, c.L, c.times)
        S = c.study()
        S.fit(forwardOnly=True, silent=True)
        env.observe('post', S.posteriorSequence)
        env.assert_eq('filtering distributions', S.posteriorSequence, [c.nested(p) for p in f])
        return
    g = Grid(env, axes_for(shape))
    arg, pr = make_prior(env, g, prior)
    p = distribution(env, g.size, pattern=pattern)
    cp = "'changepoint'" in str(subs)
    if ts is None:
        t = env.real('t')
        if cp:
            # both outcomes of the comparison with the change-point
            env.is_true(t == 3)
        ts = [t]
    for t in ts:
        tr = build_trans(env, g, pr, ('combined', subs))
        model = tr.build()
        if earlier:
            reuse(env, model)
        S = bare_study(env, g, arg, model)
        hit = cp and env.is_true(t == 3)
        if direction == 'forward':
            r = S.transitionModel.computeForwardPrior(g.to_array(p), t)
            q = p
            for s in tr.subs:
                if s.__class__.__name__ == 'ChangePoint':
                    q = pr if hit else q
                elif hit and s.__class__.__name__ == 'Combined':
                    for u in s.subs:
                        q = pr if u.__class__.__name__ == 'ChangePoint' else u.step(q, t)
                else:
                    q = s.step(q, t)
            known = ('KF-a', nested([x * g.dV for x in q], g.shape)) if hit else None
        else:
            r = nested(normalise(flatten(S.transitionModel.computeBackwardPrior(g.to_array(p), t + 1))), g.shape)
            ms = []
            for s in tr.subs:
                if s.__class__.__name__ == 'ChangePoint':
                    ms.append('reset' if hit else None)
                else:
                    ms += s.matrices(t) if hasattr(s, 'matrices') else [s.matrix(t)]

            def back(order):
                q = p
                for M in order:
                    q = applyT(M, q, pr)
                return normalise(q)
            q = back(reversed(ms))
            known = ('KF-d', nested(back(ms), g.shape)) if hit else None
        env.observe('new distribution', r)
        env.assert_eq('distribution', r, nested(q, g.shape), known=known, scale=1 if 'shift' in str(subs) else None)
