"""Deterministic models shift distributions by the change of the function."""
from fractions import Fraction
from .spec import (Grid, axes_for, make_prior, distribution, bare_study, flatten, nested, total, normalise, Case, filtering,
                   integer_shift, marginal)

BOUNDS = ('all distributions on grids of 5 to 7 values or 3x4, 5x4, 2x3x2; displacements by whole grid points (forward, '
          'backward, beyond the boundary); functions and time stamps listed')


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    add('linear K6', shape=6, f='a*t', a='1/2', ts=[0, 1, 7, -3])
    add('linear negative K6', shape=6, f='a*t', a='-1', ts=[0, 5])
    add('linear zero K6', shape=6, f='a*t', a='0', ts=[0])
    add('offset function K6', shape=6, f='a*t + 3', a='1/2', ts=[0, 2])
    add('quadratic K6', shape=6, f='a*t**2', a='1/2', ts=[0, 1, -1, -2])
    add('cubic K6', shape=6, f='a*t**3', a='1/2', ts=[-1, 0])
    add('two hyper-parameters K6', shape=6, f='a*t + b*t**2', a='1/2', b='1/2', ts=[0, 1])
    add('unused order of hyper-parameters K6', shape=6, f='b*t**2 - a*t', a='1/2', b='1', ts=[0, 1])
    add('hyper-parameters not in alphabetical order K6', shape=6, f='b*t**2 - a*t', a='1/2', b='1', ts=[0, 1], swap=True)
    add('hyper-parameters not in alphabetical order 3x4', shape=(3, 4), f='a*t + b*t**2', a='2', b='-4', axis=1, ts=[0, 1], swap=True)
    for d in ('1/4', '-2/5', '7/5'):
        add('displacement by %s grid points' % d, shape=7, kind='fraction', d=d)
        add('displacement by %s grid points, 3x4' % d, shape=(3, 4), kind='fraction', d=d, axis=1)
    add('displacement by -3/2 grid points, 5x4 axis 0', shape=(5, 4), kind='fraction', d='-3/2', axis=0)
    add('beyond the boundary K5', shape=5, f='a*t', a='3', ts=[0])
    add('axis 0 of 3x4', shape=(3, 4), f='a*t', a='1/2', ts=[0, 1])
    add('axis 1 of 3x4', shape=(3, 4), f='a*t', a='2', axis=1, ts=[0, 1])
    add('axis 1 of 5x4 negative', shape=(5, 4), f='a*t', a='-2', axis=1, ts=[3], pattern=2)
    add('axis 2 of 2x3x2', shape=(2, 3, 2), f='a*t', a='4', axis=2, ts=[0])
    add('axis 1 of 2x3x2', shape=(2, 3, 2), f='a*t', a='1/2', axis=1, ts=[0])
    add('new value', shape=6, f='a*t', a='1/2', then='1', ts=[0])
    add('new value 2', shape=6, f='a*t**2', a='1/2', then='-1/2', ts=[0, 1])
    add('any time stamp', shape=6, f='a*t', a='1/2', ts=None)
    add('any time stamp 2', shape=(3, 4), f='a*t - 7', a='-2', axis=1, ts=None)
    add('after a break-point K6', shape=6, f='a*t**2', a='1/2', ts=[4, 6], offset=5)
    add('after a break-point 3x4', shape=(3, 4), f='a*t - a*t**2', a='2', axis=1, ts=[3, 4], offset=3)
    add('fit linear', shape=6, kind='fit', T=4, trans=('shift', 0, 'linear', '1/2'), pattern=5)
    add('fit quadratic year', shape=6, kind='fit', T=3, trans=('shift', 0, 'quadratic', '-1/2'), pattern=5, times=None)
    add('fit smoothing', shape=6, kind='smooth', T=3, trans=('shift', 0, 'linear', '1/2'), pattern=4)
    add('fit smoothing axis 1', shape=(3, 4), kind='smooth', T=2, trans=('shift', 1, 'linear', '-2'), pattern=5)
    add('fit, segments of two', shape=6, kind='fit', T=3, seg=2, trans=('shift', 0, 'quadratic', '1/2'), pattern=5)
    add('fit smoothing, segments of two', shape=6, kind='smooth', T=3, seg=2, trans=('shift', 0, 'linear', '1/2'), pattern=4)
    if tier == 'thorough':
        for a in range(-5, 6):
            add('linear K7 %d' % a, shape=7, f='a*t', a='%d/3' % a, ts=[0, 3])
            add('linear 5x4 %d' % a, shape=(5, 4), f='a*t + t**2 - t**2', a='%d' % (2 * a), axis=1, ts=[0])
        add('fit T8', shape=7, kind='fit', T=8, trans=('shift', 0, 'linear', '1/3'), pattern=7)
    return out


def fraction(env, shape, axis, d):
    """displacements between grid points: cubic interpolation (edge values are continued), no negative values"""
    import numpy
    from scipy.ndimage import shift
    from .spec import weight
    g = Grid(env, axes_for(shape))
    p = [env.real('p0', lo=0.5, hi=1.5)] + [env.num(1 + Fraction((3 * i) % 7, 10)) for i in range(1, g.size)]
    p = normalise(p)
    step = float(g.step[axis])
    f = lambda t, a=float(Fraction(d)) * step: a * t
    S = bare_study(env, g, make_prior(env, g, None)[0], env.bl.tm.Deterministic(f, target=g.names[axis]))
    off = [0.] * len(g.shape)
    for sign, name in ((1, 'computeForwardPrior'), (-1, 'computeBackwardPrior')):
        off[axis] = sign * float(Fraction(d))
        cols = [numpy.ravel(shift(numpy.reshape(e, g.shape), off, order=3, mode='nearest')) for e in numpy.eye(g.size)]
        q = []
        for i in range(g.size):
            v = total([weight(env, float(cols[j][i])) * p[j] for j in range(g.size)])
            q.append(env.maximum([v, env.num(0)]))
        r = getattr(S.transitionModel, name)(g.to_array(p), 3)
        env.observe('new distribution', r)
        env.assert_eq(name, r, nested(normalise(q), g.shape), scale=1)


def harness(env, kind='step', shape=6, f=None, a=None, b=None, axis=0, ts=None, then=None, pattern='all', swap=False, d=None, offset=None,
            **k):
    if kind == 'fraction':
        return fraction(env, shape, axis, d)
    if kind != 'step':
        c = Case(env, shape=shape, pattern=pattern, **k)
        fl, norms = filtering(c.tr, c.prior, c.L, c.times)
        S = c.study()
        S.fit(forwardOnly=kind == 'fit', silent=True)
        env.observe('post', S.posteriorSequence)
        if kind == 'fit':
            env.assert_eq('filtering distributions', S.posteriorSequence, [c.nested(p) for p in fl])
        else:
            # the distribution is moved back by the same amount in the backward pass
            g = c.grid
            beta = [env.num(1)] * g.size
            post = [None] * c.T
            for t in reversed(range(c.T)):
                post[t] = normalise([x * y for x, y in zip(fl[t], beta)])
                if t > 0:
                    beta = [x * y for x, y in zip(beta, c.L[t])]
                    beta = integer_shift(beta, g.shape, c.tr.axis, -c.tr.points(c.times[t - 1]))
            env.assert_eq('smoothing distributions', S.posteriorSequence, [c.nested(p) for p in post])
        return
    g = Grid(env, axes_for(shape))
    arg, pr = make_prior(env, g, None)
    p = distribution(env, g.size, pattern=pattern)
    sig = ['a=%r' % float(Fraction(a))] + ([] if b is None else ['b=%r' % float(Fraction(b))])
    src = 'def drift(t, %s):\n    return %s\n' % (', '.join(sig[::-1] if swap else sig), f)
    d = {}
    exec(src, d)
    T = env.bl.tm.Deterministic(d['drift'], target=g.names[axis])
    if offset is not None:       # time is counted from the break-point
        T = env.bl.tm.SerialTransitionModel(env.bl.tm.Static(), env.bl.tm.BreakPoint('t_1', offset), T)
    S = bare_study(env, g, arg, T)
    given = g.to_array(p)

    def fun(t, a):
        v = dict(t=Fraction(t), a=Fraction(a))
        if b is not None:
            v['b'] = Fraction(b)
        return eval(f, {}, v)
    symbolic_t = ts is None
    for t in [0] if symbolic_t else ts:
        tt = env.real('t') if symbolic_t else t
        vals = [a] if then is None else [a, then]
        for i, v in enumerate(vals):
            if then is not None:
                S._setAllHyperParameters([float(Fraction(v))] + ([] if b is None else [float(Fraction(b))]))
            t0 = t - (offset or 0)
            n = (fun(t0 + 1, v) - fun(t0, v)) / g.step[axis] if t0 >= 0 or offset is None else Fraction(0)
            assert n.denominator == 1
            r = T.computeForwardPrior(given, tt)
            env.observe('new distribution', r)
            q = normalise(integer_shift(p, g.shape, axis, int(n)))
            env.assert_eq('forward at {}'.format(t), r, nested(q, g.shape), scale=1)
            rb = T.computeBackwardPrior(given, tt + 1)
            q = normalise(integer_shift(p, g.shape, axis, -int(n)))
            env.assert_eq('backward at {}'.format(t), rb, nested(q, g.shape), scale=1)
            env.assert_eq('given distribution is not altered', given, nested(p, g.shape))
            env.assert_eq('total probability', total(flatten(r)), env.num(1))
