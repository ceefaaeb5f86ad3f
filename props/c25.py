"""Observation models evaluate their stated likelihood functions and Jeffreys priors."""
from fractions import Fraction
import math
import numpy
from .spec import flatten, nested, normalise, total, prod

BOUNDS = ('arbitrary (symbolic) data values and parameter values, grids of 2 or 3 values per parameter; counts 0, 1, 2, 5, 20, 41, 100, 170, 200 and 400 (thorough: also 3 to 30); '
          'fits with 1 to 3 data points')
ASSUMPTIONS = ['standard deviations, scales and rates are positive, correlation coefficients lie within (-1, 1)',
               'SciPy distributions are represented by an object with the interface of scipy.stats whose density is an '
               'arbitrary function (and, as a check, by the real distributions for fixed data); the symbolic algebra of '
               'SymPy itself runs unmodelled, the functions it generates are executed symbolically']


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    for m in ('bernoulli', 'poisson', 'gaussian', 'gaussianmean', 'laplace', 'whitenoise', 'ar1', 'scaledar1'):
        if m in ('bernoulli', 'poisson'):
            for d in ([0, 1] if m == 'bernoulli' else [0, 1, 2, 5, 20, 41, 100, 170]):
                add('{} density, data {}'.format(m, d), model=m, data=d)
        else:
            add('{} density'.format(m), model=m)
            add('{} density, three values'.format(m), model=m, n=3, few=True)
        if m == 'poisson':
            for d in (200, 400):
                add('poisson density, large count {}'.format(d), model=m, data=d, near=d, n=3)
        add('{} fit'.format(m), model=m, kind='fit', T=2 if m != 'laplace' else 1)
    add('bernoulli outside of the unit interval', model='bernoulli', kind='outside', data=1)
    add('bernoulli outside of the unit interval, failure', model='bernoulli', kind='outside', data=0)
    add('bernoulli booleans', model='bernoulli', kind='bool')
    add('poisson float data', model='poisson', kind='float')
    for m in ('bernoulli', 'poisson', 'gaussian', 'laplace', 'whitenoise'):
        add(m + ' Jeffreys prior', model=m, kind='jeffreys')
        add(m + ' without prior', model=m, kind='noprior')
    for m in ('gaussianmean', 'ar1', 'scaledar1'):
        add(m + ' default prior', model=m, kind='noprior_default')
    add('ar1 Jeffreys prior', model='ar1', kind='jeffreys_ar1')
    add('scaled ar1 Jeffreys prior', model='scaledar1', kind='jeffreys_ar1')
    add('custom function one parameter', model='numpy', kind='numpy', n=1)
    add('custom function two parameters', model='numpy', kind='numpy', n=2)
    add('custom function three parameters', model='numpy', kind='numpy', n=3)
    add('scipy continuous', model='scipy', kind='scipy', cont=True)
    add('scipy continuous fixed', model='scipy', kind='scipy', cont=True, fixed=True)
    add('scipy discrete', model='scipy', kind='scipy', cont=False)
    add('scipy discrete fixed', model='scipy', kind='scipy', cont=False, fixed=True)
    add('scipy order of parameters', model='scipy', kind='scipy', cont=True, swap=True)
    add('scipy dictionary', model='scipy', kind='scipy', cont=True, dictionary=True)
    add('sympy normal', model='sympy', kind='sympy', dist='normal')
    add('sympy normal, parameters swapped', model='sympy', kind='sympy', dist='normal', swap=True)
    add('sympy normal fixed mean', model='sympy', kind='sympy', dist='normal0')
    add('sympy laplace', model='sympy', kind='sympy', dist='laplace', n=1)
    add('sympy Jeffreys prior', model='sympy', kind='sympyprior')
    add('analytic Jeffreys exponential', model='sympy', kind='analytic', dist='exponential')
    add('analytic Jeffreys normal', model='sympy', kind='analytic', dist='normal0')
    if tier == 'thorough':
        for d in range(3, 31):
            add('poisson density, data {}'.format(d), model='poisson', data=d)
        add('gaussian fit T3', model='gaussian', kind='fit', T=3)
        add('scaledar1 fit T3', model='scaledar1', kind='fit', T=3)
    return out


def density(env, model, d, th):
    """probability (density) of a data point"""
    one = env.num(1)
    if model == 'bernoulli':
        return th[0] if d == 1 else one - th[0]
    if model == 'poisson':
        if not env.symbolic:
            return math.exp(d * math.log(th[0]) - th[0] - math.lgamma(d + 1))
        f = 1
        for i in range(2, d + 1):
            f *= i
        return prod([th[0]] * d, one) * env.exp(-th[0]) / f
    if model == 'laplace':
        return env.exp(-abs(d - th[0]) / th[1]) / (2 * th[1])
    if model == 'gaussian':
        m, s = th
    elif model == 'gaussianmean':
        d, s = d
        m = th[0]
    elif model == 'whitenoise':
        m, s = env.num(0), th[0]
    elif model == 'ar1':
        m, s = th[0] * d[0], th[1]
        d = d[1]
    elif model == 'scaledar1':
        m, s = th[0] * d[0], th[1] * env.sqrt(1 - th[0] * th[0])
        d = d[1]
    return env.exp(-(d - m) * (d - m) / (2 * s * s)) / (env.sqrt(2 * env.pi) * s)


CLS = dict(bernoulli='Bernoulli', poisson='Poisson', gaussian='Gaussian', gaussianmean='GaussianMean',
           laplace='Laplace', whitenoise='WhiteNoise', ar1='AR1', scaledar1='ScaledAR1')
PARAMS = dict(bernoulli=['frac'], poisson=['pos'], gaussian=['real', 'pos'], gaussianmean=['real'],
              laplace=['real', 'pos'], whitenoise=['pos'], ar1=['corr', 'pos'], scaledar1=['corr', 'pos'])


def parameter(env, kind, name):
    if kind == 'corr':
        return env.real(name, lo=-1, hi=1, strict_lo=True, strict_hi=True)
    return dict(frac=env.frac, pos=env.pos, real=env.real)[kind](name)


def axes(env, model, n, few=False, near=None):
    out = []
    if near:
        # (values close to the data: neither numerator nor denominator can be represented)
        out.append([env.real('th0%d' % j, lo=near * (8 + j) // 10, hi=near * (9 + j) // 10, strict_lo=True) for j in range(n)])
        return out
    for i, k in enumerate(PARAMS[model]):
        if few:
            out.append([parameter(env, k, 'th%d0' % i)] +
                       [env.num(env.sample('th%d%d' % (i, j), Fraction(1, 10), Fraction(9, 10))) for j in range(1, n)])
        else:
            out.append([parameter(env, k, 'th%d%d' % (i, j)) for j in range(n)])
            for a, b in zip(out[-1], out[-1][1:]):
                env.assume(a < b)
    return out


def points(ax):
    import itertools
    return [list(p) for p in itertools.product(*ax)]


def build(env, model, ax, **k):
    args = []
    for i, a in enumerate(ax):
        args += ['th%d' % i, env.array(a)]
    return getattr(env.bl.om, CLS[model])(*args, **k)


def mesh(env, ax):
    shape = [len(a) for a in ax]
    pts = points(ax)
    return [env.array(nested([p[i] for p in pts], shape)) for i in range(len(ax))]


def fisher(env, model, th):
    one = env.num(1)
    return {'bernoulli': lambda: one / env.sqrt(th[0] * (1 - th[0])), 'poisson': lambda: one / env.sqrt(th[0]),
            'gaussian': lambda: one / (th[1] * th[1]), 'laplace': lambda: one / (th[1] * th[1]),
            'whitenoise': lambda: one / th[0]}[model]()


def harness(env, model, kind='density', data=None, n=2, few=False, T=2, **k):
    bl = env.bl
    if kind in ('numpy', 'scipy', 'sympy', 'sympyprior', 'analytic'):
        return globals()['_' + kind](env, n=n, **k)
    if kind == 'outside':
        v = [env.real('lo', hi=0, strict_hi=True), env.frac('mid'), env.real('hi', lo=1, strict_lo=True)]
        r = build(env, model, [v]).processedPdf([env.array(v)], env.array([data]))
        env.observe('density', r)
        env.assert_eq('density', r, [env.num(0), v[1] if data else 1 - v[1], env.num(0)])
        return
    if kind == 'bool':
        ax = axes(env, model, n)
        for d in (True, False):
            r = build(env, model, ax).processedPdf([env.array(ax[0])], numpy.array([d]))
            env.assert_eq('density', r, [density(env, model, int(d), [x]) for x in ax[0]])
        return
    if kind == 'float':
        ax = axes(env, model, n)
        for d in (0., 3.):
            for seg in (numpy.array([d]), numpy.array([int(d)]), env.array([d])):
                r = build(env, model, ax).processedPdf([env.array(ax[0])], seg)
                env.assert_eq('density', r, [density(env, model, int(d), [x]) for x in ax[0]])
        return
    ax = axes(env, model, n, few, k.get('near'))
    shape = [len(a) for a in ax]
    pts = points(ax)
    if kind == 'density':
        if model in ('ar1', 'scaledar1'):
            d = [env.real('d0'), env.real('d1')]
            seg = env.array(d)
        elif model == 'gaussianmean':
            d = [env.real('d0'), env.pos('d1')]
            seg = env.array([d])
        elif model in ('bernoulli', 'poisson'):
            d = data
            seg = numpy.array([d])
        else:
            d = env.real('d0')
            seg = env.array([d])
        om = build(env, model, ax)
        grid = mesh(env, ax)
        r = om.processedPdf(grid, seg)
        if not k.get('near'):
            env.observe('density', r)
        want = nested([density(env, model, d, p) for p in pts], shape)
        env.assert_eq('density', r, want)
        env.assert_eq('density, second evaluation', om.processedPdf(grid, seg), want)
        env.assert_eq('parameter grid is not altered', [flatten(x) for x in grid],
                      [[p[i] for p in pts] for i in range(len(ax))])
        return
    S = bl.Study(silent=True)
    if kind in ('jeffreys', 'noprior', 'noprior_default', 'jeffreys_ar1'):
        # prior that is used by a fit: compare posterior distributions with the likelihood
        if kind == 'noprior':
            om, w = build(env, model, ax, prior=None), [env.num(1)] * len(pts)
        elif kind == 'noprior_default':
            om, w = build(env, model, ax), [env.num(1)] * len(pts)
        elif kind == 'jeffreys':
            om, w = build(env, model, ax), [fisher(env, model, p) for p in pts]
        d = env.array([[env.real('d0'), env.pos('d1')]]) if model == 'gaussianmean' else \
            env.array([env.real('d0'), env.real('d1')])
        if model in ('bernoulli', 'poisson'):
            d = numpy.array([1])
        elif model not in ('ar1', 'scaledar1', 'gaussianmean'):
            d = env.array([env.real('d0')])
        S.loadData(d, silent=True)
        if kind == 'jeffreys_ar1':
            om = build(env, model, ax)
            S.set(om, bl.tm.Static(), silent=True)
            r = bl.jeffreys.computeJeffreysPriorAR1(S)
            w = []
            for rr, s in pts:
                if model == 'scaledar1':
                    s = s * env.sqrt(1 - rr * rr)
                w.append(env.exp(-d[0] * d[0] * (1 - rr * rr) / (2 * s * s)) / (s * s) *
                         env.sqrt(4 * rr * rr / (1 - rr * rr) + 2 * 3))
            env.observe('prior', r)
            env.assert_eq('prior', r, nested(normalise(w), shape))
            return
        S.set(om, bl.tm.Static(), silent=True)
        S.fit(silent=True)
        obs = 1 if model in ('bernoulli', 'poisson') else flatten(d) if model in ('ar1', 'scaledar1', 'gaussianmean') \
            else d[0]
        L = [density(env, model, obs, p) for p in pts]
        post = normalise([x * y for x, y in zip(w, L)])
        env.observe('post', S.posteriorSequence)
        env.assert_eq('posterior', S.posteriorSequence[0], nested(post, shape))
        if model != 'scaledar1':
            env.assert_log_eq('evidence', S.logEvidence, total([x * y for x, y in zip(normalise(w), L)]))
        return
    # fit of several data points
    if model == 'bernoulli':
        obs = [1, 0, 1][:T]
        d = numpy.array(obs)
    elif model == 'poisson':
        obs = [2, 0, 3][:T]
        d = numpy.array(obs)
    elif model == 'gaussianmean':
        obs = [[env.real('d%d' % t), env.pos('e%d' % t)] for t in range(T)]
        d = env.array(obs)
    elif model in ('ar1', 'scaledar1'):
        v = [env.real('d%d' % t) for t in range(T + 1)]
        obs = [[v[t], v[t + 1]] for t in range(T)]
        d = env.array(v)
    else:
        obs = [env.real('d%d' % t) for t in range(T)]
        d = env.array(obs)
    S.loadData(d, silent=True)
    S.set(build(env, model, ax), bl.tm.Static(), silent=True)
    S.fit(silent=True, forwardOnly=True)
    w = [fisher(env, model, p) for p in pts] if model in ('bernoulli', 'poisson', 'gaussian', 'laplace', 'whitenoise') \
        else [env.num(1)] * len(pts)
    cur = list(w)
    env.observe('post', S.posteriorSequence)
    for t in range(T):
        cur = [x * density(env, model, obs[t], p) for x, p in zip(cur, pts)]
        env.assert_eq('posterior of step %d' % t, S.posteriorSequence[t], nested(normalise(cur), shape))
    if model != 'scaledar1':
        env.assert_log_eq('evidence', S.logEvidence, total(cur) / total(w))


def _numpy(env, n):
    c = env.real('c')
    d = [env.real('d0'), env.real('d1')]
    if n == 1:
        def f(data, x):
            return (x - data) ** 2 + 1
        ref = lambda dd, x: (x - dd) * (x - dd) + 1
    elif n == 2:
        def f(data, x, y):
            return (x - data) ** 2 + y ** 2 * c ** 2 + 1
        ref = lambda dd, x, y: (x - dd) * (x - dd) + y * y * c * c + 1
    else:
        def f(data, x, y, z):
            return (x - data) ** 2 + y ** 2 * c ** 2 + z ** 4 + 1
        ref = lambda dd, x, y, z: (x - dd) * (x - dd) + y * y * c * c + z * z * z * z + 1
    ax = [[env.real('x%d%d' % (i, j)) for j in range(2)] for i in range(n)]
    args = []
    for nm, a in zip('xyz', ax):
        args += [nm, env.array(a)]
    om = env.bl.om.NumPy(f, *args)
    r = om.processedPdf(mesh(env, ax), env.array([d[0]]))
    env.observe('density', r)
    env.assert_eq('density', r, nested([ref(d[0], *p) for p in points(ax)], [2] * n))
    # two-dimensional data are passed as they are
    def g(data, x):
        a, b = data
        return (x - a) ** 2 + b ** 2
    om = env.bl.om.NumPy(g, 'x', env.array(ax[0]))
    r = om.processedPdf([env.array(ax[0])], env.array([d]))
    env.assert_eq('density for pairs', r, [(x - d[0]) * (x - d[0]) + d[1] * d[1] for x in ax[0]])


class RV(object):
    """an arbitrary distribution with the interface of scipy.stats: shape parameter a, location and scale"""
    def __init__(self, cont):
        self.__module__ = 'scipy.stats._distn'
        self.name = 'custom'
        self.shapes = 'a'
        if cont:
            self.pdf = lambda x, a, loc=0, scale=1: (x - loc) ** 2 / scale ** 2 + a ** 2 / scale + 1 / scale
        else:
            self.pmf = lambda x, a, loc=0: (x - loc) ** 2 + a ** 2 + 1


def _scipy(env, cont, n=2, fixed=False, swap=False, dictionary=False):
    d = env.real('d')
    names = ['a', 'loc', 'scale'] if cont else ['a', 'loc']
    free = names[:1] + names[2:] if fixed else list(names)
    if swap:
        free = free[::-1]
    kw = {}
    val = {}
    if fixed:
        val['loc'] = env.real('fixed')
        kw['fixedParameters'] = {'loc': val['loc']}
    ax = [[(env.pos if nm == 'scale' else env.real)('{}{}'.format(nm, j)) for j in range(2)] for nm in free]
    args = []
    for nm, a in zip(free, ax):
        args += [nm, env.array(a)]
    if dictionary:
        import warnings
        warnings.simplefilter('ignore')
        om = env.bl.om.SciPy(RV(cont), dict(zip(args[::2], args[1::2])), **kw)
    else:
        om = env.bl.om.SciPy(RV(cont), *args, **kw)
    env.assert_true('parameter names', list(om.parameterNames) == free)
    r = om.processedPdf(mesh(env, ax), env.array([d]))
    env.observe('density', r)
    want = []
    for p in points(ax):
        v = dict(val)
        v.update(zip(free, p))
        loc, s = v['loc'], v.get('scale', env.num(1))
        want.append((d - loc) * (d - loc) / (s * s) + v['a'] * v['a'] / s + 1 / s)
    env.assert_eq('density', r, nested(want, [2] * len(free)))


def _rv(dist):
    from sympy import Symbol, stats
    mu, s = Symbol('mu'), Symbol('s', positive=True)
    return dict(normal=lambda: stats.Normal('n', mu, s), normal0=lambda: stats.Normal('n', 3, s),
                laplace=lambda: stats.Laplace('n', mu, s), exponential=lambda: stats.Exponential('n', s))[dist]()


def _sympy(env, dist, n=2, swap=False):
    d = env.real('d')
    mus = [env.num(3)] if dist == 'normal0' else [env.real('mu0'), env.real('mu1')][:n]
    ss = [env.pos('s0'), env.pos('s1')]
    if dist == 'normal0':
        ax, args = [ss], ['s', env.array(ss)]
        get = lambda p: (env.num(3), p[0])
    elif swap:
        ax, args = [ss, mus], ['s', env.array(ss), 'mu', env.array(mus)]
        get = lambda p: (p[1], p[0])
    else:
        ax, args = [mus, ss], ['mu', env.array(mus), 's', env.array(ss)]
        get = lambda p: tuple(p)
    om = env.bl.om.SymPy(_rv(dist), *args, determineJeffreysPrior=False)
    r = om.processedPdf(mesh(env, ax), env.array([d]))
    env.observe('density', r)
    want = [density(env, 'laplace' if dist == 'laplace' else 'gaussian', d, get(p)) for p in points(ax)]
    env.assert_eq('density', r, nested(want, [len(a) for a in ax]))


def _sympyprior(env, n=2):
    """the default prior is the Jeffreys prior of the random variable"""
    ss = [env.pos('s0'), env.pos('s1')]
    env.assume(ss[0] < ss[1])
    d = env.real('d')
    S = env.bl.Study(silent=True)
    S.loadData(env.array([d]), silent=True)
    S.set(env.bl.om.SymPy(_rv('normal0'), 's', env.array(ss)), env.bl.tm.Static(), silent=True)
    S.fit(silent=True)
    L = [density(env, 'gaussian', d, (env.num(3), s)) for s in ss]
    env.observe('post', S.posteriorSequence)
    env.assert_eq('posterior', S.posteriorSequence[0], normalise([x / s for x, s in zip(L, ss)]),
                  known=('KF-g', normalise(L)))


def _analytic(env, dist, n=2):
    ss = [env.pos('s0'), env.pos('s1'), env.pos('s2')]
    sym, f = env.bl.jeffreys.getJeffreysPrior(_rv(dist))
    r = f(env.array(ss))
    env.observe('prior', r)
    env.assert_eq('prior', normalise(flatten(r)), normalise([1 / s for s in ss]))
