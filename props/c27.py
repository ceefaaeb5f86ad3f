"""Parameter grids and priors are interpreted alike in every form."""
import itertools
from fractions import Fraction
import numpy
from .spec import Grid, axes_for, likelihoods, table_model, total, prod, nested, normalise, flatten, AX3

BOUNDS = ('intervals with 1 to 6 values and arbitrary (symbolic) ends in either order; grids of 2 to 6 values and one to three parameters; '
          'two time steps with symbolic likelihoods; prior values symbolic for arrays and functions')


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    add('intervals', kind='interval', n=6 if tier == 'quick' else 12)
    add('intervals, ends in any order', kind='interval', n=6 if tier == 'quick' else 12, form='any')
    for form in ('array', 'list', 'tuple', 'ints', 'cint', 'oint', 'irregular', 'descending'):
        add('grid given as ' + form, kind='grid', form=form)
    add('grid of two parameters', kind='grid', form='two')
    add('grid of three parameters', kind='grid', form='three')
    for shape in (3, (2, 3), (2, 2, 2), 'desc', 'irregular', 'irregular 2'):
        n = '{}'.format(shape)
        for form in ('array', 'scaled array', 'integer array', 'function', 'scaled function', 'named function'):
            add('prior {} {}'.format(form, n), kind='prior', shape=shape, form=form)
        add('prior constant function ' + n, kind='prior', shape=shape, form='constant function')
        add('no prior ' + n, kind='prior', shape=shape, form='none')
    add('prior random variable', kind='rv', shape=3, rvs=['exp'])
    add('prior random variable in a list', kind='rv', shape=3, rvs=['exp'], form='list')
    add('prior normal random variable', kind='rv', shape=4, rvs=['normal'])
    add('prior two random variables', kind='rv', shape=(2, 3), rvs=['exp', 'normal'], form='list')
    add('prior two random variables, other order', kind='rv', shape=(2, 3), rvs=['normal', 'exp'], form='tuple')
    add('prior three random variables', kind='rv', shape=(2, 2, 2), rvs=['uniform', 'exp', 'normal'], form='list')
    for form in ('sympy', 'scipy'):
        add(form + ' model, parameters given as dictionary', kind='dictionary', form=form)
    if tier == 'thorough':
        add('prior function (4, 3)', kind='prior', shape=(4, 3), form='function')
        add('prior array (4, 3)', kind='prior', shape=(4, 3), form='array')
    return out


def rv(env, kind, name):
    """random variable, its density"""
    import sympy.stats as st
    if kind == 'exp':
        return st.Exponential(name, 2), lambda x: 2 * env.exp(-2 * x) if env.is_true(x >= 0) else env.num(0)
    if kind == 'normal':
        return st.Normal(name, 1, 2), lambda x: env.exp(-(x - 1) * (x - 1) / 8) / (env.sqrt(2 * env.pi) * 2)
    return st.Uniform(name, -1, 7), lambda x: env.num(Fraction(1, 8))


def results(env, S, L, shape, w, evidence_weights=None):
    """compares with the exact results for prior probabilities w (not necessarily normalised if densities are given)"""
    for mode in ('full', 'forward'):
        S.fit(silent=True, forwardOnly=mode == 'forward')
        un = w
        posts = []
        for row in L:
            un = [a * b for a, b in zip(un, row)]
            posts.append(normalise(un))
        if mode == 'full':
            posts = [posts[-1]] * len(L)
        env.observe('post', S.posteriorSequence)
        env.assert_eq('distributions ({})'.format(mode), S.posteriorSequence, [nested(p, shape) for p in posts])
        env.assert_log_eq('evidence ({})'.format(mode), S.logEvidence, total(un) / (total(w) if evidence_weights is None else env.num(1)))


def harness(env, kind, form=None, shape=3, n=6, rvs=None):
    bl = env.bl
    if kind == 'interval':
        a, d = env.real('a'), env.real('d') if form == 'any' else env.pos('d')
        b = a + d
        for k in range(1, n + 1):
            r = bl.oint(a, b, k)
            env.observe('oint', r)
            env.assert_eq('open interval with {} values'.format(k), r, [a + d * env.num(Fraction(i, k + 1)) for i in range(1, k + 1)])
            if k > 1:
                r = bl.cint(a, b, k)
                env.assert_eq('closed interval with {} values'.format(k), r, [a + d * env.num(Fraction(i, k - 1)) for i in range(k)])
        return
    if kind == 'dictionary':
        return _dictionary(env, form)
    if kind == 'grid':
        v = {'array': [0., .5, 1.], 'list': [0., .5, 1.], 'tuple': [0., .5, 1.], 'ints': [1, 3, 5], 'irregular': [0., 1., 4.],
             'descending': [2., 1., 0.], 'cint': [0., .5, 1.], 'oint': [.5, 1., 1.5]}.get(form)
        if form in ('two', 'three'):
            vals = [[0., 3.], [1., 1.5, 2.], [-2., 2.]][:2 if form == 'two' else 3]
            args = [bl.cint(0, 3, 2), [1., 1.5, 2.], numpy.array([-2, 2])][:len(vals)]
        else:
            vals = [v]
            args = [{'array': lambda: numpy.array(v), 'list': lambda: list(v), 'tuple': lambda: tuple(v),
                     'ints': lambda: numpy.array(v), 'irregular': lambda: numpy.array(v), 'descending': lambda: numpy.array(v),
                     'cint': lambda: bl.cint(0, 1, 3), 'oint': lambda: bl.oint(0, 2, 3)}[form]()]
        names = ['x', 'y', 'z'][:len(vals)]
        shape = [len(x) for x in vals]
        pts = list(itertools.product(*vals))
        L = likelihoods(env, 2, len(pts))
        w = [env.pos('w%d' % k) for k in range(len(pts))]
        arrays = [env.array(nested(r, shape)) for r in L]
        got = []

        def lik(data, *grid):
            got.append([[float(x) for x in flatten(g)] for g in grid])
            return arrays[int(data)].copy()
        pargs = []
        for nm, a in zip(names, args):
            pargs += [nm, a]
        f = {1: lambda data, x: lik(data, x), 2: lambda data, x, y: lik(data, x, y), 3: lambda data, x, y, z: lik(data, x, y, z)}[len(vals)]
        S = bl.Study(silent=True)
        S.loadData(numpy.arange(2), silent=True)
        S.set(bl.om.NumPy(f, *pargs, prior=env.array(nested(w, shape))), bl.tm.Static(), silent=True)
        results(env, S, L, shape, w)
        post = normalise([a * b * c for a, b, c in zip(w, L[0], L[1])])
        S.fit(silent=True)
        for i, nm in enumerate(names):
            x, p = S.getParameterDistribution(0, nm, density=False)
            env.assert_eq('values of ' + nm, x, [env.num(Fraction(q)) for q in vals[i]])
            env.assert_eq('mean of ' + nm, S.getParameterMeanValues(nm)[0], total([q * env.num(Fraction(pt[i])) for q, pt in zip(post, pts)]))
            d = numpy.diff(vals[i])
            step = abs(d[0]) if (abs(d - d[0]) < 1e-9).all() else 1.
            for dens in (False, True):
                x, q = S.getParameterDistributions(nm, density=dens)
                env.assert_eq('values of ' + nm + ' (all times)', x, [env.num(Fraction(q)) for q in vals[i]])
                env.assert_eq('distributions of {}, density={}'.format(nm, dens), q, [[y / (env.num(Fraction(float(step))) if dens else 1) for y in p]] * 2)
            env.assert_eq('density of ' + nm, S.getParameterDistribution(0, nm, density=True)[1], [q / env.num(Fraction(float(step))) for q in p])
        env.assert_true('likelihood is evaluated on the complete grid',
                        got and all(list(zip(*g)) == [tuple(float(v) for v in p) for p in pts] for g in got))
        return
    g = Grid(env, axes_for(shape))
    K = g.size
    L = likelihoods(env, 2, K, pattern='all' if K <= 4 else 2)
    S = bl.Study(silent=True)
    S.loadData(numpy.arange(2), silent=True)
    if kind == 'rv':
        pairs = [rv(env, k, 'v%d' % i) for i, k in enumerate(rvs)]
        arg = [p[0] for p in pairs]
        arg = arg[0] if form is None else (tuple(arg) if form == 'tuple' else arg)
        w = [prod([p[1](x) for p, x in zip(pairs, pt)], env.num(1)) * g.dV for pt in g.points]
        S.set(table_model(env, g, L, arg), bl.tm.Static(), silent=True)
        return results(env, S, L, g.shape, w, evidence_weights=1)
    c = env.pos('c')
    if form in ('array', 'scaled array', 'integer array'):
        if form == 'integer array':
            w = [env.num(k + 1) for k in range(K)]
            # (an array of integers for the real package)
            arg = g.to_array(w) if env.symbolic else numpy.array(range(1, K + 1)).reshape(g.shape)
        else:
            w = [env.pos('w%d' % k) for k in range(K)]
            arg = g.to_array([x * c for x in w] if form.startswith('scaled') else w)
    elif form in ('function', 'scaled function', 'named function'):
        s = env.pos('s') if form.startswith('scaled') else env.num(1)
        fl = {1: lambda x: s * (c + x * x), 2: lambda x, y: s * (c + x * x + 2 * y), 3: lambda x, y, z: s * (c + x * x + 2 * y + z * z)}
        arg = fl[len(g.shape)]
        if form.startswith('named'):
            inner = arg

            def named(*a):
                return inner(*a)
            arg = named
        w = [c + total([pt[0] * pt[0]] + ([2 * pt[1]] if len(pt) > 1 else []) + ([pt[2] * pt[2]] if len(pt) > 2 else [])) for pt in g.points]
    else:
        arg = None if form == 'none' else (lambda *a: 3.)
        w = [env.num(1)] * K
    S.set(table_model(env, g, L, arg), bl.tm.Static(), silent=True)
    results(env, S, L, g.shape, w)


def _dictionary(env, form):
    """names and values of parameters in a dictionary: same results as names and values one after the other"""
    import warnings
    from .c25 import RV, _rv
    warnings.simplefilter('ignore')
    bl = env.bl
    data = env.array([env.real('d0'), env.real('d1')])
    names, kw = (['mu', 's'], dict(determineJeffreysPrior=False)) if form == 'sympy' else \
        (['a', 'scale'], dict(fixedParameters={'loc': 0.}))
    make = (lambda *a: bl.om.SymPy(_rv('normal'), *a, **kw)) if form == 'sympy' else (lambda *a: bl.om.SciPy(RV(True), *a, **kw))
    vals = [[0., 1.], [1., 2.]]
    for target in names:
        res = []
        for k in range(2):
            v = [numpy.array(x) for x in vals]
            om = make(dict(zip(names, v))) if k else make(names[0], v[0], names[1], v[1])
            S = bl.Study(silent=True)
            S.loadData(data, silent=True)
            S.set(om, bl.tm.GaussianRandomWalk('sigma', 0.5, target=target), silent=True)
            S.fit(silent=True)
            env.observe('post', S.posteriorSequence)
            res.append([S.posteriorSequence, env.exp(S.logEvidence)] + [S.getParameterDistribution(0, n)[1] for n in names] +
                       [S.getParameterMeanValues(n) for n in names])
            env.assert_true('parameter names', list(S.observationModel.parameterNames) == names)
        for x, y in zip(*res):
            env.assert_eq('same result, target ' + target, y, x)
