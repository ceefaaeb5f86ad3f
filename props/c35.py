"""Without given parameter values, the built-in models choose an equally spaced grid from the observed data."""
import numpy
from .spec import total

BOUNDS = ('data sets of 2 to 4 points (one or two dimensions) with arbitrary real values, every set of missing values '
          'listed; grids of 200 or 1000 values; fits of Bernoulli and Poisson data for all listed data sets')
ASSUMPTIONS = ['the data are not degenerate: at least two different values (Poisson: at least one positive value)']

# kind -> list of (parameter, interval, ends included); m, s: mean and standard deviation of the data
MODELS = {'Bernoulli': [('unit', False)], 'Poisson': [('rate', False)], 'Gaussian': [('mean', True), ('std', False)],
          'Laplace': [('mean', True), ('scale', False)], 'GaussianMean': [('range', False)], 'WhiteNoise': [('std', False)],
          'AR1': [('corr', False), ('std', False)], 'ScaledAR1': [('corr', False), ('std', False)]}


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    T = 3 if tier == 'quick' else 4
    for m in sorted(MODELS):
        add('{}'.format(m), model=m, T=T)
        add('{}, missing value'.format(m), model=m, T=4, missing=[1])
        if m not in ('GaussianMean', 'Bernoulli'):
            add('{}, two dimensions'.format(m), model=m, T=2, D=2, missing=[])
            add('{}, two dimensions, one value missing'.format(m), model=m, T=2, D=2, missing=[2])
    add('fit of Bernoulli data', fit='Bernoulli', T=3)
    add('fit of Poisson data', fit='Poisson', T=2)
    add('given values are kept', model='Gaussian', T=3, given=0)
    add('given values are kept, second parameter', model='AR1', T=3, given=1)
    return out


def interval(env, kind, data):
    if kind == 'unit':
        return env.num(0), env.num(1)
    if kind == 'corr':
        return env.num(-1), env.num(1)
    if kind == 'rate':
        return env.num(0), env.maximum(data) * env.num(1.25)
    if kind == 'range':
        hi, lo = env.maximum(data), -env.maximum([-d for d in data])
        return lo - (hi - lo), hi + (hi - lo)
    n = env.num(len(data))
    mean = total(data) / n
    std = env.sqrt(total([(d - mean) * (d - mean) for d in data]) / n)
    if kind == 'std':
        return env.num(0), std * env.num(2)
    if kind == 'scale':
        return env.num(0), std * env.sqrt(env.num(2))
    return mean - std * env.num(2), mean + std * env.num(2)


def fit(env, model, T):
    """default values, default prior: the documented model applies to the chosen values (equally spaced subset with both ends)"""
    values = [[0, 1], [0, 1, 3]][model == 'Poisson']
    data = [values[env.choice('d%d' % t, len(values))] for t in range(T)]
    if model == 'Poisson':
        env.assume(max(data) > 0)
    S = env.bl.Study(silent=True)
    S.loadData(numpy.array(data), silent=True)
    S.setObservationModel(getattr(env.bl.om, model)('a'), silent=True)
    v = list(S.marginalGrid[0])
    K = len(v)
    n = next(n for n in (3, 4, 5, 7, 9, K - 1) if (K - 1) % n == 0)
    pick = [i * (K - 1) // n for i in range(n + 1)]
    S.set(getattr(env.bl.om, model)('a', env.array([v[i] for i in pick])), env.bl.tm.Static(), silent=True)
    S.fit(silent=True)
    one = env.num(1)
    hi = one if model == 'Bernoulli' else env.num(1.25) * env.num(max(data))
    x = [hi * env.num(i + 1) / env.num(K + 1) for i in pick]
    w = [one / env.sqrt(u * (one - u)) if model == 'Bernoulli' else one / env.sqrt(u) for u in x]
    z = total(w)
    for d in data:
        for i, u in enumerate(x):
            if model == 'Bernoulli':
                w[i] = w[i] * (u if d else one - u)
            else:
                w[i] = w[i] * env.exp(-u)
                for _ in range(d):
                    w[i] = w[i] * u
                w[i] = w[i] / env.num({0: 1, 1: 1, 3: 6}[d])
    env.observe('evidence', S.logEvidence)
    env.assert_log_eq('evidence', S.logEvidence, total(w) / z)
    env.assert_eq('mean value', S.getParameterMeanValues('a')[-1], total([a * u for a, u in zip(w, x)]) / total(w))


def harness(env, model=None, T=3, D=1, missing=(), given=None, fit=None):
    if fit:
        return globals()['fit'](env, fit, T)
    d = []
    for i in range(T * D):
        if model == 'Bernoulli':
            d.append(env.num(i % 2))
        elif model == 'Poisson':
            d.append(env.real('d%d' % i, lo=0, hi=9))
        else:
            d.append(env.real('d%d' % i, lo=-5, hi=5))
    used = [v for i, v in enumerate(d) if i not in missing]
    if model != 'Bernoulli':
        env.assume(used[0] > used[1] + env.num(0.125))
    full = [float('nan') if i in missing else v for i, v in enumerate(d)]
    if model == 'GaussianMean':
        rows = [[v, env.real('e%d' % i, lo=1, hi=2)] for i, v in enumerate(full)]
    else:
        rows = full if D == 1 else [full[i * D:(i + 1) * D] for i in range(T)]
    S = env.bl.Study(silent=True)
    S.loadData(env.array(rows), silent=True)
    names = ['a', 'b'][:len(MODELS[model])]
    args, own = [], [2., 3., 4.]
    for i, n in enumerate(names):
        args += [n, env.array([env.num(v) for v in own]) if given == i else None]
    S.setObservationModel(getattr(env.bl.om, model)(*args), silent=True)
    for i, (n, (kind, closed)) in enumerate(zip(names, MODELS[model])):
        v = list(S.marginalGrid[i])
        if given == i:
            env.assert_eq('given values of ' + n, v, [env.num(x) for x in own])
            env.assert_eq('spacing of ' + n, S.latticeConstant[i], env.num(1))
            continue
        lo, hi = interval(env, kind, used)
        K = len(v)
        env.assert_true('many values of ' + n, K >= 100)
        env.observe('values of ' + n, [v[0], v[-1]])
        step = (hi - lo) / env.num(K - 1 if closed else K + 1)
        o = 0 if closed else 1
        for j in sorted(set([0, 1, 2, 3, 7, K // 3, K // 2, K - 4, K - 3, K - 2, K - 1])):
            env.assert_eq('value {} of {}'.format(j, n), v[j], lo + step * env.num(j + o), scale=1)
        env.assert_eq('spacing of ' + n, S.latticeConstant[i], step, scale=1)
        env.assert_eq('size of the grid', env.num(S.grid[i].shape[i]), env.num(K))
