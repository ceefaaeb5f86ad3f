"""Data, segments and time stamps are aligned."""
from fractions import Fraction
import itertools
import numpy
from .spec import Grid, axes_for, make_prior, build_trans, timestamps, forward, backward, filtering, normalise, nested, \
    total, prod, tmul, resets, fnum, marginal
from .c25 import density, CLS, PARAMS, parameter, points

BOUNDS = ('1 or 2 parameters with 2 or 3 values, 1 to 7 data points, 1 to 5 data dimensions, segments of 1 to 5 data '
          'points; likelihoods, priors and data values are symbolic')
ASSUMPTIONS = ['likelihoods are positive']


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    for seg in (1, 2, 3):
        for D in (None, 1, 2, 3):
            if seg * (D or 1) > 6 and tier == 'quick':
                continue
            T = seg + (2 if (D or 1) < 3 and seg < 3 else 1)
            add('segments of {}, {} dimension(s)'.format(seg, D), seg=seg, D=D, T=T, shape=2, times='irregular')
            add('online, segments of {}, {} dimension(s)'.format(seg, D), seg=seg, D=D, T=T, shape=2, kind='online')
    add('two parameters', seg=2, D=2, T=3, shape=(2, 2), times='year', few=True)
    add('random walk', seg=2, D=2, T=4, shape=3, trans=('gauss', 0, '3/4'), few=True)
    add('change-point follows the time stamp of the last point', seg=2, D=None, T=5, shape=2, times='double', few=True,
        trans=('changepoint', 14))
    add('change-point, three points per segment', seg=3, D=None, T=5, shape=2, times='year', few=True,
        trans=('changepoint', 1854))
    add('no multiplication of likelihoods', seg=1, D=2, T=3, shape=2, mult=False)
    add('no multiplication, segments of two', seg=2, D=2, T=3, shape=2, mult=False)
    add('hyper-study', seg=2, D=2, T=3, shape=2, kind='hyper', few=True)
    add('change-point study', seg=2, D=None, T=4, shape=2, kind='cp', few=True, times='double')
    add('every point counted once', seg=1, D=None, T=5, shape=2, few=True)
    for m in ('gaussian', 'poisson', 'bernoulli', 'whitenoise', 'ar1', 'laplace'):
        add(m + ', two dimensions', seg=2 if m == 'ar1' else 1, D=2, model=m, kind='real')
    add('five dimensions', seg=1, D=5, T=2, shape=2, few=True)
    add('online, five dimensions', seg=1, D=5, T=2, shape=2, few=True, kind='online')
    add('segments of five', seg=5, D=None, T=7, shape=2, times='negative', few=True)
    add('online, segments of four', seg=4, D=2, T=6, shape=2, few=True, kind='online')
    add('lists are accepted', kind='lists', seg=1, D=None)
    add('lists, time stamps of different types', kind='mixed', seg=1, D=None)
    add('wrong number of time stamps', kind='stamps', seg=1, D=None)
    if tier == 'thorough':
        for seg, D in ((1, 2), (2, 2), (2, 3), (3, 2)):
            add('segments of {}, {} dimensions, longer'.format(seg, D), seg=seg, D=D, T=seg + 4, shape=3, few=True,
                times='irregular', trans=('gauss', 0, '1/2'))
            add('online, segments of {}, {} dimensions, longer'.format(seg, D), seg=seg, D=D, T=seg + 4, shape=3, few=True,
                kind='online', trans=('gauss', 0, '1/2'))
    return out


def table_class(env, grid, table, seg, mult=True):
    """observation model of a user: likelihood of a segment (tuple of data values) is a table entry"""
    bl = env.bl

    class Table(bl.observationModels.ObservationModel):
        def __init__(self, prior):
            self.name = 'table'
            self.segmentLength = seg
            self.multiplyLikelihoods = mult
            self.parameterNames = list(grid.names)
            self.parameterValues = [a for a in grid.args[1::2]]
            self.prior = prior

        def pdf(self, g, dataSegment):
            key = tuple(int(v) for v in numpy.ravel(numpy.array([[float(x) for x in numpy.ravel(r)] for r in dataSegment])))
            return grid.to_array(table[key])
    return Table


def rows(env, K, T, seg, D, mult, few):
    """data (T, D) of distinct integers; likelihood rows for every window; product over the dimensions"""
    data = numpy.arange(T * (D or 1)).reshape([T, D] if D else [T])
    table, L = {}, []
    for t in range(T - seg + 1):
        w = data[t:t + seg]
        cols = [tuple(int(v) for v in c) for c in w.T] if D and mult else [tuple(int(v) for v in w.ravel())]
        per = []
        for i, c in enumerate(cols):
            if few:
                row = [env.pos('L%d_%d_%d' % (t, i, k)) if (k + t + i) % K == 0 else
                       env.num(env.sample('L%d_%d_%d' % (t, i, k), Fraction(1, 5), 2)) for k in range(K)]
            else:
                row = [env.pos('L%d_%d_%d' % (t, i, k)) for k in range(K)]
            table[c] = row
            per.append(row)
        L.append(tmul(*per))
    return data, table, L


def harness(env, seg, D, T=3, shape=2, kind='fit', times=None, trans=('static',), few=False, mult=True, model=None):
    bl = env.bl
    if kind == 'real':
        return _real(env, model, D)
    if kind in ('lists', 'mixed', 'stamps'):
        return _forms(env, kind)
    grid = Grid(env, axes_for(shape))
    prior_arg, prior = make_prior(env, grid, 'array_few' if few else 'array')
    data, table, L = rows(env, grid.size, T, seg, D, mult, few)
    stamps = timestamps(times, T)
    used = stamps[seg - 1:]
    tr = build_trans(env, grid, prior, trans)
    om = table_class(env, grid, table, seg, mult)(prior_arg)
    n = len(L)
    nest = lambda p: nested(p, grid.shape)
    if kind == 'online':
        S = bl.OnlineStudy(storeHistory=True, silent=True)
        S.set(om, tr.build(), silent=True)
        f, norms = filtering(tr, prior, L, list(range(seg - 1, T)))
        cur = None
        for t in range(T):
            S.step(data[t] if D else int(data[t]))
            if t < seg - 1:
                env.assert_true('no result before the first complete segment', len(S.posteriorSequence) == 0)
                continue
            i = t - seg + 1
            cur = norms[i] if cur is None else cur * norms[i]
            env.assert_eq('distribution after point %d' % t, S.marginalizedPosterior, nest(f[i]))
            env.assert_log_eq('evidence after point %d' % t, S.logEvidence, cur)
            env.assert_eq('current mean', S.getCurrentParameterMeanValue(grid.names[0]),
                          total([x * p[0] for x, p in zip(f[i], grid.points)]))
        env.assert_true('time stamps', [int(x) for x in S.formattedTimestamps] == list(range(seg - 1, T)))
        env.observe('post', S.posteriorSequence)
        for i in range(n):
            env.assert_eq('distribution of time stamp', S.getParameterDistribution(i + seg - 1, grid.names[0],
                                                                                   density=False)[1], f[i])
        return
    if kind == 'hyper':
        v = [0.25, 0.75]
        S = bl.HyperStudy(silent=True)
        S.loadData(data, silent=True)
        S.set(om, bl.tm.GaussianRandomWalk('s', v, target=grid.names[0]), silent=True)
        S.fit(silent=True)
        ev, post = [], []
        for s in v:
            t = build_trans(env, grid, prior, ('gauss', 0, Fraction(s)))
            a, b = forward(t, prior, L, used), backward(t, prior, L, used)
            ev.append(total(a[-1]))
            post.append([normalise(tmul(x, y)) for x, y in zip(a, b)])
        z = total(ev)
        env.assert_log_eq('evidence', S.logEvidence, z / 2)
        for i in range(n):
            env.assert_eq('posterior', S.posteriorSequence[i],
                          [total([e * p[i][k] for e, p in zip(ev, post)]) / z for k in range(grid.size)])
        env.assert_true('time stamps', list(S.formattedTimestamps) == list(range(seg - 1, T)))
        return
    if kind == 'cp':
        S = bl.ChangepointStudy(silent=True)
        S.loadData(data, timestamps=stamps, silent=True)
        S.set(om, bl.tm.ChangePoint('t', 'all'), silent=True)
        S.fit(silent=True)
        d = S.getHyperParameterDistribution('t')
        env.assert_true('change-points are the time stamps of segments', [int(x) for x in d[0]] == used[:-1])
        ev = []
        for t in used[:-1]:
            a = forward(build_trans(env, grid, prior, ('changepoint', t)), prior, L, used)
            ev.append(total(a[-1]))
        env.assert_eq('distribution', d[1], normalise(ev))
        return
    S = bl.Study(silent=True)
    S.loadData(data, timestamps=None if times is None else stamps, silent=True)
    S.set(om, tr.build(), silent=True)
    S.fit(silent=True)
    a, b = forward(tr, prior, L, used), backward(tr, prior, L, used)
    post = [normalise(tmul(x, y)) for x, y in zip(a, b)]
    e = total(a[-1])
    env.assert_log_eq('evidence', S.logEvidence, e,
                      known=('KF-a', e * prod([grid.dV] * resets(tr, used), env.num(1))))
    env.observe('post', S.posteriorSequence)
    env.assert_true('number of results', len(S.posteriorSequence) == n and len(S.localEvidence) == n)
    env.assert_true('time stamps', [int(x) for x in S.formattedTimestamps] == used)
    for i, t in enumerate(used):
        env.assert_eq('posterior %d' % i, S.posteriorSequence[i], nest(post[i]))
        x, p = S.getParameterDistribution(t, grid.names[0], density=False)
        m = post[i]
        if len(grid.shape) > 1:
            m = [total(post[i][j * grid.shape[1]:(j + 1) * grid.shape[1]]) for j in range(grid.shape[0])]
        env.assert_eq('distribution of time stamp', p, m)
        env.assert_eq('values', x, grid.values[0])
    avg = [total([p[k] for p in post]) / n for k in range(grid.size)]
    env.assert_eq('time average', S.getParameterDistribution('avg', grid.names[0], density=False)[1], marginal(avg, grid.shape, 0))
    env.assert_eq('distributions', S.getParameterDistributions(grid.names[0], density=False)[1], [marginal(p, grid.shape, 0) for p in post])
    env.assert_eq('mean values', S.getParameterMeanValues(grid.names[-1]),
                  [total([x * p[-1] for x, p in zip(q, grid.points)]) for q in post])
    for t in stamps[:seg - 1]:
        try:
            S.getParameterDistribution(t, grid.names[0])
        except bl.exceptions.PostProcessingError:
            continue
        env.assert_true('no result for the time stamp of an incomplete segment', False)


def _real(env, model, D):
    bl = env.bl
    ax = []
    for i, k in enumerate(PARAMS[model]):
        a = [parameter(env, k, 'th%d0' % i), env.num(Fraction(7, 8))]
        env.assume(a[0] < a[1])
        ax.append(a)
    args = []
    for i, a in enumerate(ax):
        args += ['th%d' % i, env.array(a)]
    om = getattr(bl.om, CLS[model])(*args, prior=None)
    T = 2
    if model in ('poisson', 'bernoulli'):
        vals = [[2, 0], [1, 3]] if model == 'poisson' else [[1, 0], [1, 1]]
        data = numpy.array(vals)
        obs = vals
    elif model == 'ar1':
        v = [[env.real('d%d_%d' % (t, j)) for j in range(D)] for t in range(T)]
        data = env.array(v)
        obs = [[[v[0][j], v[1][j]] for j in range(D)]]
    else:
        v = [[env.real('d0_0'), env.num(Fraction(1, 3))], [env.num(Fraction(1, 5)), env.num(Fraction(1, 2))]]
        data = env.array(v)
        obs = v
    S = bl.Study(silent=True)
    S.loadData(data, silent=True)
    S.set(om, bl.tm.Static(), silent=True)
    S.fit(silent=True, forwardOnly=True)
    pts = points(ax)
    cur = [env.num(1)] * len(pts)
    for t, row in enumerate(obs):
        for o in row:
            cur = [x * density(env, model, o, p) for x, p in zip(cur, pts)]
        env.assert_eq('posterior of step %d' % t, S.posteriorSequence[t], nested(normalise(cur), [len(a) for a in ax]))
    env.observe('post', S.posteriorSequence)
    env.assert_log_eq('evidence', S.logEvidence, total(cur) / len(pts))


def _forms(env, kind):
    """lists are converted; a wrong number of time stamps is replaced by consecutive numbers"""
    bl = env.bl
    d = [env.real('d0'), env.real('d1')]
    ax = [env.real('m0'), env.real('m1')]
    env.assume(ax[0] < ax[1])
    out = []
    for j in range(2):
        S = bl.Study(silent=True)
        if kind in ('lists', 'mixed'):
            S.loadData(env.array(d) if j else list(d), timestamps=[4, 7] if kind == 'lists' else [4, 7.5], silent=True)
        else:
            S.loadData(env.array(d), timestamps=[4, 5, 6] if j else None, silent=True)
        S.set(bl.om.NumPy(lambda data, x: (x - data) ** 2 + 1, 'x', env.array(ax)), bl.tm.Static(), silent=True)
        S.fit(silent=True)
        out.append(S)
    w = [prod([(x - v) * (x - v) + 1 for v in d]) for x in ax]
    for S in out:
        env.assert_eq('posterior', S.posteriorSequence, [normalise(w)] * 2)
        env.assert_log_eq('evidence', S.logEvidence, total(w) / 2)
        want = {'lists': [4, 7], 'mixed': [4, 7.5], 'stamps': [0, 1]}[kind]
        env.assert_true('time stamps', [float(x) for x in S.formattedTimestamps] == want)
        env.assert_eq('distribution of the last time stamp', S.getParameterDistribution(want[1], 'x', density=False)[1], normalise(w))
    env.observe('post', out[0].posteriorSequence)
