"""Plots show the values that the corresponding functions return."""
import numpy
from .spec import Case, HyperAxis, hyper_model, table_model
from .c07 import freeze

BOUNDS = ('studies of all types, one or two parameters with 2 to 4 values, 2 to 4 time steps, regular and irregular values and time stamps; '
          'the listed plots; all likelihoods. Not covered: colours, the image as rendered by matplotlib')
TINY = 1e-15
ASSUMPTIONS = ['factors below 1e-15 (probabilities that are left out of images) are treated as zero', 'matplotlib displays the arrays that are passed to fill_between, bar, bar3d, imshow and plot']


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    add('study', kind='study', T=3)
    add('study, offset', kind='study', shape=4, T=2, times='offset', pattern=3)
    add('study, two parameters', kind='study', shape=(2, 3), T=2, pattern=3, times='year')
    add('study, irregular times', kind='study', shape=3, T=3, times='irregular', pattern=2)
    add('study, forward-only', kind='forward', shape=3, T=3, pattern=2)
    add('single time step', kind='study', shape=3, T=1)
    for v, n in (([['1/4', '3/4', '5/4'], [1, 2]], 'regular'), ([['1/4', '3/4', 2], [1, 2]], 'first irregular'), ([[1, 2], ['1/4', '1/2', 2]], 'second irregular')):
        add('hyper-study, ' + n, kind='hyper', shape=2, T=2, pattern=2, values=v)
    add('change-point study', kind='cp', shape=2, T=4, pattern=3)
    add('online study', kind='online', shape=3, T=3, pattern=2)
    add('online study, two parameters', kind='online', shape=(2, 3), T=2, pattern=4)
    add('online study without history', kind='online', shape=3, T=3, pattern=2, history=False)
    add('segments of two', kind='study', shape=3, T=3, seg=2, pattern=3)
    if tier == 'thorough':
        add('study, three parameters', kind='study', shape=(2, 2, 2), T=3, pattern=2)
        add('longer study', kind='study', shape=5, T=5, pattern=2, times='double')
        add('longer online study', kind='online', shape=4, T=4, pattern=3)
    return out


class Shown(object):
    def __init__(self, env, label, items):
        self.env, self.label, self.items = env, label, items

    def get(self, kind):
        d = [i for i in self.items if i['kind'] == kind]
        self.env.assert_true('{}: one {}'.format(self.label, kind), len(d) == 1)
        return d[0] if d else None

    def only(self, *kinds):
        self.env.assert_true('{}: shows {}'.format(self.label, ', '.join(kinds)),
                             sorted(i['kind'] for i in self.items if i['kind'] in ('area', 'bars', 'image', 'line', 'bars3d')) == sorted(kinds))

    def eq(self, what, a, b):
        self.env.assert_eq('{}: {}'.format(self.label, what), a, b)

    def text(self, kind, expected):
        d = [i for i in self.items if i['kind'] == kind]
        if d and expected is not None:
            self.env.assert_true('{}: {}'.format(self.label, kind), len(d) == 1 and str(d[0]['text']) == expected)

    def area(self, name, dist, density=None):
        self.only('area')
        d = self.get('area')
        if d:
            self.eq('values', d['x'], dist[0])
            self.eq('probabilities', d['y'], dist[1])
        self.text('xlabel', name)
        if density is not None:
            self.text('ylabel', 'probability density' if density else 'probability')

    def bars(self, name, dist, width=None):
        self.only('bars')
        d = self.get('bars')
        if d is None:
            return
        self.eq('probabilities', d['y'], dist[1])
        t = [i for i in self.items if i['kind'] == 'xticks']
        if t:
            # labelled categories
            self.eq('positions of labels', t[0]['ticks'], d['x'])
            self.eq('labels', t[0]['labels'], dist[0])
        else:
            self.eq('values', d['x'], dist[0])
            if width is not None:
                self.eq('width', d['width'], width)
        self.text('xlabel', name)

    def image(self, times, values, seq, gamma=1, means=None, name=None):
        self.only(*(['image'] + (['line'] if means is not None else [])))
        d = self.get('image')
        if d:
            env = self.env
            z = freeze(d['z'])
            env.assert_true(self.label + ': size of the image', len(z) == len(values) and all(len(r) == len(times) for r in z))
            for j, r in enumerate(z):
                for t, v in enumerate(r):
                    p = freeze(seq)[t][j]
                    if gamma == 1:
                        # very small probabilities may be left out
                        env.assert_le('{}: image, time {}, value {}'.format(self.label, t, j), v, p + env.num('1/1000000000'))
                        env.assert_le('{}: image, time {}, value {} (lower)'.format(self.label, t, j), p - env.num('1/1000000000'), v)
                    else:
                        env.assert_le('{}: image, time {}, value {}'.format(self.label, t, j), v * v, p + env.num('1/1000000000'))
                        env.assert_le('{}: image, time {}, value {} (lower)'.format(self.label, t, j), p - env.num('1/1000000000'), v * v)
            self.eq('range of the image', list(d['extent']), [times[0], times[-1], values[0], values[-1]])
        if means is not None:
            d = self.get('line')
            if d:
                self.eq('times of the line', d['x'], times)
                self.eq('mean values', d['y'], means)
        self.text('ylabel', name)

    def line(self, times, values):
        self.only('line')
        d = self.get('line')
        if d:
            self.eq('times', d['x'], times)
            self.eq('values', d['y'], values)


def parameters(env, S, c, see, current=False):
    names = c.grid.names
    times = [env.num(t) for t in c.times] if c.times is not None else list(range(c.T))
    for n in names:
        for dens in (True, False):
            for t in (c.times if c.T < 3 else [c.times[0], c.times[-1]]):
                ref = S.getParameterDistribution(t, n, density=dens)
                ref = [freeze(r) for r in ref]
                see('distribution of {} at {}'.format(n, t), lambda: S.getParameterDistribution(t, n, plot=True, density=dens)).area(n, ref, dens)
                see('plot of {} at {}'.format(n, t), lambda: S.plot(n, t=t, density=dens)).area(n, ref, dens)
            if not current:
                ref = [freeze(r) for r in S.getParameterDistribution('avg', n, density=dens)]
                see('average distribution of ' + n, lambda: S.getParameterDistribution('avg', n, plot=True, density=dens)).area(n, ref, dens)
            ref = [freeze(r) for r in S.getParameterDistributions(n, density=dens)]
            see('distributions of ' + n, lambda: S.getParameterDistributions(n, plot=True, density=dens)).image(times, ref[0], ref[1])
        ref = [freeze(r) for r in S.getParameterDistributions(n, density=False)]
        means = freeze(S.getParameterMeanValues(n))
        see('plot of ' + n, lambda: S.plot(n, gamma=1)).image(times, ref[0], ref[1], 1, means, n)
        see('evolution of ' + n, lambda: S.plotParameterEvolution(n, gamma=1, color='r')).image(times, ref[0], ref[1], 1, means, n)
        see('evolution of {}, usual form'.format(n), lambda: S.plot(n, color='g', lw=2)).image(times, ref[0], ref[1], 0.5, means, n)


def harness(env, kind, values=None, history=True, **k):
    bl = env.bl
    c = Case(env, **k)

    def see(label, f):
        return Shown(env, label, env.drawn(f))
    if kind == 'online':
        S = bl.OnlineStudy(storeHistory=history, silent=True)
        S.set(c.model(), silent=True)
        S.addTransitionModel('walk', bl.tm.CombinedTransitionModel(bl.tm.GaussianRandomWalk('s', [1., 0.5, 1.5], target='x'), bl.tm.GaussianRandomWalk('v', [1., 2.], target='x')))
        S.addTransitionModel('static', bl.tm.Static())
        S.addTransitionModel('other', bl.tm.GaussianRandomWalk('u', [0.5, 1., 3.], target='x'))
        for t in range(c.T):
            S.step(t)
        times = list(range(c.T))
        c.times = times
        for n in c.grid.names:
            for dens in (True, False):
                ref = [freeze(r) for r in S.getCurrentParameterDistribution(n, density=dens)]
                see('current distribution of ' + n, lambda: S.getCurrentParameterDistribution(n, plot=True, density=dens)).area(n, ref, dens)
                if not history:
                    see('plot of ' + n, lambda: S.plot(n, density=dens)).area(n, ref, dens)
        for n in ('s', 'v', 'u'):
            ref = [freeze(r) for r in S.getCurrentHyperParameterDistribution(n)]
            see('current distribution of ' + n, lambda: S.getCurrentHyperParameterDistribution(n, plot=True)).bars(n, ref)
            if not history:
                see('plot of ' + n, lambda: S.plot(n)).bars(n, ref)
            else:
                for t in times:
                    ref = [freeze(r) for r in S.getHyperParameterDistribution(t, n)]
                    see('distribution of {} at {}'.format(n, t), lambda: S.getHyperParameterDistribution(t, n, plot=True)).bars(n, ref)
                    see('plot of {} at {}'.format(n, t), lambda: S.plot(n, t=t)).bars(n, ref)
                ref = [freeze(r) for r in S.getHyperParameterDistributions(n)]
                means = freeze(S.getHyperParameterMeanValues(n))
                see('plot of ' + n, lambda: S.plot(n, gamma=1)).image(times, ref[0], ref[1], 1, means, n)
                see('evolution of ' + n, lambda: S.plotHyperParameterEvolution(n, gamma=1)).image(times, ref[0], ref[1], 1, means, n)
        if history:
            parameters(env, S, c, see, current=True)
            for m in ('walk', 'static', 'other'):
                for local in (False, True):
                    see('probabilities of {}, local={}'.format(m, local), lambda: S.plot(m, local=local)).line(
                        times, freeze(S.getTransitionModelProbabilities(m, local=local)))
        env.observe('evidence', S.logEvidence)
        return
    if kind in ('study', 'forward'):
        S = c.study()
        S.fit(silent=True, forwardOnly=kind == 'forward')
        parameters(env, S, c, see)
        env.observe('evidence', S.logEvidence)
        return
    S = {'hyper': bl.HyperStudy, 'cp': bl.ChangepointStudy}[kind](silent=True)
    S.loadData(c.data, silent=True)
    if kind == 'hyper':
        axes = [HyperAxis(env, n, v) for n, v in zip(('s', 'u'), values)]
        tm = bl.tm.CombinedTransitionModel(bl.tm.GaussianRandomWalk('s', axes[0].floats, target='x'), bl.tm.GaussianRandomWalk('u', axes[1].floats, target='x'))
    else:
        axes = [HyperAxis(env, 'c', [0, 1, 2]), HyperAxis(env, 'd', [0, 1, 2])]
        tm = hyper_model(env, 'cp2_all', axes)[0]
    S.set(c.model(), tm, silent=True)
    S.fit(silent=True)
    names = [a.name for a in axes]
    for n in names:
        ref = [freeze(r) for r in S.getHyperParameterDistribution(n)]
        see('distribution of ' + n, lambda: S.getHyperParameterDistribution(n, plot=True)).bars(n, ref)
        see('plot of ' + n, lambda: S.plot(n)).bars(n, ref)
    for pair in (names, names[::-1]):
        a, b, p = [freeze(r) for r in S.getJointHyperParameterDistribution(pair)]
        shown = see('joint distribution of {} and {}'.format(*pair), lambda: S.getJointHyperParameterDistribution(pair, plot=True))
        shown.only('bars3d')
        d = shown.get('bars3d')
        if d is None:
            continue
        # one of the hyper-parameters on each axis, as the labels tell
        labels = [str(i['text']) for i in shown.items if i['kind'] in ('xlabel', 'ylabel')]
        env.assert_true('labels of the joint distribution', sorted(labels) == sorted(pair))
        xs, ys, zs = freeze(d['x']), freeze(d['y']), freeze(d['z'])
        ticks = {i['kind']: freeze(i['labels']) for i in shown.items if i['kind'] in ('xticks', 'yticks')}
        first = dict(zip(pair, (a, b)))[labels[0]]
        second = dict(zip(pair, (a, b)))[labels[1]]
        swapped = labels[0] != pair[0]
        env.assert_true('number of bars', len(zs) == len(first) * len(second))
        for lab, kind_, vals in (('x', 'xticks', first), ('y', 'yticks', second)):
            if kind_ in ticks:
                shown.eq('labels of axis ' + lab, ticks[kind_], vals)
        i = 0
        for j, u in enumerate(first):
            for m, v in enumerate(second):
                shown.eq('bar {}, {}'.format(j, m), [xs[i], ys[i]], [j if 'xticks' in ticks else u, m if 'yticks' in ticks else v])
                shown.eq('height {}, {}'.format(j, m), zs[i], p[m][j] if swapped else p[j][m])
                i += 1
        shown.eq('lower end', d['base'], [0] * len(zs))
    if kind == 'cp':
        for pair in (names, names[::-1]):
            ref = [freeze(r) for r in S.getDurationDistribution(pair)]
            see('durations', lambda: S.getDurationDistribution(pair, plot=True)).bars(None, ref)
    for n in c.grid.names:
        ref = [freeze(r) for r in S.getParameterDistribution(1, n)]
        see('plot of {} at a time'.format(n), lambda: S.plot(n, t=1)).area(n, ref, True)
        ref = [freeze(r) for r in S.getParameterDistributions(n, density=False)]
        see('plot of ' + n, lambda: S.plot(n, gamma=1)).image(list(range(c.T)), ref[0], ref[1], 1, freeze(S.getParameterMeanValues(n)), n)
    env.observe('evidence', S.logEvidence)
