"""Duration distributions follow from the joint distribution of two change-points."""
from fractions import Fraction
import numpy
from .spec import Case, HyperAxis, HyperCase, hyper_model, table_model, total

BOUNDS = 'one parameter with 2 or 3 values, 4 to 6 time steps, two or three change- or break-points'


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    v = [0, 1, 2]
    add('change-points, all', kind='cp2_all', axes=[('c', v), ('d', v)], T=4, pattern=2)
    add('break-points, all', kind='serial2_all', axes=[('c', v), ('d', v)], T=4, pattern=2)
    add('lists and priors', kind='cp2', axes=[('c', [0, 2], 'list'), ('d', [1, 3, 5], 'list')], T=6, pattern=7)
    add('irregular time steps', kind='cp2_all', axes=[('c', [3, 4, 7, 8]), ('d', [3, 4, 7, 8])], T=5, pattern=5,
        times='irregular')
    add('double time steps', kind='cp2_all', axes=[('c', [10, 12, 14]), ('d', [10, 12, 14])], T=4, pattern=3,
        times='double')
    v = [0.1 * i + 0.1 for i in range(4)]
    add('non-integer time steps', kind='cp2_all', axes=[('c', v), ('d', v)], T=5, pattern=5, times='tenth')
    v = [0.003 * i + 0.001 for i in range(4)]
    add('fine time steps', kind='cp2_all', axes=[('c', v), ('d', v)], T=5, pattern=5, times='fine')
    add('first and last of three change-points', kind='cp3_all', shape=2, T=5, pattern=5, pair=(0, 2),
        axes=[('c', [0, 1, 2, 3]), ('d', [0, 1, 2, 3]), ('e', [0, 1, 2, 3])])
    add('second and third of three change-points', kind='cp3_all', shape=2, T=5, pattern=5, pair=(1, 2),
        axes=[('c', [0, 1, 2, 3]), ('d', [0, 1, 2, 3]), ('e', [0, 1, 2, 3])])
    add('with another hyper-parameter', kind='cp_gauss_cp', T=4, pattern=5, pair=(0, 2), mode='forward',
        axes=[('c', [0, 1], 'list'), ('s', ['1/4', '3/4'], 'list'), ('d', [0, 1, 2], 'list')])
    add('segments of two', kind='cp2_all', shape=2, axes=[('c', [1, 2, 3]), ('d', [1, 2, 3])], T=4, seg=2, pattern=2)
    if tier == 'thorough':
        v = [0, 1, 2, 3, 4]
        add('change-points T6', kind='cp2_all', axes=[('c', v, 'list'), ('d', v, 'list')], T=6, pattern=3)
        add('three change-points T6', kind='cp3_all', axes=[('c', v), ('d', v), ('e', v)], T=6, pattern=5, pair=(0, 1))
    return out


def harness(env, kind, axes, pair=(0, 1), mode='full', **k):
    c = Case(env, **k)
    ax = [HyperAxis(env, *a) for a in axes]
    tm, make = hyper_model(env, kind, ax)
    S = env.bl.ChangepointStudy(silent=True)
    if c.times_arg is None:
        S.loadData(c.data, silent=True)
    else:
        S.loadData(c.data, timestamps=c.times_arg, silent=True)
    S.set(c.model(), tm, silent=True)
    S.fit(silent=True, forwardOnly=mode == 'forward')
    idx = [i for i, a in enumerate(ax) if a.name != 's']
    keep = lambda v: all(v[a] < v[b] for a, b in zip(idx, idx[1:]))

    def durations(known):
        H = HyperCase(c, ax, make, keep).solve(mode, known=known)
        d = {}
        for kpt, q in zip(H.kept, H.prob):
            p = H.points[kpt]
            diff = ax[pair[1]].values[p[pair[1]]] - ax[pair[0]].values[p[pair[0]]]
            diff = round(diff, 10) if isinstance(diff, float) else diff
            d.setdefault(diff, []).append(q)
        return sorted(d), [total(d[x]) for x in sorted(d)]
    values, probs = durations(None)
    _, known = durations('KF-a')
    names = [ax[pair[0]].name, ax[pair[1]].name]
    for n, method in ((names, S.getDurationDistribution), (names[::-1], S.getDurationDistribution), (names, S.getDD)):
        x, p = method(n)
        env.observe('durations', p)
        env.assert_eq('durations', x, [env.num(v) for v in values])
        env.assert_eq('probabilities of durations', p, probs, known=('KF-a', known))
        env.assert_eq('total probability', total(list(p)), env.num(1))
