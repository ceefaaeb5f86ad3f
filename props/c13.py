"""Change-point studies consider exactly the ordered combinations of change-points."""
import numpy
from . import c11
from .spec import Case, HyperAxis, hyper_model, table_model

BOUNDS = 'one parameter with 2 or 3 values, 3 to 6 time steps, up to four change- or break-points; slice with 11 time steps'


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    add('one change-point, all', kind='changepoint_all', axes=[('c', [0, 1, 2])], points=['c'], T=4, pattern=2)
    add('two change-points, all', kind='cp2_all', axes=[('c', [0, 1, 2]), ('d', [0, 1, 2])], points=['c', 'd'], T=4,
        pattern=2)
    add('two change-points, lists and priors', kind='cp2', axes=[('c', [0, 2], 'list'), ('d', [1, 2, 3], 'list')],
        points=['c', 'd'], T=5, pattern=5)
    add('values in descending order', kind='cp2', axes=[('c', [2, 1, 0], 'list'), ('d', [3, 1], 'list')],
        points=['c', 'd'], T=5, pattern=5)
    add('one admissible combination', kind='cp2', axes=[('c', [0, 1]), ('d', [0, 1])], points=['c', 'd'], T=3,
        single=True)
    add('three change-points, all', kind='cp3_all', shape=2, axes=[('c', [0, 1, 2, 3]), ('d', [0, 1, 2, 3]),
                                                                  ('e', [0, 1, 2, 3])],
        points=['c', 'd', 'e'], T=5, pattern=5)
    add('two change-points and another hyper-parameter', kind='cp_gauss_cp', points=['c', 'd'], T=4, pattern=5,
        axes=[('c', [0, 1], 'list'), ('s', ['1/4', '3/4'], 'list'), ('d', [0, 1, 2], 'list')], mode='forward')
    add('break-points, all', kind='serial2_all', axes=[('c', [0, 1, 2]), ('d', [0, 1, 2])], points=['c', 'd'], T=4,
        pattern=2)
    add('break-points, lists, offset times', kind='serial2', axes=[('c', [5, 6], 'list'), ('d', [6, 7], 'list')],
        points=['c', 'd'], T=4, pattern=3, times='offset')
    add('change-points, double time steps', kind='cp2_all', axes=[('c', [10, 12, 14]), ('d', [10, 12, 14])],
        points=['c', 'd'], T=4, pattern=3, times='double', prior='array_few')
    add('change-points, irregular time steps', kind='cp2_all', axes=[('c', [3, 4, 7]), ('d', [3, 4, 7])],
        points=['c', 'd'], T=4, pattern=3, times='irregular')
    add('forward only', kind='cp2_all', axes=[('c', [0, 1, 2]), ('d', [0, 1, 2])], points=['c', 'd'], T=4, pattern=3,
        mode='forward')
    add('evidence only', kind='cp2_all', axes=[('c', [0, 1, 2]), ('d', [0, 1, 2])], points=['c', 'd'], T=4, pattern=3,
        mode='evidence')
    add('four change-points, all', kind='cp4_all', shape=2, axes=[(n, [0, 1, 2, 3, 4]) for n in 'cdef'], points=list('cdef'), T=6,
        pattern=5)
    add('slice two change-points T11', kind='cp2_all', axes=[('c', list(range(10))), ('d', list(range(10)))], points=['c', 'd'],
        T=11, pattern=13)
    add('negative times', kind='cp2_all', axes=[('c', [-2, -1, 0]), ('d', [-2, -1, 0])], points=['c', 'd'], T=4, times='negative', pattern=2)
    add('segments of two', kind='cp2_all', axes=[('c', [1, 2, 3]), ('d', [1, 2, 3])], points=['c', 'd'], T=4, seg=2, pattern=2)
    add('segments of two, break-points', kind='serial2_all', axes=[('c', [2, 3, 4]), ('d', [2, 3, 4])], points=['c', 'd'], T=4, seg=3, pattern=3)
    if tier == 'thorough':
        v = [0, 1, 2, 3, 4]
        add('two change-points T6', kind='cp2_all', axes=[('c', v), ('d', v)], points=['c', 'd'], T=6, pattern=2)
        add('three change-points T6', kind='cp3_all', axes=[('c', v), ('d', v), ('e', v)], points=['c', 'd', 'e'], T=6,
            pattern=5)
        add('break-points T6', kind='serial2_all', axes=[('c', v, 'list'), ('d', v, 'list')], points=['c', 'd'], T=6,
            pattern=5)
    return out


def harness(env, kind, axes, points, mode='full', single=False, **k):
    c = Case(env, **k)
    ax = [HyperAxis(env, *a) for a in axes]
    tm, make = hyper_model(env, kind, ax)
    S = env.bl.ChangepointStudy(silent=True)
    if c.times_arg is None:
        S.loadData(c.data, silent=True)
    else:
        S.loadData(c.data, timestamps=c.times_arg, silent=True)
    S.set(c.model(), tm, silent=True)
    S.fit(silent=True, forwardOnly=mode == 'forward', evidenceOnly=mode == 'evidence')
    idx = [i for i, a in enumerate(ax) if a.name in points]
    keep = lambda v: all(v[a] < v[b] for a, b in zip(idx, idx[1:]))
    if single:
        from .spec import HyperCase
        H = HyperCase(c, ax, make, keep).solve(mode)
        N = HyperCase(c, ax, make, keep).solve(mode, known='KF-a')
        env.assert_log_eq('evidence', S.logEvidence, H.evidence, known=('KF-a', N.evidence))
        env.assert_eq('averaged distributions', S.posteriorSequence, [c.nested(p) for p in H.average])
        env.assert_eq('distribution of hyper-parameters', S.hyperParameterDistribution * H.const, H.full_prob())
        return
    c11.compare(env, S, c, ax, make, mode, keep, listed=True)
