"""Data that the model excludes give zero evidence; no finite evidence and no outdated results are reported."""
import numpy
from .spec import Case, flatten, total, nested, table_model, forward

BOUNDS = 'one or two parameters with 2 to 4 values, 2 to 4 time steps; position of the impossible observation listed'
G0 = ('gauss', 0, '3/4')


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    for t in range(3):
        add('step %d impossible K3 T3' % t, shape=3, T=3, zero=[(t, i) for i in range(3)], prior='array_few')
    add('gauss step 1 impossible K3 T3', shape=3, T=3, zero=[(1, i) for i in range(3)], trans=G0)
    add('2x2 step 1 impossible T2', shape=(2, 2), T=2, zero=[(1, i) for i in range(4)])
    add('conflicting steps K3 T2', shape=3, T=2, zero=[(0, 0), (1, 1), (1, 2)])
    add('conflict resolved by a change-point K3 T3', shape=3, T=3, zero=[(0, 0), (1, 1), (1, 2)],
        trans=('changepoint', 0))
    add('partly excluded K3 T3', shape=3, T=3, zero=[(0, 0), (1, 1)])
    add('partly excluded gauss K3 T3', shape=3, T=3, zero=[(0, 0), (1, 1), (2, 2)], trans=G0)
    add('hyper study K3 T3', shape=3, T=3, zero=[(0, 0), (1, 1), (1, 2)], cls='hyper')
    add('hyper study all impossible K3 T2', shape=3, T=2, zero=[(1, 0), (1, 1), (1, 2)], cls='hyper0')
    add('hyper study many impossible values K3 T9', shape=3, T=9, zero=[(8, 0), (8, 1), (8, 2)], cls='hyper8', pattern=7)
    add('hyper study one of many possible K3 T9', shape=3, T=9, zero=[(0, 0), (1, 1), (1, 2)], cls='hyper8', pattern=7)
    add('segments of two', shape=3, T=3, seg=2, zero=[(0, 0), (1, 1), (1, 2)])
    add('segments of two, impossible', shape=3, T=3, seg=2, zero=[(1, 0), (1, 1), (1, 2)])
    if tier == 'thorough':
        add('static K4 T5', shape=4, T=5, zero=[(0, 0), (1, 1), (3, 2), (4, 3)])
        add('gauss K4 T5', shape=4, T=5, zero=[(2, i) for i in range(4)], trans=G0)
    return out


def harness(env, cls='study', **k):
    c = Case(env, **k)
    if cls == 'hyper8':
        from .spec import ChangePoint
        S = env.bl.HyperStudy(silent=True)
        S.loadData(c.data, silent=True)
        values = [7, 6, 5, 4, 3, 2, 1, 0]
        S.set(c.model(), env.bl.tm.ChangePoint('t', values), silent=True)
        Es = [total(forward(ChangePoint(env, c.grid, c.prior, t), c.prior, c.L, c.times)[-1]) for t in values]
        S.fit(silent=True, evidenceOnly=True)
        for t, e, found in zip(values, Es, S.logEvidenceList):
            zero = e.c == 0 if hasattr(e, 'c') and hasattr(e, 'm') else e == 0
            env.assert_log_eq('evidence of change-point %d' % t, found, '-inf' if zero else e,
                              known=None if zero else ('KF-a', e * c.grid.dV))
        return
    if cls in ('hyper', 'hyper0'):
        S = env.bl.HyperStudy(silent=True)
        S.loadData(c.data, silent=True)
        S.set(c.model(), env.bl.tm.ChangePoint('t', [0, 1]), silent=True)
        from .spec import ChangePoint
        trs = [ChangePoint(env, c.grid, c.prior, t) for t in (0, 1)]
        Es = [total(forward(tr, c.prior, c.L, c.times)[-1]) for tr in trs]
        if cls == 'hyper0':
            S.fit(silent=True, evidenceOnly=True)
            env.assert_log_eq('evidence', S.logEvidence, '-inf')
            return
        S.fit(silent=True)
        env.assert_log_eq('evidence of combination 0', S.logEvidenceList[0], Es[0],
                          known=('KF-a', Es[0] * c.grid.dV))
        env.assert_log_eq('evidence of combination 1', S.logEvidenceList[1], '-inf')
        env.assert_eq('probabilities', S.hyperParameterDistribution, [1, 0])
        return
    E = c.evidence()
    impossible = E.c == 0 if hasattr(E, 'c') and hasattr(E, 'm') else E == 0
    if impossible:                    # however often it is tried
        S = c.study()
        for i in range(9):
            S.fit(silent=True, evidenceOnly=i % 2 == 0)
            env.assert_log_eq('evidence of fit %d' % i, S.logEvidence, '-inf')
    for name, args in (('full', {}), ('forward', dict(forwardOnly=True)), ('evidence-only', dict(evidenceOnly=True))):
        S = c.study()
        S.fit(silent=True, **args)
        if not impossible:
            env.assert_log_eq('{}: evidence'.format(name), S.logEvidence, E, known=('KF-a', E * c.known_factor()))
            if name == 'full':
                env.assert_eq('smoothing', S.posteriorSequence, [c.nested(p) for p in c.smoothed()])
            continue
        env.assert_log_eq('{}: evidence'.format(name), S.logEvidence, '-inf')
        # a second, possible data set and then the impossible one again: nothing of the former remains
        S = c.study()
        good = c.study()
        S.set(c.model([[env.num(1)] * c.grid.size] * c.T), silent=True)
        S.fit(silent=True)
        S.set(c.model(), silent=True)
        S.fit(silent=True, **args)
        env.assert_log_eq('{}: evidence after re-fit'.format(name), S.logEvidence, '-inf')
        env.assert_true('{}: no mean values remain'.format(name), len(S.posteriorMeanValues) == 0)
        if name != 'evidence-only':
            ps = S.posteriorSequence
            F = c.alphas()
            for t in range(c.T):
                if total(F[t]).c == 0 if env.symbolic else total(F[t]) == 0:
                    env.assert_eq('{}: no distribution remains for step {}'.format(name, t), ps[t],
                                  c.nested([env.num(0)] * c.grid.size))
