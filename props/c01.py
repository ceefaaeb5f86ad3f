"""Model evidence equals the exact marginal likelihood, in every fit mode."""
from .spec import Case

BOUNDS = 'see the list of configurations'

G0 = ('gauss', 0, '3/4')


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    add('static K3 T3', shape=3, T=3)
    add('static K2 T4 prior array', shape=2, T=4, prior='array')
    add('static K4 T2 prior function', shape=4, T=2, prior='function')
    add('static 2x2 T2 prior array', shape=(2, 2), T=2, prior='array')
    add('static 2x2x2 T2', shape=(2, 2, 2), T=2)
    add('static K3 T2 prior unit array, offset times', shape=3, T=2, prior='array_unit', times='offset')
    add('gauss K3 T3', shape=3, T=3, trans=G0)
    add('gauss K4 T2 prior array', shape=4, T=2, trans=('gauss', 0, '3/2'), prior='array')
    add('gauss axis1 2x3 T2', shape=(2, 3), T=2, trans=('gauss', 1, '1/2'))
    add('gauss axis0 3x2 T2', shape=(3, 2), T=2, trans=('gauss', 0, '1/2'))
    add('changepoint K3 T4 irregular times', shape=3, T=4, trans=('changepoint', 4), times='irregular', pattern=2)
    add('changepoint K2 T3 prior array', shape=2, T=3, trans=('changepoint', 0), prior='array')
    add('changepoint never K3 T3', shape=3, T=3, trans=('changepoint', 17))
    add('changepoint 2x2x2 T3 irregular', shape=(2, 2, 2), T=3, trans=('changepoint', 4), times='irregular', pattern=3)
    add('combined changepoint+gauss K3 T4 fractional times', shape=3, T=4, times='fraction', pattern=2,
        trans=('combined', [('changepoint', 1.75), G0]))
    add('independent K3 T3 prior function', shape=3, T=3, trans=('independent',), prior='function')
    add('serial break static-gauss K3 T3', shape=3, T=3, trans=('serial', [('static',), G0], [(1, False)]))
    add('serial change gauss-static K3 T3 offset', shape=3, T=3, times='offset',
        trans=('serial', [G0, ('static',)], [(6, True)]))
    add('combined gauss+gauss 2x2 T2', shape=(2, 2), T=2,
        trans=('combined', [('gauss', 0, '2', 's1'), ('gauss', 1, '1/3', 's2')]))
    add('combined gauss+changepoint K2 T3', shape=2, T=3, trans=('combined', [('gauss', 0, '1/3'), ('changepoint', 1)]))
    # larger problems with a few free likelihood values
    add('slice static K7 T9', shape=7, T=9, pattern=13)
    add('slice gauss K7 T6 year', shape=7, T=6, trans=('gauss', 0, '2/5'), pattern=19, times='year')
    add('slice serial 3 models K5 T9', shape=5, T=9, pattern=17, times='double',
        trans=('serial', [('static',), ('gauss', 0, '1/4'), ('independent',)], [(14, False), (20, True)]))
    add('slice gauss 5x4 T4', shape=(5, 4), T=4, trans=('gauss', 1, '3'), pattern=31)
    add('slice gauss K16 T14', shape=16, T=14, trans=('gauss', 0, '2/5'), pattern=43)
    add('slice static K4 T24 year', shape=4, T=24, pattern=19, times='year')
    add('negative times, change-point', shape=3, T=4, times='negative', trans=('changepoint', -1), pattern=2)
    add('negative times, serial', shape=3, T=4, times='negative', trans=('serial', [('gauss', 0, '3/4'), ('static',)], [(-1, False)]), pattern=2)
    add('irregular grid', shape='irregular', T=2, prior='array')
    add('irregular grid of one of two parameters', shape='irregular 2', T=2, trans=('gauss', 0, '2'), pattern=3)
    add('irregular grid, change-point', shape='irregular 2', T=3, trans=('changepoint', 0), pattern=3)
    add('descending grid, random walk', shape='desc', T=3, trans=('gauss', 0, '3/4'), pattern=2)
    add('descending grid, prior function', shape='desc', T=3, prior='function')
    add('irregular grid, prior function', shape='irregular 2', T=2, prior='function', pattern=3)
    add('segments of two, random walk', shape=3, T=3, seg=2, trans=G0, times='irregular')
    add('segments of three, change-point', shape=2, T=3, seg=3, trans=('changepoint', 3))
    add('segments of two, serial', shape=3, T=4, seg=2, trans=('serial', [('static',), G0], [(2, False)]), pattern=2)
    if tier == 'thorough':
        add('static K4 T4 prior array', shape=4, T=4, prior='array')
        add('static K3 T6', shape=3, T=6)
        add('gauss K4 T4', shape=4, T=4, trans=G0)
        add('gauss K3 T5', shape=3, T=5, trans=G0)
        add('changepoint K3 T6 all', shape=3, T=6, trans=('changepoint', 6), times='irregular', prior='array')
        add('serial K3 T5', shape=3, T=5, trans=('serial', [('static',), G0, ('static',)], [(1, False), (3, True)]))
        add('slice static K7 T30', shape=7, T=30, pattern=41)
        add('slice gauss K7 T25', shape=7, T=25, trans=('gauss', 0, '2/5'), pattern=71)
    return out


def harness(env, **k):
    c = Case(env, **k)
    E = c.evidence()
    kn = ('KF-a', E * c.known_factor())
    S = c.study()
    S.fit(silent=True)
    env.observe('full', S.logEvidence)
    env.assert_log_eq('evidence of full fit', S.logEvidence, E, known=kn)
    env.assert_eq('log10-evidence', S.log10Evidence * env.log(env.num(10)), S.logEvidence)
    S = c.study()
    S.fit(forwardOnly=True, silent=True)
    env.assert_log_eq('evidence of forward fit', S.logEvidence, E, known=kn)
    S = c.study()
    S.fit(evidenceOnly=True, silent=True)
    env.assert_log_eq('evidence of evidence-only fit', S.logEvidence, E, known=kn)
