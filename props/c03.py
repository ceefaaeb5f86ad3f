"""Full fits return the exact smoothing distributions (all data, past and future) of the hidden Markov model."""
from .spec import Case, Serial

BOUNDS = 'one to three parameters with 2 to 7 values each, 2 to 9 time steps; slices (only some likelihoods symbolic) up to 12 values and 14 time steps; every configuration is listed below'
ASSUMPTIONS = ['transition models with a reversible kernel: static, random walks (Gaussian, alpha-stable, bivariate), '
               'change-points, independent observations, and serial/combined models of these; likelihoods are positive']

G0 = ('gauss', 0, '3/4')


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    add('static K3 T3 prior array', shape=3, T=3, prior='array')
    add('static 2x2 T3', shape=(2, 2), T=3)
    add('static 2x2x2 T2 prior function', shape=(2, 2, 2), T=2, prior='function')
    add('gauss K3 T3', shape=3, T=3, trans=G0)
    add('gauss K2 T4 prior array', shape=2, T=4, trans=('gauss', 0, '1/3'), prior='array')
    add('gauss axis1 2x3 T2', shape=(2, 3), T=2, trans=('gauss', 1, '1/2'))
    add('gauss axis0 3x2 T2', shape=(3, 2), T=2, trans=('gauss', 0, '1/2'))
    add('alphastable K4 T3', shape=4, T=3, trans=('alphastable', 0, '3/2', '3/2'), pattern=2)
    add('alphastable axis1 3x4 T3', shape=(3, 4), T=3, trans=('alphastable', 1, '5/2', '1'), pattern=5)
    add('bivariate 3x4 T3', shape=(3, 4), T=3, trans=('bivariate', '2/5', '3/2', '1/3'), pattern=5)
    add('changepoint K3 T4 prior array', shape=3, T=4, trans=('changepoint', 1), prior='array', pattern=2)
    add('changepoint K3 T4 irregular', shape=3, T=4, trans=('changepoint', 4), times='irregular', prior='array_few')
    add('changepoint 2x2x2 T4 irregular', shape=(2, 2, 2), T=4, trans=('changepoint', 4), times='irregular', pattern=5)
    add('gauss last axis 2x3x2 T3 irregular', shape=(2, 3, 2), T=3, trans=('gauss', 2, '4'), times='irregular', pattern=5)
    add('combined changepoint+gauss K3 T4 fractional times', shape=3, T=4, times='fraction', pattern=2,
        trans=('combined', [('changepoint', 1.75), G0]))
    add('serial K3 T4 fractional times', shape=3, T=4, times='fraction', pattern=2,
        trans=('serial', [('static',), G0, ('static',)], [(1.5, False), (3.25, False)]))
    add('changepoint last step K3 T3', shape=3, T=3, trans=('changepoint', 2), prior='array_few')
    add('independent K3 T3 prior array', shape=3, T=3, trans=('independent',), prior='array')
    add('serial break static-gauss-static K3 T4', shape=3, T=4, pattern=2,
        trans=('serial', [('static',), G0, ('static',)], [(1, False), (2, False)]))
    add('serial break gauss-static offset K3 T3', shape=3, T=3, times='offset',
        trans=('serial', [G0, ('static',)], [(6, False)]))
    add('serial change flat prior K3 T4', shape=3, T=4, pattern=2,
        trans=('serial', [G0, ('gauss', 0, '1/4', 's2')], [(1, True)]))
    add('serial change prior array K3 T4', shape=3, T=4, pattern=2, prior='array_fixed',
        trans=('serial', [('static',), G0], [(1, True)]))
    add('combined gauss+gauss 3x2 T2', shape=(3, 2), T=2,
        trans=('combined', [('gauss', 0, '2', 's1'), ('gauss', 1, '5', 's2')]))
    add('combined gauss+changepoint K3 T3', shape=3, T=3, trans=('combined', [G0, ('changepoint', 1)]))
    add('combined gauss+alphastable non-commuting K4 T3', shape=4, T=3, pattern=2,
        trans=('combined', [('gauss', 0, '3'), ('alphastable', 0, '2', '3/2')]))
    add('serial of combined 3x2 T4', shape=(3, 2), T=4, pattern=5, times='year',
        trans=('serial', [('combined', [('gauss', 0, '1/2', 's1'), ('gauss', 1, '4', 's2')]), ('static',)],
               [(1853, False)]))
    add('slice gauss K7 T9 double', shape=7, T=9, trans=('gauss', 0, '2/5'), pattern=17, times='double')
    add('slice changepoint 5x4 T5', shape=(5, 4), T=5, pattern=31, prior='function_fixed',
        trans=('changepoint', 2))
    add('slice gauss K12 T14', shape=12, T=14, trans=('gauss', 0, '2/5'), pattern=57)
    add('negative times, change-point', shape=3, T=4, times='negative', trans=('changepoint', -1), pattern=2)
    add('negative times, serial', shape=3, T=4, times='negative', trans=('serial', [('gauss', 0, '3/4'), ('static',)], [(-1, False)]), pattern=2)
    add('irregular grid', shape='irregular', T=2, prior='array')
    add('irregular grid of one of two parameters', shape='irregular 2', T=2, trans=('gauss', 0, '2'), pattern=3)
    add('irregular grid, change-point', shape='irregular 2', T=3, trans=('changepoint', 0), pattern=3)
    add('descending grid, random walk', shape='desc', T=3, trans=('gauss', 0, '3/4'), pattern=2)
    add('segments of two, random walk', shape=3, T=3, seg=2, trans=('gauss', 0, '3/4'))
    add('segments of two, change-point', shape=2, T=4, seg=2, trans=('changepoint', 4), times='irregular')
    if tier == 'thorough':
        add('static K4 T5 prior array', shape=4, T=5, prior='array')
        add('gauss K4 T4', shape=4, T=4, trans=G0)
        add('gauss K3 T6', shape=3, T=6, trans=G0, pattern=2)
        add('alphastable K5 T5', shape=5, T=5, trans=('alphastable', 0, '1/3', '7/4'), pattern=3)
        add('changepoint K4 T6 irregular', shape=4, T=6, trans=('changepoint', 7), times='irregular', prior='array',
            pattern=2)
        add('slice gauss K7 T25', shape=7, T=25, trans=('gauss', 0, '2/5'), pattern=61, times='year')
        add('slice serial K7 T20', shape=7, T=20, pattern=61, times='year',
            trans=('serial', [('gauss', 0, '1/4'), ('static',), ('gauss', 0, '1/2', 's2')],
                   [(1857, False), (1866, True)]))
    return out


def known_smoothing(c):
    """signature of the known finding that applies to a configuration"""
    if isinstance(c.tr, Serial):
        return ('KF-b', [c.nested(p) for p in c.smoothed_known(serial_prior=True)])
    return ('KF-d', [c.nested(p) for p in c.smoothed_known(forward_order=True)])


def harness(env, **k):
    c = Case(env, **k)
    S = c.study()
    S.fit(silent=True)
    env.observe('post', S.posteriorSequence)
    env.assert_eq('smoothing distributions', S.posteriorSequence, [c.nested(p) for p in c.smoothed()],
                  known=known_smoothing(c))
