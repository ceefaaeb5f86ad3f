"""Forward-only fits return the exact filtering distributions."""
from .spec import Case, filtering, prod

BOUNDS = 'one to three parameters with 2 to 7 values each, 2 to 9 time steps; slices (only some likelihoods symbolic) up to 12 values and 14 time steps; every configuration is listed below'

G0 = ('gauss', 0, '3/4')


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    add('static K3 T3 prior array', shape=3, T=3, prior='array')
    add('static 2x2 T2 prior function', shape=(2, 2), T=2, prior='function')
    add('static 2x2x2 T2', shape=(2, 2, 2), T=2)
    add('gauss K3 T3', shape=3, T=3, trans=G0)
    add('gauss axis1 2x3 T2', shape=(2, 3), T=2, trans=('gauss', 1, '1/2'))
    add('alphastable K4 T3', shape=4, T=3, trans=('alphastable', 0, '3/2', '3/2'), pattern=2)
    add('alphastable axis1 3x4 T2', shape=(3, 4), T=2, trans=('alphastable', 1, '5/2', '1'), pattern=3)
    add('bivariate 3x4 T2', shape=(3, 4), T=2, trans=('bivariate', '2/5', '3/2', '1/3'), pattern=3)
    add('changepoint K3 T3 offset', shape=3, T=3, trans=('changepoint', 5), times='offset', prior='array')
    add('changepoint 2x2x2 T3 irregular', shape=(2, 2, 2), T=3, trans=('changepoint', 4), times='irregular', pattern=3)
    add('combined changepoint+gauss K3 T4 fractional times', shape=3, T=4, times='fraction', pattern=2,
        trans=('combined', [('changepoint', 1.75), G0]))
    add('serial K3 T4 fractional times', shape=3, T=4, times='fraction', pattern=2,
        trans=('serial', [('static',), G0, ('static',)], [(1.5, False), (3.25, False)]))
    add('independent 2x2 T3', shape=(2, 2), T=3, trans=('independent',), prior='function_fixed')
    add('regime K2 T3', shape=2, T=3, trans=('regime', '-1/2'))
    add('regime K3 T2 prior array', shape=3, T=2, trans=('regime', '-1/4'), prior='array')
    add('notequal K3 T2', shape=3, T=2, trans=('notequal', '-1/2'), pattern=[(0, 0), (0, 1), (1, 2)])
    add('shift K5 T3', shape=5, T=3, trans=('shift', 0, 'linear', '1/2'), pattern=2)
    add('shift quadratic axis1 3x4 T3', shape=(3, 4), T=3, trans=('shift', 1, 'quadratic', '2'), pattern=5)
    add('combined gauss+regime K3 T2', shape=3, T=2, trans=('combined', [G0, ('regime', '-1/4')]))
    add('combined shift+gauss K5 T3', shape=5, T=3, pattern=3,
        trans=('combined', [('shift', 0, 'linear', '1/2'), ('gauss', 0, '1/4')]))
    add('serial static-gauss K3 T3', shape=3, T=3, trans=('serial', [('static',), G0], [(1, False)]))
    add('serial change gauss-independent K3 T4 irregular', shape=3, T=4, times='irregular', pattern=2,
        trans=('serial', [G0, ('independent',)], [(4, True)]), prior='array_few')
    add('slice gauss K7 T9 double', shape=7, T=9, trans=('gauss', 0, '2/5'), pattern=11, times='double')
    add('slice combined 5x4 T4', shape=(5, 4), T=4, pattern=17, prior='function_fixed',
        trans=('combined', [('gauss', 0, '1/3'), ('alphastable', 1, '3', '2')]))
    add('slice gauss K12 T14', shape=12, T=14, trans=('gauss', 0, '2/5'), pattern=41)
    add('negative times, change-point', shape=3, T=4, times='negative', trans=('changepoint', -1), pattern=2)
    add('negative times, serial', shape=3, T=4, times='negative', trans=('serial', [('gauss', 0, '3/4'), ('static',)], [(-1, False)]), pattern=2)
    add('irregular grid', shape='irregular', T=2, prior='array')
    add('irregular grid of one of two parameters', shape='irregular 2', T=2, trans=('gauss', 0, '2'), pattern=3)
    add('irregular grid, change-point', shape='irregular 2', T=3, trans=('changepoint', 0), pattern=3)
    add('descending grid, random walk', shape='desc', T=3, trans=('gauss', 0, '3/4'), pattern=2)
    add('segments of two, random walk', shape=3, T=3, seg=2, trans=('gauss', 0, '3/4'))
    add('segments of two, change-point', shape=2, T=4, seg=2, trans=('changepoint', 4), times='irregular')
    if tier == 'thorough':
        add('static K4 T5 prior array', shape=4, T=5, prior='array')
        add('gauss K4 T4', shape=4, T=4, trans=G0)
        add('gauss K3 T6', shape=3, T=6, trans=G0)
        add('regime K3 T3', shape=3, T=3, trans=('regime', '-1/4'), max_paths=3000)
        add('notequal K3 T3', shape=3, T=3, trans=('notequal', '-1/4'), max_paths=3000)
        add('alphastable K5 T5', shape=5, T=5, trans=('alphastable', 0, '1/3', '7/4'), pattern=2)
        add('shift K7 T6', shape=7, T=6, trans=('shift', 0, 'quadratic', '1/3'), pattern=3)
        add('slice gauss K7 T25', shape=7, T=25, trans=('gauss', 0, '2/5'), pattern=37, times='year')
    return out


def harness(env, **k):
    if 'notequal' in str(k.get('trans')):
        env.fork_max()
    c = Case(env, **k)
    f, norms = filtering(c.tr, c.prior, c.L, c.times)
    S = c.study()
    S.fit(forwardOnly=True, silent=True)
    env.observe('post', S.posteriorSequence)
    env.assert_eq('filtering distributions', S.posteriorSequence, [c.nested(p) for p in f])
    E = prod(norms[1:], norms[0])
    env.assert_log_eq('evidence', S.logEvidence, E, known=('KF-a', E * c.known_factor()))
