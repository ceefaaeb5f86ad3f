"""Every distribution is a probability distribution."""
from .spec import Case, flatten, total

BOUNDS = 'one to three parameters with 2 to 5 values each, 2 to 4 time steps; slices (only some likelihoods symbolic) up to 12 values and 14 time steps; every configuration is listed below'

G0 = ('gauss', 0, '3/4')


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    add('static K3 T2 prior array', shape=3, T=2, prior='array')
    add('static 2x2x2 T2', shape=(2, 2, 2), T=2)
    add('gauss K3 T3', shape=3, T=3, trans=G0)
    add('gauss 2x3 T2', shape=(2, 3), T=2, trans=('gauss', 1, '1/2'))
    add('alphastable sharp K5 T2', shape=5, T=2, trans=('alphastable', 0, '1/10', '3/2'), pattern=2)
    add('alphastable wide 3x4 T2', shape=(3, 4), T=2, trans=('alphastable', 1, '5', '1/2'), pattern=4)
    add('bivariate 3x4 T2', shape=(3, 4), T=2, trans=('bivariate', '2/5', '3/2', '-1/3'), pattern=4)
    add('changepoint K3 T3', shape=3, T=3, trans=('changepoint', 1), prior='array_few')
    add('independent K3 T3', shape=3, T=3, trans=('independent',), prior='array_few')
    add('regime K2 T3', shape=2, T=3, trans=('regime', '-1/2'), pattern=[(0, 0), (1, 1)])
    add('regime K3 T2', shape=3, T=2, trans=('regime', '-1/4'), pattern=[(0, 0), (0, 1), (1, 2)])
    add('notequal K3 T2', shape=3, T=2, trans=('notequal', '-1/2'), pattern=[(0, 0)])
    add('shift half grid point K4 T2', shape=4, T=2, trans=('freeshift', '1'), pattern=[(0, 1), (1, 2)])
    add('shift 1.3 grid points 3x4 T2', shape=(3, 4), T=2, trans=('freeshift', '0.65'), pattern=[(0, 2)])
    add('serial K3 T3', shape=3, T=3, trans=('serial', [('static',), G0], [(1, True)]), prior='array_few')
    add('combined K3 T2', shape=3, T=2, trans=('combined', [G0, ('changepoint', 0)]))
    add('slice gauss K12 T14', shape=12, T=14, trans=('gauss', 0, '2/5'), pattern=57)
    add('irregular grid', shape='irregular', T=2, prior='array')
    add('irregular grid of one of two parameters', shape='irregular 2', T=2, trans=('gauss', 0, '2'), pattern=3)
    add('irregular grid, change-point', shape='irregular 2', T=3, trans=('changepoint', 0), pattern=3)
    add('descending grid, random walk', shape='desc', T=3, trans=('gauss', 0, '3/4'), pattern=2)
    add('segments of two', shape=3, T=3, seg=2, trans=('gauss', 0, '3/4'))
    if tier == 'thorough':
        add('gauss K4 T4', shape=4, T=4, trans=G0)
        add('regime K3 T3', shape=3, T=3, trans=('regime', '-1/4'), pattern=[(0, 0), (0, 1), (1, 2)], max_paths=3000)
        add('shift K5 T3', shape=5, T=3, trans=('freeshift', '0.3'), pattern=[(0, 1), (0, 2)], max_paths=3000)
    return out


class FreeShift(object):
    """drift by an arbitrary amount"""
    def __init__(self, env, grid, v):
        self.env, self.grid, self.v = env, grid, v

    def build(self):
        v = float(self.v)

        def drift(t, a=v):
            return a*t
        return self.env.bl.tm.Deterministic(drift, target=self.grid.names[-1])


def harness(env, **k):
    if 'notequal' in str(k.get('trans')):
        env.fork_max()
    if k.get('trans', ('',))[0] == 'freeshift':
        v = k.pop('trans')[1]
        c = Case(env, **k)
        c.tr = FreeShift(env, c.grid, v)
    else:
        c = Case(env, **k)
    for name, args in (('filtering', dict(forwardOnly=True)), ('smoothing', {})):
        S = c.study()
        S.fit(silent=True, **args)
        env.observe(name, S.posteriorSequence)
        for t in range(c.T):
            p = flatten(S.posteriorSequence[t])
            env.assert_eq('{}: total probability at step {}'.format(name, t), total(p), env.num(1))
            for i, x in enumerate(p):
                env.assert_true('{}: probability {} at step {} is not negative'.format(name, i, t), x >= 0)
