"""Local evidence: predictive density (forward fits), leave-one-out predictive density (full fits)."""
from .spec import Case, filtering, forward, total, prod, Serial, resets

BOUNDS = 'one or two parameters with 2 to 7 values each, 2 to 9 time steps; slices (only some likelihoods symbolic) up to 12 values and 14 time steps; every configuration is listed below'
ASSUMPTIONS = ['likelihoods are positive on the whole grid']

G0 = ('gauss', 0, '3/4')


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    add('static K3 T3 prior array', shape=3, T=3, prior='array')
    add('static 2x2 T2 prior function', shape=(2, 2), T=2, prior='function')
    add('gauss K3 T3', shape=3, T=3, trans=G0)
    add('gauss axis1 2x3 T2 prior unit', shape=(2, 3), T=2, trans=('gauss', 1, '1/2'), prior='array_unit')
    add('alphastable K4 T3', shape=4, T=3, trans=('alphastable', 0, '3/2', '3/2'), pattern=2)
    add('changepoint K3 T4', shape=3, T=4, trans=('changepoint', 1), prior='array_few', pattern=2)
    add('independent K3 T3 prior array', shape=3, T=3, trans=('independent',), prior='array')
    add('serial break K3 T3 offset', shape=3, T=3, times='offset',
        trans=('serial', [('static',), G0], [(6, False)]))
    add('serial change K3 T4', shape=3, T=4, pattern=2, prior='array_fixed',
        trans=('serial', [('static',), G0], [(1, True)]))
    add('combined 2x3 T2', shape=(2, 3), T=2,
        trans=('combined', [('gauss', 0, '2', 's1'), ('gauss', 1, '1/3', 's2')]))
    add('slice gauss K7 T7', shape=7, T=7, trans=('gauss', 0, '2/5'), pattern=17, times='double')
    add('slice gauss K12 T14', shape=12, T=14, trans=('gauss', 0, '2/5'), pattern=57)
    add('negative times, change-point', shape=3, T=4, times='negative', trans=('changepoint', -1), pattern=2)
    add('negative times, serial', shape=3, T=4, times='negative', trans=('serial', [('gauss', 0, '3/4'), ('static',)], [(-1, False)]), pattern=2)
    add('irregular grid', shape='irregular', T=2, prior='array')
    add('irregular grid of one of two parameters', shape='irregular 2', T=2, trans=('gauss', 0, '2'), pattern=3)
    add('irregular grid, change-point', shape='irregular 2', T=3, trans=('changepoint', 0), pattern=3)
    add('descending grid, random walk', shape='desc', T=3, trans=('gauss', 0, '3/4'), pattern=2)
    add('segments of two, random walk', shape=3, T=3, seg=2, trans=('gauss', 0, '3/4'))
    add('segments of two, change-point', shape=2, T=4, seg=2, trans=('changepoint', 4), times='irregular')
    if tier == 'thorough':
        add('static K4 T5', shape=4, T=5, prior='array')
        add('gauss K4 T4', shape=4, T=4, trans=G0)
        add('gauss K3 T5', shape=3, T=5, trans=G0)
        add('slice gauss K7 T20', shape=7, T=20, trans=('gauss', 0, '2/5'), pattern=53, times='year')
    return out


def harness(env, **k):
    c = Case(env, **k)
    _, norms = filtering(c.tr, c.prior, c.L, c.times)
    kn = []
    for t, n in enumerate(norms):
        f = resets(c.tr, c.times[t - 1:t + 1], 2) if t > 0 else 0
        kn.append(n * prod([c.grid.dV] * f, env.num(1)))
    for name, args in (('forward', dict(forwardOnly=True)), ('evidence-only', dict(evidenceOnly=True))):
        S = c.study()
        S.fit(silent=True, **args)
        env.observe(name, S.localEvidence)
        env.assert_eq('predictive densities, {} fit'.format(name), S.localEvidence, norms, known=('KF-a', kn))
        env.assert_log_eq('product of local evidence values ({})'.format(name), S.logEvidence,
                          prod(list(S.localEvidence)[1:], list(S.localEvidence)[0]))
    # leave-one-out values
    one = [env.num(1)] * c.grid.size
    E = c.evidence()
    loo = [E / total(forward(c.tr, c.prior, c.replaced(t, one), c.times)[-1]) for t in range(c.T)]
    known = None
    if isinstance(c.tr, Serial):
        ps = c.smoothed_known(serial_prior=True)
        known = ('KF-b', [1 / total([p / l for p, l in zip(ps[t], c.L[t])]) for t in range(c.T)])
    S = c.study()
    S.fit(silent=True)
    env.observe('loo', S.localEvidence)
    env.assert_eq('leave-one-out densities', S.localEvidence, loo, known=known)
