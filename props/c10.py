"""Constant factors in likelihoods and priors do not change any distribution."""
import numpy
from .spec import Case, table_model, normalise, total, filtering

BOUNDS = 'one or two parameters with 2 to 4 values each, 2 to 4 time steps; scale factors are arbitrary positive numbers'
G0 = ('gauss', 0, '3/4')


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    add('static K3 T3', shape=3, T=3, prior='array')
    add('gauss K3 T3', shape=3, T=3, trans=G0, prior='array_few')
    add('gauss 2x2 T2', shape=(2, 2), T=2, trans=('gauss', 0, '2'), prior='array')
    add('alphastable K4 T2', shape=4, T=2, trans=('alphastable', 0, '3/2', '3/2'), pattern=2, prior='array_few')
    add('changepoint K3 T3', shape=3, T=3, trans=('changepoint', 1), prior='array')
    add('independent K3 T3', shape=3, T=3, trans=('independent',), prior='array')
    add('serial K3 T3', shape=3, T=3, trans=('serial', [('static',), G0], [(1, True)]), prior='array')
    add('combined K3 T3', shape=3, T=3, trans=('combined', [G0, ('changepoint', 0)]), prior='array_few', pattern=2)
    add('shift K5 T2', shape=5, T=2, trans=('shift', 0, 'linear', '1/2'), prior='array_few', pattern=2)
    add('regime forward K3 T2', shape=3, T=2, trans=('regime', '-1/4'), forward=True, pattern=[(0, 0), (0, 1)])
    add('notequal forward K3 T2', shape=3, T=2, trans=('notequal', '-1/4'), forward=True, pattern=[(0, 0)])
    add('regime full K2 T2', shape=2, T=2, trans=('regime', '-1/4'), pattern=[(0, 0), (1, 1)])
    add('hyper study K3 T2', shape=3, T=2, cls='HyperStudy', trans=G0)
    add('segments of two', shape=3, T=2, seg=2, trans=G0)
    if tier == 'thorough':
        add('gauss K4 T4', shape=4, T=4, trans=G0, prior='array')
        add('hyper study K3 T4', shape=3, T=4, cls='HyperStudy', trans=G0)
    return out


def run(env, c, L, prior, forward, cls):
    if cls == 'HyperStudy':
        S = env.bl.HyperStudy(silent=True)
        tm = env.bl.tm.GaussianRandomWalk('s', [0.25, 0.75], target='x')
    else:
        S = env.bl.Study(silent=True)
        tm = c.tr.build()
    S.loadData(c.data, silent=True)
    S.set(c.model(L, prior), tm, silent=True)
    S.fit(silent=True, forwardOnly=forward)
    return S


def regime_smoothing(c, L):
    """smoothed distributions as they result from the known finding KF-c"""
    f, _ = filtering(c.tr, c.prior, L, c.times)
    out = [None] * c.T
    K = c.grid.size
    b = [c.env.num(1) / K] * K
    for t in range(c.T - 1, -1, -1):
        out[t] = normalise([x * y for x, y in zip(f[t], b)])
        b = normalise(c.tr.step([x * y for x, y in zip(b, L[t])], c.times[t]))
    return out


def harness(env, forward=False, cls='Study', **k):
    if 'notequal' in str(k.get('trans')):
        env.fork_max()
    c = Case(env, **k)
    s = [env.pos('s%d' % t) for t in range(c.T)]
    q = env.pos('q')
    L2 = [[x * s[t] for x in row] for t, row in enumerate(c.L)]
    prior2 = None if c.prior_arg is None else c.prior_arg * q
    A = run(env, c, c.L, c.prior_arg, forward, cls)
    B = run(env, c, L2, prior2, forward, cls)
    env.observe('post', A.posteriorSequence)
    known = None
    if k.get('trans', ('',))[0] == 'regime' and not forward:
        known = ('KF-c', [c.nested(p) for p in regime_smoothing(c, L2)])
    env.assert_eq('distributions', B.posteriorSequence, A.posteriorSequence, known=known)
    if known is None:
        env.assert_eq('mean values', B.posteriorMeanValues, A.posteriorMeanValues)
    f = s[0]
    for x in s[1:]:
        f = f * x
    env.assert_log_eq('evidence scales with the likelihood', B.logEvidence, env.exp(A.logEvidence) * f)
    if cls == 'HyperStudy':
        env.assert_eq('hyper-parameter distribution', B.hyperParameterDistribution, A.hyperParameterDistribution)
