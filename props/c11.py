"""A hyper-study averages over the hyper-parameter grid exactly."""
import numpy
from .spec import Case, HyperAxis, HyperCase, hyper_model, table_model, nested, total

BOUNDS = 'one or two parameters with 2 to 4 values each, 2 to 4 time steps, hyper-grids with 2 to 12 points; slices up to 14 time steps'
S2 = ('s', ['1/4', '3/4'])


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    add('gauss flat hyper-prior', kind='gauss', axes=[('s', ['1/4', '3/4', '5/4'])])
    add('gauss irregular values, list prior', kind='gauss', axes=[('s', ['1/4', '1/2', '3/2'], 'list')], T=2)
    add('gauss five irregular values', kind='gauss', axes=[('s', ['1/4', '1/2', '3/4', '5/4', '3'], 'list')], T=2, pattern=2)
    add('gauss five irregular values, flat', kind='gauss', axes=[('s', ['1/4', '1/2', '3/4', '1', '3'])], T=2, pattern=2)
    add('gauss slightly irregular values', kind='gauss', axes=[('s', ['1/4', '1/2', '19/25'], 'list')], T=2)
    add('gauss, descending values', kind='gauss', axes=[('s', ['5/4', '3/4', '1/4'], 'list')], T=2)
    add('gauss, descending values, function prior', kind='gauss', axes=[('s', ['5/4', '3/4', '1/4'], 'function')], T=2)
    add('large values', kind='gauss', shape='large', axes=[('s', ['100000', '2500000/7', '4300000/7', '6100000/7'], 'list')], T=2, pattern=3)
    add('small values', kind='gauss', axes=[('s', ['1/100000000000', '2/100000000000', '5/100000000000'], 'list')], T=2, pattern=2)
    add('two axes, descending values', kind='gauss2', shape=(2, 2), axes=[('s', ['2', '1'], 'list'), ('u', ['3/2', '1', '1/2'])], T=2,
        pattern=2)
    add('gauss zero value, integer list', kind='gauss', axes=[('s', ['0', '1/2', '1'], 'ints')], prior='array')
    add('gauss function prior', kind='gauss', axes=[('s', ['1/4', '3/4'], 'function')], T=2)
    add('gauss integer function prior', kind='gauss', axes=[('s', ['1/4', '3/4', '5/4'], 'int_function')], T=2)
    add('gauss sympy prior', kind='gauss', axes=[('s', ['1/4', '3/4', '5/4'], 'sympy')], T=2)
    add('two axes', kind='gauss2', shape=(2, 2), axes=[('s', ['1', '2']), ('u', ['1/4', '1/2', '1'], 'list')], T=2,
        pattern=2)
    add('two axes, one value', kind='gauss2', shape=(2, 2), axes=[('s', ['1']), ('u', ['1/4', '1/2', '1'], 'list')], T=2,
        pattern=2)
    add('two axes, one value each', kind='gauss2', shape=(2, 2), axes=[('s', ['1', '3/2']), ('u', ['1/2'])], T=2,
        pattern=2)
    add('three axes', kind='gauss3', shape=(2, 2), axes=[('s', ['1', '3/2'], 'list'), ('u', ['1/4', '1/2', '3/4']), ('c', [0, 2])], T=3,
        times='double', pattern=4)
    add('serial', kind='serial', axes=[('s', ['1/4', '3/4'], 'list'), ('b', [0, 1])])
    add('changepoint', kind='changepoint', axes=[('c', [0, 1, 2], 'list')], T=4, pattern=2)
    add('changepoint all offset times', kind='changepoint_all', axes=[('c', [5, 6])], times='offset', T=3)
    add('changepoint all double times', kind='changepoint_all', axes=[('c', [10, 12])], times='double', T=3,
        prior='array')
    add('changepoint and gauss', kind='cp_gauss', axes=[('c', [0, 1], 'list'), ('s', ['1/4', '3/4'])], T=3, pattern=2,
        mode='forward')
    add('serial changepoint 2x2', kind='serial_cp', shape=(2, 2), axes=[('s', ['2', '3']), ('b', [0, 1])], pattern=2)
    add('impossible hyper-parameter value', kind='changepoint', axes=[('c', [0, 1], 'list')], T=3,
        zero=[(0, 1), (0, 2), (1, 0)])
    add('gauss integer values', kind='gauss', axes=[('s', [0, 1, 2], 'list')], T=2, prior='array_few')
    add('regime integer values', kind='regime', axes=[('p', [-2, -1], 'list')], T=2, mode='forward', shape=2)
    add('notequal integer values', kind='notequal', axes=[('p', [-2, -1], 'list')], T=2, mode='forward', shape=2)
    add('forward only', kind='gauss', axes=[('s', ['1/4', '3/4'], 'list')], mode='forward')
    add('evidence only', kind='gauss', axes=[('s', ['1/4', '3/4'], 'list')], mode='evidence')
    add('slice gauss K6 T12, 6 values', kind='gauss', shape=6, axes=[('s', ['1/4', '1/2', '3/4', '1', '5/4', '3/2'], 'list')], T=12,
        pattern=37)
    add('slice changepoint all T14', kind='changepoint_all', axes=[('c', list(range(13)))], T=14, pattern=11)
    add('segments of two', kind='gauss', axes=[('s', ['1/4', '3/4'], 'list')], seg=2, T=2)
    add('segments of two, change-points', kind='changepoint_all', axes=[('c', [1, 2])], seg=2, T=3, pattern=2)
    if tier == 'thorough':
        add('gauss K4 T4', kind='gauss', shape=4, axes=[('s', ['1/4', '3/4', '5/4'], 'list')], T=4, prior='array')
        add('two axes 2x3', kind='gauss2', shape=(2, 3), axes=[('s', ['1', '2'], 'list'), ('u', ['1/4', '1/2', '1'], 'list')],
            T=3, pattern=2)
        add('serial T5', kind='serial', axes=[('s', ['1/4', '3/4', '1'], 'list'), ('b', [0, 1, 2, 3], 'list')], T=5)
    return out


def harness(env, kind, axes, mode='full', **k):
    k.setdefault('T', 3)
    c = Case(env, **k)
    ax = [HyperAxis(env, *a) for a in axes]
    tm, make = hyper_model(env, kind, ax)
    S = env.bl.HyperStudy(silent=True)
    if c.times_arg is None:
        S.loadData(c.data, silent=True)
    else:
        S.loadData(c.data, timestamps=c.times_arg, silent=True)
    S.set(c.model(), tm, silent=True)
    S.fit(silent=True, forwardOnly=mode == 'forward', evidenceOnly=mode == 'evidence')
    compare(env, S, c, ax, make, mode)


def compare(env, S, c, ax, make, mode, keep=None, joint=True, listed=False):
    H = HyperCase(c, ax, make, keep).solve(mode)
    N = HyperCase(c, ax, make, keep).solve(mode, known='KF-a')
    kn = lambda f: ('KF-a', f(N))
    env.observe('evidence', S.logEvidence)
    env.observe('hyper', S.hyperParameterDistribution)
    env.assert_log_eq('evidence', S.logEvidence, H.evidence, known=kn(lambda X: X.evidence))
    for i, e in enumerate(H.E):
        if S.logEvidenceList[i] == -numpy.inf:
            env.assert_eq('evidence of hyper-parameter value %d' % i, e, env.num(0))
            continue
        env.assert_log_eq('evidence of hyper-parameter value %d' % i, S.logEvidenceList[i], e,
                          known=('KF-a', N.E[i]))
    env.assert_eq('distribution of hyper-parameters', S.hyperParameterDistribution * H.const, H.full_prob(),
                  known=kn(lambda X: X.full_prob()))
    if mode != 'evidence':
        env.observe('post', S.posteriorSequence)
        env.assert_eq('averaged distributions', S.posteriorSequence, [c.nested(p) for p in H.average],
                      known=kn(lambda X: [c.nested(p) for p in X.average]))
        for i, n in enumerate(c.grid.names):
            f = lambda X: [total([q * pt[i] for q, pt in zip(p, c.grid.points)]) for p in X.average]
            env.assert_eq('mean values', S.getParameterMeanValues(n), f(H), known=kn(f))
    for i, a in enumerate(ax):
        x, p = S.getHyperParameterDistribution(a.name)
        env.assert_eq('values of ' + a.name, x, [env.num(v) for v in a.values])
        env.assert_eq('marginal distribution of ' + a.name, p, H.marginal(i), known=kn(lambda X: X.marginal(i)))
        if a.normalised:
            env.assert_eq('total of ' + a.name, total(list(p)), env.num(1))
    for i in range(len(ax) if joint else 0):
        for j in range(len(ax)):
            if i == j:
                continue
            x, y, p = S.getJointHyperParameterDistribution([ax[i].name, ax[j].name])
            env.assert_eq('first axis of joint distribution', x, [env.num(v) for v in ax[i].values])
            env.assert_eq('second axis of joint distribution', y, [env.num(v) for v in ax[j].values])
            env.assert_eq('joint distribution of {} and {}'.format(ax[i].name, ax[j].name), p, H.joint(i, j),
                          known=kn(lambda X: X.joint(i, j)))
