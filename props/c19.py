"""Optimisation evaluates and keeps the hyper-parameter values it reports."""
import numpy
from .spec import Case, table_model, hp_names, substitute, build_nested, build_trans, set_offsets, filtering, prod, fnum, \
    forward, backward, normalise
from .c18 import NEST

BOUNDS = 'one or two parameters with 2 to 5 values each, 2 to 4 time steps, up to four hyper-parameters; the optimiser is ' \
    'replaced by one that evaluates several points and returns an arbitrary one of them or another point'
ASSUMPTIONS = ['the search strategy of SciPy is outside the claim']
NEST = dict(NEST, single=('gauss', 0, '@s1'),
            serial_cp=('serial', [('gauss', 0, '@s1'), ('gauss', 0, '@s2')], [('@b', True)]),
            cp=('combined', [('gauss', 0, '@s1'), ('changepoint', '@b')]))
START = {'s1': '1/4', 's2': '1/2', 's3': '1/3', 'b': 1, 'd': 2, 'p': '1/2', 'q': '0', 'm': '-1/2', 'k': '1/2', 'al': '1',
         'u': '1/2', 'v': '1', 'r': '0'}
OTHER = {'s1': ['3/4', '1/8'], 's2': ['1', '3/5'], 's3': ['2/3', '1'], 'p': ['1', '3/2'], 'q': ['1/2', '1'],
         'm': ['-1', '-3/2'], 'b': [0, 2], 'd': [1, 3], 'k': ['1', '3/4'], 'al': ['3/2', '2'], 'u': ['1', '3/4'],
         'v': ['2', '3'], 'r': ['1/2', '-1/2']}
POINTS = ('b', 'd')


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    add('single', nest='single', T=3)
    add('single, selected by string', nest='single', T=2, select='s1')
    add('combined', nest='combined', shape=(2, 2), T=2)
    add('combined, second selected', nest='combined', shape=(2, 2), T=2, select=['s2'])
    add('combined, reversed selection', nest='combined', shape=(2, 2), T=2, select=['s2', 's1'])
    add('combined with serial', nest='combined with serial', T=3, pattern=2)
    add('serial with combined, two selected', nest='serial with combined', shape=(2, 2), T=3, select=['s3', 's1'],
        pattern=2)
    add('change-point is not optimised', nest='cp', T=3, pattern=2)
    add('serial change-point is not optimised', nest='serial_cp', T=3, pattern=2)
    add('three levels', nest='three levels', T=3, pattern=2)
    add('deterministic', nest='deterministic', shape=5, T=3, pattern=3)
    add('forward only', nest='combined', shape=(2, 2), T=2, forward=True)
    add('alpha-stable', nest='alpha-stable', shape=4, T=2, pattern=2, forward=True)
    add('segments of two', nest='combined', shape=(2, 2), T=2, seg=2, pattern=2)
    if tier == 'thorough':
        add('three levels T4', nest='three levels', T=4)
        add('serial with combined T4', nest='serial with combined', shape=(2, 3), T=4, pattern=3)
    return out


def harness(env, nest, select=(), forward=False, **k):
    c = Case(env, **k)
    spec = NEST[nest]
    names = hp_names(spec)
    tm = build_nested(env, c.grid, spec, lambda n: fnum(START[n]), lambda n: None)
    S = env.bl.Study(silent=True)
    S.loadData(c.data, silent=True)
    S.set(c.model(), tm, silent=True)
    sel = [select] if isinstance(select, str) else list(select)
    wanted = sel if sel else [n for n in names if n not in POINTS]
    order = {}

    def reference(values):
        tr = set_offsets(build_trans(env, c.grid, c.prior, substitute(spec, values)))
        f, norms = filtering(tr, c.prior, c.L, c.times)
        e = prod(norms[1:], norms[0])
        return tr, e, e * prod([c.grid.dV] * sum(tr.reset_at(t) for t in c.times[:-1]), env.num(1)), f
    chosen = env.choice('result', 3)
    last = env.choice('last', 2)        # whether the result is the point that was evaluated last

    def optimiser(fun, x0):
        n = len(list(x0))
        env.assert_true('number of start values', n == len(wanted))
        # which entry belongs to which hyper-parameter: read from the start values (all different)
        pos = {}
        for m in wanted:
            for i, v in enumerate(x0):
                if abs(float(v) - float(fnum(START[m]))) < 1e-12:
                    pos[m] = i
        env.assert_true('start values are the current values', len(set(pos.values())) == len(wanted))
        if sel:
            env.assert_true('start values in the order of the selection', [pos.get(m) for m in sel] == list(range(n)))
        order.update(pos)
        points = []
        for r in (0, 1):
            vals = dict(START)
            for m in wanted:
                vals[m] = OTHER[m][r]
            points.append(vals)
        mixed = dict(START)
        mixed[wanted[0]] = OTHER[wanted[0]][1]
        points.append(mixed)
        final = points[chosen]
        for vals in points + [dict(START)] + [final]*last:
            x = [None] * n
            for m in wanted:
                x[pos[m]] = float(fnum(vals[m]))
            y = fun(env.np.array(x) if not env.symbolic else numpy.array(x))
            if vals is final:
                best = y
            _, e, kn, _ = reference(vals)
            env.assert_log_eq('objective', -y, e, known=('KF-a', kn))
            for m in names:
                env.assert_eq('value of {} during optimisation'.format(m), S.getHyperParameterValue(m),
                              env.num(vals[m]))
        order['final'] = final
        x = [None] * n
        for m in wanted:
            x[pos[m]] = float(fnum(final[m]))
        return x, best
    undo = env.minimize_stub(optimiser)
    try:
        if select or forward:
            S.optimize(select if select else [], forwardOnly=forward)
        else:
            S.optimize()
    finally:
        undo()
    env.assert_true('optimiser was used', 'final' in order)
    final = order['final']
    for m in names:
        env.assert_eq('value of {} after optimisation'.format(m), S.getHyperParameterValue(m), env.num(final[m]))
    tr, e, kn, f = reference(final)
    env.observe('evidence', S.logEvidence)
    env.assert_log_eq('evidence of the final fit', S.logEvidence, e, known=('KF-a', kn))
    # an ordinary study with the final values
    tm = build_nested(env, c.grid, spec, lambda n: fnum(final[n]), lambda n: None)
    R = env.bl.Study(silent=True)
    R.loadData(c.data, silent=True)
    R.set(c.model(), tm, silent=True)
    R.fit(silent=True, forwardOnly=forward)
    env.assert_eq('distributions of the final fit', S.posteriorSequence, R.posteriorSequence)
    env.assert_eq('mean values of the final fit', S.posteriorMeanValues, R.posteriorMeanValues)
    if forward:
        env.assert_eq('filtering distributions', S.posteriorSequence, [c.nested(p) for p in f])
