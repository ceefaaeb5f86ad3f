"""Hyper-parameters are set, read and restored by name, in arbitrarily nested transition models."""
import numpy
from fractions import Fraction
from .spec import Case, HyperAxis, table_model, hp_names, substitute, build_nested, build_trans, set_offsets, filtering, \
    prod, total, marginal, resets, fnum
import itertools

BOUNDS = 'one or two parameters with 2 to 5 values each, 2 to 4 time steps, up to four hyper-parameters with up to three ' \
    'values each, nesting up to three levels'

GA, GB = ('gauss', 0, '@s1'), ('gauss', 0, '@s2')
NEST = {
    'combined': ('combined', [GA, ('gauss', 1, '@s2')]),
    'combined with serial': ('combined', [GA, ('serial', [('static',), GB], [('@b', False)])]),
    'serial with combined': ('serial', [('combined', [GA, ('gauss', 1, '@s2')]), ('gauss', 0, '@s3')], [('@b', False)]),
    'three sub-models': ('serial', [GA, ('static',), GB], [('@b', False), ('@d', False)]),
    'three levels': ('combined', [('serial', [('combined', [GA, ('gauss', 0, '@s2')]), ('static',)], [('@b', False)]),
                                  ('gauss', 0, '@s3')]),
    'alpha-stable': ('combined', [('alphastable', 0, '@k', '@al'), GA]),
    'bivariate': ('bivariate', '@u', '@v', '@r'),
    'deterministic': ('shift2', 0, '@p', '@q'),
    'deterministic in serial': ('serial', [('shift', 0, 'linear', '@p'), ('gauss', 0, '@s1')], [('@b', False)]),
    'regime': ('combined', [GA, ('regime', '@m')]),
    'similar names': ('combined', [('gauss', 0, '@S1'), ('gauss', 1, '@s1'), ('gauss', 0, '@s'), ('gauss', 1, '@ss1')]),
    'similar names 2': ('serial', [('gauss', 0, '@s11'), ('gauss', 0, '@s1')], [('@ss', False)]),
    'deep first': ('combined', [('combined', [('combined', [GA])]), ('static',), GB]),
}
VALUES = {'ss': [0, 1], 'S1': ['1/4', '3/2'], 's': ['1', '2'], 'ss1': ['1/2', '3/4'], 's11': ['1', '1/2'], 's1': ['1/4', '3/4'], 's2': ['1/2', '1'], 's3': ['1/3', '5/3'], 'b': [0, 1], 'd': [1, 2], 'k': ['1/2', '1'],
          'al': ['1', '3/2'], 'u': ['1/2', '1'], 'v': ['1', '2'], 'r': ['0', '1/2'], 'p': ['1/2', '1'],
          'q': ['0', '1/2'], 'm': ['-1/2', '-1']}


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    add('combined', nest='combined', shape=(2, 2), T=2, priors=['s1', 's2'])
    add('combined with serial', nest='combined with serial', T=3, priors=['s1', 's2', 'b'], pattern=4)
    add('serial with combined', nest='serial with combined', shape=(2, 2), T=3, priors=['s3', 'b'], pattern=5)
    add('three sub-models', nest='three sub-models', T=4, priors=['s2', 'd'], pattern=5, grids=['s1', 's2', 'd'])
    add('three levels', nest='three levels', T=3, priors=['s1', 's3'], pattern=4)
    add('alpha-stable', nest='alpha-stable', shape=4, T=2, priors=['k', 'al'], pattern=3)
    add('bivariate', nest='bivariate', shape=(3, 4), T=2, priors=['u', 'r'], pattern=9)
    add('deterministic', nest='deterministic', shape=5, T=3, priors=['p', 'q'], pattern=5)
    add('deterministic in serial', nest='deterministic in serial', shape=5, T=3, priors=['p', 'b'], pattern=6)
    add('regime', nest='regime', shape=2, T=2, priors=['m'], pattern=[(0, 0)])
    add('deep first', nest='deep first', T=2, priors=['s2'])
    add('similar names', nest='similar names', shape=(2, 2), T=2, priors=['s1', 'ss1'], pattern=4)
    add('similar names 2', nest='similar names 2', T=3, priors=['s1'], pattern=4)
    add('some values scalar', nest='serial with combined', shape=(2, 2), T=3, grids=['s2', 'b'], priors=['s2'], pattern=5)
    add('other scalar values', nest='three levels', T=3, grids=['s1', 's3'], priors=['s3'], pattern=4)
    add('segments of two', nest='three levels', T=2, seg=2, priors=['s3'], pattern=4)
    if tier == 'thorough':
        add('three levels T4', nest='three levels', T=4, priors=['s1', 's2', 's3', 'b'], pattern=4)
        add('serial with combined T4', nest='serial with combined', shape=(2, 3), T=4, priors=['s1', 's2', 's3', 'b'],
            pattern=7)
    return out


def harness(env, nest, priors, grids=None, **k):
    c = Case(env, **k)
    spec = NEST[nest]
    names = hp_names(spec)
    grids = names if grids is None else grids
    ax = {}
    for n in names:
        v = VALUES[n] if n in grids else VALUES[n][:1]
        ax[n] = HyperAxis(env, n, v, 'list' if n in priors and n in grids else None)
    value = lambda n: ax[n].floats if n in grids else ax[n].floats[0]
    before = {n: (None if ax[n].arg is None else list(ax[n].arg)) for n in names}
    tm = build_nested(env, c.grid, spec, value, lambda n: ax[n].arg)
    S = env.bl.HyperStudy(silent=True)
    S.loadData(c.data, silent=True)
    S.set(c.model(), tm, silent=True)
    check_values(env, S, ax, grids, 'before the fit')
    S.fit(silent=True, forwardOnly=True)
    check_values(env, S, ax, grids, 'after the fit')
    # reference: one filter per combination
    combos = list(itertools.product(*[range(len(ax[n].values)) for n in names]))
    ref = {}
    for p in combos:
        vals = {n: ax[n].values[i] for n, i in zip(names, p)}
        tr = set_offsets(build_trans(env, c.grid, c.prior, substitute(spec, vals)))
        f, norms = filtering(tr, c.prior, c.L, c.times)
        w = prod([ax[n].prob[i] for n, i in zip(names, p)], env.num(1))
        ref[p] = (prod(norms[1:], norms[0]), w, f)
    E = total([e * w for e, w, _ in ref.values()])
    env.observe('evidence', S.logEvidence)
    env.assert_log_eq('evidence', S.logEvidence, E)
    flat = list(S.flatHyperParameterNames)
    env.assert_true('every hyper-parameter appears once', sorted(flat) == sorted(names))
    const = prod([env.num(ax[n].const) for n in names], env.num(1))
    seen = set()
    for i, row in enumerate(S.hyperGridValues):
        p = tuple(index(ax[n].floats, row[flat.index(n)]) for n in names)
        env.assert_true('combination %d exists' % i, None not in p and p not in seen)
        seen.add(p)
        e, w, _ = ref[p]
        env.assert_log_eq('evidence of combination {}'.format(p), S.logEvidenceList[i], e)
        env.assert_eq('prior of combination {}'.format(p), S.flatHyperPriorValues[i] * const, w)
        env.assert_eq('probability of combination {}'.format(p), S.hyperParameterDistribution[i] * const, e * w / E)
    env.assert_true('all combinations', len(seen) == len(combos))
    avg = [[total([e * w / E * f[t][x] for e, w, f in ref.values()]) for x in range(c.grid.size)] for t in range(c.T)]
    env.assert_eq('averaged distributions', S.posteriorSequence, [c.nested(p) for p in avg])
    for j, n in enumerate(names):
        if n not in grids:
            continue
        x, q = S.getHyperParameterDistribution(n)
        env.assert_eq('values of ' + n, x, [env.num(v) for v in ax[n].values])
        env.assert_eq('distribution of ' + n, q,
                      [total([e * w / E for p, (e, w, _) in ref.items() if p[j] == i]) for i in range(len(ax[n].values))])
        if before[n] is not None:
            env.assert_eq('prior supplied for ' + n, ax[n].arg, before[n])
    # a standard study with single values
    vals = {n: ax[n].values[-1] for n in names}
    tm = build_nested(env, c.grid, spec, lambda n: fnum(vals[n]), lambda n: None)
    S = env.bl.Study(silent=True)
    S.loadData(c.data, silent=True)
    S.set(c.model(), tm, silent=True)
    S.fit(silent=True, forwardOnly=True)
    p = tuple(len(ax[n].values) - 1 for n in names)
    env.assert_log_eq('evidence of a standard study', S.logEvidence, ref[p][0])
    env.assert_eq('distributions of a standard study', S.posteriorSequence, [c.nested(q) for q in ref[p][2]])
    for n in names:
        env.assert_eq('value of ' + n, S.getHyperParameterValue(n), env.num(Fraction(vals[n])))


def index(values, v):
    for i, x in enumerate(values):
        if abs(x - float(v)) < 1e-9:
            return i
    return None


def check_values(env, S, ax, grids, when):
    for n, a in ax.items():
        v = S.getHyperParameterValue(n)
        want = [env.num(x) for x in a.values]
        env.assert_eq('value of {} {}'.format(n, when), v, want if n in grids else want[0])
