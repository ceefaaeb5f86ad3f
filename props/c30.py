"""Query arithmetic follows the usual precedence and functions; derived distributions are complete."""
import math
from .spec import Case, total, flatten
from .c29 import build, probability, Used

BOUNDS = ('expressions listed in the source over one or two parameters with 3 to 7 values and 2 time steps; every '
          'expression is compared at all thresholds between its different outcomes (quick: at most four); all posteriors')
ASSUMPTIONS = ['outcomes that are NaN or infinite are not compared (they fulfil no condition)']

E = lambda s: s
ARITH = [('x@1 + 2*y@1', lambda v: v['x@1'] + 2 * v['y@1']), ('x@1 - y@1 - 1', lambda v: v['x@1'] - v['y@1'] - 1),
         ('x@1 - (y@1 - 1)', lambda v: v['x@1'] - (v['y@1'] - 1)), ('8/y@1/2', lambda v: 8 / v['y@1'] / 2),
         ('8/(y@1/2)', lambda v: 8 / (v['y@1'] / 2)), ('2*x@1^2', lambda v: 2 * v['x@1'] ** 2),
         ('(2*x@1)^2', lambda v: (2 * v['x@1']) ** 2), ('2^x@1*3', lambda v: 2 ** v['x@1'] * 3),
         ('2^(x@1*3)', lambda v: 2 ** (v['x@1'] * 3)), ('x@1^2^y@1', lambda v: v['x@1'] ** (2 ** v['y@1'])),
         ('1 + x@1*y@1 - x@1/y@1', lambda v: 1 + v['x@1'] * v['y@1'] - v['x@1'] / v['y@1']),
         ('(x@1 + 1)*(y@1 - 3)', lambda v: (v['x@1'] + 1) * (v['y@1'] - 3)), ('-x@1 + 3', lambda v: -v['x@1'] + 3),
         ('3 - -x@1', lambda v: 3 + v['x@1']), ('-(x@1 - y@1)', lambda v: -(v['x@1'] - v['y@1'])),
         ('+x@1 - 2', lambda v: v['x@1'] - 2), ('x@1*-2', lambda v: -2 * v['x@1']), ('1.5e1*x@1', lambda v: 15 * v['x@1']),
         ('25E-2*x@1 + y@1', lambda v: .25 * v['x@1'] + v['y@1']), ('x@1 - 2*3 + y@1', lambda v: v['x@1'] - 6 + v['y@1']),
         ('2*3*4*x@1', lambda v: 24 * v['x@1']), ('12/2/3*y@1', lambda v: 2 * v['y@1']), ('7 - 3 - 2 - x@1', lambda v: 2 - v['x@1']),
         ('((x@1))', lambda v: v['x@1']), ('y@1^-1', lambda v: 1 / v['y@1']), ('1/y@1^2', lambda v: 1 / v['y@1'] ** 2), ('-y@1^2', lambda v: -v['y@1'] ** 2),
         ('3 - y@1^2', lambda v: 3 - v['y@1'] ** 2), ('(-y@1)^2', lambda v: v['y@1'] ** 2), ('x@1 - -y@1^2', lambda v: v['x@1'] + v['y@1'] ** 2),
         ('-2^2*x@1', lambda v: -4 * v['x@1']), ('-y@1^2*2 + x@1', lambda v: -2 * v['y@1'] ** 2 + v['x@1']), ('2^-y@1', lambda v: 2 ** -v['y@1'])]
FUNC = [('sqrt(y@1)', lambda v: math.sqrt(v['y@1'])), ('sqrt(y@1)*2 + 1', lambda v: math.sqrt(v['y@1']) * 2 + 1),
        ('exp(x@1)', lambda v: math.exp(v['x@1'])), ('exp(-x@1)', lambda v: math.exp(-v['x@1'])),
        ('log(y@1) + x@1', lambda v: math.log(v['y@1']) + v['x@1']), ('x@1 + log(y@1)', lambda v: v['x@1'] + math.log(v['y@1'])),
        ('log(exp(x@1))', lambda v: v['x@1']), ('abs(x@1 - 1)', lambda v: abs(v['x@1'] - 1)),
        ('sqrt(abs(x@1 - 2)) - y@1', lambda v: math.sqrt(abs(v['x@1'] - 2)) - v['y@1']), ('exp(x@1)^2', lambda v: math.exp(v['x@1']) ** 2),
        ('2*exp(x@1)/y@1', lambda v: 2 * math.exp(v['x@1']) / v['y@1']), ('log10(y@1)', lambda v: math.log10(v['y@1'])),
        ('-exp(x@1) + 3', lambda v: -math.exp(v['x@1']) + 3), ('square(x@1) - y@1', lambda v: v['x@1'] ** 2 - v['y@1'])]
MIXED = [('x@0 - x@1', lambda v: v['x@0'] - v['x@1']), ('x@0*x@1 + 1', lambda v: v['x@0'] * v['x@1'] + 1),
         ('x@1 - x@0/2', lambda v: v['x@1'] - v['x@0'] / 2), ('exp(x@0) - 2*x@1', lambda v: math.exp(v['x@0']) - 2 * v['x@1']),
         ('x@0^2 - x@1', lambda v: v['x@0'] ** 2 - v['x@1']), ('2^x@0/x@1', None), ('-x@0 - x@1', lambda v: -v['x@0'] - v['x@1']),
         ('x@0 - (x@1 - 0.3)', lambda v: v['x@0'] - v['x@1'] + .3)]
MIXED = [m for m in MIXED if m[1] is not None]
# derived distributions: few, well separated outcomes
DIST = [('x@1', lambda v: v['x@1']), ('2*x@0 + 1', lambda v: 2 * v['x@0'] + 1), ('x@1*x@1', lambda v: v['x@1'] ** 2),
        ('x@1 - x@0', lambda v: v['x@1'] - v['x@0']), ('exp(x@1)', lambda v: math.exp(v['x@1'])), ('x@0^2 + x@1', lambda v: v['x@0'] ** 2 + v['x@1'])]
DIST_H = [('s', lambda v: v['s']), ('2*s - 1', lambda v: 2 * v['s'] - 1), ('s*x@1', lambda v: v['s'] * v['x@1'])]


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    for i in range(0, len(ARITH), 7):
        add('arithmetic %d' % (i // 7 + 1), queries='ARITH', part=(i, i + 7), shape=(3, 3), pattern=3, T=2)
    for i in range(0, len(FUNC), 7):
        add('functions %d' % (i // 7 + 1), queries='FUNC', part=(i, i + 7), shape=(3, 3), pattern=3, T=2)
    add('different times', queries='MIXED', shape=3, T=2)
    add('derived distributions', queries='DIST', shape=5, T=2, pattern=2, dist=True)
    add('derived distributions, seven values', queries='DIST', shape=7, T=2, pattern=3, dist=True)
    add('derived distributions of hyper-parameters', queries='DIST_H', shape=3, T=2, dist=True,
        hyper=[('gauss', [('s', ['1/4', '1/2', '3/4', '1', '5/4'], 'list')])], pattern=2)
    return [(n, dict(k, every=tier == 'thorough')) for n, k in out]


def harness(env, queries, part=None, dist=False, hyper=None, every=False, **k):
    c = Case(env, **k)
    S, src = build(env, c, hyper)
    P = env.bl.Parser(S)
    for q, f in globals()[queries][slice(*part) if part else slice(None)]:
        u = Used()
        f(u)
        if dist:
            x, p = P(q, silent=True)
            # (the number of intervals depends on rounding: not compared with the real package)
            x, p = [float(v) for v in x], list(p)
            env.assert_eq('total probability of ' + q, total(p), env.num(1))
            w = x[1] - x[0] if len(x) > 1 else None
            if w is None:
                continue
            env.assert_true('values of {} in increasing order'.format(q), all(b > a for a, b in zip(x, x[1:])))
            last = len(x) - 1
            vals = []
            probability(env, src, u.names, lambda v: vals.append(f(v)))
            # outcomes on the boundary of two intervals may be counted in either of them (rounding)
            tie = [i < last and any(abs(y - b) < 1e-9 for y in vals) for i, b in enumerate(x)]
            for i, b in enumerate(x):
                if tie[i] or (i > 0 and tie[i - 1]):
                    continue
                want = probability(env, src, u.names, lambda v: b - w - 1e-9 <= f(v) < b - 1e-9 or
                                   (i == last and b - w - 1e-9 <= f(v) <= b + 1e-9))
                env.assert_eq('probability of {} in the interval below {:.6g}'.format(q, b), p[i], want, scale=1)
            continue
        # all outcomes
        vals = []
        probability(env, src, u.names, lambda v: vals.append(f(v)))
        vals = sorted(set(round(v, 9) for v in vals))
        cuts = [(a + b) / 2 for a, b in zip(vals, vals[1:])]
        if not every and len(cuts) > 4:
            cuts = [cuts[0], cuts[len(cuts) // 3], cuts[2 * len(cuts) // 3], cuts[-1]]
        for cut in cuts:
            cut = float('%.6f' % cut)
            want = probability(env, src, u.names, lambda v: f(v) > cut)
            r = P('{} > {:.6f}'.format(q, cut), silent=True)
            env.observe(q, r)
            env.assert_eq('probability of {} > {:.6f}'.format(q, cut), r, want, scale=1)
