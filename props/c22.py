"""Random walks move only the target parameter, by the stated increments in units of its grid spacing."""
from .spec import (Grid, axes_for, make_prior, distribution, bare_study, build_trans, flatten, nested, marginal, total,
                   normalise)

BOUNDS = ('all distributions on grids of 2 to 7 values (one parameter), up to 5x4 (two) and 2x3x2 (three); grid spacings '
          'and widths listed; kernels of the package and of the specification agree to 1e-8')


def configs(tier):
    out = []

    def add(name, **k):
        out.append((name, k))
    for shape, axis, sigma in ((3, 0, '3/4'), (4, 0, '1'), (6, 0, '1/10'), (7, 0, '2'), ('desc', 0, '1/2'),
                               ((2, 3), 0, '2'), ((2, 3), 1, '1/2'), ((5, 4), 0, '1'), ((5, 4), 1, '1'),
                               ((2, 3, 2), 0, '2'), ((2, 3, 2), 1, '1/3'), ((2, 3, 2), 2, '3')):
        add('gauss {} axis {} width {}'.format(shape, axis, sigma), shape=shape, trans=('gauss', axis, sigma))
    for shape, axis, c, al in ((3, 0, '1/2', '3/2'), (4, 0, '2', '1'), (5, 0, '1/10', '2'), (6, 0, '1', '1/2'),
                               ((2, 3), 0, '2', '3/2'), ((2, 3), 1, '1/4', '1'), ((5, 4), 0, '1/3', '2'),
                               ((5, 4), 1, '3', '3/2'), ((3, 4), 1, '2', '7/4')):
        add('alphastable {} axis {} c {} alpha {}'.format(shape, axis, c, al), shape=shape,
            trans=('alphastable', axis, c, al), pattern='all')
    for shape, s1, s2, rho in (((2, 3), '2', '1/3', '1/2'), ((3, 4), '2/5', '3/2', '-1/3'), ((5, 4), '1/3', '3', '0'),
                               ((4, 3), '1', '1', '4/5')):
        add('bivariate {} {} {} {}'.format(shape, s1, s2, rho), shape=shape, trans=('bivariate', s1, s2, rho))
    add('gauss, large values', shape='large', trans=('gauss', 0, '500000'))
    add('gauss, large values with small spacing', shape='far', trans=('gauss', 0, '1/2'))
    add('gauss, descending values', shape='desc', trans=('gauss', 0, '1/2'))
    add('alphastable, large values', shape='large', trans=('alphastable', 0, '400000', '3/2'))
    add('gauss width 0', shape=(2, 3), trans=('gauss', 1, '0'))
    add('gauss width 0 K3', shape=3, trans=('gauss', 0, '0'))
    add('alphastable width 0', shape=(2, 3), trans=('alphastable', 0, '0', '3/2'))
    add('alphastable width 0 K4', shape=4, trans=('alphastable', 0, '0', '1'))
    add('gauss new width', shape=(3, 4), trans=('gauss', 1, '2'), then=('gauss', 1, '1'))
    add('alphastable new width', shape=4, trans=('alphastable', 0, '2', '1'), then=('alphastable', 0, '1', '1'))
    add('alphastable new shape', shape=4, trans=('alphastable', 0, '2', '1'), then=('alphastable', 0, '2', '3/2'))
    add('bivariate new correlation', shape=(2, 3), trans=('bivariate', '2', '1/3', '1/2'),
        then=('bivariate', '2', '1/3', '-1/2'))
    add('bivariate new width', shape=(2, 3), trans=('bivariate', '2', '1/3', '1/2'),
        then=('bivariate', '2', '1/2', '1/2'))
    for tr in (('gauss', 0, '1/2'), ('alphastable', 0, '1/2', '3/2'), ('alphastable', 1, '1', '1'), ('bivariate', '1/2', '1/3', '1/2')):
        add('{} {} then another grid'.format(tr[0], tr[1]), shape='half 2x3', trans=tr, grid='half 3x2', pattern=2)
    if tier == 'thorough':
        for i in range(1, 13):
            add('gauss 5x4 width {}/5'.format(i), shape=(5, 4), trans=('gauss', i % 2, '%d/5' % i))
            add('alphastable K7 c {}/4'.format(i), shape=7, trans=('alphastable', 0, '%d/4' % i, '%d/6' % i))
            add('bivariate 5x4 {}/6'.format(i - 6), shape=(5, 4), trans=('bivariate', '1/2', '%d/4' % i, '%d/7' % (i - 6)))
    return out


def values(tr):
    return {'Gauss': lambda: [tr.sigma], 'AlphaStable': lambda: [tr.c, tr.alpha],
            'Bivariate': lambda: tr.v}[tr.__class__.__name__]()


def harness(env, shape, trans, then=None, grid=None, pattern='all'):
    from fractions import Fraction
    g = Grid(env, axes_for(shape))
    arg, pr = make_prior(env, g, None)
    p = distribution(env, g.size, pattern=pattern)
    tr = build_trans(env, g, pr, trans)
    S = bare_study(env, g, arg, tr.build())
    t = env.real('t')
    given = g.to_array(p)
    r = S.transitionModel.computeForwardPrior(given, t)
    env.observe('new distribution', r)
    env.assert_eq('distribution after the walk', r, nested(tr.step(p, t), g.shape))
    env.assert_eq('total probability', total(flatten(r)), env.num(1))
    env.assert_eq('given distribution is not altered', given, nested(p, g.shape))
    rb = S.transitionModel.computeBackwardPrior(given, t)
    env.assert_eq('backward walk', rb, r)
    if trans[0] == 'gauss':
        for a in range(len(g.shape)):
            if a != trans[1]:
                env.assert_eq('distribution of the other parameter', marginal(flatten(r), g.shape, a),
                              marginal(p, g.shape, a))
    if trans[0] != 'bivariate' and Fraction(trans[2]) == 0:
        env.assert_eq('width zero', r, nested(p, g.shape))
    if grid is not None:
        # the same object is used by a study with another grid
        g2 = Grid(env, axes_for(grid))
        arg2, pr2 = make_prior(env, g2, None)
        tr2 = build_trans(env, g2, pr2, trans)
        S2 = bare_study(env, g2, arg2, S.transitionModel)
        q = distribution(env, g2.size, pattern=pattern)
        r2 = S2.transitionModel.computeForwardPrior(g2.to_array(q), t)
        env.assert_eq('distribution after the walk on another grid', r2, nested(tr2.step(q, t), g2.shape))
    if then is not None:
        tr2 = build_trans(env, g, pr, then)
        S._setAllHyperParameters([float(Fraction(v)) for v in values(tr2)])
        r2 = S.transitionModel.computeForwardPrior(given, t)
        env.assert_eq('distribution after a change of the hyper-parameters', r2, nested(tr2.step(p, t), g.shape))
