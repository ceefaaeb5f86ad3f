"""
Reference semantics used by the harnesses: plain Python over exact numbers (symbolic) or floats (concrete).
Distributions are flat lists of probabilities over the parameter grid (C order).
"""
import itertools
import math
from fractions import Fraction


def prod(values, one=1):
    r = one
    for v in values:
        r = r * v
    return r


def total(values):
    values = list(values)
    r = values[0]
    if hasattr(r, 'c') and hasattr(r, 'm'):
        from engine.sym import symsum
        return symsum(values)
    for v in values[1:]:
        r = r + v
    return r


def normalise(p):
    n = total(p)
    return [x / n for x in p]


def tmul(*ps):
    return [prod(x[1:], x[0]) for x in zip(*ps)]


def nested(flat, shape):
    if len(shape) == 1:
        return list(flat)
    n = len(flat) // shape[0]
    return [nested(flat[i * n:(i + 1) * n], shape[1:]) for i in range(shape[0])]


def flatten(x):
    if isinstance(x, (list, tuple)) or (hasattr(x, 'ndim') and getattr(x, 'ndim', 0) > 0):
        out = []
        for v in x:
            out.extend(flatten(v))
        return out
    return [x]


def indices(shape):
    return list(itertools.product(*[range(n) for n in shape]))


def marginal(p, shape, axis):
    idx = indices(shape)
    out = [[] for _ in range(shape[axis])]
    for k, i in enumerate(idx):
        out[i[axis]].append(p[k])
    return [total(o) for o in out]


class Grid(object):
    """axes: list of (name, start, stop, n) with exact rationals, equally spaced, both ends included; or
    (name, list of values): any values, a categorical parameter"""
    def __init__(self, env, axes):
        self.env = env
        self.names = [a[0] for a in axes]
        self.shape = [a[3] if len(a) == 4 else len(a[1]) for a in axes]
        self.values = []
        self.dx = []
        self.step = []
        for a in axes:
            if len(a) == 2:
                self.values.append([env.num(Fraction(v)) for v in a[1]])
                self.dx.append(env.num(1))
                self.step.append(Fraction(1))
                continue
            name, start, stop, n = a
            start, stop = Fraction(start), Fraction(stop)
            step = (stop - start) / (n - 1)
            self.values.append([env.num(start + step * i) for i in range(n)])
            self.dx.append(env.num(abs(step)))
            self.step.append(abs(step))
        self.size = prod(self.shape)
        self.dV = prod(self.dx, env.num(1))
        self.args = []
        for a, v in zip(axes, self.values):
            self.args += [a[0], env.array(v)]
        self.points = [[self.values[a][i[a]] for a in range(len(self.shape))] for i in indices(self.shape)]

    def to_array(self, flat):
        return self.env.array(nested(flat, self.shape))


AX1 = {'half 2x3': [('x', '0', '1/2', 2), ('y', '1', '2', 3)], 'half 3x2': [('x', '0', '1', 3), ('y', '1', '3/2', 2)],
       'large': [('x', '-2000000', '1000000', 8)], 'small': [('x', ['0', '1/1000000000000', '3/1000000000000'])],
       'far': [('x', '1000000', '1000001', 4)],
       'irregular': [('x', ['0', '1', '4'])], 'irregular 2': [('x', '0', '3', 2), ('y', ['1', '3/2', '7/2', '4'])],
       'similar names': [('x', '0', '3', 2), ('xy', '1', '2', 3)], 'similar names 2': [('yx', '0', '3', 2), ('x', '1', '2', 3)],
       'similar names 3': [('X', '0', '3', 2), ('x', '1', '2', 3)],
       'desc': [('x', '2', '1', 3)], 3: [('x', '0', '1', 3)], 2: [('x', '0', '1/2', 2)], 4: [('x', '1', '7', 4)], 5: [('x', '-1', '1', 5)],
       6: [('x', '0', '5/2', 6)], 7: [('x', '1/3', '7/3', 7)],
       12: [('x', '-1', '9/2', 12)], 16: [('x', '0', '15/4', 16)]}
AX2 = {(2, 2): [('x', '0', '3', 2), ('y', '1', '3/2', 2)], (2, 3): [('x', '0', '3', 2), ('y', '1', '2', 3)],
       (3, 2): [('x', '-1', '1', 3), ('y', '2', '12', 2)], (3, 4): [('x', '0', '1', 3), ('y', '1', '7', 4)],
       (3, 3): [('x', '-1', '2', 3), ('y', '1', '3', 3)], (4, 3): [('x', '0', '3/4', 4), ('y', '-2', '4', 3)], (5, 4): [('x', '0', '2', 5), ('y', '1', '7', 4)],
       (12, 3): [('x', '-1', '9/2', 12), ('y', '1', '2', 3)]}
AX3 = {(2, 2, 2): [('x', '0', '3', 2), ('y', '1', '3/2', 2), ('z', '-2', '2', 2)],
       (2, 3, 2): [('x', '0', '3', 2), ('y', '1', '2', 3), ('z', '-2', '2', 2)]}


def axes_for(shape):
    if isinstance(shape, (int, str)):
        return AX1[shape]
    if len(shape) == 1:
        return AX1[shape[0]]
    if len(shape) == 2:
        return AX2[tuple(shape)]
    return AX3[tuple(shape)]


def likelihoods(env, T, K, pattern='all', prefix='L', zero=()):
    """
    table of likelihood values L[t][k] > 0; pattern 'all': every entry is an input; ('few', n): n entries per time step
    are inputs, the others are fixed numbers; zero: entries (t, k) that are zero
    """
    out = []
    for t in range(T):
        row = []
        for k in range(K):
            name = '{}{}_{}'.format(prefix, t, k)
            if (t, k) in zero:
                row.append(env.num(0))
            elif pattern == 'bounded' and (t * K + k) % 100 == 0:
                row.append(env.real(name, lo=Fraction(1, 2), hi=2))
            elif pattern == 'all' or (isinstance(pattern, (list, tuple)) and (t, k) in [tuple(p) for p in pattern]):
                row.append(env.pos(name))
            elif isinstance(pattern, int) and (t * K + k) % pattern == 0:
                row.append(env.pos(name))
            else:
                row.append(env.pos(name, fixed=env.sample(name, Fraction(1, 5), 2)))
        out.append(row)
    return out


def table_model(env, grid, L, prior=None):
    """observation model whose likelihood at data value t is the table row L[t]"""
    arrays = [grid.to_array(row) for row in L]
    n = len(grid.shape)

    def look(data):
        d = data
        while hasattr(d, '__len__'):
            d = d[0]
        return arrays[int(d)].copy()
    if n == 1:
        def lik(data, x):
            return look(data)
    elif n == 2:
        def lik(data, x, y):
            return look(data)
    else:
        def lik(data, x, y, z):
            return look(data)
    kw = {} if prior is None else dict(prior=prior)
    return env.bl.om.NumPy(lik, *grid.args, **kw)


def segment_model(env, grid, L, seg, prior=None):
    """observation model of a user: looks at segments of data; the likelihood of data values (t, ..., t+seg-1) is row L[t]"""
    arrays = [grid.to_array(row) for row in L]

    class Segments(env.bl.observationModels.ObservationModel):
        def __init__(self):
            self.name = 'segments'
            self.segmentLength = seg
            self.multiplyLikelihoods = True
            self.parameterNames = list(grid.names)
            self.parameterValues = [a for a in grid.args[1::2]]
            self.prior = prior

        def pdf(self, g, dataSegment):
            d = []
            for r in dataSegment:
                while hasattr(r, '__len__'):
                    r = r[0]
                d.append(int(r))
            if d != list(range(d[0], d[0] + seg)):
                raise AssertionError('segment {}'.format(d))
            return arrays[d[0]].copy()
    return Segments()


def make_prior(env, grid, kind):
    """returns (prior argument of the observation model, list of prior probabilities)"""
    K = grid.size
    if kind in (None, 'flat'):
        return None, [env.num(Fraction(1, K))] * K
    if kind == 'array':
        w = [env.pos('pr%d' % k) for k in range(K)]
        return grid.to_array(w), normalise(w)
    if kind == 'array_few':
        w = [env.pos('pr0')] + [env.num(env.sample('pr%d' % k, Fraction(1, 5), 2)) for k in range(1, K)]
        return grid.to_array(w), normalise(w)
    if kind == 'array_fixed':
        w = [env.num(env.sample('pr%d' % k, Fraction(1, 5), 2)) for k in range(K)]
        return grid.to_array(w), normalise(w)
    if kind == 'array_unit':
        # an array that sums to one exactly
        w = [Fraction(k + 1, K * (K + 1) // 2) for k in range(K)]
        w = [env.num(x) for x in w]
        return grid.to_array(w), list(w)
    if kind == 'function':
        c = env.pos('prc')
        if len(grid.shape) == 1:
            f = lambda x: c + x * x
        elif len(grid.shape) == 2:
            f = lambda x, y: c + x * x + 2 * y * y
        else:
            f = lambda x, y, z: c + x * x + 2 * y * y + 3 * z * z
        w = []
        for pt in grid.points:
            w.append(c + total([env.num(i + 1) * v * v for i, v in enumerate(pt)]))
        return f, normalise(w)
    if kind == 'function_fixed':
        if len(grid.shape) == 1:
            f = lambda x: 1.5 + x * x
        elif len(grid.shape) == 2:
            f = lambda x, y: 1.5 + x * x + 2 * y * y
        else:
            f = lambda x, y, z: 1.5 + x * x + 2 * y * y + 3 * z * z
        w = []
        for pt in grid.points:
            w.append(env.num(Fraction(3, 2)) + total([env.num(i + 1) * v * v for i, v in enumerate(pt)]))
        return f, normalise(w)
    if kind == 'scalar':
        return (lambda *a: 1.), [env.num(Fraction(1, K))] * K
    raise KeyError(kind)


# --------------------------------------------------------------------------------------------------------------------
# transition models: objects with .build(env) -> transition model instance, .step(p, t) -> forward prior,
# .matrix(t) -> matrix (list of rows) or 'reset' or None for the identity
# --------------------------------------------------------------------------------------------------------------------
class Trans(object):
    resets = 0
    linear = True

    def __init__(self, env, grid, prior):
        self.env, self.grid, self.prior = env, grid, prior

    def matrix(self, t):
        """None (identity), 'reset', or list of rows M[i][j]"""
        return None

    def step(self, p, t):
        return apply(self.matrix(t), p, self.prior)

    def reset_at(self, t):
        """number of change-point resets performed in the step after time stamp t"""
        return 0


def apply(M, p, prior):
    if M is None:
        return list(p)
    if M == 'reset':
        n = total(p)
        return [n * x for x in prior]
    return [total([M[i][j] * p[j] for j in range(len(p)) if not _is0(M[i][j])]) for i in range(len(p))]


def applyT(M, p, prior):
    if M is None:
        return list(p)
    if M == 'reset':
        n = total([x * q for x, q in zip(p, prior)])
        return [n for _ in p]
    return [total([M[j][i] * p[j] for j in range(len(p)) if not _is0(M[j][i])]) for i in range(len(p))]


def _is0(x):
    return (hasattr(x, 'c') and hasattr(x, 'm') and x.special is None and x.c == 0) or \
        (isinstance(x, (int, float)) and x == 0)


def gauss_matrix(env, grid, axis, sigma):
    """
    Gaussian random walk on one axis: weights proportional to exp(-d^2/2), d in units of sigma, cut off beyond four
    standard deviations, reflected at the boundaries of the grid.
    """
    n = grid.shape[axis]
    s = float(Fraction(sigma)) / float(grid.dx[axis])
    if s == 0:
        return None
    rad = int(4. * s + 0.5)
    w = [math.exp(-0.5 * (d / s) ** 2) for d in range(-rad, rad + 1)]
    z = math.fsum(w)
    A = [[0.] * n for _ in range(n)]
    for i in range(n):
        for d in range(-rad, rad + 1):
            j = (i + d) % (2 * n)
            if j >= n:
                j = 2 * n - 1 - j
            A[i][j] += w[d + rad] / z
    return expand_axis(env, grid, axis, A)


def expand_axis(env, grid, axis, A):
    idx = indices(grid.shape)
    pos = {i: k for k, i in enumerate(idx)}
    M = [[env.num(0)] * grid.size for _ in range(grid.size)]
    for k, i in enumerate(idx):
        for j in range(grid.shape[axis]):
            jj = i[:axis] + (j,) + i[axis + 1:]
            v = A[i[axis]][j]
            if abs(v) > 1e-15:
                M[k][pos[jj]] = weight(env, v)
    return M


def weight(env, v):
    if env.symbolic:
        from engine.npx import coef
        return coef(v)
    return float(v)


class Static(Trans):
    def build(self):
        return self.env.bl.tm.Static()


class Independent(Trans):
    def build(self):
        return self.env.bl.tm.Independent()

    def matrix(self, t):
        return 'reset'


class ChangePoint(Trans):
    def __init__(self, env, grid, prior, at):
        Trans.__init__(self, env, grid, prior)
        self.at = at

    def build(self):
        return self.env.bl.tm.ChangePoint('tC', self.at)

    def matrix(self, t):
        return 'reset' if t == self.at else None

    def reset_at(self, t):
        return 1 if t == self.at else 0


class Gauss(Trans):
    def __init__(self, env, grid, prior, axis=0, sigma='3/4', name='sigma'):
        Trans.__init__(self, env, grid, prior)
        self.axis, self.sigma, self.name = axis, sigma, name
        self._m = None

    def build(self):
        return self.env.bl.tm.GaussianRandomWalk(self.name, float(Fraction(self.sigma)),
                                                 target=self.grid.names[self.axis])

    def matrix(self, t):
        if self._m is None:
            self._m = gauss_matrix(self.env, self.grid, self.axis, self.sigma)
        return self._m


class Renorm(Trans):
    """linear operator followed by normalisation (probability that leaves the grid is redistributed)"""
    _m = None

    def matrix(self, t):
        if self._m is None:
            self._m = self.compute()
        return self._m

    def step(self, p, t):
        q = apply(self.matrix(t), p, self.prior)
        n, m = total(p), total(q)
        return [x * n / m for x in q]


class AlphaStable(Renorm):
    """symmetric alpha-stable increments on one axis: kernel from its characteristic function on three grid lengths"""
    def __init__(self, env, grid, prior, axis=0, c='1/2', alpha='3/2', names=('c', 'alpha')):
        Trans.__init__(self, env, grid, prior)
        self.axis, self.c, self.alpha, self.names = axis, c, alpha, names

    def build(self):
        return self.env.bl.tm.AlphaStableRandomWalk(self.names[0], float(Fraction(self.c)), self.names[1],
                                                    float(Fraction(self.alpha)), target=self.grid.names[self.axis])

    def compute(self):
        n = self.grid.shape[self.axis]
        N = 3 * n
        c, al = float(Fraction(self.c)) / float(self.grid.dx[self.axis]), float(Fraction(self.alpha))

        def k(d):
            v = 0.
            for f in range(N):
                g = min(f, N - f)
                v += math.exp(-(abs(c) * 2 * math.pi * g / N) ** al) * math.cos(2 * math.pi * f * d / N)
            return max(v / N, 0.) if abs(v / N) > 1e-14 else 0.
        return expand_axis(self.env, self.grid, self.axis, [[k(i - j) for j in range(n)] for i in range(n)])


class Bivariate(Renorm):
    """correlated Gaussian increments on a two-dimensional grid, cut off beyond three (rounded up) standard deviations"""
    def __init__(self, env, grid, prior, s1='1', s2='1', rho='1/2', names=('sigma1', 'sigma2', 'rho')):
        Trans.__init__(self, env, grid, prior)
        self.v = [float(Fraction(x)) for x in (s1, s2, rho)]
        self.names = names

    def build(self):
        return self.env.bl.tm.BivariateRandomWalk(self.names[0], self.v[0], self.names[1], self.v[1], self.names[2],
                                                  self.v[2])

    def compute(self):
        s1, s2, rho = self.v[0] / float(self.grid.dx[0]), self.v[1] / float(self.grid.dx[1]), self.v[2]
        r1, r2 = 3 * int(math.ceil(s1)), 3 * int(math.ceil(s2))

        def k(d, e):
            if abs(d) > r1 or abs(e) > r2:
                return 0.
            u, v = d / s1, e / s2
            return math.exp(-(u * u - 2 * rho * u * v + v * v) / (2 * (1 - rho ** 2)))
        z = math.fsum(k(d, e) for d in range(-r1, r1 + 1) for e in range(-r2, r2 + 1))
        idx = indices(self.grid.shape)
        return [[weight(self.env, k(i[0] - j[0], i[1] - j[1]) / z) if k(i[0] - j[0], i[1] - j[1]) / z > 1e-15 else
                 self.env.num(0) for j in idx] for i in idx]


class RegimeSwitch(Trans):
    """floor on the probability of every parameter value, followed by normalisation"""
    linear = False

    def __init__(self, env, grid, prior, log10p='-1', name='log10pMin'):
        Trans.__init__(self, env, grid, prior)
        self.log10p, self.name = log10p, name

    def build(self):
        return self.env.bl.tm.RegimeSwitch(self.name, float(Fraction(self.log10p)))

    def floor(self):
        return self.grid.dV * self.env.num(10. ** float(Fraction(self.log10p)))

    def step(self, p, t):
        f = self.floor()
        q = [x if self.env.is_true(x >= f) else f for x in p]
        return normalise(q)

    def matrix(self, t):
        raise TypeError('not linear')


class NotEqual(RegimeSwitch):
    def build(self):
        return self.env.bl.tm.NotEqual(self.name, float(Fraction(self.log10p)))

    def step(self, p, t):
        m = self.env.maximum(p)
        q = [m - x for x in p]
        if self.env.is_true(total(q) > 0):
            q = normalise(q)
        f = self.floor()
        return normalise([x if self.env.is_true(x >= f) else f for x in q])


def integer_shift(p, shape, axis, k):
    """moves a distribution by k grid points; grid points that are left behind take the value of the edge"""
    idx = indices(shape)
    pos = {i: n for n, i in enumerate(idx)}
    out = []
    for i in idx:
        j = min(max(i[axis] - k, 0), shape[axis] - 1)
        out.append(p[pos[i[:axis] + (j,) + i[axis + 1:]]])
    return out


class Shift(Trans):
    """deterministic drift by f(t+1)-f(t), for functions that move by whole grid points"""
    linear = False

    def __init__(self, env, grid, prior, axis=0, kind='linear', value='1', name='a', toffset=0):
        Trans.__init__(self, env, grid, prior)
        self.axis, self.kind, self.value, self.name, self.toffset = axis, kind, Fraction(value), name, toffset

    def f(self, t):
        t = t - self.toffset
        return self.value * t if self.kind == 'linear' else self.value * t * t

    def build(self):
        v = float(self.value)
        if self.kind == 'linear':
            src = 'def drift(t, {0}={1!r}):\n    return {0}*t\n'
        else:
            src = 'def drift(t, {0}={1!r}):\n    return {0}*t**2\n'
        d = {}
        exec(src.format(self.name, v), d)
        return self.env.bl.tm.Deterministic(d['drift'], target=self.grid.names[self.axis])

    def points(self, t, direction=1):
        k = (self.f(t + direction) - self.f(t)) / self.grid.step[self.axis]
        assert k.denominator == 1
        return int(k)

    def step(self, p, t):
        return normalise(integer_shift(p, self.grid.shape, self.axis, self.points(t)))

    def matrix(self, t):
        raise TypeError('not linear')


class Combined(Trans):
    def __init__(self, env, grid, prior, subs):
        Trans.__init__(self, env, grid, prior)
        self.subs = subs

    def build(self):
        return self.env.bl.tm.CombinedTransitionModel(*[s.build() for s in self.subs])

    def step(self, p, t):
        for s in self.subs:
            p = s.step(p, t)
        return p

    def matrices(self, t):
        return [m for s in self.subs for m in (s.matrices(t) if hasattr(s, 'matrices') else [s.matrix(t)])]

    def reset_at(self, t):
        return sum(s.reset_at(t) for s in self.subs)


class Serial(Trans):
    """breaks: list of (time, is_changepoint); subs: one more sub-model"""
    def __init__(self, env, grid, prior, subs, breaks):
        Trans.__init__(self, env, grid, prior)
        self.subs, self.breaks = subs, breaks

    def build(self):
        tm = self.env.bl.tm
        args = []
        for i, s in enumerate(self.subs):
            args.append(s.build())
            if i < len(self.breaks):
                t, cp = self.breaks[i]
                args.append(tm.ChangePoint('b%d' % i, t) if cp else tm.BreakPoint('b%d' % i, t))
        return tm.SerialTransitionModel(*args)

    def active(self, t):
        return self.subs[sum(1 for b, _ in self.breaks if b <= t)]

    def matrices(self, t):
        s = self.active(t)
        ms = s.matrices(t) if hasattr(s, 'matrices') else [s.matrix(t)]
        if any(cp and b == t for b, cp in self.breaks):
            ms = ms + ['reset']
        return ms

    def step(self, p, t):
        p = self.active(t).step(p, t)
        if any(cp and b == t for b, cp in self.breaks):
            p = apply('reset', p, self.prior)
        return p

    def reset_at(self, t):
        # the change-point replaces the distribution, so a factor of the sub-model does not matter
        return 1 if any(cp and b == t for b, cp in self.breaks) else self.active(t).reset_at(t)


def matrices(tr, t):
    return tr.matrices(t) if hasattr(tr, 'matrices') else [tr.matrix(t)]


def forward(tr, prior, L, times):
    """un-normalised forward variables; the sum of the last one is the evidence"""
    out = []
    a = list(prior)
    for t, row in enumerate(L):
        a = [x * l for x, l in zip(a, row)]
        out.append(a)
        if t < len(L) - 1:
            for M in matrices(tr, times[t]):
                a = apply(M, a, prior)
    return out


def backward(tr, prior, L, times):
    out = [None] * len(L)
    b = None
    for t in range(len(L) - 1, -1, -1):
        if b is None:
            b = [_one(L[0][0])] * len(L[0])
        out[t] = b
        if t > 0:
            b = [x * l for x, l in zip(b, L[t])]
            for M in reversed(matrices(tr, times[t - 1])):
                b = applyT(M, b, prior)
    return out


def backward_known(tr, prior, L, times, serial_prior=False, forward_order=False):
    """backward variables as they result from the known findings KF-b (serial_prior) and KF-d (forward_order)"""
    out = [None] * len(L)
    b = [_one(L[0][0])] * len(L[0])
    for t in range(len(L) - 1, -1, -1):
        out[t] = b
        if t > 0:
            b = [x * l for x, l in zip(b, L[t])]
            tt = times[t - 1]
            ms = matrices(tr, tt)
            if serial_prior and isinstance(tr, Serial) and any(cp and bt == tt for bt, cp in tr.breaks):
                b = list(prior)
                continue
            for M in (ms if forward_order else reversed(ms)):
                b = applyT(M, b, prior)
    return out


def _one(x):
    return x * 0 + 1 if not hasattr(x, 'm') else type(x)(Fraction(1), ())


def filtering(tr, prior, L, times):
    """step by step filter for arbitrary transition models: (filtered distributions, predictive norms)"""
    out, norms = [], []
    p = list(prior)
    for t, row in enumerate(L):
        a = [x * l for x, l in zip(p, row)]
        n = total(a)
        q = [x / n for x in a]
        out.append(q)
        norms.append(n)
        if t < len(L) - 1:
            p = tr.step(q, times[t])
    return out, norms


def resets(tr, times, upto=None):
    n = len(times) if upto is None else upto
    return sum(tr.reset_at(t) for t in times[:n - 1])


def build_trans(env, grid, prior, spec):
    """spec: nested tuples, e.g. ('gauss', 0, '3/4'), ('serial', [..], [(t, cp)]), ('combined', [...])"""
    k = spec[0]
    if k == 'static':
        return Static(env, grid, prior)
    if k == 'independent':
        return Independent(env, grid, prior)
    if k == 'changepoint':
        return ChangePoint(env, grid, prior, spec[1])
    if k == 'gauss':
        return Gauss(env, grid, prior, *spec[1:])
    if k == 'alphastable':
        return AlphaStable(env, grid, prior, *spec[1:])
    if k == 'bivariate':
        return Bivariate(env, grid, prior, *spec[1:])
    if k == 'regime':
        return RegimeSwitch(env, grid, prior, *spec[1:])
    if k == 'notequal':
        return NotEqual(env, grid, prior, *spec[1:])
    if k == 'shift2':
        return Shift2(env, grid, prior, *spec[1:])
    if k == 'shift':
        return Shift(env, grid, prior, *spec[1:])
    if k == 'combined':
        return Combined(env, grid, prior, [build_trans(env, grid, prior, s) for s in spec[1]])
    if k == 'serial':
        return Serial(env, grid, prior, [build_trans(env, grid, prior, s) for s in spec[1]], spec[2])
    raise KeyError(k)


def timestamps(kind, T):
    if kind is None:
        return list(range(T))
    if kind == 'offset':
        return [5 + i for i in range(T)]
    if kind == 'irregular':
        return [3 + i + (2 if i > 1 else 0) + (4 if i > 3 else 0) for i in range(T)]
    if kind == 'year':
        return [1852 + i for i in range(T)]
    if kind == 'negative':
        return [-2 + i for i in range(T)]
    if kind == 'double':
        return [10 + 2 * i for i in range(T)]
    if kind == 'fraction':
        return [0.5 + 1.25 * i + (0.5 if i > 1 else 0.) for i in range(T)]
    if kind == 'tenth':
        return [0.1 * i + 0.1 for i in range(T)]
    if kind == 'fine':
        return [0.003 * i + 0.001 for i in range(T)]
    raise KeyError(kind)


def study(env, grid, L, prior_arg, tm, times=None, cls='Study', data=None, model=None):
    S = getattr(env.bl, cls)(silent=True) if cls != 'OnlineStudy' else env.bl.OnlineStudy(silent=True)
    import numpy
    d = numpy.arange(len(L)) if data is None else data
    if times is None:
        S.loadData(d, silent=True)
    else:
        S.loadData(d, timestamps=times, silent=True)
    S.set(table_model(env, grid, L, prior_arg) if model is None else model, tm, silent=True)
    return S


class Case(object):
    """a complete fit problem described by a configuration"""
    def __init__(self, env, shape=3, T=3, trans=('static',), prior=None, times=None, pattern='all', zero=(), seg=1):
        """seg: number of data points per segment; T is the number of results, T + seg - 1 the number of data points"""
        import numpy
        self.env, self.seg = env, seg
        self.data = numpy.arange(T + seg - 1)
        self.grid = Grid(env, axes_for(shape))
        self.prior_arg, self.prior = make_prior(env, self.grid, prior)
        self.T = T
        self.L = likelihoods(env, T, self.grid.size, pattern, zero=[tuple(z) for z in zero])
        self.times_arg = None if times is None else timestamps(times, T + seg - 1)
        self.times = timestamps(times, T + seg - 1)[seg - 1:]
        self.tr = build_trans(env, self.grid, self.prior, trans)

    def study(self, cls='Study'):
        return study(self.env, self.grid, self.L, self.prior_arg, self.tr.build(), self.times_arg, cls, self.data, self.model())

    def model(self, L=None, prior=None):
        L, prior = L or self.L, self.prior_arg if prior is None else prior
        if self.seg > 1:
            return segment_model(self.env, self.grid, L, self.seg, prior)
        return table_model(self.env, self.grid, L, prior)

    def alphas(self):
        return forward(self.tr, self.prior, self.L, self.times)

    def betas(self):
        return backward(self.tr, self.prior, self.L, self.times)

    def evidence(self):
        return total(self.alphas()[-1])

    def known_factor(self, upto=None):
        return prod([self.grid.dV] * resets(self.tr, self.times, upto), self.env.num(1))

    def filtered(self):
        return [normalise(a) for a in self.alphas()]

    def smoothed(self):
        return [normalise([x * y for x, y in zip(a, b)]) for a, b in zip(self.alphas(), self.betas())]

    def smoothed_known(self, **k):
        bs = backward_known(self.tr, self.prior, self.L, self.times, **k)
        return [normalise([x * y for x, y in zip(a, b)]) for a, b in zip(self.alphas(), bs)]

    def replaced(self, t, row):
        """likelihood table with another row at time t"""
        return [row if i == t else r for i, r in enumerate(self.L)]

    def nested(self, p):
        return nested(p, self.grid.shape)


# --------------------------------------------------------------------------------------------------------------------
# hyper-studies
# --------------------------------------------------------------------------------------------------------------------
def fnum(x):
    """exact rational (as text) -> float for the package; integers stay integers"""
    f = Fraction(x)
    return int(f) if f.denominator == 1 and isinstance(x, int) else float(f)


class HyperAxis(object):
    """values of one hyper-parameter, its prior (as passed to the package) and the prior probabilities"""
    def __init__(self, env, name, values, prior=None):
        self.name, self.values = name, list(values)
        n = len(self.values)
        fr = [Fraction(v) for v in self.values]
        d = [b - a for a, b in zip(fr, fr[1:])]
        self.const = abs(d[0]) if n > 1 and all(x == d[0] for x in d) else Fraction(1)
        self.normalised = True
        if prior is None:
            self.arg, self.prob = None, [env.num(Fraction(1, n))] * n
        elif prior == 'list':
            w = [env.pos('{}_w{}'.format(name, i)) for i in range(n)]
            self.arg, self.prob = env.array(w), normalise(w)
        elif prior == 'ints':
            import numpy
            w = list(range(1, n + 1))
            self.arg, self.prob = numpy.array(w), normalise([env.num(x) for x in w])
        elif prior == 'function':
            c, d = env.pos('{}_c'.format(name)), env.pos('{}_d'.format(name))
            self.arg = lambda v: d * (c + v)
            self.prob = normalise([c + env.num(x) for x in fr])
        elif prior == 'int_function':
            # a function that returns integers
            self.arg = lambda v: 1 if v < fnum(self.values[-1]) else 3
            self.prob = normalise([env.num(1)] * (n - 1) + [env.num(3)])
        elif prior == 'sympy':
            from sympy import stats
            self.arg = stats.Exponential('prior_' + name, 2)
            # a density: its values are used as they are
            self.prob = [2 * env.exp(env.num(-2 * x)) * env.num(self.const) for x in fr]
            self.normalised = False
        else:
            raise KeyError(prior)

    @property
    def floats(self):
        """the values as passed to the package: integers remain integers"""
        if all(isinstance(v, int) for v in self.values):
            return list(self.values)
        return [fnum(v) for v in self.values]


class HyperCase(object):
    """
    hyper-grid over the product of axes; make(values) gives the transition model specification of one grid point,
    build(axes) the transition model of the package
    """
    def __init__(self, case, axes, make, keep=None):
        self.c, self.env, self.axes, self.make = case, case.env, axes, make
        self.points = [p for p in itertools.product(*[range(len(a.values)) for a in axes])]
        self.kept = [k for k, p in enumerate(self.points) if keep is None or keep([axes[i].values[j] for i, j in
                                                                                  enumerate(p)])]
        w = []
        for k in self.kept:
            w.append(prod([a.prob[j] for a, j in zip(axes, self.points[k])], self.env.num(1)))
        if keep is not None:
            z = total(w)
            full = total([prod([a.prob[j] for a, j in zip(axes, p)], self.env.num(1)) for p in self.points])
            w = [x / z * full for x in w]
        self.w = w
        self.trs = [build_trans(self.env, case.grid, case.prior, make([axes[i].values[j] for i, j in
                                                                       enumerate(self.points[k])])) for k in self.kept]

    def solve(self, mode='full', known=None):
        """known: 'KF-a' (factor for change-points) or keyword arguments of backward_known"""
        c, env = self.c, self.env
        self.E, self.post = [], []
        for tr in self.trs:
            if not tr.linear:
                assert mode != 'full'
                ps, norms = filtering(tr, c.prior, c.L, c.times)
                self.E.append(prod(norms, env.num(1)))
                self.post.append(ps)
                continue
            a = forward(tr, c.prior, c.L, c.times)
            e = total(a[-1])
            if mode == 'forward':
                ps = [normalise(x) for x in a] if not _is0(e) else None
            else:
                b = backward(tr, c.prior, c.L, c.times) if not isinstance(known, dict) else \
                    backward_known(tr, c.prior, c.L, c.times, **known)
                ps = [normalise([x * y for x, y in zip(u, v)]) for u, v in zip(a, b)] if not _is0(e) else None
            if known is not None:
                e = e * prod([c.grid.dV] * resets(tr, c.times), env.num(1))
            self.E.append(e)
            self.post.append(ps)
        self.evidence = total([e * w for e, w in zip(self.E, self.w)])
        self.prob = [e * w / self.evidence for e, w in zip(self.E, self.w)]
        self.average = []
        for t in range(c.T):
            self.average.append([total([q * ps[t][k] for q, ps in zip(self.prob, self.post) if ps is not None])
                                 for k in range(c.grid.size)])
        return self

    def full_prob(self):
        """distribution on the complete hyper-grid"""
        out = [self.env.num(0)] * len(self.points)
        for k, q in zip(self.kept, self.prob):
            out[k] = q
        return out

    @property
    def const(self):
        return self.env.num(prod([a.const for a in self.axes], Fraction(1)))

    def marginal(self, i):
        return marginal(self.full_prob(), [len(a.values) for a in self.axes], i)

    def joint(self, i, j):
        n = [len(a.values) for a in self.axes]
        out = [[[] for _ in range(n[j])] for _ in range(n[i])]
        for p, q in zip(self.points, self.full_prob()):
            out[p[i]][p[j]].append(q)
        return [[total(x) for x in row] for row in out]


def hyper_model(env, kind, axes):
    """transition model of the package and specification function for the hyper-study scenarios"""
    tm = env.bl.tm
    a = axes
    kw = lambda i: {} if a[i].arg is None else dict(prior=a[i].arg)
    if kind == 'gauss':
        return tm.GaussianRandomWalk(a[0].name, a[0].floats, target='x', **kw(0)), lambda v: ('gauss', 0, v[0])
    if kind in ('regime', 'notequal'):
        return (tm.RegimeSwitch if kind == 'regime' else tm.NotEqual)(a[0].name, a[0].floats, **kw(0)), lambda v: (kind, v[0])
    if kind == 'gauss2':
        return tm.CombinedTransitionModel(tm.GaussianRandomWalk(a[0].name, a[0].floats, target='x', **kw(0)),
                                          tm.GaussianRandomWalk(a[1].name, a[1].floats, target='y', **kw(1))), \
            lambda v: ('combined', [('gauss', 0, v[0]), ('gauss', 1, v[1])])
    if kind == 'serial':
        # hyper-parameters of a serial model: sub-models first, then break-points
        return tm.SerialTransitionModel(tm.Static(), tm.BreakPoint(a[1].name, a[1].floats, **kw(1)),
                                        tm.GaussianRandomWalk(a[0].name, a[0].floats, target='x', **kw(0))), \
            lambda v: ('serial', [('static',), ('gauss', 0, v[0])], [(v[1], False)])
    if kind == 'serial_cp':
        return tm.SerialTransitionModel(tm.Static(), tm.ChangePoint(a[1].name, a[1].floats, **kw(1)),
                                        tm.GaussianRandomWalk(a[0].name, a[0].floats, target='x', **kw(0))), \
            lambda v: ('serial', [('static',), ('gauss', 0, v[0])], [(v[1], True)])
    if kind == 'changepoint':
        return tm.ChangePoint(a[0].name, a[0].floats, **kw(0)), lambda v: ('changepoint', v[0])
    if kind == 'changepoint_all':
        return tm.ChangePoint(a[0].name, 'all', **kw(0)), lambda v: ('changepoint', v[0])
    if kind == 'cp_gauss':
        return tm.CombinedTransitionModel(tm.ChangePoint(a[0].name, a[0].floats, **kw(0)),
                                          tm.GaussianRandomWalk(a[1].name, a[1].floats, target='x', **kw(1))), \
            lambda v: ('combined', [('changepoint', v[0]), ('gauss', 0, v[1])])
    if kind == 'cp2':
        return tm.CombinedTransitionModel(tm.ChangePoint(a[0].name, a[0].floats, **kw(0)),
                                          tm.ChangePoint(a[1].name, a[1].floats, **kw(1))), \
            lambda v: ('combined', [('changepoint', v[0]), ('changepoint', v[1])])
    if kind == 'cp2_all':
        return tm.CombinedTransitionModel(tm.ChangePoint(a[0].name, 'all', **kw(0)),
                                          tm.ChangePoint(a[1].name, 'all', **kw(1))), \
            lambda v: ('combined', [('changepoint', v[0]), ('changepoint', v[1])])
    if kind in ('cp3_all', 'cp4_all'):
        return tm.CombinedTransitionModel(*[tm.ChangePoint(x.name, 'all', **kw(i)) for i, x in enumerate(a)]), \
            lambda v: ('combined', [('changepoint', x) for x in v])
    if kind == 'serial2':
        g0, g1 = ('static',), ('gauss', 0, '3/4')
        return tm.SerialTransitionModel(tm.Static(), tm.BreakPoint(a[0].name, a[0].floats, **kw(0)),
                                        tm.GaussianRandomWalk('s', 0.75, target='x'),
                                        tm.BreakPoint(a[1].name, a[1].floats, **kw(1)), tm.Static()), \
            lambda v: ('serial', [g0, g1, g0], [(v[0], False), (v[1], False)])
    if kind == 'serial2_all':
        g0, g1 = ('static',), ('gauss', 0, '3/4')
        return tm.SerialTransitionModel(tm.Static(), tm.BreakPoint(a[0].name, 'all', **kw(0)),
                                        tm.GaussianRandomWalk('s', 0.75, target='x'),
                                        tm.BreakPoint(a[1].name, 'all', **kw(1)), tm.Static()), \
            lambda v: ('serial', [g0, g1, g0], [(v[0], False), (v[1], False)])
    if kind == 'gauss3':
        return tm.CombinedTransitionModel(tm.GaussianRandomWalk(a[0].name, a[0].floats, target='x', **kw(0)),
                                          tm.GaussianRandomWalk(a[1].name, a[1].floats, target='y', **kw(1)),
                                          tm.ChangePoint(a[2].name, a[2].floats, **kw(2))), \
            lambda v: ('combined', [('gauss', 0, v[0]), ('gauss', 1, v[1]), ('changepoint', v[2])])
    if kind == 'cp_gauss_cp':
        # two change-points around another hyper-parameter
        return tm.CombinedTransitionModel(tm.ChangePoint(a[0].name, a[0].floats, **kw(0)),
                                          tm.GaussianRandomWalk(a[1].name, a[1].floats, target='x', **kw(1)),
                                          tm.ChangePoint(a[2].name, a[2].floats, **kw(2))), \
            lambda v: ('combined', [('changepoint', v[0]), ('gauss', 0, v[1]), ('changepoint', v[2])])
    raise KeyError(kind)


# --------------------------------------------------------------------------------------------------------------------
# nested transition models with named hyper-parameters: '@name' stands for the value of a hyper-parameter
# --------------------------------------------------------------------------------------------------------------------
def hp_names(spec):
    if isinstance(spec, str):
        return [spec[1:]] if spec.startswith('@') else []
    if isinstance(spec, (list, tuple)):
        return [n for s in spec for n in hp_names(s)]
    return []


def substitute(spec, values, names=True):
    """specification with numbers instead of names"""
    if isinstance(spec, str):
        return values[spec[1:]] if spec.startswith('@') else spec
    if isinstance(spec, (list, tuple)):
        return type(spec)(substitute(s, values) for s in spec)
    return spec


def build_nested(env, grid, spec, value, prior):
    """transition model of the package; value(name), prior(name) give the arguments"""
    tm = env.bl.tm
    k = spec[0]
    v = lambda i: value(spec[i][1:])
    nm = lambda i: spec[i][1:]
    pr = lambda *idx: tuple(prior(spec[i][1:]) for i in idx)
    if k == 'static':
        return tm.Static()
    if k == 'independent':
        return tm.Independent()
    if k == 'gauss':
        return tm.GaussianRandomWalk(nm(2), v(2), target=grid.names[spec[1]], prior=pr(2)[0])
    if k == 'alphastable':
        return tm.AlphaStableRandomWalk(nm(2), v(2), nm(3), v(3), target=grid.names[spec[1]], prior=pr(2, 3))
    if k == 'bivariate':
        return tm.BivariateRandomWalk(nm(1), v(1), nm(2), v(2), nm(3), v(3), prior=pr(1, 2, 3))
    if k == 'regime':
        return tm.RegimeSwitch(nm(1), v(1), prior=pr(1)[0])
    if k == 'notequal':
        return tm.NotEqual(nm(1), v(1), prior=pr(1)[0])
    if k == 'changepoint':
        return tm.ChangePoint(nm(1), v(1), prior=pr(1)[0])
    if k == 'shift':
        src = 'def drift(t, {0}=__v):\n    return {0}*t{1}\n'.format(nm(3), '' if spec[2] == 'linear' else '**2')
        d = dict(__v=v(3))
        exec(src, d)
        p = pr(3)[0]
        return tm.Deterministic(d['drift'], target=grid.names[spec[1]], prior=None if p is None else [p])
    if k == 'shift2':
        # f(t) = b*t^2 + a*t, keyword arguments in this order: a, b
        src = 'def drift(t, {0}=__v, {1}=__w):\n    return {0}*t + {1}*t**2\n'.format(nm(2), nm(3))
        d = dict(__v=v(2), __w=v(3))
        exec(src, d)
        p = pr(2, 3)
        return tm.Deterministic(d['drift'], target=grid.names[spec[1]], prior=None if all(x is None for x in p) else list(p))
    if k == 'combined':
        return tm.CombinedTransitionModel(*[build_nested(env, grid, s, value, prior) for s in spec[1]])
    if k == 'serial':
        args = []
        for i, s in enumerate(spec[1]):
            args.append(build_nested(env, grid, s, value, prior))
            if i < len(spec[2]):
                b, cp = spec[2][i]
                args.append((tm.ChangePoint if cp else tm.BreakPoint)(b[1:], value(b[1:]), prior=prior(b[1:])))
        return tm.SerialTransitionModel(*args)
    raise KeyError(k)


class Shift2(Shift):
    """drift a*t + b*t^2"""
    def __init__(self, env, grid, prior, axis, a, b, toffset=0):
        Trans.__init__(self, env, grid, prior)
        self.axis, self.a, self.b, self.toffset = axis, Fraction(a), Fraction(b), toffset

    def f(self, t):
        t = t - self.toffset
        return self.a * t + self.b * t * t


def set_offsets(tr, offset=0):
    """deterministic sub-models of serial models count time from the last break-point"""
    if isinstance(tr, Shift):
        tr.toffset = offset
    elif isinstance(tr, Combined):
        for s in tr.subs:
            set_offsets(s, offset)
    elif isinstance(tr, Serial):
        for i, s in enumerate(tr.subs):
            set_offsets(s, tr.breaks[i - 1][0] if i > 0 else offset)
    return tr


def distribution(env, K, name='p', pattern='all'):
    """a symbolic probability distribution with positive entries: normalised weights"""
    w = []
    for k in range(K):
        n = '{}{}'.format(name, k)
        if pattern == 'all' or (isinstance(pattern, int) and k % pattern == 0):
            w.append(env.pos(n))
        else:
            w.append(env.num(env.sample(n, Fraction(1, 5), 2)))
    return normalise(w)


def bare_study(env, grid, prior_arg, tm):
    """study whose models are set, to use its transition model directly"""
    import numpy
    S = env.bl.Study(silent=True)
    S.loadData(numpy.arange(2), silent=True)
    one = [[env.num(1)] * grid.size] * 2
    S.set(table_model(env, grid, one, prior_arg), tm, silent=True)
    return S


def back_step(tr, p, t, prior):
    """exact backward transition (transposed operators in reverse order) for linear models"""
    for M in reversed(matrices(tr, t)):
        p = applyT(M, p, prior)
    return p
