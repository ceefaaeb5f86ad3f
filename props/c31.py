"""Results depend on the current data, models and options only."""
import numpy
from fractions import Fraction
from .spec import Case, Grid, HyperAxis, likelihoods, build_nested, axes_for, hp_names
from .c07 import freeze, same

BOUNDS = ('studies of all types, 1 or 2 parameters with 2 to 4 values, 2 to 4 time steps; every history of one (quick) or two '
          '(thorough) of the listed operations between configuration and final fit, every time step at which a fit is interrupted, '
          'every order in which data and models are set; all likelihoods of the final data')


class Interrupt(Exception):
    pass


def model(env, grid, tables, prior=None):
    """
    observation model defined by likelihood tables (data value -> row); the returned counter interrupts the computation when
    it reaches zero
    """
    arrays = [grid.to_array(row) for row in tables]
    left = [-1]

    def look(data):
        left[0] -= 1
        if left[0] == -1:
            raise Interrupt('interrupted')
        d = data
        while hasattr(d, '__len__'):
            d = d[0]
        return arrays[int(d)].copy()
    if len(grid.shape) == 1:
        def lik(data, x):
            return look(data)
    else:
        def lik(data, x, y):
            return look(data)
    kw = {} if prior is None else dict(prior=prior)
    args = list(grid.args)
    return env.bl.om.NumPy(lik, *args, **kw), left


SPECS = {'gauss': ('gauss', 0, '@s'), 'alphastable': ('alphastable', 0, '@s', '@al'), 'bivariate': ('bivariate', '@s', '@v', '@r'),
         'combined': ('combined', [('gauss', 0, '@s'), ('gauss', 0, '@u')]),
         'serial': ('serial', [('static',), ('gauss', 0, '@s')], [('@b', False)]),
         'serial_cp': ('serial', [('gauss', 0, '@s'), ('static',)], [('@b', True)]),
         'shift': ('shift', 0, 'linear', '@s'), 'regime': ('regime', '@m'), 'notequal': ('notequal', '@m'), 'cp': ('changepoint', '@b'),
         'quadratic': ('shift', 0, 'quadratic', '@s'),
         'two serial shifts': ('serial', [('shift', 0, 'linear', '@s'), ('shift', 0, 'linear', '@u')], [('@b', False)]),
         'independent': ('independent',), 'static': ('static',), 'cps': ('combined', [('changepoint', '@b'), ('changepoint', '@d')])}
ONE = {'s': 0.5, 'u': 1., 'al': 1.5, 'v': 1., 'r': 0.25, 'b': 1, 'm': -1, 'd': 2}
OTHER = {'s': 1., 'u': 0.5, 'al': 1., 'v': 2., 'r': -0.5, 'b': 0, 'm': -0.5, 'd': 1}
SEVERAL = {'s': [0.5, 1.], 'u': [0.5, 1.5], 'al': [1., 1.5], 'v': [1., 2.], 'r': [0., 0.5], 'b': [0, 1], 'm': [-1, -2], 'd': 'all'}


class World(object):
    def __init__(self, env, kind, tm, shape, T, pattern, prior, earlier):
        self.env, self.kind = env, kind
        self.c = Case(env, shape=shape, T=T, pattern=pattern, prior=prior)
        g = self.c.grid
        self.spec = SPECS[tm]
        # data of other fits: fixed likelihoods, other length; impossible data
        extra = [[env.num(env.sample('E%d_%d' % (i, k), Fraction(1, 5), 2)) for k in range(g.size)] for i in range(T + 1)]
        zero = [[env.num(0)] * g.size]
        self.tables = self.c.L + extra + zero
        self.dataA = numpy.arange(T)
        self.dataB = numpy.arange(T, 2 * T + 1)
        self.dataC = numpy.array([0, 2 * T + 1] + [1] * (T - 2))
        # other grids: other number of values, and same size with the names in other order
        self.gridB = Grid(env, axes_for({3: 4, 4: 3, 2: 3, (2, 3): (3, 2), (3, 3): (2, 2), (3, 4): (4, 3), 'half 2x3': 'half 3x2'}[shape]))
        self.tablesB = [[env.num(env.sample('B%d_%d' % (i, k), Fraction(1, 5), 2)) for k in range(self.gridB.size)]
                        for i in range(len(self.tables))]
        self.gridC = Grid(env, [(n,) + tuple(a[1:]) for n, a in zip(reversed(g.names), axes_for(shape))])
        self.gridC.args = [x for n, v in zip(self.gridC.names, [env.array(v) for v in self.gridC.values]) for x in (n, v)]
        self.om, self.left = self.new_om()
        self.tm = self.new_tm()
        self.omB = model(env, self.gridB, self.tablesB)[0]
        self.omC = model(env, self.gridC, self.tables)[0]

    def new_om(self):
        return model(self.env, self.c.grid, self.tables, self.c.prior_arg)

    def new_tm(self, values=None):
        v = values or (SEVERAL if self.kind in ('hyper', 'cp') else ONE)
        if self.kind == 'hyper':
            v = dict(v, d=[2, 3])
        return build_nested(self.env, self.c.grid, self.spec, lambda n: v[n], lambda n: None)

    def new(self):
        cls = {'hyper': 'HyperStudy', 'cp': 'ChangepointStudy', 'study': 'Study'}[self.kind]
        return getattr(self.env.bl, cls)(silent=True)

    def data(self, S):
        S.loadData(self.dataA, silent=True)


# every operation returns which settings have to be restored afterwards
def fit(**k):
    def f(w, S):
        S.fit(silent=True, **k)
        return ''
    return f


def other_data(w, S):
    S.loadData(w.dataB, timestamps=list(range(3, 3 + len(w.dataB))), silent=True)
    S.fit(silent=True)
    return 'd'


def impossible(w, S):
    S.loadData(w.dataC, silent=True)
    S.fit(silent=True)
    return 'd'


def other_grid(w, S):
    S.set(w.omB, silent=True)
    S.fit(silent=True)
    return 'o'


def other_names(w, S):
    S.set(w.omC, silent=True)
    S.fit(silent=True)
    return 'o'


def only_set_grid(w, S):
    S.set(w.omB, silent=True)
    return 'o'


def other_values(w, S):
    S.set(w.new_tm(OTHER if w.kind == 'study' else dict(OTHER, b=[0, 1], d=[2, 3])), silent=True)
    S.fit(silent=True, **({} if w.kind == 'study' else {}))
    return 't'


def other_value(w, S):
    """one of the hyper-parameters has another value"""
    names = hp_names(w.spec)
    for n in names:
        if w.kind == 'study':
            S.set(w.new_tm(dict(ONE, **{n: OTHER[n]})), silent=True)
        else:
            S.set(w.new_tm(dict(SEVERAL, d=[2, 3], **({n: [OTHER[n] / 2, OTHER[n]]} if n not in 'bd' else {}))), silent=True)
        S.fit(silent=True)
    return 't'


def other_model(w, S):
    bl = w.env.bl
    S.set(bl.tm.Static() if w.kind != 'cp' else bl.tm.ChangePoint('q', 'all'), silent=True)
    S.fit(silent=True)
    return 't'


def interrupted(**k):
    def f(w, S):
        n = {'study': 2, 'hyper': 4, 'cp': 4}[w.kind] * w.c.T
        if k.get('evidenceOnly'):
            n //= 2
        w.left[0] = w.env.choice('interrupted at', n)
        try:
            S.fit(silent=True, **k)
        except Interrupt:
            pass
        w.left[0] = -1
        return ''
    return f


def rejected_models(w, S):
    bl = w.env.bl
    for bad in (bl.tm.BreakPoint('z', 1), 'no model', None):
        try:
            S.set(bad, silent=True)
            w.env.assert_true('rejected: {}'.format(bad), False)
        except Exception:
            pass
    return ''


def rejected_data(w, S):
    for bad in (3, 'text', None):
        try:
            S.loadData(bad, silent=True)
            w.env.assert_true('rejected: {}'.format(bad), False)
        except Exception:
            pass
    return ''


def used_elsewhere(w, S):
    """the same model objects are used by another study with other data"""
    R = w.new()
    R.loadData(w.dataB, silent=True)
    R.set(w.om, w.tm, silent=True)
    R.fit(silent=True)
    return 't'


def shared(w, S):
    """the transition model is used by another study with another grid in between"""
    R = w.new()
    w.data(R)
    R.set(w.omB, w.tm, silent=True)
    R.fit(silent=True)
    return ''


def shared_online(w, S):
    R = w.env.bl.OnlineStudy(silent=True)
    R.set(w.omB, silent=True)
    R.addTransitionModel('m', w.tm)
    R.step(0)
    R.step(1)
    return ''


def optimised(w, S):
    n = hp_names(w.spec)[0] if hp_names(w.spec) else None
    if w.kind != 'study' or n is None:
        return ''

    def optimiser(fun, x0):
        y = fun(numpy.array([OTHER[n]]))
        return [OTHER[n]], y
    undo = w.env.minimize_stub(optimiser)
    try:
        S.optimize(n)
    finally:
        undo()
    return 'T'


def interrupted_optimise(w, S):
    n = hp_names(w.spec)[0] if hp_names(w.spec) else None
    if w.kind != 'study' or n is None:
        return ''

    def optimiser(fun, x0):
        fun(numpy.array([OTHER[n]]))
        raise Interrupt('interrupted')
    undo = w.env.minimize_stub(optimiser)
    try:
        S.optimize(n)
    except Interrupt:
        pass
    finally:
        undo()
    return 'T'


def optimised_and_back(w, S):
    """each hyper-parameter has another value in between"""
    if w.kind != 'study':
        return ''
    for values in (OTHER, ONE):
        for n in hp_names(w.spec):
            def optimiser(fun, x0):
                y = fun(numpy.array([values[n]]))
                return [values[n]], y
            undo = w.env.minimize_stub(optimiser)
            try:
                S.optimize(n)
            finally:
                undo()
    return ''


def unknown_optimise(w, S):
    try:
        S.optimize('unknown')
    except Exception:
        pass
    return ''


def part_of_serial(w, S):
    """the transition model is part of a serial model in between"""
    if w.kind == 'cp':
        return ''
    bl = w.env.bl
    S.set(bl.tm.SerialTransitionModel(bl.tm.Static(), bl.tm.BreakPoint('zz', 0.5), w.tm), silent=True)
    S.fit(silent=True)
    return 't'


def part_of_other_serial(w, S):
    """the transition model is part of a serial model of another study in between"""
    if w.kind == 'cp':
        return ''
    bl = w.env.bl
    R = w.new()
    w.data(R)
    R.set(w.omB, bl.tm.SerialTransitionModel(bl.tm.Static(), bl.tm.BreakPoint('zz', 0.5), w.tm), silent=True)
    R.fit(silent=True)
    return ''


def part_of_combined(w, S):
    bl = w.env.bl
    if w.kind == 'cp':
        return ''
    S.set(bl.tm.CombinedTransitionModel(bl.tm.Static(), w.tm), silent=True)
    S.fit(silent=True)
    return 't'


def reading(w, S):
    S.fit(silent=True)
    S.getParameterMeanValues(w.c.grid.names[0])
    S.getParameterDistributions(w.c.grid.names[0])
    S.simulate(numpy.array([0]), t=1)
    return ''


OPS = [('fit', fit()), ('forward-only fit', fit(forwardOnly=True)), ('evidence-only fit', fit(evidenceOnly=True)),
       ('fit of other data', other_data), ('fit of impossible data', impossible), ('fit on another grid', other_grid),
       ('fit with parameters of other names', other_names), ('another grid is set', only_set_grid),
       ('other hyper-parameter values', other_values), ('one other hyper-parameter value', other_value), ('fit with another transition model', other_model),
       ('interrupted fit', interrupted()), ('interrupted evidence-only fit', interrupted(evidenceOnly=True)),
       ('rejected models', rejected_models), ('rejected data', rejected_data), ('models used by another study', used_elsewhere),
       ('transition model shared with another study', shared), ('transition model shared with an online study', shared_online),
       ('optimisation', optimised), ('optimisation of each hyper-parameter and back', optimised_and_back), ('interrupted optimisation', interrupted_optimise), ('rejected optimisation', unknown_optimise),
       ('results are read', reading), ('transition model is part of a serial model', part_of_serial),
       ('transition model is part of a serial model of another study', part_of_other_serial),
       ('transition model is part of a combined model', part_of_combined)]
SINGLE_NAME = ('fit with parameters of other names',)
RESULTS = ['posteriorSequence', 'posteriorMeanValues', 'logEvidence', 'localEvidence', 'hyperParameterDistribution', 'logEvidenceList',
           'hyperGridValues', 'hyperGridConstant', 'averagePosteriorSequence', 'formattedTimestamps', 'marginalGrid', 'latticeConstant',
           'allHyperGridValues', 'mask']


def results(S, mode):
    out = {}
    for a in RESULTS:
        if mode == 'evidence' and a in ('posteriorSequence', 'posteriorMeanValues', 'averagePosteriorSequence'):
            continue
        v = getattr(S, a, None)
        if v is not None:
            out[a] = freeze(v)
    return out


def configs(tier):
    out = []
    n = 1 if tier == 'quick' else 2

    def add(name, **k):
        two = k.get('shape', 3) not in (2, 3, 4)
        sel = [i for i, (o, f) in enumerate(OPS) if (two or o not in SINGLE_NAME)]
        if k['kind'] != 'study':
            sel = [i for i in sel if 'optimi' not in OPS[i][0]]
        if k['kind'] == 'cp':
            sel = [i for i in sel if OPS[i][0] != 'transition model shared with an online study']
        if 'half' in str(k.get('shape')):
            sel = [i for i in sel if 'another grid' in OPS[i][0]]
        step = 4 if tier == 'quick' else 1
        for j in range(0, len(sel), step):
            out.append(('{}, history {}'.format(name, j), dict(k, first=sel[j:j + step], sel=sel, n=n)))
    add('random walk', kind='study', tm='gauss', T=3)
    add('alpha-stable, two parameters', kind='study', tm='alphastable', shape=(3, 3), T=2, pattern=4)
    add('alpha-stable, sizes of grid exchanged', kind='study', tm='alphastable', shape='half 2x3', T=2, pattern=3)
    add('bivariate, sizes of grid exchanged', kind='study', tm='bivariate', shape='half 2x3', T=2, pattern=3)
    add('bivariate', kind='study', tm='bivariate', shape=(3, 3), T=2, pattern=5)
    add('serial', kind='study', tm='serial', T=3, prior='array_few', pattern=2)
    add('serial drift', kind='study', tm='two serial shifts', shape=3, T=3, pattern=4)
    add('quadratic drift', kind='study', tm='quadratic', shape=3, T=3, pattern=4)
    add('combined, two parameters', kind='study', tm='combined', shape=(2, 3), T=2, pattern=3)
    add('regime', kind='study', tm='regime', shape=2, T=2, pattern=[(0, 0)])
    add('hyper-study', kind='hyper', tm='gauss', shape=3, T=2, pattern=2)
    add('hyper-study, serial', kind='hyper', tm='serial', shape=3, T=3, pattern=5)
    add('change-point study', kind='cp', tm='cps', shape=2, T=4, pattern=4)
    for name, k in [('online study', dict(tms=['gauss', 'static'], shape=3, T=3, pattern=2)),
                    ('online study, drift', dict(tms=['quadratic', 'gauss'], shape=3, T=3, pattern=4)),
                    ('online study, two parameters', dict(tms=['alphastable', 'serial'], shape=(2, 3), T=3, pattern=6)),
                    ('online study, segments', dict(tms=['gauss', 'serial'], shape=2, T=4, pattern=3, segment=2))]:
        out.append((name, dict(k, kind='online', n=n)))
    if tier == 'thorough':
        add('alpha-stable', kind='study', tm='alphastable', shape=3, T=3, pattern=2)
        add('serial change-point', kind='study', tm='serial_cp', T=3, prior='array_few', pattern=2)
        add('not equal', kind='study', tm='notequal', shape=2, T=3, pattern=[(0, 0)])
        add('drift', kind='study', tm='shift', shape=3, T=3, pattern=4)
        add('hyper-study, two parameters', kind='hyper', tm='combined', shape=(2, 3), T=2, pattern=4)
        add('hyper-study, alpha-stable', kind='hyper', tm='alphastable', shape=3, T=2, pattern=3)
    return out


ORDERS = ['dot', 'dto', 'odt', 'otd', 'tdo', 'tod']


def apply_settings(w, S, which, order, om, tm):
    for s in order:
        if s in which:
            if s == 'd':
                w.data(S)
            elif s == 'o':
                S.set(om, silent=True)
            else:
                S.set(tm, silent=True)


def online(env, tms, n, shape, T, pattern, segment=1):
    """
    online study with operations between its steps that are rejected, interrupted or concern other studies
    """
    bl = env.bl
    shape = tuple(shape) if isinstance(shape, list) else shape
    w = World(env, 'hyper', tms[0], shape, T, pattern, None, None)
    SEV = dict(SEVERAL, d=[2, 3])

    def models():
        out = []
        for i, t in enumerate(tms):
            # names of hyper-parameters have to be unique among the models
            spec = rename(SPECS[t], i)
            out.append(build_nested(env, w.c.grid, spec, lambda nm: SEV[nm.rstrip('0123456789')], lambda nm: None))
        return out

    def new_om(tables=None):
        om, left = model(env, w.c.grid, w.tables, w.c.prior_arg)
        om.segmentLength = segment
        return om, left

    def new(om, ms):
        S = bl.OnlineStudy(storeHistory=True, silent=True)
        S.set(om, silent=True)
        for i, m in enumerate(ms):
            S.addTransitionModel('m%d' % i, m)
        return S
    ms = models()
    om, left = new_om()
    where = env.choice('position', T)
    op = env.choice('operation', 9)
    if op == 0:
        # a first step without observation model
        S = bl.OnlineStudy(storeHistory=True, silent=True)
        for i, m in enumerate(ms):
            S.addTransitionModel('m%d' % i, m)
        for i in range(where + 1):
            rejected(env, lambda: S.step(0))
        S.set(om, silent=True)
    elif op == 1:
        # a first step with a prior that does not match
        bad = model(env, w.c.grid, w.tables, numpy.ones(7))[0]
        bad.segmentLength = segment
        S = new(bad, ms)
        if segment == 1:
            for i in range(where + 1):
                rejected(env, lambda: S.step(0))
        S.set(om, silent=True)
    else:
        S = new(om, ms)
    label = ' (operation {} before step {})'.format(op, where)
    for t in range(T):
        if t == where:
            if op == 2:
                if t >= segment - 1:
                    left[0] = 0
                    rejected(env, lambda: S.step(1), Interrupt)
                    left[0] = -1
            elif op == 3:
                if t or segment == 1:
                    rejected(env, lambda: S.step(numpy.array([0, 1, 2])) if t else S.step(None))
            elif op == 4:
                rejected(env, lambda: S.setTransitionModelPrior([0.2, 0.3, 0.5]))
                rejected(env, lambda: S.setTransitionModel(bl.tm.BreakPoint('z', 1)))
                rejected(env, lambda: S.fit())
            elif op == 5:
                # transition models used by another online study with another grid
                R = new(w.omB, ms)
                R.step(0)
                R.step(1)
            elif op == 6:
                # transition models used by a hyper-study with other data and another grid
                R = bl.HyperStudy(silent=True)
                R.loadData(w.dataB, silent=True)
                R.set(w.omB, ms[0], silent=True)
                R.fit(silent=True)
            elif op == 8:
                # transition models as parts of serial models of another study
                for i, m in enumerate(ms):
                    R = bl.HyperStudy(silent=True)
                    R.loadData(w.dataB, silent=True)
                    R.set(w.omB, bl.tm.SerialTransitionModel(bl.tm.Static(), bl.tm.BreakPoint('zz', 0.5), m), silent=True)
                    R.fit(silent=True)
            elif op == 7:
                # observation model used by another study
                R = new(om, models())
                R.step(1)
                R.step(0)
        S.step(t)
    R = new(new_om()[0], models())
    for t in range(T):
        R.step(t)
    env.observe('evidence', R.logEvidence)
    for name in ONLINE:
        same(env, name + label, freeze(getattr(S, name)), freeze(getattr(R, name)))
    # transition models can be used afterwards as if they were new
    for m, f in zip(ms, models()):
        H, I = bl.HyperStudy(silent=True), bl.HyperStudy(silent=True)
        for X, y in ((H, m), (I, f)):
            X.loadData(w.dataA, silent=True)
            X.set(new_om()[0], y, silent=True)
            X.fit(silent=True, evidenceOnly=True)
        same(env, 'evidence of a hyper-study' + label, freeze(H.logEvidence), freeze(I.logEvidence))


ONLINE = ['posteriorSequence', 'posteriorMeanValues', 'logEvidence', 'hyperParameterSequence', 'transitionModelSequence',
          'localTransitionModelSequence', 'formattedTimestamps', 'rawTimestamps', 'marginalizedPosterior', 'logEvidenceList']


def rename(spec, i):
    if isinstance(spec, str):
        return '{}{}'.format(spec, i) if spec.startswith('@') else spec
    if isinstance(spec, (list, tuple)):
        return type(spec)(rename(s, i) for s in spec)
    return spec


def rejected(env, f, kind=Exception):
    try:
        f()
    except kind:
        return
    env.assert_true('request is rejected', False)


def harness(env, kind, n, tm=None, first=None, sel=None, shape=3, T=3, pattern='all', prior=None, **k):
    if kind == 'online':
        return online(env, n=n, shape=shape, T=T, pattern=pattern, **k)
    shape = tuple(shape) if isinstance(shape, list) else shape
    w = World(env, kind, tm, shape, T, pattern, prior, None)
    S = w.new()
    apply_settings(w, S, 'dot', ORDERS[env.choice('order', len(ORDERS)) if tm in ('gauss', 'serial') and 0 in first else 0], w.om, w.tm)
    restore = ''
    names = []
    for i in range(n):
        cand = first if i == 0 else sel
        j = cand[env.choice('operation%d' % i, len(cand))]
        names.append(OPS[j][0])
        r = OPS[j][1](w, S)
        if i < n - 1:
            if 'T' in r:
                w.tm = w.new_tm()
                r += 't'
            apply_settings(w, S, r, 'dot', w.om, w.tm)
        else:
            restore += r
    if 'T' in restore:
        w.tm = w.new_tm()
        restore += 't'
    # final settings: only what the operation has changed, or everything again with the objects used before or new ones
    again = env.choice('settings', 3 if restore and n == 1 else 2)
    label = ' after: ' + ', '.join(names)
    if again == 0:
        apply_settings(w, S, restore, 'tod', w.om, w.tm)
    elif again == 1:
        apply_settings(w, S, 'dot', 'otd', w.om, w.tm)
    else:
        apply_settings(w, S, 'dot', 'dto', w.new_om()[0], w.new_tm())
    mode = ['full', 'forward', 'evidence'][env.choice('mode', 3)] if n == 1 and kind == 'study' else 'full'
    kw = dict(forwardOnly=mode == 'forward', evidenceOnly=mode == 'evidence')
    S.fit(silent=True, **kw)
    R = w.new()
    apply_settings(w, R, 'dot', 'dot', w.new_om()[0], w.new_tm())
    R.fit(silent=True, **kw)
    env.observe('evidence', R.logEvidence)
    a, b = results(S, mode), results(R, mode)
    for name in b:
        if name not in a:
            env.assert_true('{} is missing{}'.format(name, label), False)
        else:
            same(env, '{} ({}){}'.format(name, mode, label), a[name], b[name])
