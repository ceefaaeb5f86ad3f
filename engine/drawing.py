"""What a plot shows: calls of the drawing functions of matplotlib in a form that does not depend on how they are written."""

SIG = {'fill_between': ['x', 'y1', 'y2', 'where'], 'bar': ['x', 'height', 'width', 'bottom'], 'imshow': ['X', 'cmap', 'norm'],
       'bar3d': ['x', 'y', 'z', 'dx', 'dy', 'dz'], 'xticks': ['ticks', 'labels'], 'yticks': ['ticks', 'labels'],
       'set_xticks': ['ticks', 'labels'], 'set_yticks': ['ticks', 'labels'], 'set_xticklabels': ['labels'], 'set_yticklabels': ['labels'],
       'xlabel': ['text'], 'ylabel': ['text'], 'set_xlabel': ['text'], 'set_ylabel': ['text'], 'set_zlabel': ['text']}
DRAW = ('fill_between', 'bar', 'imshow', 'plot', 'bar3d')
# drawing functions whose effect is not interpreted here
OTHER = ('pcolormesh', 'pcolor', 'matshow', 'fill', 'step', 'scatter', 'hist', 'stem', 'barh', 'vlines', 'hlines', 'contour', 'contourf',
         'plot_surface', 'stackplot', 'errorbar', 'stairs')


class NotInterpreted(Exception):
    pass


def interpret(calls):
    """calls: (name of the function, positional arguments, keyword arguments) -> list of dictionaries"""
    out = []
    for name, a, k in calls:
        name = name.split('.')[-1]
        if name in OTHER:
            raise NotInterpreted(name)
        if name == 'plot':
            d = dict(kind='line', x=a[0] if len(a) > 1 else None, y=a[1] if len(a) > 1 else a[0])
            out.append(d)
            continue
        if name not in SIG:
            continue
        v = dict(zip(SIG[name], a))
        v.update({('text' if n in ('xlabel', 'ylabel', 'zlabel', 's') else n): x for n, x in k.items()})
        if name == 'fill_between':
            ends = [v['y1'], v.get('y2', 0)]
            zero = [i for i, e in enumerate(ends) if isinstance(e, (int, float)) and e == 0]
            if len(zero) != 1:
                raise NotInterpreted(name)
            out.append(dict(kind='area', x=v['x'], y=ends[1 - zero[0]]))
        elif name == 'bar':
            w = v.get('width', 0.8)
            x = v['x'] if v.get('align', 'center') == 'center' else v['x'] + w / 2
            out.append(dict(kind='bars', x=x, y=v['height'], width=w))
        elif name == 'imshow':
            z = v['X'] if v.get('origin') == 'lower' else v['X'][::-1]
            out.append(dict(kind='image', z=z, extent=v.get('extent')))
        elif name == 'bar3d':
            out.append(dict(kind='bars3d', x=v['x'] + v['dx'] / 2, y=v['y'] + v['dy'] / 2, z=v['dz'], base=v['z'], dx=v['dx'], dy=v['dy']))
        elif name.endswith('label'):
            out.append(dict(kind=name.replace('set_', ''), text=v.get('text')))
        elif 'tick' in name:
            axis = name.replace('set_', '')[0]
            if not v:
                continue
            out.append(dict(kind=axis + 'ticks', ticks=v.get('ticks'), labels=v.get('labels')))
    # tick positions and labels that are set separately
    merged = []
    for d in out:
        if d['kind'] in ('xticks', 'yticks'):
            old = [e for e in merged if e['kind'] == d['kind']]
            if old:
                for n in ('ticks', 'labels'):
                    if d[n] is not None:
                        old[0][n] = d[n]
                continue
        merged.append(d)
    return merged


def record():
    """records the calls of the real matplotlib; returns (list of calls, function that stops recording)"""
    import matplotlib
    matplotlib.use('Agg')
    import matplotlib.pyplot as plt
    from matplotlib.axes import Axes
    from mpl_toolkits.mplot3d import Axes3D
    plt.close('all')
    calls, undo, depth = [], [], [0]

    def patch(cls, name):
        old = cls.__dict__.get(name)
        if old is None:
            return

        def f(self, *a, **k):
            if depth[0] == 0:
                calls.append((name, a, k))
            depth[0] += 1
            try:
                return old(self, *a, **k)
            finally:
                depth[0] -= 1
        setattr(cls, name, f)
        undo.append(lambda: setattr(cls, name, old))
    from matplotlib.axes._base import _AxesBase
    for name in set(SIG) | set(DRAW) | set(OTHER):
        for cls in (Axes, _AxesBase, Axes3D):
            patch(cls, name)

    def stop():
        for u in undo:
            u()
        plt.close('all')
    return calls, stop
