"""
Half of the configurations (chosen by the hash of their name) run the package with its output switched on: the calls
of the harness pass silent=True, and the outermost call is changed to silent=False.  Results must not depend on it.
"""
import contextlib
import functools
import hashlib
import inspect
import sys


def talks(name):
    if name.endswith('(output)') or name.endswith('(silent)'):
        return name.endswith('(output)')
    return hashlib.md5(name.encode()).digest()[0] % 2 == 0


def _owners(bl):
    for key in sorted(sys.modules):
        if key == bl.__name__ or key.startswith(bl.__name__ + '.'):
            for obj in list(vars(sys.modules[key]).values()):
                if isinstance(obj, type) and getattr(obj, '__module__', None) == key:
                    yield obj


def _accepts(f):
    try:
        return 'silent' in inspect.signature(f).parameters or f.__name__ == 'set'
    except (TypeError, ValueError):
        return False


@contextlib.contextmanager
def output(bl, on):
    if not on:
        yield
        return
    depth = [0]
    saved = []

    def wrap(f):
        @functools.wraps(f)
        def g(*args, **kwargs):
            if depth[0] == 0 and kwargs.get('silent') is True:
                kwargs['silent'] = False
            depth[0] += 1
            try:
                return f(*args, **kwargs)
            finally:
                depth[0] -= 1
        return g
    for cls in _owners(bl):
        for name, f in list(vars(cls).items()):
            if inspect.isfunction(f) and _accepts(f):
                saved.append((cls, name, f))
                setattr(cls, name, wrap(f))
    try:
        yield
    finally:
        for cls, name, f in saved:
            setattr(cls, name, f)
