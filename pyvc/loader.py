"""
Loads x7.geom from /repo's working tree, twice:
  plain()        ordinary modules (replay, cross-checks, bounded stand-ins)
  instrumented() the same files with `math`, `numpy`, `PIL.ImagePath`, a few builtins bound to exact versions, and
                 loops rewritten by loops.py so that symbolic-length sequences can be cut
Nothing else of the source is changed; the code objects are compiled from the files in /repo at each run.
"""
import ast
import builtins
import importlib
import os
import sys
import types

REPO = os.environ.get('PYVC_REPO', '/repo')
NAMES = ['typing', 'geom', 'transform', 'colors', 'drawing', 'bezier', 'model', 'vec_field', 'anim', 'anim_simple',
         'utils', 'imagehelp', 'plot_utils', 'platform']
WANT = ['geom', 'transform', 'colors', 'drawing', 'bezier', 'model', 'vec_field', 'anim', 'anim_simple', 'utils']


class Mods(types.SimpleNamespace):
    pass


def _stub_viewer():
    m = types.ModuleType('x7.geom.plot_viewer')

    class PlotViewer:
        def __init__(self, *a, **k):
            pass

        def mainloop(self):
            pass
    m.PlotViewer = PlotViewer
    return m


_plain = None


def plain():
    global _plain
    if _plain is None:
        os.environ.setdefault('MPLBACKEND', 'Agg')
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        sys.modules.setdefault('x7.geom.plot_viewer', _stub_viewer())
        import x7
        if os.path.join(REPO, 'x7') not in list(x7.__path__):
            x7.__path__.insert(0, os.path.join(REPO, 'x7')) if hasattr(x7.__path__, 'insert') else None
        ns = Mods(kind='plain')
        for n in WANT:
            mod = importlib.import_module('x7.geom.' + n)
            assert os.path.realpath(mod.__file__).startswith(os.path.realpath(REPO) + os.sep), mod.__file__
            setattr(ns, n, mod)
        _plain = ns
    return _plain


class Instr:
    """One set of instrumented modules"""

    def __init__(self):
        from . import shims
        self.reg = {}
        self.shims = shims
        self.builtins = dict(vars(builtins))
        self.builtins.update(shims.BUILTINS)
        self.builtins['__import__'] = self.imp
        self.sources = {}

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            parts = pkg.split('.')
            base = '.'.join(parts[:len(parts) - level + 1])
            name = base + ('.' + name if name else '')
        if name == 'x7.geom' or name.startswith('x7.geom.'):
            m = self.load(name)
            if not fromlist:
                return self.load('x7')
            for f in fromlist:
                if name == 'x7.geom' and not hasattr(m, f) and f != '*':
                    setattr(m, f, self.load('x7.geom.' + f))
            return m
        sh = self.shims.MODULES.get(name)
        if sh is not None:
            if not fromlist and '.' in name:
                return self.shims.MODULES.get(name.split('.')[0]) or builtins.__import__(name, globals, locals, fromlist, 0)
            return sh
        if name == 'PIL' or name.startswith('PIL.'):
            real = builtins.__import__(name, globals, locals, fromlist, 0)
            return self.shims.pil(real, name, fromlist)
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def load(self, name):
        if name in self.reg:
            return self.reg[name]
        m = types.ModuleType(name)
        self.reg[name] = m
        m.__dict__['__builtins__'] = self.builtins
        if name == 'x7':
            m.__path__ = [os.path.join(REPO, 'x7')]
            m.__package__ = 'x7'
            m.geom = self.load('x7.geom')
            return m
        if name == 'x7.geom.plot_viewer':
            self.reg[name] = m = _stub_viewer()
            return m
        if name == 'x7.geom':
            path = os.path.join(REPO, 'x7/geom/__init__.py')
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = 'x7.geom'
        else:
            path = os.path.join(REPO, name.replace('.', '/') + '.py')
            m.__package__ = 'x7.geom'
            pk = self.load('x7.geom')
            setattr(pk, name.rsplit('.', 1)[1], m)
        m.__file__ = path
        src = open(path).read()
        self.sources[name] = src
        tree = ast.parse(src, path)
        try:
            from . import loops
            tree = loops.rewrite(tree, path)
        except ImportError:
            pass
        code = compile(tree, path, 'exec')
        exec(code, m.__dict__)
        return m


_instr = None


def instrumented():
    global _instr
    if _instr is None:
        ins = Instr()
        ns = Mods(kind='instrumented')
        ns.instr = ins
        for n in WANT:
            setattr(ns, n, ins.load('x7.geom.' + n))
        _instr = ns
    return _instr
