"""Loads the package under test from the current /repo sources, either as is
(replay) or with symbolic stand-ins for numpy / math / pyscf (encoding)."""
import ast
import builtins
import importlib
import os
import sys
import types
from importlib.machinery import SourceFileLoader

REPO = os.environ.get('VF_REPO', '/repo')


def real_module(name):
    """cqcpy.<name> running on the ordinary numpy and pyscf."""
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    return importlib.import_module('cqcpy.' + name)


def forget():
    """The next import of the package starts from scratch: nothing a module
    remembers outlives a path or a replay."""
    for n in list(sys.modules):
        if n == 'cqcpy' or n.startswith('cqcpy.'):
            del sys.modules[n]


_code = {}
_get_code = SourceFileLoader.get_code


def _cached_code(self, fullname):
    if not (fullname == 'cqcpy' or fullname.startswith('cqcpy.')):
        return _get_code(self, fullname)
    k = self.path, _installed
    if k not in _code:
        if _installed:
            t = ast.parse(self.get_data(self.path), self.path)
            t = ast.fix_missing_locations(Conversions().visit(t))
            _code[k] = compile(t, self.path, 'exec', dont_inherit=True)
        else:
            _code[k] = _get_code(self, fullname)
    return _code[k]


class Conversions(ast.NodeTransformer):
    """float(x), complex(x), isinstance(x, t) and numpy.float64(x) cannot be
    overloaded by symbolic numbers; calls of them go through functions that
    treat symbolic numbers like numbers and do the ordinary thing
    otherwise.  The same for int(x) in a difference, where the result is
    not needed as a Python integer at once."""
    NAMES = ('float', 'complex', 'isinstance')
    TYPES = ('float64', 'double', 'float_', 'complex128', 'complex_')

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Sub):
            for e in node.left, node.right:
                if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) \
                        and e.func.id == 'int' and len(e.args) == 1 \
                        and not e.keywords:
                    e.func.id = '__vf_int__'
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Name) and f.id in self.NAMES:
            f.id = '__vf_%s__' % f.id
        elif isinstance(f, ast.Name) and f.id == 'map' and node.args and \
                isinstance(node.args[0], ast.Name) and \
                node.args[0].id in self.NAMES:
            node.args[0].id = '__vf_%s__' % node.args[0].id
        elif isinstance(f, ast.Attribute) and f.attr in self.TYPES:
            node.func = ast.Name('__vf_cast__', ast.Load())
            node.args.insert(0, f)
        return node


SourceFileLoader.get_code = _cached_code
_installed = False


def install_symbolic():
    """From here on `import numpy` & co. give the symbolic stand-ins in
    freshly imported modules."""
    global _installed
    if _installed:
        return
    from . import symnp, stubs
    proxy = symnp.make_proxy()
    sys.modules['numpy'] = proxy
    sys.modules['numpy.linalg'] = proxy.linalg
    sys.modules['numpy.random'] = proxy.random
    sys.modules['math'] = stubs.make_math()
    stubs.install_pyscf(sys.modules)
    stubs.install_scipy(sys.modules)
    for n, f in symnp.CONVERSIONS.items():
        setattr(builtins, '__vf_%s__' % n, f)
    forget()
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    sys.dont_write_bytecode = True
    _installed = True


def sym_module(name):
    install_symbolic()
    m = importlib.import_module('cqcpy.' + name)
    f = getattr(m, '__file__', '') or ''
    if not os.path.realpath(f).startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError('cqcpy.%s was loaded from %s' % (name, f))
    return m


def fresh_module(name):
    """cqcpy.<name> from a new import of the whole package, leaving the
    instance in use untouched."""
    def ours(n):
        return n == 'cqcpy' or n.startswith('cqcpy.')
    old = {n: m for n, m in sys.modules.items() if ours(n)}
    for n in old:
        del sys.modules[n]
    try:
        if sys.path[0] != REPO:
            sys.path.insert(0, REPO)
        sys.dont_write_bytecode = True
        return importlib.import_module('cqcpy.' + name)
    finally:
        for n in [n for n in sys.modules if ours(n)]:
            del sys.modules[n]
        sys.modules.update(old)


def proxy():
    return sys.modules['numpy']


def functions_of(mod):
    return [n for n, v in vars(mod).items()
            if isinstance(v, (types.FunctionType, type)) and
            getattr(v, '__module__', '') == mod.__name__]
