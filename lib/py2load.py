"""Run the Python 2.7 sources of probcomp/cgpm, unmodified, under Python 3.

`install(root)` registers an import hook: `cgpm` and everything below it is
loaded from `<root>/src` (default /repo), always from the current working
tree, never from a cache.  Each source file is parsed (through lib2to3 only
when it is not already valid Python 3 syntax) and its syntax tree is rewritten
so that the Python 2 semantics that matter are kept: integer division, eager
map/filter/zip/range, list-returning dict methods, implicit relative imports,
cPickle, long/unicode/xrange, func_code, unbound-method __func__, round, and
str-valued base64.  Nothing about the logic of the code is touched.
"""

import ast
import base64 as _base64
import builtins
import functools
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import itertools
import math
import os
import pickle as _pickle
import sys
import types
import warnings

import numpy as np

warnings.filterwarnings('ignore', category=DeprecationWarning)
warnings.filterwarnings('ignore', category=SyntaxWarning)
warnings.filterwarnings('ignore', category=FutureWarning)

ROOT = '/repo'

_INTS = (int, np.integer)


# ---------------------------------------------------------------- semantics

def py2_div(a, b):
    ta, tb = type(a), type(b)
    if ta is float or tb is float:
        return a / b
    ia = isinstance(a, _INTS) or \
        (isinstance(a, np.ndarray) and a.dtype.kind in 'iub')
    if not ia:
        return a / b
    ib = isinstance(b, _INTS) or \
        (isinstance(b, np.ndarray) and b.dtype.kind in 'iub')
    return a // b if ib else a / b


_VIEWS = (type({}.keys()), type({}.values()), type({}.items()))
try:
    from collections import OrderedDict as _OD
    _VIEWS += (type(_OD().keys()), type(_OD().values()), type(_OD().items()))
except Exception:      # pragma: no cover
    pass


def py2_list(x):
    return list(x) if isinstance(x, _VIEWS) else x


def py2_iter(obj, name):
    """obj.iteritems() and friends; name is the Python 3 method name."""
    if hasattr(obj, name) and isinstance(obj, dict):
        return iter(getattr(obj, name)())
    legacy = 'iter' + name
    if hasattr(obj, legacy):
        return getattr(obj, legacy)()
    return iter(getattr(obj, name)())


def py2_func(obj):
    f = getattr(obj, '__func__', None)
    return obj if f is None else f


def py2_map(f, *its):
    if f is None:
        return list(itertools.zip_longest(*its)) if len(its) > 1 \
            else list(its[0])
    if len(its) == 1:
        return [f(x) for x in its[0]]
    return [f(*xs) for xs in itertools.zip_longest(*its)]


def py2_filter(f, it):
    r = [x for x in it if (f(x) if f is not None else x)]
    if isinstance(it, str):
        return ''.join(r)
    if isinstance(it, tuple):
        return tuple(r)
    return r


def py2_zip(*its):
    return list(zip(*its))


def py2_range(*a):
    for x in a:
        if isinstance(x, (float, np.floating)):
            a = tuple(int(y) for y in a)
            break
    return list(range(*a))


def _py2_rank(x):
    """Python 2 order across types: None < numbers < others by type name."""
    if x is None:
        return (0, '', 0)
    if isinstance(x, (bool, int, float, np.number, np.bool_)):
        return (1, '', x)
    return (2, type(x).__name__, x)


def py2_sorted(it, cmp=None, key=None, reverse=False):
    items = list(it)
    if cmp is not None and not callable(cmp):
        raise TypeError('cmp must be callable')
    if cmp is not None:
        k2 = functools.cmp_to_key(cmp)
        k = k2 if key is None else (lambda x: k2(key(x)))
        return sorted(items, key=k, reverse=reverse)
    try:
        return sorted(items, key=key, reverse=reverse)
    except TypeError:
        k = _py2_rank if key is None else (lambda x: _py2_rank(key(x)))
        return sorted(items, key=k, reverse=reverse)


def py2_round(x, n=0):
    s = 1 if x >= 0 else -1
    m = 10. ** n
    return s * math.floor(abs(x) * m + .5) / m


class _PyNone(object):
    """None in an ordering comparison: smaller than everything else."""
    __array_ufunc__ = None

    def __lt__(self, other): return not isinstance(other, _PyNone)
    def __le__(self, other): return True
    def __gt__(self, other): return False
    def __ge__(self, other): return isinstance(other, _PyNone)


_NONE = _PyNone()


def py2_ord(x):
    return _NONE if x is None else x


py2_base64 = types.ModuleType('py2_base64')


def _tobytes(x):
    return x.encode('latin-1') if isinstance(x, str) else x


py2_base64.b64encode = lambda s, *a: \
    _base64.b64encode(_tobytes(s), *a).decode('ascii')
py2_base64.b64decode = lambda s, *a: _base64.b64decode(_tobytes(s), *a)

py2_pickle = types.ModuleType('py2_pickle')
for _n in dir(_pickle):
    if not _n.startswith('__'):
        setattr(py2_pickle, _n, getattr(_pickle, _n))
py2_pickle.loads = lambda s: _pickle.loads(_tobytes(s))
py2_pickle.load = lambda f: _pickle.load(getattr(f, 'buffer', f))
py2_pickle.dump = lambda o, f, *a, **k: \
    _pickle.dump(o, getattr(f, 'buffer', f), *a, **k)

sys.modules.setdefault('py2_base64', py2_base64)
sys.modules.setdefault('py2_pickle', py2_pickle)

_GLOBALS = {
    '_py2_div': py2_div,
    '_py2_list': py2_list,
    '_py2_iter': py2_iter,
    '_py2_func': py2_func,
    '_py2_ord': py2_ord,
    'map': py2_map,
    'filter': py2_filter,
    'zip': py2_zip,
    'range': py2_range,
    'xrange': range,
    'round': py2_round,
    'sorted': py2_sorted,
    'reduce': functools.reduce,
    'unicode': str,
    'basestring': str,
    'long': int,
    'unichr': chr,
    'raw_input': input,
}


class _Rewriter(ast.NodeTransformer):

    FUNC_ATTRS = {'func_code': '__code__', 'func_name': '__name__',
        'func_defaults': '__defaults__', 'func_globals': '__globals__',
        'func_doc': '__doc__', 'im_func': '__func__', 'im_self': '__self__'}
    MODS = {'cPickle': 'py2_pickle', 'pickle': 'py2_pickle',
        'base64': 'py2_base64', 'StringIO': 'io', 'cStringIO': 'io',
        'Queue': 'queue', '__builtin__': 'builtins',
        'ConfigParser': 'configparser'}

    def __init__(self, directory, true_division):
        self.directory = directory
        self.true_division = true_division

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div) and not self.true_division:
            return ast.copy_location(ast.Call(
                func=ast.Name(id='_py2_div', ctx=ast.Load()),
                args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_Compare(self, node):
        self.generic_visit(node)
        if all(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE))
                for o in node.ops):
            def wrap(e):
                if isinstance(e, ast.Constant):
                    return e
                return ast.copy_location(ast.Call(
                    func=ast.Name(id='_py2_ord', ctx=ast.Load()),
                    args=[e], keywords=[]), e)
            node.left = wrap(node.left)
            node.comparators = [wrap(c) for c in node.comparators]
        return node

    def visit_AugAssign(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Div) and not self.true_division \
                and isinstance(node.target, ast.Name):
            return ast.copy_location(ast.Assign(
                targets=[node.target],
                value=ast.Call(
                    func=ast.Name(id='_py2_div', ctx=ast.Load()),
                    args=[ast.Name(id=node.target.id, ctx=ast.Load()),
                          node.value],
                    keywords=[])), node)
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if isinstance(f, ast.Attribute) and not node.args \
                and not node.keywords:
            if f.attr in ('keys', 'values', 'items'):
                return ast.copy_location(ast.Call(
                    func=ast.Name(id='_py2_list', ctx=ast.Load()),
                    args=[node], keywords=[]), node)
            if f.attr in ('iterkeys', 'itervalues', 'iteritems',
                    'viewkeys', 'viewvalues', 'viewitems'):
                return ast.copy_location(ast.Call(
                    func=ast.Name(id='_py2_iter', ctx=ast.Load()),
                    args=[f.value, ast.Constant(value=f.attr[4:])],
                    keywords=[]), node)
            if f.attr == 'next':
                return ast.copy_location(ast.Call(
                    func=ast.Name(id='next', ctx=ast.Load()),
                    args=[f.value], keywords=[]), node)
        if isinstance(f, ast.Attribute) and f.attr == 'has_key' \
                and len(node.args) == 1:
            return ast.copy_location(ast.Compare(
                left=node.args[0], ops=[ast.In()],
                comparators=[f.value]), node)
        return node

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr in self.FUNC_ATTRS:
            node.attr = self.FUNC_ATTRS[node.attr]
        if node.attr == '__func__' and isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Call(
                func=ast.Name(id='_py2_func', ctx=ast.Load()),
                args=[node.value], keywords=[]), node)
        return node

    def visit_Import(self, node):
        for a in node.names:
            if a.name in self.MODS:
                if a.asname is None:
                    a.asname = a.name
                a.name = self.MODS[a.name]
        return node

    def visit_ImportFrom(self, node):
        if node.level == 0 and node.module:
            head = node.module.split('.')[0]
            if node.module in self.MODS:
                node.module = self.MODS[node.module]
            elif head != 'cgpm' and (
                    os.path.exists(
                        os.path.join(self.directory, head + '.py'))
                    or os.path.exists(os.path.join(
                        self.directory, head, '__init__.py'))):
                # Python 2 implicit relative import.
                node.level = 1
        return node


_2TO3 = None


def _to_py3_syntax(source, filename):
    global _2TO3
    if _2TO3 is None:
        from lib2to3 import refactor
        _2TO3 = refactor.RefactoringTool([
            'lib2to3.fixes.fix_' + f for f in (
                'print', 'except', 'raise', 'tuple_params', 'exec', 'repr',
                'ne', 'numliterals')])
    return str(_2TO3.refactor_string(source, filename))


def translate(source, filename):
    """Compile Python 2 source to a Python 3 code object."""
    if not source.endswith('\n'):
        source += '\n'
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            tree = ast.parse(source, filename)
        except SyntaxError:
            tree = ast.parse(_to_py3_syntax(source, filename), filename)
        true_division = any(
            isinstance(n, ast.ImportFrom) and n.module == '__future__'
            and any(a.name == 'division' for a in n.names)
            for n in tree.body)
        tree = _Rewriter(
            os.path.dirname(filename), true_division).visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, filename, 'exec', dont_inherit=True)


class _Loader(importlib.abc.Loader):

    def __init__(self, path):
        self.path = path

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f:
            source = f.read()
        module.__file__ = self.path
        module.__dict__.update(_GLOBALS)
        exec(translate(source, self.path), module.__dict__)


class _Finder(importlib.abc.MetaPathFinder):

    def __init__(self, root):
        self.src = os.path.join(root, 'src')

    def find_spec(self, name, path=None, target=None):
        if name != 'cgpm' and not name.startswith('cgpm.'):
            return None
        rel = name.split('.')[1:]
        base = os.path.join(self.src, *rel)
        init = os.path.join(base, '__init__.py')
        if os.path.isdir(base) and os.path.exists(init):
            spec = importlib.machinery.ModuleSpec(
                name, _Loader(init), origin=init, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        if rel == ['version'] and not os.path.exists(base + '.py'):
            # git-ignored file that setup.py generates.
            spec = importlib.machinery.ModuleSpec(
                name, _VersionLoader(), origin='<generated>')
            return spec
        if os.path.exists(base + '.py'):
            return importlib.machinery.ModuleSpec(
                name, _Loader(base + '.py'), origin=base + '.py')
        return None


class _VersionLoader(importlib.abc.Loader):
    def create_module(self, spec):
        return None

    def exec_module(self, module):
        module.__version__ = '0.0.0'


def _compat():
    for n, t in (('int', int), ('float', float), ('bool', bool),
            ('object', object), ('str', str)):
        if n not in np.__dict__:
            setattr(np, n, t)
    import scipy
    import scipy.special
    try:
        import scipy.misc as sm
    except ImportError:
        sm = types.ModuleType('scipy.misc')
        sys.modules['scipy.misc'] = sm
    sm.logsumexp = scipy.special.logsumexp


def install(root=None):
    root = root or os.environ.get('CGPM_ROOT', ROOT)
    for f in sys.meta_path:
        if isinstance(f, _Finder):
            return
    for k in [k for k in sys.modules if k == 'cgpm' or k.startswith('cgpm.')]:
        del sys.modules[k]
    _compat()
    sys.meta_path.insert(0, _Finder(root))
