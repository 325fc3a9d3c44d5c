"""Loads the real pyorb source with numpy/math replaced by the shim, or as is.

load(symbolic=True) returns the package object; modules are executed from the
current files of the repository (never from compiled copies).
"""
import ast
import builtins
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import shim as S

REPO = os.environ.get('PYORB_REPO', '/repo')


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    if level == 0:
        top = name.split('.')[0]
        if top == 'numpy':
            if fromlist and name == 'numpy.linalg':
                return S.shim.linalg
            return S.shim
        if name == 'math':
            return S.math_shim
    return builtins.__import__(name, globals, locals, fromlist, level)


class _Dtype(ast.NodeTransformer):
    """x.dtype: symbolic arrays (object arrays here) hold numbers."""

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr == 'dtype' and isinstance(node.ctx, ast.Load):
            return ast.copy_location(ast.Call(
                func=ast.copy_location(
                    ast.Name(id='__symx_dtype__', ctx=ast.Load()), node),
                args=[node.value], keywords=[]), node)
        return node


class _Loader(importlib.abc.Loader):
    def __init__(self, path, symbolic, hooks):
        self.path = path
        self.symbolic = symbolic
        self.hooks = hooks

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path) as f:
            src = f.read()
        tree = ast.parse(src, self.path)
        if self.symbolic:
            tree = ast.fix_missing_locations(_Dtype().visit(tree))
        code = compile(tree, self.path, 'exec', dont_inherit=True)
        if self.symbolic:
            b = dict(builtins.__dict__)
            b['__symx_dtype__'] = S.dtype_of
            b['__import__'] = _import
            b['float'] = S.FloatProxy
            module.__dict__['__builtins__'] = b
        exec(code, module.__dict__)
        h = self.hooks.get(module.__name__)
        if h:
            h(module)


class _Finder(importlib.abc.MetaPathFinder):
    def __init__(self, repo, symbolic, hooks):
        self.repo = repo
        self.symbolic = symbolic
        self.hooks = hooks

    def find_spec(self, name, path=None, target=None):
        if name != 'pyorb' and not name.startswith('pyorb.'):
            return None
        base = os.path.join(self.repo, *name.split('.'))
        pk = os.path.join(base, '__init__.py')
        if os.path.isfile(pk):
            sp = importlib.util.spec_from_file_location(
                name, pk, loader=_Loader(pk, self.symbolic, self.hooks),
                submodule_search_locations=[base])
            return sp
        if os.path.isfile(base + '.py'):
            return importlib.util.spec_from_file_location(
                name, base + '.py',
                loader=_Loader(base + '.py', self.symbolic, self.hooks))
        return None


def load(symbolic=True, hooks=None, repo=None):
    """Fresh copy of the package; sys.modules is left without it."""
    f = _Finder(repo or REPO, symbolic, hooks or {})
    saved = {k: v for k, v in sys.modules.items()
             if k == 'pyorb' or k.startswith('pyorb.')}
    for k in saved:
        del sys.modules[k]
    sys.meta_path.insert(0, f)
    try:
        pkg = importlib.import_module('pyorb')
        for sub in ('kepler', 'orbit', 'unit', 'const'):
            importlib.import_module('pyorb.' + sub)
        mods = {k: v for k, v in sys.modules.items()
                if k == 'pyorb' or k.startswith('pyorb.')}
    finally:
        sys.meta_path.remove(f)
        for k in [k for k in sys.modules
                  if k == 'pyorb' or k.startswith('pyorb.')]:
            del sys.modules[k]
        sys.modules.update(saved)
    pkg.__mods__ = mods
    return pkg
