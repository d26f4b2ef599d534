"""Loads /repo's svgpy from source, either plainly or instrumented.

Instrumented: each module's current source text is parsed and compiled with
  * a `__builtins__` mapping in which float, int, str, isinstance-relevant
    types, len, iter, sum, min, max, sorted, round ... accept symbolic values,
    and `import math`/`numpy`/`decimal`/`fractions`/`scipy` give shims that
    accept symbolic values and otherwise defer to the real library;
  * every `for`/`while` statement wrapped in a loop controller which is the
    identity on concrete iterables (see loops.py for symbolic sequences).
Nothing else changes: what runs is the code in /repo, statement by statement.
"""
import ast
import builtins
import importlib.abc
import importlib.util
import os
import sys

REPO = os.environ.get('SVGPY_REPO', '/repo')
INSTRUMENTED = {}


def plain():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def instrumented():
    sys.dont_write_bytecode = True
    from . import shims, loops

    class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
        def find_spec(self, name, path, target=None):
            if name != 'svgpy' and not name.startswith('svgpy.'):
                return None
            p = os.path.join(REPO, *name.split('.'))
            if os.path.isdir(p):
                f = os.path.join(p, '__init__.py')
                spec = importlib.util.spec_from_file_location(
                    name, f, loader=self, submodule_search_locations=[p])
            else:
                f = p + '.py'
                if not os.path.exists(f):
                    return None
                spec = importlib.util.spec_from_file_location(
                    name, f, loader=self)
            return spec

        def create_module(self, spec):
            return None

        def exec_module(self, module):
            f = module.__spec__.origin
            with open(f, encoding='utf-8') as fp:
                src = fp.read()
            tree = ast.parse(src, f)
            short = module.__name__.rsplit('.', 1)[-1]
            if short not in shims.NOT_INSTRUMENTED:
                tree = loops.Rewriter(module.__name__).visit(tree)
                tree = ast.fix_missing_locations(tree)
                module.__dict__['__builtins__'] = shims.make_builtins()
                module.__dict__['_vrt'] = loops.RT
            code = compile(tree, f, 'exec')
            INSTRUMENTED[module.__name__] = f
            exec(code, module.__dict__)

        def get_filename(self, name):
            return self.find_spec(name, None).origin

    sys.meta_path.insert(0, Finder())
