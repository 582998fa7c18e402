from pyref import *


def check(ctx):
    ctx.rule('every package imports and exports the names of the reference from the same modules, and import has the same effects')
    for d in ('', 'atom_diag', 'dos', 'fit', 'gf', 'gf/backwd_compat', 'lattice', 'operators', 'operators/util', 'plot', 'random_generator', 'stat', 'sumk', 'utility'):
        refine_module(ctx, 'python/triqs/%s__init__.py' % (d + '/' if d else ''), spec='init/%sinit.py' % (d.replace('/', '_') + '_' if d else ''))
    refine_module(ctx, 'python/triqs/version.py.in', spec='version.py')
