from pyref import *


def check(ctx):
    ctx.rule('tree constructors, evaluation and the initialisers of lazy expressions agree trace by trace with the reference')
    refine_module(ctx, 'python/triqs/gf/lazy_expressions.py')
    refine_module(ctx, 'python/triqs/gf/descriptor_base.py', opts={'pure': {'get_terminal', 'is_terminal'}})
    refine_module(ctx, 'python/triqs/gf/descriptors.py')
