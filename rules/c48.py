from pyref import *


def check(ctx):
    ctx.rule('block dispatch and the algebra of the tools agree with the reference as an identity of terms')
    refine_module(ctx, 'python/triqs/gf/tools.py', per={'discretize_bath': {'opaque': {'make_delta'}}})
    refine_module(ctx, 'python/triqs/gf/map_block.py')
