from pyref import *


def check(ctx):
    ctx.rule('every trace of each Green\'s function operation agrees with the reference trace: result mesh, data expression, aliasing of the data, rejected operands, operands untouched unless in place')
    refine_module(ctx, 'python/triqs/gf/gf.py')
