from pyref import *


def check(ctx):
    ctx.rule('the accumulated sum, its weights and the arguments passed to the self energy are the reference terms on every trace')
    refine_module(ctx, 'python/triqs/sumk/sumk_discrete.py', opts={'commutative': True})
    refine_module(ctx, 'python/triqs/sumk/sumk_discrete_from_lattice.py', opts={'commutative': True})
