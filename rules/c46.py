from pyref import *


def check(ctx):
    ctx.rule('densities, transforms and their grids are the reference terms on every trace')
    refine_module(ctx, 'python/triqs/dos/dos.py', opts={'commutative': True})
    refine_module(ctx, 'python/triqs/dos/hilbert_transform.py', opts={'commutative': True})
