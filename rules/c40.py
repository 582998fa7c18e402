from pyref import *


def check(ctx):
    ctx.rule('sites, hoppings and folding maps are the reference terms on every trace')
    refine_module(ctx, 'python/triqs/lattice/super_lattice.py', opts={'commutative': True})
