from pyref import *


def check(ctx):
    ctx.rule('every comparison performed by the reference is performed, with the same operands and tolerance, and every difference is reported')
    refine_module(ctx, 'python/triqs/utility/h5diff.py', opts={'commutative': True})
    refine_module(ctx, 'python/triqs/utility/comparison_tests.py', opts={'commutative': True})
