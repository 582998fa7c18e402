from pyref import *


def check(ctx):
    ctx.rule('the bracketing and bisection loops keep the reference loop invariants: same start, same step, same exit conditions, same result')
    refine_module(ctx, 'python/triqs/utility/dichotomy.py', opts={'commutative': True})
    refine_module(ctx, 'python/triqs/utility/bound_and_bisect.py', opts={'commutative': True})
