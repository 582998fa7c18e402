from pyref import *


def check(ctx):
    ctx.rule('the fitted functions, window and starting values are the reference terms')
    refine_module(ctx, 'python/triqs/fit/fit.py', opts={'commutative': True})
