from pyref import *


def check(ctx):
    ctx.rule('the plotted data, selection and options are the reference terms on every trace')
    refine_module(ctx, 'python/triqs/plot/protocol.py', opts={'commutative': True})
    refine_module(ctx, 'python/triqs/plot/mpl_interface.py', opts={'commutative': True})
    refine_module(ctx, 'python/triqs/stat/histogram.py', opts={'commutative': True})
