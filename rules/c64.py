from pyref import *


def check(ctx):
    ctx.rule('constructors of the former interface build the same mesh and data as the reference and refuse the same arguments')
    for f in ('imfreq', 'imtime', 'refreq', 'retime', 'legendre'):
        refine_module(ctx, 'python/triqs/gf/backwd_compat/gf_%s.py' % f)
