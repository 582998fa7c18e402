from pyref import *


def check(ctx):
    ctx.rule('the plotted data, selection and options are the reference terms on every trace')
    for f in ('plot_base', 'one_var', 'select_indices', 'bz', 'bz_x_x', '_gf_X_x_X'):
        refine_module(ctx, 'python/triqs/gf/plot/%s.py' % f, opts={'commutative': True})
    refine_module(ctx, 'python/triqs/gf/plot/__init__.py', spec='init/gf_plot_init.py')
