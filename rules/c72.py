from pyref import *

TXT = ('__repr__', '__str__', '_plot_', '__repr_tex__', '__aux_print')


def check(ctx):
    ctx.rule('the text and the plot descriptions made of an object are those of the reference on every trace')
    for f in ('dos/dos', 'fit/fit', 'gf/gf', 'gf/lazy_expressions', 'gf/block_gf', 'gf/block2_gf', 'gf/descriptors', 'gf/descriptor_base', 'gf/mesh_point', 'gf/matsubara_freq',
              'gf/mesh_product', 'lattice/tight_binding', 'lattice/super_lattice', 'stat/histogram', 'sumk/sumk_discrete'):
        refine_module(ctx, 'python/triqs/%s.py' % f, only=TXT)
