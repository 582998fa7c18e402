from pyref import *


def check(ctx):
    ctx.rule('importing each binding description issues the reference sequence of declarations: same C++ signature, same name, same calling pattern')
    for d, f in (('gf', 'gf_factories'), ('gf', 'gf_fnt'), ('gf', 'meshes'), ('gf', 'wrapped_aux'), ('operators/util', 'extractors'), ('operators', 'operators'),
                 ('lattice', 'lattice_tools'), ('stat', 'histograms'), ('atom_diag', 'atom_diag'), ('random_generator', 'random_generator')):
        refine_module(ctx, 'python/triqs/%s/%s_desc.py' % (d, f), spec='desc/%s_desc.py' % f)
