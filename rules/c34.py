from pyref import *


def check(ctx):
    ctx.rule('frequency and mesh point arithmetic agrees with the reference as an identity of terms; product meshes act component by component')
    refine_module(ctx, 'python/triqs/gf/matsubara_freq.py')
    refine_module(ctx, 'python/triqs/gf/mesh_point.py')
    # the other mesh is a product mesh as well
    refine_module(ctx, 'python/triqs/gf/mesh_product.py', per={'MeshProduct.' + m: {'selfcls': {('sym', a): 'MeshProduct'}} for m, a in (('copy_from', 'another'), ('__eq__', 'other'))})
