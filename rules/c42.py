from pyref import *


def check(ctx):
    ctx.rule('conversions and constructions agree with the reference as an identity of terms; refused inputs are refused on the same condition')
    refine_module(ctx, 'python/triqs/lattice/tight_binding.py', opts={'commutative': True})
    refine_module(ctx, 'python/triqs/lattice/utils.py', opts={'commutative': True, 'pure': {'get_num_orbitals', 'get_lat', 'get_orb'}})
    refine_module(ctx, 'python/triqs/lattice/bz_patch.py', opts={'commutative': True})
    refine_module(ctx, 'python/triqs/lattice/point.py', opts={'commutative': True})
