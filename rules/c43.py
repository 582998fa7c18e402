from pyref import *


def check(ctx):
    ctx.rule('every matrix element is the reference formula as an identity of terms, over the same index ranges')
    # each helper is compared with its own reference; inside the sum over all matrix elements it is a function symbol
    H = ('angular_matrix_element', 'spherical_to_cubic', 'transform_U_matrix', 'U_J_to_radial_integrals')
    K = ('three_j_symbol', 'clebsch_gordan')
    refine_module(ctx, 'python/triqs/operators/util/U_matrix.py', per={'U_matrix_slater': {'opaque': H, 'pure': H}, 'angular_matrix_element': {'opaque': K, 'pure': K}}, opts={'commutative': True})
