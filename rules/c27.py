from cppref import *


def check(ctx):
    refine_cpp(ctx, ['triqs/mesh/brzone.hpp', 'triqs/mesh/cyclat.hpp', 'triqs/mesh/prod.hpp', 'triqs/mesh/k_expr.hpp'])
