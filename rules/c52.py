from cppref import *


def check(ctx):
    refine_cpp(ctx, ['triqs/utility/pade_approximants.hpp', 'triqs/utility/time_pt.hpp', 'triqs/utility/kronecker.hpp'])
