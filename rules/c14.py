from cppref import *


def check(ctx):
    refine_cpp(ctx, ['triqs/mc_tools/mc_measure_set.hpp', 'triqs/mc_tools/mc_measure_aux_set.hpp'])
