from cppref import *


def check(ctx):
    refine_cpp(ctx, ['triqs/mc_tools/mc_move_set.hpp'])
