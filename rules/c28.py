from cppref import *


def check(ctx):
    refine_cpp(ctx, ['triqs/mesh/domains/matsubara.hpp'])
