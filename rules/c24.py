from cppref import *


def check(ctx):
    refine_cpp(ctx, ['triqs/stat/accumulator.hpp'])
