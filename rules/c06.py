from cppref import *


def check(ctx):
    refine_cpp(ctx, ['triqs/utility/timer.hpp'])
