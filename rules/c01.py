from cppref import *


def check(ctx):
    refine_cpp(ctx, ['triqs/utility/buffered_function.hpp'])
