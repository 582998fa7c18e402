from cppref import *


def check(ctx):
    refine_cpp(ctx, ['triqs/utility/callbacks.hpp'], sources=['triqs/utility/callbacks.cpp'])
