from cppref import *


def check(ctx):
    refine_cpp(ctx, ['triqs/utility/legendre.hpp'], sources=['triqs/utility/legendre.cpp'])
