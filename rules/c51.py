from cppref import *


def check(ctx):
    refine_cpp(ctx, ['triqs/lattice/tight_binding.hpp'], sources=['triqs/lattice/tight_binding.cpp'])
