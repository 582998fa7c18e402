from cppref import *


def check(ctx):
    refine_cpp(ctx, ['triqs/mc_tools/MersenneRNG.hpp', 'triqs/mc_tools/random_generator.hpp'], sources=['triqs/mc_tools/MersenneRNG.cpp', 'triqs/mc_tools/random_generator.cpp'],
               soft=('unsigned int instead of unsigned long',))
