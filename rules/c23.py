from cppref import *


def check(ctx):
    refine_cpp(ctx, ['triqs/stat/histograms.hpp'], sources=['triqs/stat/histograms.cpp'])
