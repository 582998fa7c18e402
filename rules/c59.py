from cppref import *

D = 'triqs/gfs/functions/'


def check(ctx):
    cpp = [D + 'density.cpp', D + 'imtime.cpp', D + 'legendre.cpp']
    refine_cpp(ctx, ['triqs/gfs.hpp'], files=[D + x for x in ('density.hpp', 'dlr.hpp', 'functions2.hpp', 'imfreq.hpp', 'imtime.hpp', 'legendre.hpp')] + cpp, sources=cpp)
