from cppref import *


def check(ctx):
    refine_cpp(ctx, ['triqs/stat/accumulator.hpp', 'triqs/stat/jackknife.hpp', 'triqs/stat/mean_error.hpp', 'triqs/stat/make_real.hpp'], files=['triqs/stat/jackknife.hpp', 'triqs/stat/mean_error.hpp', 'triqs/stat/make_real.hpp'])
