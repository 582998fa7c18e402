from cppref import *


def check(ctx):
    refine_cpp(ctx, ['triqs/gfs.hpp', 'triqs/gfs/gf_sym_grp.hpp'], files=['triqs/gfs/gf_sym_grp.hpp'])
