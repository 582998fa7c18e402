from cppref import *


def check(ctx):
    refine_cpp(ctx, ['triqs/det_manip/det_manip.hpp'])
