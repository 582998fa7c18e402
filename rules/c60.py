from cppref import *

M = 'triqs/mesh/'


def check(ctx):
    refine_cpp(ctx, [M + 'dlr.hpp', M + 'dlr_imfreq.hpp', M + 'dlr_imtime.hpp', M + 'adjoint.hpp', M + 'concepts.hpp'])
