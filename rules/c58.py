from cppref import *

D = 'triqs/gfs/transform/'


def check(ctx):
    refine_cpp(ctx, ['triqs/gfs.hpp'], files=[D + x for x in ('fourier.hpp', 'legendre_matsubara.hpp', 'pade.hpp', 'partial_transform.hpp', 'pade.cpp', 'fourier_common.cpp')], sources=[D + 'pade.cpp', D + 'fourier_common.cpp'])
    for k in ('lattice', 'matsubara', 'real'):      # the same file-local names are used in each of them
        f = D + 'fourier_%s.cpp' % k
        refine_cpp(ctx, ['triqs/gfs.hpp'], files=[f], sources=[f])
