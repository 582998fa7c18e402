from cppref import *


def check(ctx):
    refine_cpp(ctx, ['triqs/mesh/imfreq.hpp', 'triqs/mesh/imtime.hpp', 'triqs/mesh/refreq.hpp', 'triqs/mesh/retime.hpp', 'triqs/mesh/legendre.hpp', 'triqs/mesh/discrete.hpp', 'triqs/mesh/bases/linear.hpp', 'triqs/mesh/utils.hpp', 'triqs/mesh/evaluate.hpp'])
