from cppref import *

D = 'triqs/gfs/block/'


def check(ctx):
    refine_cpp(ctx, ['triqs/gfs.hpp'], files=[D + x for x in ('_block_gf_view_common.hpp', 'auto_assign.hpp', 'block_gf.hpp', 'block_gf_view.hpp', 'expr.hpp', 'factories.hpp', 'functions.hpp', 'gf_struct.hpp', 'map.hpp', 'mapped_functions.hxx', 'mpi.hpp')])
