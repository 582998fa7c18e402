from cppref import *

D = 'triqs/gfs/'


def check(ctx):
    refine_cpp(ctx, ['triqs/gfs.hpp'], files=[D + x for x in ('gf/_gf_view_common.hpp', 'gf/auto_assign.hpp', 'gf/defs.hpp', 'gf/flatten.hpp', 'gf/gf.hpp', 'gf/gf_const_view.hpp', 'gf/gf_expr.hpp', 'gf/gf_view.hpp', 'gf/targets.hpp', 'evaluator.hpp', 'make_gf.hpp', 'h5.hpp')])
