from cppref import *


def check(ctx):
    refine_cpp(ctx, ['triqs/operators/util/extractors.hpp'])
