from cppref import *


def check(ctx):
    refine_cpp(ctx, ['triqs/hilbert_space/space_partition.hpp'])
