from cppref import *


def check(ctx):
    refine_cpp(ctx, ['triqs/utility/tuple_serialize.hpp'], cmp=Cmp(order='total'))
