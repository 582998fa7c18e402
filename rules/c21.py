from cppref import *


def check(ctx):
    refine_cpp(ctx, ['triqs/operators/many_body_operator.hpp'], sources=['triqs/operators/many_body_operator.cpp'])
