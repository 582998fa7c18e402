from cppref import *


def check(ctx):
    refine_cpp(ctx, ['triqs/utility/typeid_name.hpp', 'triqs/utility/variant_extensions.hpp', 'triqs/utility/stack_trace.hpp'], sources=['triqs/utility/typeid_name.cpp', 'triqs/utility/stack_trace.cpp'])
