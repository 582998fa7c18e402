from cppref import *


def check(ctx):
    refine_cpp(ctx, ['triqs/utility/exceptions.hpp', 'triqs/utility/dressed_iterator.hpp', 'triqs/utility/lazy_bracket.hpp', 'triqs/utility/tuple_tools.hpp'])
