from cppref import *


def check(ctx):
    refine_cpp(ctx, ['triqs/hilbert_space/fundamental_operator_set.hpp', 'triqs/hilbert_space/hilbert_space.hpp', 'triqs/hilbert_space/imperative_operator.hpp', 'triqs/hilbert_space/state.hpp'], sources=['triqs/hilbert_space/fundamental_operator_set.cpp'])
