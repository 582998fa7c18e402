from cppref import *


def check(ctx):
    refine_cpp(ctx, ['triqs/atom_diag/atom_diag.hpp', 'triqs/atom_diag/functions.hpp', 'triqs/atom_diag/gf.hpp', 'triqs/atom_diag/impl/worker.hpp'], sources=['triqs/atom_diag/impl/atom_diag.cpp', 'triqs/atom_diag/impl/functions.cpp', 'triqs/atom_diag/impl/gf.cpp', 'triqs/atom_diag/impl/worker.cpp'])
