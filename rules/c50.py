from cppref import *


def check(ctx):
    refine_cpp(ctx, ['triqs/lattice/bravais_lattice.hpp', 'triqs/lattice/grid_generator.hpp'], sources=['triqs/lattice/bravais_lattice.cpp'])
    refine_cpp(ctx, ['triqs/lattice/brillouin_zone.hpp'], sources=['triqs/lattice/brillouin_zone.cpp'])
