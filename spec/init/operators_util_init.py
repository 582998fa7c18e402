# Copyright (c) 2015 Commissariat à l'énergie atomique et aux énergies alternatives (CEA)
# Copyright (c) 2015 Centre national de la recherche scientifique (CNRS)
# Copyright (c) 2020-2023 Simons Foundation
# Copyright (c) 2015 Igor Krivenko
#
# This program is free software: you can redistribute it and/or modify
# it under the terms of the GNU General Public License as published by
# the Free Software Foundation, either version 3 of the License, or
# (at your option) any later version.
#
# This program is distributed in the hope that it will be useful,
# but WITHOUT ANY WARRANTY; without even the implied warranty of
# MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
# GNU General Public License for more details.
#
# You may obtain a copy of the License at
#     https:#www.gnu.org/licenses/gpl-3.0.txt
#
# Authors: Michel Ferrero, Alexander Hampel, Igor Krivenko, Priyanka Seth, Nils Wentzell


from .hamiltonians import *
from .observables import *
from .op_struct import *
from .U_matrix import *
from .extractors import *

__all__ = ['h_int_slater','h_int_kanamori','h_int_density','diagonal_part',
           'get_mkind','set_operator_structure', 'U_J_to_radial_integrals',
           'U_matrix_slater', 'U_matrix_kanamori', 'angular_matrix_element', 'clebsch_gordan',
           'cubic_names', 'eg_submatrix', 'radial_integrals_to_U_J',
           'reduce_4index_to_2index', 'spherical_to_cubic', 't2g_submatrix',
           'three_j_symbol', 'transform_U_matrix',
           'N_op', 'S_op', 'S2_op', 'L_op', 'L2_op', 'LS_op',
           'extract_h_dict','extract_U_dict2','extract_U_dict4','dict_to_matrix']
