TB = 'python/triqs/lattice/tight_binding.py'
LU = 'python/triqs/lattice/utils.py'
BP = 'python/triqs/lattice/bz_patch.py'
PT = 'python/triqs/lattice/point.py'
MB = 'python/triqs/gf/map_block.py'
TO = 'python/triqs/gf/tools.py'
FI = 'python/triqs/fit/fit.py'
PR = 'python/triqs/plot/protocol.py'
MP = 'python/triqs/plot/mpl_interface.py'
HG = 'python/triqs/stat/histogram.py'
OV = 'python/triqs/gf/plot/one_var.py'
PB = 'python/triqs/gf/plot/plot_base.py'
SI = 'python/triqs/gf/plot/select_indices.py'
CASES = [
('tb dos loop', 'C42', [(TB, "    return [DOS(eps, arr[:, i], name) for i in range(arr.shape[1])]\n", '''    result = []
    for i in range(arr.shape[1]):
        rho = arr[:, i]
        result.append(DOS(eps, rho, name))
    return result
''')]),
('tb dos T', 'C42', [(TB, "    return [DOS(eps, arr[:, i], name) for i in range(arr.shape[1])]\n", '''    n_bands = arr.shape[1]
    return list(map(lambda i: DOS(eps, arr[:, i], name), range(n_bands)))
''')]),
('tb names', 'C42', [(TB, '''        if orbital_names is None:
            orbital_names = len(orbital_positions) * [""]
''', '''        orbital_names = [""] * len(orbital_positions) if orbital_names is None else orbital_names
''')]),
('tb names comp', 'C42', [(TB, '''            orbital_names = len(orbital_positions) * [""]
''', '''            orbital_names = ["" for _ in orbital_positions]
''')]),
('tb hopping', 'C42', [(TB, '''        if hopping is not None:
            warnings.warn(
                "Keyword hopping in TBLattice.__init__ deprecated; use hoppings instead.", DeprecationWarning)
            hoppings = hopping
''', '''        hoppings = self._deprecated_hopping(hopping, hoppings)
'''), (TB, '''    @property
    def hoppings(self):
''', '''    @staticmethod
    def _deprecated_hopping(hopping, hoppings):
        if hopping is None:
            return hoppings
        warnings.warn(
            "Keyword hopping in TBLattice.__init__ deprecated; use hoppings instead.", DeprecationWarning)
        return hopping

    @property
    def hoppings(self):
''')]),
('tb hoppings loop', 'C42', [(TB, '''        return {tuple(displ): hop for displ, hop in zip(self.tb.displ_vec, self.tb.overlap_mat_vec)}
''', '''        result = {}
        for displ, hop in zip(self.tb.displ_vec, self.tb.overlap_mat_vec):
            result[tuple(displ)] = hop
        return result
''')]),
('tb hoppings dict', 'C42', [(TB, '''        return {tuple(displ): hop for displ, hop in zip(self.tb.displ_vec, self.tb.overlap_mat_vec)}
''', '''        return dict(zip(map(tuple, self.tb.displ_vec), self.tb.overlap_mat_vec))
''')]),
('tb hop shared', 'C42', [(TB, '''        return {tuple(displ): hop for displ, hop in zip(self.tb.displ_vec, self.tb.overlap_mat_vec)}
''', '''        return _hoppings_of(self.tb)
'''), (TB, '''        hoppings = {tuple(displ): hop for displ, hop in zip(
            tb.displ_vec, tb.overlap_mat_vec)}
        return cls(bl''', '''        hoppings = _hoppings_of(tb)
        return cls(bl'''), (TB, '''class TBLattice(object):
''', '''def _hoppings_of(tb):
    """the hoppings as a dictionary"""
    return {tuple(R): t for R, t in zip(tb.displ_vec, tb.overlap_mat_vec)}


class TBLattice(object):
''')]),
('tb units', 'C42', [(TB, '''        return self.bl.units[:self.ndim, :self.ndim]
''', '''        d = self.bl.ndim
        return self.bl.units[0:d, 0:d]
''')]),
('tb factory kw', 'C42', [(TB, '''        return cls(bl.units[:bl.ndim, :bl.ndim],
                   hoppings,
                   bl.orbital_positions,
                   bl.orbital_names)
''', '''        n = bl.ndim
        return cls(units=bl.units[:n, :n], hoppings=hoppings,
                   orbital_positions=bl.orbital_positions, orbital_names=bl.orbital_names)
''')]),
('tb eq', 'C42', [(TB, '''        if not isinstance(other, TBLattice):
            return False
        return self.tb == other.tb and self.bz == other.bz and self.bl == other.bl
''', '''        return isinstance(other, TBLattice) and self.tb == other.tb and self.bz == other.bz and self.bl == other.bl
''')]),
('tb eq2', 'C42', [(TB, '''        return self.tb == other.tb and self.bz == other.bz and self.bl == other.bl
''', '''        if self.tb != other.tb:
            return False
        if not (self.bz == other.bz):
            return False
        return self.bl == other.bl
''')]),
('tb reduce', 'C42', [(TB, '''        return {"BravaisLattice": self.bl,
                "BrillouinZone": self.bz,
                "TightBinding": self.tb}
''', '''        d = dict(BravaisLattice=self.bl, TightBinding=self.tb)
        d["BrillouinZone"] = self.bz
        return d
''')]),
('ksp cell', 'C42', [(LU, '''    if bz is None:
        cell = np.eye(3)
    else:
        cell = bz.units
''', '''    cell = bz.units if bz is not None else np.eye(3)
''')]),
('ksp loop', 'C42', [(LU, '''    segments = [(np.asarray(ki), np.asarray(kf)) for ki, kf in segments]
    kvecs    = [ki[None, :] + x[:, None] * (kf - ki)[None, :] for ki, kf in segments]
''', '''    kvecs = []
    for ki, kf in segments:
        ki, kf = np.asarray(ki), np.asarray(kf)
        kvecs.append(ki[None, :] + x[:, None] * (kf - ki)[None, :])
''')]),
('ksp np', 'C42', [(LU, '''        dist_new = np.linalg.norm(kvec_abs - kvec_abs[0], axis=1) + cur_dist
        dist = np.concatenate((dist, dist_new))

        cur_dist = dist[-1]
''', '''        step = np.linalg.norm(kvec_abs - kvec_abs[0], axis=1)
        dist = np.concatenate((dist, cur_dist + step))
        cur_dist = dist[-1]
''')]),
('ksp matmul', 'C42', [(LU, '''    kvecs_abs = [kvec @ cell for kvec in kvecs]
    for kvec_abs in kvecs_abs:
''', '''    kvecs_abs = [np.matmul(kvec, cell) for kvec in kvecs]
    for kvec_abs in kvecs_abs:
''')]),
('ksp ret', 'C42', [(LU, '''    if not relative_coordinates:
        kvecs = kvecs_abs
    return np.vstack(kvecs), dist, np.concatenate(([0], dist[num-1::num]))
''', '''    ticks = np.concatenate(([0], dist[num-1::num]))
    points = kvecs if relative_coordinates else kvecs_abs
    return np.vstack(points), dist, ticks
''')]),
('w90 hr', 'C42', [(LU, '''    hopp_dict = {tuple(R[i]): hopp[i] for i in range(nrpts)}

    return hopp_dict, num_wann
''', '''    hopp_dict = dict()
    for i in range(nrpts):
        hopp_dict[tuple(R[i])] = hopp[i]
    return hopp_dict, num_wann
''')]),
('w90 deg', 'C42', [(LU, '''    hopp = dat[..., 5] + 1.j * dat[..., 6]

    # Account for degeneracy of the Wigner-Seitz points
    hopp /= deg[:, None, None]
''', '''    re, im = dat[..., 5], dat[..., 6]
    hopp = (re + 1j * im) / deg[:, None, None]
''')]),
('w90 header', 'C42', [(LU, '''        fd.readline()  # eliminate time header
        num_wann = int(fd.readline())
        nrpts = int(fd.readline())
        lines = fd.readlines()
''', '''        _ = fd.readline()  # eliminate time header
        num_wann, nrpts = int(fd.readline()), int(fd.readline())
        lines = fd.readlines()
''')]),
('w90 assert', 'C42', [(LU, '''    assert deg.shape == (nrpts,)
''', '''    if deg.shape != (nrpts,):
        raise AssertionError("wrong number of degeneracies")
''')]),
('w90 units', 'C42', [(LU, '''            if '(Ang)' in line:
                unit = 1.0
            elif '(Bohr)' in line:
                unit = 0.5291772105638411
            else:
                raise NotImplementedError
            break
''', '''            if '(Ang)' not in line and '(Bohr)' not in line:
                raise NotImplementedError
            unit = 1.0 if '(Ang)' in line else 0.5291772105638411
            break
''')]),
('w90 vectors', 'C42', [(LU, '''    vectors = [tuple(dat[i]) for i in range(3)]

    return vectors
''', '''    return [tuple(dat[0]), tuple(dat[1]), tuple(dat[2])]
''')]),
('w90 spin', 'C42', [(LU, '''    hopp_dict_spin = {k: np.kron(np.eye(2), v) for k, v in hopp_dict.items()}
    return hopp_dict_spin, 2 * num_wann
''', '''    spin = np.eye(2)
    hopp_dict_spin = {}
    for R in hopp_dict:
        hopp_dict_spin[R] = np.kron(spin, hopp_dict[R])
    return hopp_dict_spin, num_wann * 2
''')]),
('w90 tb', 'C42', [(LU, '''    TBL = TBLattice(units=units, hoppings=hopp_dict,
                    orbital_positions=[(0, 0, 0)]*num_wann,
                    orbital_names=[str(i) for i in range(num_wann)])
    return TBL

def TB_from_pythTB''', '''    names = list(map(str, range(num_wann)))
    positions = [(0, 0, 0) for _ in range(num_wann)]
    return TBLattice(units, hopp_dict, positions, names)

def TB_from_pythTB''')]),
('w90 local', 'C42', [(LU, '''        hopp_dict[(0, 0, 0)] += add_local
''', '''        hopp_dict[0, 0, 0] = hopp_dict[0, 0, 0] + add_local
''')]),
('w90 path', 'C42', [(LU, '''    hopp_dict, num_wann = parse_hopping_from_wannier90_hr_dat(path + seed + '_hr.dat')
    units = parse_lattice_vectors_from_wannier90_wout(path + seed + '.wout')
''', '''    prefix = path + seed
    hopp_dict, num_wann = parse_hopping_from_wannier90_hr_dat('%s_hr.dat' % prefix)
    units = parse_lattice_vectors_from_wannier90_wout(f'{prefix}.wout')
''')]),
('pth R', 'C42', [(LU, '''    for hopp, orb_from, orb_to, displacement in ptb._hoppings:
        if tuple(displacement) not in hopp_dict:
            hopp_dict[tuple(displacement)] = m_zero.copy()
            # per default pythTB does not explicitly stores -R
            hopp_dict[tuple(-np.array(displacement))] = m_zero.copy()

        hopp_dict[tuple(displacement)][orb_from, orb_to] += hopp
''', '''    for hopp, orb_from, orb_to, displacement in ptb._hoppings:
        R = tuple(displacement)
        if R not in hopp_dict:
            hopp_dict[R] = m_zero.copy()
            # per default pythTB does not explicitly stores -R
            hopp_dict[tuple(-np.array(displacement))] = m_zero.copy()

        hopp_dict[R][orb_from, orb_to] += hopp
''')]),
('pth n', 'C42', [(LU, '''    m_zero = np.zeros((ptb.get_num_orbitals(), ptb.get_num_orbitals()), dtype=complex)
''', '''    n = ptb.get_num_orbitals()
    m_zero = np.zeros((n, n), dtype=complex)
''')]),
('sym cells', 'C42', [(LU, '''    num_cells_x, num_cells_y, num_cells_z = [2 * max_coord + 1 for max_coord in [max_x, max_y, max_z]]
''', '''    num_cells_x = 2 * max_x + 1
    num_cells_y = 2 * max_y + 1
    num_cells_z = 2 * max_z + 1
''')]),
('sym units', 'C42', [(LU, '''    if TBL.units.shape == (2, 2):
        TBL_units = np.eye(3)
        TBL_units[:2, :2] = TBL.units
        TBL_hops = {key + (0,): val for key, val in TBL.hoppings.items()}
    elif TBL.units.shape == (3,3):
        TBL_units = TBL.units
        TBL_hops = TBL.hoppings
    # raises error for when the dimensions of the tb object is neither 2D nor 3D
    else:
        raise ValueError("This format of the tight-binding model is not implemented for this function.")
''', '''    shape = TBL.units.shape
    if shape not in ((2, 2), (3, 3)):
        raise ValueError("This format of the tight-binding model is not implemented for this function.")
    if shape == (3, 3):
        TBL_units, TBL_hops = TBL.units, TBL.hoppings
    else:
        TBL_units = np.eye(3)
        TBL_units[:2, :2] = TBL.units
        TBL_hops = {key + (0,): val for key, val in TBL.hoppings.items()}
''')]),
('sym loop', 'C42', [(LU, '''    for key, hopping in TBL_hops.items():
        rx, ry, rz = key
        hopping = np.around(hopping, precision)
        Hrij[rx + max_x, ry + max_y, rz + max_z] = hopping
''', '''    for (rx, ry, rz), hopping in TBL_hops.items():
        Hrij[max_x + rx, max_y + ry, max_z + rz] = np.around(hopping, precision)
''')]),
('sym fourier', 'C42', [(LU, '''        coefficients = np.array([xi - max_x, yi - max_y, zi - max_z])
        r = lattice.dot(coefficients)
        eikr = sp.exp(-I * r)
        Hexp[xi, yi, zi, :, :] = eikr
''', '''        r = lattice.dot(np.array([xi - max_x, yi - max_y, zi - max_z]))
        Hexp[xi, yi, zi, :, :] = sp.exp(-(I * r))
''')]),
('sym nested', 'C42', [(LU, '''    for i, j in itp(range(num_orb), repeat = 2):
        Hk[i, j] = Hk[i, j].rewrite(sp.cos)
''', '''    for i in range(num_orb):
        for j in range(num_orb):
            Hk[i, j] = Hk[i, j].rewrite(sp.cos)
''')]),
('sym herm', 'C42', [(LU, '''        n = matrix.shape[0]
        for i in range(n):
            for j in range(n):
                if matrix[i, j] != matrix[j, i].conjugate():
                    return False
        return True
''', '''        n = matrix.shape[0]
        return all(matrix[i, j] == matrix[j, i].conjugate() for i in range(n) for j in range(n))
''')]),
('sym cexp', 'C42', [(LU, '''        for sublist in matrix:
            for element in sublist:
                if element.is_complex and element.has(sp.exp):
                    return True
        return False
''', '''        return any(element.is_complex and element.has(sp.exp) for row in matrix for element in row)
''')]),
('bzp area', 'C42', [(BP, '''                    self._weights += [ 0.5*abs((pnt[1][0]-pnt[0][0])*(pnt[2][1]-pnt[0][1])
                                        -(pnt[1][1]-pnt[0][1])*(pnt[2][0]-pnt[0][0])) ]
                    self.weight += 0.5*abs((pnt[1][0]-pnt[0][0])*(pnt[2][1]-pnt[0][1])
                                      -(pnt[1][1]-pnt[0][1])*(pnt[2][0]-pnt[0][0]))
''', '''                    area = 0.5*abs((pnt[1][0]-pnt[0][0])*(pnt[2][1]-pnt[0][1])
                                   -(pnt[1][1]-pnt[0][1])*(pnt[2][0]-pnt[0][0]))
                    self._weights.append(area)
                    self.weight += area
''')]),
('bzp helper', 'C42', [(BP, '''                    self._weights += [ 0.5*abs((pnt[1][0]-pnt[0][0])*(pnt[2][1]-pnt[0][1])
                                        -(pnt[1][1]-pnt[0][1])*(pnt[2][0]-pnt[0][0])) ]
                    self.weight += 0.5*abs((pnt[1][0]-pnt[0][0])*(pnt[2][1]-pnt[0][1])
                                      -(pnt[1][1]-pnt[0][1])*(pnt[2][0]-pnt[0][0]))
''', '''                    w = _area(*pnt)
                    self._weights += [w]
                    self.weight += w
'''), (BP, '''class BZPatch:
''', '''def _area(a, b, c):
    return abs((b[0]-a[0])*(c[1]-a[1]) - (b[1]-a[1])*(c[0]-a[0]))/2

class BZPatch:
''')]),
('bzp mod', 'C42', [(BP, '''                    pnt[np%3] = point
''', '''                    pnt[np] = point
''')]),
('bzp flip', 'C42', [(BP, '''                if np > 1:
                    pnt[2] = point
                    self._triangles += pnt
''', '''                if np >= 2:
                    pnt[2] = point
                    self._triangles.extend(pnt)
''')]),
('pt value', 'C42', [(PT, '''        if self._value is None: self._value = self.lattice.lattice_to_real_coordinates(self.index)
        return self._value
''', '''        if self._value is not None:
            return self._value
        self._value = self.lattice.lattice_to_real_coordinates(self.index)
        return self._value
''')]),
('pt add', 'C42', [(PT, '''        if isinstance(other, LatticePoint):
            return LatticePoint(list(map(add, self.index, other.index)), self.lattice)
        elif isinstance(other, MeshPoint):
            return self.__add__(other.value)
        else:
            return self.__array__() + other
''', '''        if isinstance(other, LatticePoint):
            return LatticePoint([a + b for a, b in zip(self.index, other.index)], self.lattice)
        if isinstance(other, MeshPoint):
            return self + other.value
        return self.value + other
''')]),
('pt neg', 'C42', [(PT, '''        return LatticePoint(list(map(neg, self.index)), self.lattice)
''', '''        return LatticePoint([-i for i in self.index], self.lattice)
''')]),
('pt sub', 'C42', [(PT, '''        return self.__add__(other.__neg__())
''', '''        return self + (-other)
''')]),
('pt rsub', 'C42', [(PT, '''        neg = self.__neg__()
        return neg.__add__(other)
''', '''        return (-self) + other
''')]),
('pt radd', 'C42', [(PT, '''        return self.__add__(other)

    def __sub__''', '''        return self + other

    def __sub__''')]),
# C48
('mbk guard', 'C48', [(MB, '''        block_list = [fun(bl) for name, bl in G]
        if isinstance(block_list[0], Gf):
            return BlockGf(name_list = list(G.indices), block_list = block_list)
        else:
            return block_list

    elif''', '''        block_list = []
        for _, bl in G:
            block_list.append(fun(bl))
        if not isinstance(block_list[0], Gf):
            return block_list
        return BlockGf(name_list = list(G.indices), block_list = block_list)

    elif''')]),
('mbk nest', 'C48', [(MB, '''        block_list = []
        for bn1 in G.indices1:
            block_list.append([fun(G[bn1,bn2]) for bn2 in G.indices2])
        if isinstance''', '''        block_list = [[fun(G[bn1,bn2]) for bn2 in G.indices2] for bn1 in G.indices1]
        if isinstance''')]),
('mbk early', 'C48', [(MB, '''    if isinstance(G, BlockGf):
        block_list = [fun(bl) for name, bl in G]
''', '''    if not isinstance(G, (BlockGf, Block2Gf)):
        raise Exception('map_block only applicable for BlockGf and Block2Gf')
    if isinstance(G, BlockGf):
        block_list = [fun(bl) for name, bl in G]
''')]),
('to inverse', 'C48', [(TO, '''    if hasattr(x,'inverse'):
        return x.inverse()
    return 1.0 / x
''', '''    return x.inverse() if hasattr(x, 'inverse') else 1.0 / x
''')]),
('to lazy', 'C48', [(TO, '''        return lazy_expressions.lazy_function("conjugate", conjugate) (x)
''', '''        lazy_conjugate = lazy_expressions.lazy_function("conjugate", conjugate)
        return lazy_conjugate(x)
''')]),
('to delta', 'C48', [(TO, '''    if isinstance(g, BlockGf):
        return BlockGf(name_block_generator = [ (n, delta(g0)) for n,g0 in g], make_copies=False)
    elif isinstance(g.mesh, MeshImFreq):
''', '''    if isinstance(g, BlockGf):
        blocks = []
        for name, block in g:
            blocks.append((name, delta(block)))
        return BlockGf(name_block_generator=blocks, make_copies=False)
    if isinstance(g.mesh, MeshImFreq):
''')]),
('to delta assert', 'C48', [(TO, '''        assert len(g.target_shape) in [0,2], "delta(g) requires a matrix or scalar_valued Green function"
''', '''        rank = len(g.target_shape)
        assert rank == 0 or rank == 2, "delta(g) requires a matrix or scalar_valued Green function"
''')]),
('to delta mesh first', 'C48', [(TO, '''    elif isinstance(g.mesh, MeshImFreq):
        assert len(g.target_shape) in''', '''    elif not isinstance(g.mesh, MeshImFreq):
        raise TypeError("No function delta for g0 object of type %s"%type(g))
    else:
        assert len(g.target_shape) in'''), (TO, '''        return delta_iw
    else:
        raise TypeError("No function delta for g0 object of type %s"%type(g))
''', '''        return delta_iw
''')]),
('to dyson names', 'C48', [(TO, '''    if not (len(kwargs)==2 and set(kwargs.keys())<set(['G0_iw','G_iw', 'Sigma_iw'])):
        raise ValueError''', '''    if len(kwargs) != 2 or not set(kwargs.keys()) < {'G0_iw', 'G_iw', 'Sigma_iw'}:
        raise ValueError''')]),
('to dyson ret', 'C48', [(TO, '''        G0_iw = inverse(kwargs['Sigma_iw'] + inverse(kwargs['G_iw']))
        return G0_iw
    elif''', '''        return inverse(kwargs['Sigma_iw'] + inverse(kwargs['G_iw']))
    elif''')]),
('to dyson temp', 'C48', [(TO, '''        G_iw = inverse(inverse(kwargs['G0_iw']) - kwargs['Sigma_iw'])
        return G_iw
''', '''        inv_g0 = inverse(kwargs['G0_iw'])
        return inverse(inv_g0 - kwargs['Sigma_iw'])
''')]),
('to read', 'C48', [(TO, '''    for i,j in product(list(range(N1)),list(range(N2))):
        data = np.genfromtxt(block_txtfiles[i,j],usecols=[1,2])
        g.data[:,i,j] = data[:,0] + 1j*data[:,1]
''', '''    for i in range(N1):
        for j in range(N2):
            data = np.genfromtxt(block_txtfiles[i,j],usecols=[1,2])
            re, im = data[:,0], data[:,1]
            g.data[:,i,j] = re + 1j*im
''')]),
('to read mesh', 'C48', [(TO, '''    g = GfReFreq(indices=list(range(N1)),window=(np.min(mesh),np.max(mesh)),n_points=len(mesh),name=block_name)
''', '''    window = (np.min(mesh), np.max(mesh))
    g = GfReFreq(name=block_name, n_points=len(mesh), window=window, indices=list(range(N1)))
''')]),
('to write mesh', 'C48', [(TO, '''        mesh = np.array([w.real for w in g.mesh]).reshape(-1,1)
    elif''', '''        mesh = np.array([w.real for w in g.mesh])
        mesh = mesh.reshape(-1, 1)
    elif''')]),
('to write nest', 'C48', [(TO, '''        txtfile = '%s_%s_%s.dat'%(g.name,i,j)
        redata = g.data[:,i,j].real.reshape((g.data.shape[0],-1))
        imdata = g.data[:,i,j].imag.reshape((g.data.shape[0],-1))
        mesh_and_data = np.hstack((mesh,redata,imdata))
        np.savetxt(txtfile,mesh_and_data)
''', '''        n = g.data.shape[0]
        redata = g.data[:,i,j].real.reshape((n,-1))
        imdata = g.data[:,i,j].imag.reshape((n,-1))
        np.savetxt(f'{g.name}_{i}_{j}.dat', np.hstack((mesh,redata,imdata)))
''')]),
('to zero tail', 'C48', [(TO, '''        n_moments = max(1, n_moments)
        return np.zeros((n_moments,) + g.target_shape, dtype = np.complex128)
''', '''        if n_moments < 1:
            n_moments = 1
        shape = (n_moments,) + g.target_shape
        return np.zeros(shape, dtype=np.complex128)
''')]),
('to zero tail def', 'C48', [(TO, '''        return map_block(lambda g_bl: make_zero_tail(g_bl, n_moments), g)
''', '''        def zero(g_bl):
            return make_zero_tail(g_bl, n_moments)
        return map_block(zero, g)
''')]),
('to leg scale', 'C48', [(TO, '''    scale = np.sqrt(2.*l + 1) / mesh.beta
    scale = scale.reshape([len(lmesh)] + [1]*len(g_t.target_shape))
''', '''    scale = (np.sqrt(2.*l + 1) / mesh.beta).reshape([len(lmesh)] + len(g_t.target_shape)*[1])
''')]),
('to leg re', 'C48', [(TO, '''    data_re = 0.5 * (data + data_herm).real
    data_im = 0.5 * (data + data_herm).imag
    data_ext = np.hstack((data_re, data_im))
''', '''    sym = data + data_herm
    data_re, data_im = 0.5 * sym.real, 0.5 * sym.imag
    data_ext = np.hstack((data_re, data_im))
''')]),
('to leg x', 'C48', [(TO, '''    tau = np.array([ t.value for t in mesh ])
    # Rescale to the interval (-1,1)
    x = 2. * tau / mesh.beta - 1.
''', '''    tau = np.array(list(map(lambda t: t.value, mesh)))
    # Rescale to the interval (-1,1)
    x = -1. + 2. * tau / mesh.beta
''')]),
('to md names', 'C48', [(TO, '''        if block_names is None:
            block_names = [str(i) for i in range(len(V))]

        assert isinstance(block_names, list), 'block_names should be a list(str)'
''', '''        block_names = [str(i) for i, _ in enumerate(V)] if block_names is None else block_names

        assert isinstance(block_names, list), 'block_names should be a list(str)'
''')]),
('to md list', 'C48', [(TO, '''        delta_list = [make_delta(v, e, mesh) for v, e in zip(V, eps)]
        return BlockGf(name_list=block_names, block_list=delta_list)
''', '''        delta_list = []
        for i in range(len(V)):
            delta_list.append(make_delta(V[i], eps[i], mesh))
        return BlockGf(name_list=block_names, block_list=delta_list)
''')]),
('to md assert', 'C48', [(TO, '''        assert len(V) == len(eps) and len(V) == len(block_names), \\
            'mismatch between list size of V, eps and block_names'
''', '''        assert len(V) == len(eps) == len(block_names), \\
            'mismatch between list size of V, eps and block_names'
''')]),
('to md shape', 'C48', [(TO, '''    delta_res = Gf(mesh=mesh, target_shape=[V.shape[0], V.shape[0]])
''', '''    n_orb = V.shape[0]
    delta_res = Gf(mesh=mesh, target_shape=2*[n_orb])
''')]),
('to db loop', 'C48', [(TO, '''            V_opt.append(res[0])
            eps_opt.append(res[1])
            delta_list.append(res[2])
''', '''            v, e, d = res
            V_opt.append(v)
            eps_opt.append(e)
            delta_list.append(d)
''')]),
('to db norb', 'C48', [(TO, '''    if len(delta_in.target_shape) == 0:
        n_orb = 1
    else:
        n_orb = delta_in.target_shape[0]
''', '''    n_orb = delta_in.target_shape[0] if len(delta_in.target_shape) > 0 else 1
''')]),
('to db assert', 'C48', [(TO, '''    assert isinstance(delta_in.mesh, MeshImFreq) or isinstance(delta_in.mesh, MeshImTime), \'input''', '''    assert isinstance(delta_in.mesh, (MeshImFreq, MeshImTime)), \'input''')]),
('to db unflatten', 'C48', [(TO, '''        if cmplx:
            V   = x[0:2*Nb*n_orb].view(complex).reshape(n_orb, Nb)
            eps = x[2*Nb*n_orb:]
        else:
            V   = x[0:Nb*n_orb].reshape(n_orb, Nb)
            eps = x[Nb*n_orb:]
        return V, eps
''', '''        n = Nb*n_orb
        if not cmplx:
            return x[:n].reshape(n_orb, Nb), x[n:]
        return x[:2*n].view(complex).reshape(n_orb, Nb), x[2*n:]
''')]),
('to db sort', 'C48', [(TO, '''    order = np.argsort(eps_opt)
    eps_opt = eps_opt[order]
    V_opt = V_opt[:, order]
''', '''    order = np.argsort(eps_opt)
    V_opt, eps_opt = V_opt[:, order], eps_opt[order]
''')]),
# C61
('fit def', 'C61', [(FI, '''        errfunc = lambda x :  np.abs ( self.function(x_array,*x)  - y_array[:])
''', '''        def errfunc(params):
            model = self.function(x_array, *params)
            return np.abs(model - y_array[:])
''')]),
('fit p0', 'C61', [(FI, '''        self.param, success = leastsq(errfunc, p0 if p0 is not None else p00 )
''', '''        start = p00 if p0 is None else p0
        result = leastsq(errfunc, start)
        self.param, success = result
''')]),
('fit asserts', 'C61', [(FI, '''        assert len(y_array) == len(x_array)
        assert len(y_array) > len (p00)
''', '''        n_points = len(y_array)
        assert n_points == len(x_array)
        assert len(p00) < n_points
''')]),
('fit str', 'C61', [(FI, '''    def __str__ (self) : return (self.fname%tuple(self.param) or 'Fit').replace("+ -","-")
''', '''    def __str__(self):
        text = self.fname % tuple(self.param)
        if not text:
            text = 'Fit'
        return text.replace("+ -", "-")
''')]),
('fit quad', 'C61', [(FI, "quadratic          =  lambda X, a,b,c : (a * X + b)*X + c,     r", "quadratic          =  lambda X, a,b,c : a*X*X + b*X + c,     r")]),
# C62
('hg limits', 'C62', [(HG, '''    bin_centres = np.linspace(self.limits[0],self.limits[1],len(self))
    bin_width = optional_dict.pop('width', (self.limits[1] - self.limits[0])/(len(self) - 1))
''', '''    a, b = self.limits[0], self.limits[1]
    n = len(self)
    bin_centres = np.linspace(a, b, n)
    bin_width = optional_dict.pop('width', (b - a)/(n - 1))
''')]),
('hg edges', 'C62', [(HG, '''    bin_edges = bin_centres - ((bin_width/2) if plot_type=='bar' else 0)
''', '''    if plot_type == 'bar':
        bin_edges = bin_centres - 0.5*bin_width
    else:
        bin_edges = bin_centres - 0
''')]),
('hg dict', 'C62', [(HG, '''    if plot_type=='bar' and not 'width' in optional_dict:
        default_dict['width'] = bin_width
''', '''    if 'width' not in optional_dict and plot_type == 'bar':
        default_dict['width'] = bin_width
''')]),
('pr loop', 'C62', [(PR, '''    try:
        low = next((i for i, x in enumerate(x_array) if not(x < x_min)))
    except StopIteration:
        return slice(0, 0)  # there is no x >= x_min
''', '''    low = None
    for i, x in enumerate(x_array):
        if not (x < x_min):
            low = i
            break
    if low is None:
        return slice(0, 0)  # there is no x >= x_min
''')]),
('pr default', 'C62', [(PR, '''    try:
        high = next((i for i, x in enumerate(x_array) if x > x_max))
        r = slice(low, high)
    except StopIteration:
        r = slice(low, len(x_array))  # there is no x > x_max

    return r
''', '''    high = next((i for i, x in enumerate(x_array) if x > x_max), len(x_array))
    return slice(low, high)
''')]),
('pr ret', 'C62', [(PR, '''        r = slice(low, high)
    except StopIteration:
        r = slice(low, len(x_array))  # there is no x > x_max

    return r
''', '''    except StopIteration:
        high = len(x_array)  # there is no x > x_max

    return slice(low, high)
''')]),
('pr complex', 'C62', [(PR, '''    if numpy.iscomplexobj(Y):
        return([{'xdata': X, 'ydata': Y.real, 'label': "Re " + name},
                {'xdata': X, 'ydata': Y.imag, 'label': "Im " + name}])
    else:
        return([{'xdata': X, 'ydata': Y, 'label': name}])
''', '''    def curve(y, label):
        return {'xdata': X, 'ydata': y, 'label': label}

    if not numpy.iscomplexobj(Y):
        return [curve(Y, name)]
    return [curve(Y.real, "Re " + name), curve(Y.imag, "Im " + name)]
''')]),
('pr window', 'C62', [(PR, '''        rx = opt_dict.pop('x_window', None)
        xmin, xmax = rx if rx else xlims()
''', '''        x_window = opt_dict.pop('x_window', None)
        if not x_window:
            x_window = xlims()
        xmin, xmax = x_window
''')]),
('pr n', 'C62', [(PR, '''        X = numpy.arange(xmin, xmax, (xmax - xmin) / float(n_points))
        Y = numpy.array([ob(x) for x in X])
''', '''        step = (xmax - xmin) / float(n_points)
        X = numpy.arange(xmin, xmax, step)
        Y = numpy.array(list(map(ob, X)))
''')]),
('pr table', 'C62', [(PR, '''    elif type(ob) in plot_function_table:
        return plot_function_table[type(ob)](ob, opt_dict)
    elif callable(ob):
''', '''    t = type(ob)
    if t in plot_function_table:
        fct = plot_function_table[t]
        return fct(ob, opt_dict)
    if callable(ob):
''')]),
('mpl pops', 'C62', [(MP, '''        X = curve_dict.pop('xdata')
        Y = curve_dict.pop('ydata')
''', '''        X, Y = curve_dict.pop('xdata'), curve_dict.pop('ydata')
''')]),
('mpl labels', 'C62', [(MP, '''        xlabel = curve_dict.pop('xlabel',None)
        ylabel = curve_dict.pop('ylabel',None)
        xticks = curve_dict.pop('xticks',None)
        title = curve_dict.pop('title',None)
        if xlabel: xlabel_fct(xlabel)
        if ylabel: ylabel_fct(ylabel)
        if title: title_fct(title)
        if xticks: xticks_fct(*xticks, rotation=30)
''', '''        xlabel = curve_dict.pop('xlabel',None)
        if xlabel:
            xlabel_fct(xlabel)
        ylabel = curve_dict.pop('ylabel',None)
        if ylabel:
            ylabel_fct(ylabel)
        title = curve_dict.pop('title',None)
        if title:
            title_fct(title)
        xticks = curve_dict.pop('xticks',None)
        if xticks:
            xticks_fct(*xticks, rotation=30)
''')]),
('mpl z', 'C62', [(MP, '''         if "zdata" in list(curve_dict.keys()):
            Z = curve_dict.pop('zdata')
            plt_fct(X, Y, Z, *opt_list, **curve_dict)
         else:
            plt_fct(X, Y, *opt_list, **curve_dict)
''', '''            args = [X, Y]
            if "zdata" in curve_dict:
                args.append(curve_dict.pop('zdata'))
            plt_fct(*args, *opt_list, **curve_dict)
''')]),
('mpl z2', 'C62', [(MP, '''         if "zdata" in list(curve_dict.keys()):
            Z = curve_dict.pop('zdata')
            plt_fct(X, Y, Z, *opt_list, **curve_dict)
''', '''         if "zdata" in curve_dict:
            plt_fct(X, Y, curve_dict.pop('zdata'), *opt_list, **curve_dict)
''')]),
('mpl err', 'C62', [(MP, '''            if m:
                raise RuntimeError("Plot option %s not understood: it is neither an option of the object to be plotted, nor a matplotlib option." % m.group(0))
            else:
                raise
''', '''            if not m:
                raise
            raise RuntimeError("Plot option %s not understood" % m.group(0))
''')]),
# C63
('ov values', 'C63', [(OV, '''    return plot_base.plot_base( self, opt_dict,  r'$l_n$', lambda x : r'%s$(l_n)$'%x, list(range(len(self.mesh))))
''', '''    n_l = len(self.mesh)
    def label(x):
        return r'%s$(l_n)$' % x
    return plot_base.plot_base(self, opt_dict, r'$l_n$', label, list(range(n_l)))
''')]),
('ov refreq kw', 'C63', [(OV, '''    return plot_base.plot_base(self, opt_dict,  r'$\\omega$', lambda x : r'%s$(\\omega)$'%x, list(self.mesh.values()), allow_spectral_mode = True)
''', '''    frequencies = list(self.mesh.values())
    return plot_base.plot_base(self, opt_dict, xlabel=r'$\\omega$', ylabel=lambda name: name + r'$(\\omega)$', X=frequencies, allow_spectral_mode=True)
''')]),
('pb mode', 'C63', [(PB, '''    elif mode == 'S':
        if allow_spectral_mode:
            res = mdic('', lambda x: -1 / numpy.pi * x.imag)
        else:
            raise ValueError("Cannot measure the spectral function for this type of Green's function.")
''', '''    elif mode == 'S':
        if not allow_spectral_mode:
            raise ValueError("Cannot measure the spectral function for this type of Green's function.")
        res = mdic('', lambda x: -x.imag / numpy.pi)
''')]),
('pb mdic loop', 'C63', [(PB, '''        return [{'xlabel': xlabel,
                 'ylabel': ylabel(name),
                 'xdata': X[sl],
                 'label': make_label(ind),
                 'ydata': f(self.data[make_data_sl(ind)])} for ind in ind_range]
''', '''        curves = []
        for ind in ind_range:
            y = self.data[make_data_sl(ind)]
            curves.append({'xlabel': xlabel,
                           'ylabel': ylabel(name),
                           'xdata': X[sl],
                           'label': make_label(ind),
                           'ydata': f(y)})
        return curves
''')]),
('pb label', 'C63', [(PB, '''        make_label = lambda ind: "%s%s %s" % (prefix,name,"_".join(map(str, reversed(ind))))
        make_data_sl = lambda ind: (sl,) + tuple(reversed(ind))
''', '''        def make_label(ind):
            return prefix + "%s %s" % (name, "_".join(str(i) for i in reversed(ind)))
        def make_data_sl(ind):
            return (sl,) + tuple(reversed(ind))
''')]),
('pb window', 'C63', [(PB, '''    sl = clip_array(X, *rx) if rx else slice(len(X)) # the slice due to clip option x_window
''', '''    if rx:
        x_min, x_max = rx
        sl = clip_array(X, x_min, x_max)
    else:
        sl = slice(len(X))
''')]),
('pb update', 'C63', [(PB, '''    for r in res: r.update(opt_dict) # Add all other unused parameters to the dictionaries
    return res
''', '''    for i in range(len(res)):
        res[i].update(opt_dict)
    return res
''')]),
('si stride', 'C63', [(SI, ''' Nmomentum = len(data) 
 data_selected=[]
 for k in range(0,Nmomentum,stride): data_selected.append(data[k])
 return data_selected
''', ''' return [data[k] for k in range(0, len(data), stride)]
''')]),
('si closest', 'C63', [(SI, '''  for i in range(len(L)):
   if dists[i] == min_dist: mins.append(i)

  return mins;
''', '''  mins = [i for i in range(len(L)) if dists[i] == min_dist]
  return mins
''')]),
('si dist', 'C63', [(SI, ''' return math.sqrt((x[0]-y[0])**2+(x[1]-y[1])**2)
''', ''' dx, dy = x[0] - y[0], x[1] - y[1]
 return math.sqrt(dx*dx + dy*dy)
''')]),
('si count', 'C63', [(SI, '''   if closest_indices.count(closest)==0: 
     closest_indices_final.append(closest);
     closest_indices.append(closest);
''', '''   if closest not in closest_indices:
     closest_indices_final.append(closest)
     closest_indices.append(closest)
''')]),
('si end', 'C63', [(SI, '''  if verbose==False:
   return path_indices
  else:
   return path_indices,high_sym_pts_indices
''', '''  return path_indices if verbose == False else (path_indices, high_sym_pts_indices)
''')]),
]
