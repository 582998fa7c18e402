SL = 'python/triqs/lattice/super_lattice.py'
SK = 'python/triqs/sumk/sumk_discrete.py'
SF = 'python/triqs/sumk/sumk_discrete_from_lattice.py'
DO = 'python/triqs/dos/dos.py'
HI = 'python/triqs/dos/hilbert_transform.py'
CASES = [
# super lattice
('sl type', 'C40', [(SL, '''        if not isinstance(tb_lattice, TBLattice): raise ValueError("tb_lattice should be an instance of TBLattice")
''', '''        if isinstance(tb_lattice, TBLattice):
            pass
        else:
            raise ValueError("tb_lattice must be a TBLattice instance")
''')]),
('sl units', 'C40', [(SL, '''            self.__super_lattice_units = numpy.array(super_lattice_units, copy=True)
            assert self.__super_lattice_units.shape == (ndim, ndim)
''', '''            units = numpy.array(super_lattice_units, copy=True)
            assert units.shape == (ndim, ndim)
            self.__super_lattice_units = units
''')]),
('sl T', 'C40', [(SL, "        self._M = self.__super_lattice_units.transpose()\n", "        self._M = self.__super_lattice_units.T\n")]),
('sl names else', 'C40', [(SL, '''        if len(orbital_index_list)==1:
            orbital_names= [ str(s) for s in site_index_list ]
        elif len(site_index_list)==1 and len(orbital_index_list)>1:
            orbital_names= [ o for o in orbital_index_list]
        elif len(site_index_list)>1 and len(orbital_index_list)>1:
            orbital_names= [ "{}_{}".format(pos, o) for o in orbital_index_list for pos in site_index_list]
''', '''        n_orb = len(orbital_index_list)
        n_sites = len(site_index_list)
        if n_orb == 1:
            orbital_names = [str(s) for s in site_index_list]
        elif n_sites == 1 and n_orb > 1:
            orbital_names = list(orbital_index_list)
        elif n_sites > 1 and n_orb > 1:
            orbital_names = [f"{pos}_{o}" for o in orbital_index_list for pos in site_index_list]
''')]),
('sl pos loop', 'C40', [(SL, '''        orbital_positions = [POS + tb_lattice.lattice_to_real_coordinates(CS) for POS in tb_lattice.orbital_positions for CS in self.__cluster_sites]
''', '''        orbital_positions = []
        for POS in tb_lattice.orbital_positions:
            for CS in self.__cluster_sites:
                orbital_positions.append(POS + tb_lattice.lattice_to_real_coordinates(CS))
''')]),
('sl dead', 'C40', [(SL, '''        if 0:
            for k, v in list(hoppings.items()):
                print(k)
                print(v.real)
''', '')]),
('sl r func', 'C40', [(SL, '''            r = lambda i:  list(range(-a[i] , a[i]+1))
''', '''            def r(i):
                return range(-a[i], a[i] + 1)
''')]),
('sl inside', 'C40', [(SL, '''                        if (min(k_sl) >= 0) and (max(k_sl) < Ncluster_sites ): # The point is a point of the cluster. We store it.
                            self.__cluster_sites.append(nv.tolist())
''', '''                        if min(k_sl) < 0 or max(k_sl) >= Ncluster_sites:
                            continue
                        self.__cluster_sites.append(nv.tolist())
''')]),
('sl local sites', 'C40', [(SL, '''            self.__cluster_sites = [list(site) for site in cluster_sites]
''', '''            sites = []
            for site in cluster_sites:
                sites.append(list(site))
            self.__cluster_sites = sites
''')]),
('sl fold items', 'C40', [(SL, '''            for disp, t in list(D1.items()):
                R, alpha''', '''            for disp, t in D1.items():
                R, alpha''')]),
('sl fold zero', 'C40', [(SL, '''                if R not in Res: Res[R] = create_zero() if create_zero else numpy.zeros((self.Norb, self.Norb), dtype = type(t[0,0]))
''', '''                if R not in Res:
                    if create_zero:
                        Res[R] = create_zero()
                    else:
                        Res[R] = numpy.zeros((self.Norb, self.Norb), dtype=type(t[0,0]))
''')]),
('sl fold continue', 'C40', [(SL, '''                if not(remove_internal) or R!= self.__BaseLattice.ndim*(0, ):
                    for orb1 in range(norb):
                        for orb2 in range(norb):
                            Res[R][pack(nsite, orb1), pack(alpha, orb2)] += t[orb1, orb2]
''', '''                if remove_internal and R == self.__BaseLattice.ndim*(0, ):
                    continue
                for orb1 in range(norb):
                    for orb2 in range(norb):
                        Res[R][pack(nsite, orb1), pack(alpha, orb2)] += t[orb1, orb2]
''')]),
('sl fold local', 'C40', [(SL, '''                    for orb1 in range(norb):
                        for orb2 in range(norb):
                            Res[R][pack(nsite, orb1), pack(alpha, orb2)] += t[orb1, orb2]
''', '''                    F = Res[R]
                    for orb1 in range(norb):
                        row = pack(nsite, orb1)
                        for orb2 in range(norb):
                            col = pack(alpha, orb2)
                            F[row, col] += t[orb1, orb2]
''')]),
('sl fold zero tuple', 'C40', [(SL, '''        pack = self.pack_index_site_orbital
        for nsite''', '''        pack = self.pack_index_site_orbital
        origin = (0, ) * self.__BaseLattice.ndim
        for nsite'''), (SL, "R!= self.__BaseLattice.ndim*(0, ):", "R != origin:")]),
('sl unpack divmod', 'C40', [(SL, '''        n_orbital  =   (index)//self.Ncluster_sites
        n_site =  index - n_orbital*self.Ncluster_sites

        return n_site, n_orbital
''', '''        n_orbital, n_site = divmod(index, self.Ncluster_sites)
        return n_site, n_orbital
''')]),
('sl unpack mod', 'C40', [(SL, '''        n_site =  index - n_orbital*self.Ncluster_sites

''', '''        n_site = index % self.Ncluster_sites

''')]),
('sl pack', 'C40', [(SL, "        return n_site + (n_orbital ) * self.Ncluster_sites\n", "        return self.Ncluster_sites * n_orbital + n_site\n")]),
('sl change', 'C40', [(SL, '''        aux  = numpy.dot(self._Mtilde, numpy.array(x))
        R = aux // self.Ncluster_sites
        dx = list (x - numpy.dot (self._M, R) ) # force int ?
        return tuple(R), self.__cluster_sites.index(dx)
''', '''        R = numpy.dot(self._Mtilde, numpy.array(x)) // self.Ncluster_sites
        site = list(x - numpy.dot(self._M, R))
        alpha = self.__cluster_sites.index(site)
        return tuple(R), alpha
''')]),
('sl change back', 'C40', [(SL, '''        return numpy.dot (self._M, numpy.array(R)) + self.__cluster_sites[alpha]
''', '''        origin = numpy.dot(self._M, numpy.array(R))
        return origin + self.__cluster_sites[alpha]
''')]),
('sl gen', 'C40', [(SL, '''        for pos in self.__cluster_sites:
            yield pos
''', '''        yield from self.__cluster_sites
''')]),
('sl kw', 'C40', [(SL, "        hoppings = self.fold(tb_lattice.hoppings, remove_internal_hoppings)\n", "        hoppings = self.fold(tb_lattice.hoppings, remove_internal=remove_internal_hoppings)\n")]),
('sl super', 'C40', [(SL, "        TBLattice.__init__(self, units, hoppings, orbital_positions, orbital_names)\n", "        super().__init__(units, hoppings, orbital_positions, orbital_names)\n")]),
# sumk
('sk no', 'C41', [(SK, '''        assert len(list(set([g.target_shape[0] for i,g in G]))) == 1
        assert self.bz_weights.shape[0] == self.n_kpts(), "Internal Error"
        no = list(set([g.target_shape[0] for i,g in G]))[0]
''', '''        sizes = list(set([g.target_shape[0] for i,g in G]))
        assert len(sizes) == 1
        assert self.bz_weights.shape[0] == self.n_kpts(), "Internal Error"
        no = sizes[0]
''')]),
('sk helper', 'C41', [(SK, '''            eps_hat = epsilon_hat(eps_k) if epsilon_hat else eps_k
            tmp2 << tmp
''', '''            if epsilon_hat:
                eps_hat = epsilon_hat(eps_k)
            else:
                eps_hat = eps_k
            tmp2 << tmp
''')]),
('sk rename', 'C41', [(SK, '''        tmp,tmp2 = G.copy(),G.copy()
        mupat = mu * numpy.identity(no, numpy.complex_)
        tmp << iOmega_n
''', '''        tmp = G.copy()
        tmp2 = G.copy()
        mupat = numpy.identity(no, numpy.complex_) * mu
        tmp << iOmega_n
''')]),
('sk slices', 'C41', [(SK, '''        for w, k, eps_k in zip(*[mpi.slice_array(A) for A in [self.bz_weights, self.bz_points, self.hopping]]):
''', '''        weights = mpi.slice_array(self.bz_weights)
        points = mpi.slice_array(self.bz_points)
        hoppings = mpi.slice_array(self.hopping)
        for w, k, eps_k in zip(weights, points, hoppings):
''')]),
('sk fnt else', 'C41', [(SK, '''            if Sigma_fnt:
                if Sigma_Nargs == 1: tmp2 -= Sigma(k)
                elif Sigma_Nargs == 2: tmp2 -= Sigma(k,eps_k)
''', '''            if Sigma_fnt and Sigma_Nargs == 1:
                tmp2 -= Sigma(k)
            elif Sigma_fnt and Sigma_Nargs == 2:
                tmp2 -= Sigma(k, eps_k)
''')]),
('sk result', 'C41', [(SK, '''        G = result if result else model.copy()
''', '''        if result:
            G = result
        else:
            G = model.copy()
''')]),
('sk isblock', 'C41', [(SK, '''        if isinstance(Sigma, BlockGf):
            model = Sigma
            Sigma_fnt = False
''', '''        Sigma_fnt = not isinstance(Sigma, BlockGf)
        if not Sigma_fnt:
            model = Sigma
'''), (SK, '''                model = Sigma(self.bz_points[0], self.hopping[0])
            Sigma_fnt = True
''', '''                model = Sigma(self.bz_points[0], self.hopping[0])
''')]),
('sk resize', 'C41', [(SK, '''        self.bz_weights = numpy.ones([nk],numpy.float_)/ float(nk) # w(k_kindex) ,  default normalisation
''', '''        self.bz_weights = numpy.ones([nk], numpy.float_) / nk
''')]),
('sk resize mu', 'C41', [(SK, '''        self.mu_pattern  =  numpy.identity(no,numpy.complex_) if self.orthogonal_basis else numpy.zeros([no,no,nk],numpy.complex_)
''', '''        if self.orthogonal_basis:
            self.mu_pattern = numpy.identity(no, numpy.complex_)
        else:
            self.mu_pattern = numpy.zeros([no, no, nk], numpy.complex_)
''')]),
('sf dims', 'C41', [(SF, '''        n_bz_A,n_bz_B, n_bz_C = n_bz, (n_bz if self.dim > 1 else 1), (n_bz if self.dim > 2 else 1)
''', '''        n_bz_A = n_bz
        n_bz_B = n_bz if self.dim >= 2 else 1
        n_bz_C = n_bz if self.dim >= 3 else 1
''')]),
('sf pts', 'C41', [(SF, '''            for n in range(N):
                yield (n - N/2 +1.0) / N
''', '''            shift = 1.0 - N/2
            for n in range(N):
                yield (n + shift) / N
''')]),
('sf pts list', 'C41', [(SF, '''            for n in range(N):
                yield (n - N/2 +1.0) / N
''', '''            return [(n - N/2 + 1.0) / N for n in range(N)]
''')]),
('sf enumerate', 'C41', [(SF, '''            k_index =0
            for nz in pts1d(n_bz_C):
                for ny in pts1d(n_bz_B):
                    for nx in pts1d(n_bz_A):
                        self.bz_points[k_index,:] = (nx,ny,nz)[0:self.dim]
                        k_index +=1

''', '''            k_index =0
            for nz in pts1d(n_bz_C):
                for ny in pts1d(n_bz_B):
                    for nx in pts1d(n_bz_A):
                        k = (nx, ny, nz)
                        self.bz_points[k_index,:] = k[:self.dim]
                        k_index = k_index + 1

''')]),
('sf patch cond', 'C41', [(SF, '''                rv = a+s*(b-a)+t*(c-a)+(k+1)*g
                if k == 0 or j < n_bz-i-1:
                  self.bz_points[k_index]  = rv
''', '''                if k != 0 and j >= n_bz-i-1:
                  continue
                if True:
                  self.bz_points[k_index]  = a+s*(b-a)+t*(c-a)+(k+1)*g
''')]),
('sf patch w', 'C41', [(SF, '''                  self.bz_weights[k_index] = w/(n_bz*n_bz)
                  total_weight += self.bz_weights[k_index]
''', '''                  weight = w/(n_bz*n_bz)
                  self.bz_weights[k_index] = weight
                  total_weight += weight
''')]),
('sf recompute', 'C41', [(SF, '''        if self.patch:
            self.__Compute_Grid_One_patch(self.patch, n_points , method, Q)
        else:
            self.__Compute_Grid(n_points, method, Q)
''', '''        if not self.patch:
            self.__Compute_Grid(n_points, method, Q)
            return
        self.__Compute_Grid_One_patch(self.patch, n_points, method, Q)
''')]),
('sf super', 'C41', [(SF, "        SumkDiscrete.__init__ (self, dim = self.SL.ndim, gf_struct = lattice.orbital_names)\n", "        super().__init__(lattice.ndim, lattice.orbital_names)\n")]),
('sf method', 'C41', [(SF, '''        assert method in ["Riemann","Gauss"], "method %s is not recognized"%method
''', '''        if method not in ("Riemann", "Gauss"):
            raise AssertionError("method %s is not recognized" % method)
''')]),
# dos
('dos eps', 'C46', [(DO, '''            self.eps = numpy.array( eps )
            assert  len(self.eps.shape) ==1
''', '''            self.eps = numpy.array(eps)
            assert self.eps.ndim == 1
''')]),
('dos density gen', 'C46', [(DO, '''        a = [ (e>mu) for e in self.eps ]
        try:
            ind = a.index(True)
        except:
            ind = self.eps.shape[0]
''', '''        above = [e > mu for e in self.eps]
        ind = above.index(True) if True in above else self.eps.shape[0]
''')]),
('dos density len', 'C46', [(DO, '''            ind = self.eps.shape[0]
        if ind == 0''', '''            ind = len(self.eps)
        if ind == 0'''), (DO, "        if (ind<self.eps.shape[0]): dens +=", "        if ind < len(self.eps): dens +=")]),
('dos density half', 'C46', [(DO, "        dens = (sum(self.rho[0:ind]) - self.rho[0]/2.0 - self.rho[ind-1]/2.0) * de\n", "        ends = 0.5*(self.rho[0] + self.rho[ind-1])\n        dens = de * (sum(self.rho[:ind]) - ends)\n")]),
('dos density ret', 'C46', [(DO, '''        if (ind<self.eps.shape[0]): dens += (mu-self.eps[ind-1]) * (self.rho[ind-1] + self.rho[ind])/2.0
        return dens 
''', '''        if ind >= self.eps.shape[0]:
            return dens
        return dens + (mu-self.eps[ind-1]) * (self.rho[ind-1] + self.rho[ind])/2.0
''')]),
('dos file', 'C46', [(DO, '''    f = open(Filename); s=''
    while not(s.strip()) :
        s= f.readline()
        assert s, "File is empty !"
    N_Orbitals''', '''    f = open(Filename)
    s = ''
    while s.strip() == '':
        s = f.readline()
        assert s, "File is empty !"
    N_Orbitals''')]),
('dos file single', 'C46', [(DO, '''    if single_orbital : 
        assert single_orbital>0 and single_orbital <= N_Orbitals, " single_orbital  "
        return DOS (r[:,0] ,r[:,single_orbital], name)
    else :
        return [  DOS (r[:,0] ,r[:,i +1 ], name) for i in range (N_Orbitals)]
''', '''    if not single_orbital:
        return [DOS(eps, r[:, i], name) for i in range(1, N_Orbitals + 1)]
    assert 0 < single_orbital <= N_Orbitals, " single_orbital  "
    return DOS(eps, r[:, single_orbital], name)
''')]),
('dos file reshape', 'C46', [(DO, '''    r.shape =  l//(div) , div # reshape the array
''', '''    n_lines = l // div
    r.shape = n_lines, div
''')]),
('dos f', 'C46', [(DO, '''        self.eps  = numpy.array( [self.x_min + r* i for i in range(N) ] )
        self.rho  = numpy.array( [self.function(e) for e in self.eps])
''', '''        points = [i*r + self.x_min for i in range(N)]
        self.eps = numpy.array(points)
        self.rho = numpy.array(list(map(self.function, self.eps)))
''')]),
('dos fn', 'C46', [(DO, '''        self.function,self.x_min,self.x_max = function,x_min,x_max
''', '''        self.function = function
        self.x_min = x_min
        self.x_max = x_max
''')]),
# hilbert
('ht norm', 'C46', [(HI, '''        for i in range(1, eps.shape[0] - 1):
            R[i] *=  (eps[i+1] - eps[i])/2+(eps[i] - eps[i-1])/2
''', '''        for i in range(1, len(eps) - 1):
            R[i] *= (eps[i+1] - eps[i-1])/2
''')]),
('ht norm w', 'C46', [(HI, '''            R[i] *=  (eps[i+1] - eps[i])/2+(eps[i] - eps[i-1])/2
''', '''            width = 0.5*(eps[i+1] - eps[i]) + 0.5*(eps[i] - eps[i-1])
            R[i] *= width
''')]),
('ht class', 'C46', [(HI, '''        if Sigma.__class__.__name__[0:2] == 'Gf':
            model = Sigma
            Sigma_fnt = False
''', '''        Sigma_fnt = Sigma.__class__.__name__[:2] != 'Gf'
        if not Sigma_fnt:
            model = Sigma
'''), (HI, '''            model = Sigma(self.dos.eps[0])
            Sigma_fnt = True
''', '''            model = Sigma(self.dos.eps[0])
''')]),
('ht result', 'C46', [(HI, '''        if result:
            assert result.target_shape == (N1, N2), "Size of result and Sigma mismatch"
        else:
            result = model.copy()
''', '''        if not result:
            result = model.copy()
        else:
            assert result.target_shape == (N1, N2), "Size of result and Sigma mismatch"
''')]),
('ht fn tail', 'C46', [(HI, '''        if isinstance (self.dos, DOSFromFunction):

            if not(n_points_integral)''', '''        if not isinstance(self.dos, DOSFromFunction):
            HT(result)
            return result
        else:

            if not(n_points_integral)'''), (HI, '''        else:  # Ordinary DOS
            HT(result)

        return result''', '''        return result''')]),
('ht dist', 'C46', [(HI, '''            def f(G1, G2):
                dS = max(abs(G1.data - G2.data).flatten())
                aS = max(abs(G1.data).flatten())
                return dS <= aS*dist
            #return reduce(lambda x, y: x and y, [f(g1, g2) for (i1, g1), (i2, g2) in izip(G1, G2)])
            return f(G1, G2) # for block function, the previous one is for GF functions
''', '''            dS = max(abs(G1.data - G2.data).flatten())
            aS = max(abs(G1.data).flatten())
            return dS <= dist*aS
''')]),
('ht for', 'C46', [(HI, '''            nloop, converged = 1, False
            while test_convergence and nloop < 10 and not converged:
                n_points_integral *= 2
''', '''            converged = False
            nloop = 1
            while not converged and test_convergence and nloop < 10:
                n_points_integral = n_points_integral * 2
''')]),
('ht slices', 'C46', [(HI, '''            for d, e_h, e in zip(*[mpi.slice_array(A) for A in [self.rho_for_sum, eps_hat, self.dos.eps]]):
''', '''            arrays = [self.rho_for_sum, eps_hat, self.dos.eps]
            for d, e_h, e in zip(*map(mpi.slice_array, arrays)):
''')]),
('ht lambda', 'C46', [(HI, '''            eps_hat = epsilon_hat(self.dos.eps) if epsilon_hat else numpy.array( [ x* numpy.identity (N1) for x in self.dos.eps] )
''', '''            eps = self.dos.eps
            if epsilon_hat:
                eps_hat = epsilon_hat(eps)
            else:
                identity = numpy.identity(N1)
                eps_hat = numpy.array([x*identity for x in eps])
''')]),
]
