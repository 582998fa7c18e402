UM = 'python/triqs/operators/util/U_matrix.py'
HA = 'python/triqs/operators/util/hamiltonians.py'
OS = 'python/triqs/operators/util/op_struct.py'
OB = 'python/triqs/operators/util/observables.py'
CASES = [
('os mkind defs', 'C44', [(OS, '''        if off_diag:
            mkind = lambda sn, on: (sn, on)
        else:
            mkind = lambda sn, on: (sn+'_%s'%on, 0)
    else:
        mkind = lambda sn, on: map_operator_structure[(sn,on)]

    return mkind
''', '''        if off_diag:
            return lambda sn, on: (sn, on)
        return lambda sn, on: (f"{sn}_{on}", 0)

    def mkind(sn, on):
        return map_operator_structure[(sn, on)]
    return mkind
''')]),
('os mkind cond', 'C44', [(OS, '''    if map_operator_structure is None:
        if off_diag:
            mkind = lambda sn, on: (sn, on)
        else:
            mkind = lambda sn, on: (sn+'_%s'%on, 0)
    else:
        mkind = lambda sn, on: map_operator_structure[(sn,on)]
''', '''    if map_operator_structure is not None:
        mkind = lambda sn, on: map_operator_structure[sn, on]
    elif off_diag:
        mkind = lambda sn, on: (sn, on)
    else:
        mkind = lambda sn, on: ('%s_%s' % (sn, on), 0)
''')]),
('os comp', 'C44', [(OS, '''    op_struct = []
    if off_diag: # outer blocks are spin blocks
        for sn in spin_names:
            op_struct.append([sn, n_orb])
    else: # outer blocks are spin-orbital blocks
        for sn, on in product(spin_names,range(n_orb)):
            op_struct.append([sn+'_%s'%on, 1])

    return op_struct
''', '''    if off_diag:
        return [[sn, n_orb] for sn in spin_names]
    return [[sn+'_%s'%on, 1] for sn in spin_names for on in range(n_orb)]
''')]),
('os nested', 'C44', [(OS, '''        for sn, on in product(spin_names,range(n_orb)):
            op_struct.append([sn+'_%s'%on, 1])
''', '''        for sn in spin_names:
            for on in range(n_orb):
                op_struct.append([sn + '_' + str(on), 1])
''')]),
('os raise', 'C44', [(OS, '''    if (off_diag is None) and (map_operator_structure is None):
        raise ValueError("hamiltonians: provide either off_diag or map_operator_structure.")
''', '''    if off_diag is None and map_operator_structure is None:
        msg = "hamiltonians: provide either off_diag or map_operator_structure."
        raise ValueError(msg)
''')]),
('ha compat', 'C44', [(HA, '''    if orb_names is not None:
        raise RuntimeError("Argument orb_names is no longer supported. Please provide n_orb instead.")
    if isinstance(n_orb, list):
        import warnings
        warnings.warn("{} takes as a second argument the number of orbitals, not a list of orbital names".format(fname))
        n_orb = len(n_orb)
    return n_orb
''', '''    if orb_names is not None:
        raise RuntimeError("Argument orb_names is no longer supported. Please provide n_orb instead.")
    if not isinstance(n_orb, list):
        return n_orb
    import warnings
    warnings.warn(f"{fname} takes as a second argument the number of orbitals, not a list of orbital names")
    return len(n_orb)
''')]),
('ha slater u', 'C44', [(HA, '''            H_term = 0.5 * (U_val if complex else U_val.real) * c_dag(*mkind(s1,a1)) * c_dag(*mkind(s2,a2)) * c(*mkind(s2,a4)) * c(*mkind(s1,a3))
            H += H_term
''', '''            if not complex:
                U_val = U_val.real
            H_term = 0.5 * U_val * c_dag(*mkind(s1,a1)) * c_dag(*mkind(s2,a2)) * c(*mkind(s2,a4)) * c(*mkind(s1,a3))
            H += H_term
'''), (HA, "                H_dump_file.write(str(U_val if complex else U_val.real) + '\\n')\n", "                H_dump_file.write(str(U_val) + '\\n')\n")]),
('ha slater repeat', 'C44', [(HA, "        for a1, a2, a3, a4 in product(range(n_orb), range(n_orb), range(n_orb), range(n_orb)):\n", "        for a1, a2, a3, a4 in product(range(n_orb), repeat=4):\n")]),
('ha slater spins', 'C44', [(HA, '''    for s1, s2 in product(spin_names,spin_names):
        for a1, a2, a3, a4 in''', '''    for s1, s2 in product(spin_names, repeat=2):
        for a1, a2, a3, a4 in''')]),
('ha slater names', 'C44', [(HA, '''            H_term = 0.5 * (U_val if complex else U_val.real) * c_dag(*mkind(s1,a1)) * c_dag(*mkind(s2,a2)) * c(*mkind(s2,a4)) * c(*mkind(s1,a3))
''', '''            i, j, l, k = mkind(s1,a1), mkind(s2,a2), mkind(s2,a4), mkind(s1,a3)
            coeff = 0.5 * (U_val if complex else U_val.real)
            H_term = coeff * c_dag(*i) * c_dag(*j) * c(*l) * c(*k)
''')]),
('ha kan cond', 'C44', [(HA, '''    # density terms:
    if H_dump: H_dump_file.write("Density-density terms:" + '\\n')
    for s1, s2 in product(spin_names,spin_names):
        for a1, a2 in product(range(n_orb), range(n_orb)):
            if (s1==s2):
                U_val = U[a1,a2]
            else:
                U_val = Uprime[a1,a2]
''', '''    # density terms:
    if H_dump: H_dump_file.write("Density-density terms:" + '\\n')
    for s1, s2 in product(spin_names,spin_names):
        matrix = U if s1 == s2 else Uprime
        for a1, a2 in product(range(n_orb), range(n_orb)):
            U_val = matrix[a1,a2]
''')]),
('ha kan flip', 'C44', [(HA, '''    for s1, s2 in product(spin_names,spin_names):
        if (s1==s2):
            continue
        for a1, a2 in product(range(n_orb), range(n_orb)):
            if (a1==a2):
                continue
            H_term = -0.5 * J_hund * c_dag(*mkind(s1,a1)) * c(*mkind(s2,a1)) * c_dag(*mkind(s2,a2)) * c(*mkind(s1,a2))
            H += H_term

            # Dump terms of H
            if H_dump and not H_term.is_zero():
                H_dump_file.write('%s'%(mkind(s1,a1),) + '\\t')
                H_dump_file.write('%s'%(mkind(s2,a2),) + '\\t')
                H_dump_file.write(str(-J_hund) + '\\n')
''', '''    for s1, s2 in product(spin_names,spin_names):
        if s1 != s2:
            for a1, a2 in product(range(n_orb), range(n_orb)):
                if a1 != a2:
                    H_term = -0.5 * J_hund * c_dag(*mkind(s1,a1)) * c(*mkind(s2,a1)) * c_dag(*mkind(s2,a2)) * c(*mkind(s1,a2))
                    H += H_term

                    # Dump terms of H
                    if H_dump and not H_term.is_zero():
                        H_dump_file.write('%s'%(mkind(s1,a1),) + '\\t')
                        H_dump_file.write('%s'%(mkind(s2,a2),) + '\\t')
                        H_dump_file.write(str(-J_hund) + '\\n')
''')]),
('ha kan pair gen', 'C44', [(HA, '''    if H_dump: H_dump_file.write("Pair-hopping terms:" + '\\n')
    for s1, s2 in product(spin_names,spin_names):
        if (s1==s2):
            continue
        for a1, a2 in product(range(n_orb), range(n_orb)):
            if (a1==a2):
                continue
''', '''    if H_dump: H_dump_file.write("Pair-hopping terms:" + '\\n')
    for s1, s2 in ((x, y) for x, y in product(spin_names,spin_names) if x != y):
        for a1, a2 in ((i, j) for i, j in product(range(n_orb), range(n_orb)) if i != j):
''')]),
('ha helper spins', 'C44', [(HA, '''def h_int_density(spin_names''', '''def _density_element(U, Uprime, s1, s2, a1, a2):
    return U[a1, a2] if s1 == s2 else Uprime[a1, a2]

def h_int_density(spin_names'''), (HA, '''        for a1, a2 in product(range(n_orb),range(n_orb)):
            if (s1==s2):
                U_val = U[a1,a2]
            else:
                U_val = Uprime[a1,a2]
''', '''        for a1, a2 in product(range(n_orb),range(n_orb)):
            U_val = _density_element(U, Uprime, s1, s2, a1, a2)
''')]),
('ha diag loop', 'C44', [(HA, '''            n_part += coeff * reduce(operator.mul,
                              [c_dag(*dag_ind[1]) if dag_ind[0] else c(*dag_ind[1]) for dag_ind in indices],
                              Operator(1))
''', '''            monomial = Operator(1)
            for dag, ind in indices:
                monomial = monomial * (c_dag(*ind) if dag else c(*ind))
            n_part += coeff * monomial
''')]),
('ha diag if', 'C44', [(HA, '''        for dag, ind in indices:
            (c_dag_ind if dag else c_ind).add(tuple(ind))
''', '''        for dag, ind in indices:
            if dag:
                c_dag_ind.add(tuple(ind))
            else:
                c_ind.add(tuple(ind))
''')]),
('ha diag sets', 'C44', [(HA, '''        c_ind, c_dag_ind = set(), set()
        for dag, ind in indices:
            (c_dag_ind if dag else c_ind).add(tuple(ind))
''', '''        c_ind = {tuple(ind) for dag, ind in indices if not dag}
        c_dag_ind = {tuple(ind) for dag, ind in indices if dag}
''')]),
('ha diag continue', 'C44', [(HA, '''        if c_ind == c_dag_ind: # This monomial is of n-type
            n_part += coeff * reduce(operator.mul,
                              [c_dag(*dag_ind[1]) if dag_ind[0] else c(*dag_ind[1]) for dag_ind in indices],
                              Operator(1))
''', '''        if c_ind != c_dag_ind:
            continue
        factors = [c_dag(*ind) if dag else c(*ind) for dag, ind in indices]
        n_part += coeff * reduce(lambda x, y: x * y, factors, Operator(1))
''')]),
('ha real loop', 'C44', [(HA, '''    if any(abs(term[-1].imag) > tol for term in H):
        raise RuntimeError("A coefficient of the operator has an imaginary part above tolerance")
''', '''    for term in H:
        if abs(term[-1].imag) > tol:
            raise RuntimeError("A coefficient of the operator has an imaginary part above tolerance")
''')]),
('ha real unpack', 'C44', [(HA, "    if any(abs(term[-1].imag) > tol for term in H):\n", "    if not all(abs(term[-1].imag) <= tol for term in H):\n")]),
('ha dump with', 'C44', [(HA, '''        H_dump_file = open(H_dump,'w')
        H_dump_file.write("Slater Hamiltonian:" + '\\n')
''', '''        H_dump_file = open(H_dump,'w')
        H_dump_file.write("Slater Hamiltonian:\\n")
''')]),
('ha dump join', 'C44', [(HA, '''                H_dump_file.write('%s'%(mkind(s1,a1),) + '\\t')
                H_dump_file.write('%s'%(mkind(s2,a2),) + '\\t')
                H_dump_file.write(str(-J_hund) + '\\n')
''', '''                H_dump_file.write(str(mkind(s1,a1)) + '\\t')
                H_dump_file.write(str(mkind(s2,a2)) + '\\t')
                H_dump_file.write('%s\\n' % (-J_hund))
''')]),
# ---- observables
('ob N', 'C45', [(OB, '''    N = Operator()
    for sn, o in product(spin_names,range(n_orb)): N += n(*mkind(sn,o))
    return N
''', '''    N = Operator()
    for sn in spin_names:
        for o in range(n_orb):
            N = N + n(*mkind(sn, o))
    return N
''')]),
('ob N sum', 'C45', [(OB, '''    N = Operator()
    for sn, o in product(spin_names,range(n_orb)): N += n(*mkind(sn,o))
    return N
''', '''    return sum((n(*mkind(sn, o)) for sn, o in product(spin_names, range(n_orb))), Operator())
''')]),
('ob S enumerate', 'C45', [(OB, '''    spin_range = list(range(len(spin_names)))
    for n1, n2 in product(spin_range,spin_range):
        for o in range(n_orb):
            S += 0.5 * c_dag(*mkind(spin_names[n1],o)) * pm[n1,n2] * c(*mkind(spin_names[n2],o))
''', '''    for (n1, s1), (n2, s2) in product(enumerate(spin_names), enumerate(spin_names)):
        for o in range(n_orb):
            S += 0.5 * c_dag(*mkind(s1,o)) * pm[n1,n2] * c(*mkind(s2,o))
''')]),
('ob S range', 'C45', [(OB, '''    spin_range = list(range(len(spin_names)))
    for n1, n2 in product(spin_range,spin_range):
''', '''    for n1, n2 in product(range(len(spin_names)), repeat=2):
''')]),
('ob S2', 'C45', [(OB, '''    Sz, Sp, Sm = [S_op(k,spin_names,n_orb,off_diag,map_operator_structure) for k in ('z','+','-')]
    return Sz*Sz + 0.5*(Sp*Sm + Sm*Sp)
''', '''    Sz = S_op('z', spin_names, n_orb, off_diag, map_operator_structure)
    Sp = S_op('+', spin_names, n_orb, off_diag, map_operator_structure)
    Sm = S_op('-', spin_names, n_orb, off_diag=off_diag, map_operator_structure=map_operator_structure)
    return Sz*Sz + 0.5*Sp*Sm + 0.5*Sm*Sp
''')]),
('ob S2 half', 'C45', [(OB, "    return Sz*Sz + 0.5*(Sp*Sm + Sm*Sp)\n", "    return Sz*Sz + (Sp*Sm + Sm*Sp)/2\n")]),
('ob L range', 'C45', [(OB, "    orb_range = list(range(int(2*l+1)))\n", "    orb_range = range(int(2*l + 1))\n")]),
('ob L local', 'C45', [(OB, "            L += c_dag(*mkind(sn,o1)) * L_matrix[o1,o2] * c(*mkind(sn,o2))\n", "            element = L_matrix[o1,o2]\n            L += c_dag(*mkind(sn,o1)) * element * c(*mkind(sn,o2))\n")]),
('ob L order', 'C45', [(OB, '''    mkind = get_mkind(off_diag,map_operator_structure)
    L = Operator()
    for sn in spin_names:
        for o1, o2 in product(orb_range,orb_range):
''', '''    L = Operator()
    mkind = get_mkind(off_diag,map_operator_structure)
    for sn, o1, o2 in product(spin_names, orb_range, orb_range):
        if True:
''')]),
('ob L elif', 'C45', [(OB, '''    if basis == "other" and T is None: raise ValueError("L_op: provide T for other bases.")
    if T is not None:''', '''    elif basis == "other" and T is None:
        raise ValueError("L_op: provide T for other bases.")
    if T is not None:''')]),
('ob LS', 'C45', [(OB, '''    return Lz*Sz + 0.5*(Lp*Sm + Lm*Sp)
''', '''    flip = 0.5*(Lp*Sm + Lm*Sp)
    return Lz*Sz + flip
''')]),
# ---- U matrix
('um check', 'C43', [(UM, '''    if radial_integrals is None and (U_int is None or J_hund is None):
        raise ValueError("U_matrix: provide either the radial_integrals or U_int and J_hund.")
    if radial_integrals is None and (U_int is not None and J_hund is not None):
        radial_integrals = U_J_to_radial_integrals(l, U_int, J_hund)
    if radial_integrals is not None and (U_int is not None and J_hund is not None):
''', '''    have_U_J = U_int is not None and J_hund is not None
    if radial_integrals is None:
        if not have_U_J:
            raise ValueError("U_matrix: provide either the radial_integrals or U_int and J_hund.")
        radial_integrals = U_J_to_radial_integrals(l, U_int, J_hund)
    if radial_integrals is not None and have_U_J:
''')]),
('um product', 'C43', [(UM, '''        for m1, m2, m3, m4 in product(m_range,m_range,m_range,m_range):
            U_matrix[m1+l''', '''        for m1, m2, m3, m4 in product(m_range, repeat=4):
            U_matrix[m1+l''')]),
('um size', 'C43', [(UM, "    U_matrix = np.zeros((2*l+1,2*l+1,2*l+1,2*l+1),dtype=float)\n\n    m_range = list(range(-l,l+1))\n", "    n_m = 2*l + 1\n    U_matrix = np.zeros((n_m, n_m, n_m, n_m), dtype=float)\n\n    m_range = range(-l, l + 1)\n")]),
('um size mul', 'C43', [(UM, "    U_matrix = np.zeros((2*l+1,2*l+1,2*l+1,2*l+1),dtype=float)\n", "    U_matrix = np.zeros((2*l+1,)*4, dtype=float)\n")]),
('um k', 'C43', [(UM, '''    for n, F in enumerate(radial_integrals):
        k = 2*n
        for''', '''    for n in range(len(radial_integrals)):
        F, k = radial_integrals[n], 2*n
        for''')]),
('um basis', 'C43', [(UM, '''    if basis == "cubic": T = spherical_to_cubic(l)
    if basis == "other" and T is None:
        raise ValueError("U_matrix: provide T for other bases.")
    if T is not None: U_matrix = transform_U_matrix(U_matrix, T)

    return U_matrix
''', '''    if basis == "cubic":
        T = spherical_to_cubic(l)
    elif basis == "other" and T is None:
        raise ValueError("U_matrix: provide T for other bases.")

    if T is None:
        return U_matrix
    return transform_U_matrix(U_matrix, T)
''')]),
('um reduce', 'C43', [(UM, '''    for m,mp in product(m_range,m_range):
        U[m,mp]  = U_4index[m,mp,m,mp].real - U_4index[m,mp,mp,m].real
        Uprime[m,mp] = U_4index[m,mp,m,mp].real
''', '''    for m in m_range:
        for mp in m_range:
            direct = U_4index[m,mp,m,mp].real
            exchange = U_4index[m,mp,mp,m].real
            U[m,mp] = direct - exchange
            Uprime[m,mp] = direct
''')]),
('um kan default', 'C43', [(UM, '''    if Up_int is None:
        Up_int = U_int-2*J_hund
    if Jc_hund is None:
        Jc_hund = J_hund
''', '''    Up_int = U_int - 2*J_hund if Up_int is None else Up_int
    Jc_hund = J_hund if Jc_hund is None else Jc_hund
''')]),
('um kan loop', 'C43', [(UM, '''        for m, mp in product(m_range, m_range):
            if m == mp:
                Uprime[m, mp] = U_int
            else:
                U[m, mp] = Up_int - J_hund
                Uprime[m, mp] = Up_int
''', '''        for m, mp in product(m_range, m_range):
            if m != mp:
                U[m, mp] = Up_int - J_hund
            Uprime[m, mp] = U_int if m == mp else Up_int
''')]),
('um kan early', 'C43', [(UM, '''        return U, Uprime
    else:
        U_kan = np.zeros((n_orb, n_orb, n_orb, n_orb))

        for i, j, k, l in product(m_range, m_range, m_range, m_range):
            if i == j == k == l:  # Uiiii
                U_kan[i, j, k, l] = U_int
            elif i == k and j == l:  # Uijij
                U_kan[i, j, k, l] = Up_int
            elif i == l and j == k:  # Uijji
                U_kan[i, j, k, l] = J_hund
            elif i == j and k == l:  # Uiijj
                U_kan[i, j, k, l] = Jc_hund
        return U_kan
''', '''        return U, Uprime

    U_kan = np.zeros((n_orb, n_orb, n_orb, n_orb))
    for i, j, k, l in product(m_range, repeat=4):
        if i == j and j == k and k == l:  # Uiiii
            U_kan[i, j, k, l] = U_int
        elif i == k and j == l:  # Uijij
            U_kan[i, j, k, l] = Up_int
        elif i == l and j == k:  # Uijji
            U_kan[i, j, k, l] = J_hund
        elif i == j and k == l:  # Uiijj
            U_kan[i, j, k, l] = Jc_hund
    return U_kan
''')]),
('um t2g dict', 'C43', [(UM, '''    if convention == 'wien2k':
        return subarray(U, len(U.shape)*[(2,3,4)])
    elif convention == 'wannier90' or convention == 'qe':
        return subarray(U, len(U.shape)*[(1,2,4)])
    elif convention == 'triqs' or convention=='vasp':
        return subarray(U, len(U.shape)*[(0,1,3)])
    else:
        raise ValueError("Unknown convention: "+str(convention))
''', '''    if convention in ('triqs', 'vasp'):
        idx = (0, 1, 3)
    elif convention in ('wannier90', 'qe'):
        idx = (1, 2, 4)
    elif convention == 'wien2k':
        idx = (2, 3, 4)
    else:
        raise ValueError("Unknown convention: "+str(convention))
    return subarray(U, U.ndim * [idx])
''')]),
('um t2g table', 'C43', [(UM, '''    if convention == 'wien2k':
        return subarray(U, len(U.shape)*[(0,1)])
    elif convention == 'wannier90' or convention == 'qe':
        return subarray(U, len(U.shape)*[(0,3)])
    elif convention == 'triqs' or convention=='vasp':
        return subarray(U, len(U.shape)*[(2,4)])

    else:
        raise ValueError("Unknown convention: "+str(convention))
''', '''    eg_orbitals = {'wien2k': (0, 1), 'wannier90': (0, 3), 'qe': (0, 3), 'triqs': (2, 4), 'vasp': (2, 4)}
    if convention not in eg_orbitals:
        raise ValueError("Unknown convention: "+str(convention))
    return subarray(U, len(U.shape)*[eg_orbitals[convention]])
''')]),
('um transform', 'C43', [(UM, '''    return np.einsum("ij,kl,jlmo,mn,op",np.conj(T),np.conj(T),U_matrix,np.transpose(T),np.transpose(T))
''', '''    T_conj, T_trans = np.conj(T), np.transpose(T)
    return np.einsum("ij,kl,jlmo,mn,op", T_conj, T_conj, U_matrix, T_trans, T_trans)
''')]),
('um cubic conv', 'C43', [(UM, '''    if not convention in ('wien2k','wannier90', 'triqs', 'vasp', 'qe'):
''', '''    if convention not in ['triqs', 'vasp', 'wien2k', 'wannier90', 'qe']:
''')]),
('um cubic s', 'C43', [(UM, '''        T[0,0] = 1.0/sqrt(2);    T[0,6] = -1.0/sqrt(2)
        T[1,1] = 1.0/sqrt(2);    T[1,5] = 1.0/sqrt(2)
        T[2,2] = 1.0/sqrt(2);    T[2,4] = -1.0/sqrt(2)
        T[3,3] = 1.0
''', '''        s = 1.0/sqrt(2)
        T[0,0], T[0,6] = s, -s
        T[1,1], T[1,5] = s, s
        T[2,2], T[2,4] = s, -s
        T[3,3] = 1.0
''')]),
('um names elif', 'C43', [(UM, '''    if l == 0 or l == 's':
        return ("s")
    elif l == 1 or l == 'p':
        return ("x","y","z")
    elif l == 2 or l == 'd':
        return ("xy","yz","z^2","xz","x^2-y^2")
''', '''    if l in (0, 's'):
        return "s"
    if l in (1, 'p'):
        return ("x","y","z")
    if l in (2, 'd'):
        return ("xy","yz","z^2","xz","x^2-y^2")
    if False:
        pass
''')]),
('um F', 'C43', [(UM, '''        F[1] = J_hund * 14.0 / (1.0 + 0.63)
        F[2] = 0.630 * F[1]
''', '''        F[1] = 14.0 * J_hund / 1.63
        F[2] = 0.63 * F[1]
''')]),
('um F return', 'C43', [(UM, '''    F = np.zeros((l+1),dtype=float)
    if l==1:
        F[0] = U_int
        F[1] = 5.0 * J_hund
    elif l == 2:
        F[0] = U_int
        F[1] = J_hund * 14.0 / (1.0 + 0.63)
''', '''    F = np.zeros(l + 1, dtype=float)
    F[0] = U_int
    if l==1:
        F[1] = 5.0 * J_hund
    elif l == 2:
        F[1] = J_hund * 14.0 / (1.0 + 0.63)
''')]),
('um UJ', 'C43', [(UM, '''    if l == 1:
        U_int = F[0]
        J_hund = F[1] / 5.0
    elif l == 2:
        U_int = F[0]
        J_hund = F[1] * (1.0 + 0.63) / 14.0
    elif l == 3:
        U_int = F[0]
        J_hund = F[1] * (286.0 + 195.0 * 451.0 / 675.0 + 250.0 * 1001.0 / 2025.0) / 6435.0
    else: raise ValueError("radial_integrals_to_U_J: implemented only for l=1,2,3")

    return U_int,J_hund
''', '''    if l == 1:
        J_hund = F[1] / 5.0
    elif l == 2:
        J_hund = F[1] * (1.0 + 0.63) / 14.0
    elif l == 3:
        J_hund = F[1] * (286.0 + 195.0 * 451.0 / 675.0 + 250.0 * 1001.0 / 2025.0) / 6435.0
    else:
        raise ValueError("radial_integrals_to_U_J: implemented only for l=1,2,3")
    return F[0], J_hund
''')]),
('um ang sum', 'C43', [(UM, '''    ang_mat_ele = 0
    for q in range(-k,k+1):
        ang_mat_ele += three_j_symbol((l,-m1),(k,q),(l,m3))*three_j_symbol((l,-m2),(k,-q),(l,m4))*(-1.0 if (m1+q+m2) % 2 else 1.0)
    ang_mat_ele *= (2*l+1)**2 * (three_j_symbol((l,0),(k,0),(l,0))**2)
    return ang_mat_ele
''', '''    prefactor = (2*l+1)**2 * three_j_symbol((l,0),(k,0),(l,0))**2
    total = 0
    for q in range(-k, k + 1):
        sign = -1.0 if (m1 + m2 + q) % 2 else 1.0
        total += sign * three_j_symbol((l,-m1),(k,q),(l,m3)) * three_j_symbol((l,-m2),(k,-q),(l,m4))
    return total * prefactor
''')]),
('um ang gen', 'C43', [(UM, '''    ang_mat_ele = 0
    for q in range(-k,k+1):
        ang_mat_ele += three_j_symbol((l,-m1),(k,q),(l,m3))*three_j_symbol((l,-m2),(k,-q),(l,m4))*(-1.0 if (m1+q+m2) % 2 else 1.0)
''', '''    ang_mat_ele = sum(three_j_symbol((l,-m1),(k,q),(l,m3))*three_j_symbol((l,-m2),(k,-q),(l,m4))*(-1.0 if (m1+q+m2) % 2 else 1.0) for q in range(-k,k+1))
''')]),
('um 3j guard', 'C43', [(UM, '''    if (m1+m2+m3 != 0 or
        m1 < -j1 or m1 > j1 or
        m2 < -j2 or m2 > j2 or
        m3 < -j3 or m3 > j3 or
        j3 > j1 + j2 or
        j3 < abs(j1-j2)):
        return .0
''', '''    if m1 + m2 + m3 != 0:
        return 0.0
    if not (-j1 <= m1 <= j1 and -j2 <= m2 <= j2 and -j3 <= m3 <= j3):
        return 0.0
    if not abs(j1 - j2) <= j3 <= j1 + j2:
        return 0.0
''')]),
('um 3j abs', 'C43', [(UM, '''        m1 < -j1 or m1 > j1 or
        m2 < -j2 or m2 > j2 or
        m3 < -j3 or m3 > j3 or
''', '''        abs(m1) > j1 or abs(m2) > j2 or abs(m3) > j3 or
''')]),
('um 3j one', 'C43', [(UM, '''    three_j_sym *= t_sum
    return three_j_sym
''', '''    return three_j_sym * t_sum
''')]),
('um 3j sign', 'C43', [(UM, '''        t_sum += (-1.0 if t % 2 else 1.0)/(fact(t)''', '''        sign = 1.0 if t % 2 == 0 else -1.0
        t_sum += sign/(fact(t)''')]),
('um cg', 'C43', [(UM, '''    norm = sqrt(2*jm3[0]+1)*(-1 if (jm1[0]-jm2[0]+jm3[1]) % 2 else 1)
    return norm*three_j_symbol(jm1,jm2,(jm3[0],-jm3[1]))
''', '''    j1, _ = jm1
    j2, _ = jm2
    j3, m3 = jm3
    sign = -1 if (j1 - j2 + m3) % 2 else 1
    return sign * sqrt(2*j3 + 1) * three_j_symbol(jm1, jm2, (j3, -m3))
''')]),
('um cg idx', 'C43', [(UM, '''    norm = sqrt(2*jm3[0]+1)*(-1 if (jm1[0]-jm2[0]+jm3[1]) % 2 else 1)
    return norm*three_j_symbol(jm1,jm2,(jm3[0],-jm3[1]))
''', '''    j1, j2 = jm1[0], jm2[0]
    j3, m3 = jm3[0], jm3[1]
    sign = -1 if (j1 - j2 + m3) % 2 else 1
    return sign * sqrt(2*j3 + 1) * three_j_symbol(jm1, jm2, (j3, -m3))
''')]),
('um sub', 'C43', [(UM, '''    sa = a[tuple(slice(x) for x in a.shape[:n]) + (idxlist[n],)]
    return subarray(sa,idxlist, n-1) if n > 0 else sa
''', '''    index = tuple(slice(x) for x in a.shape[:n]) + (idxlist[n],)
    sa = a[index]
    if n <= 0:
        return sa
    return subarray(sa, idxlist, n - 1)
''')]),
('um sub default', 'C43', [(UM, "    if n is None: n = len(a.shape)-1\n", "    if n is None:\n        n = a.ndim - 1\n")]),
]

# text written to a file
_H = 'python/triqs/operators/util/hamiltonians.py'
CASES += [
    ('w print', 'C44', [(_H, "                H_dump_file.write('%s'%(mkind(s1,a1),) + '\\t')\n                H_dump_file.write('%s'%(mkind(s2,a2),) + '\\t')\n                H_dump_file.write('%s'%(mkind(s1,a3),) + '\\t')\n                H_dump_file.write('%s'%(mkind(s2,a4),) + '\\t')\n                H_dump_file.write(str(U_val if complex else U_val.real) + '\\n')", "                print(mkind(s1,a1), mkind(s2,a2), mkind(s1,a3), mkind(s2,a4), U_val if complex else U_val.real, sep='\\t', file=H_dump_file)")]),
    ('w fstr', 'C44', [(_H, "                H_dump_file.write('%s'%(mkind(s1,a1),) + '\\t')\n                H_dump_file.write('%s'%(mkind(s2,a2),) + '\\t')\n                H_dump_file.write('%s'%(mkind(s1,a3),) + '\\t')\n                H_dump_file.write('%s'%(mkind(s2,a4),) + '\\t')\n                H_dump_file.write(str(U_val if complex else U_val.real) + '\\n')", '                val = U_val if complex else U_val.real\n                H_dump_file.write(f"{mkind(s1,a1)}\\t{mkind(s2,a2)}\\t{mkind(s1,a3)}\\t{mkind(s2,a4)}\\t{val}\\n")')]),
    ('w join', 'C44', [(_H, "                H_dump_file.write('%s'%(mkind(s1,a1),) + '\\t')\n                H_dump_file.write('%s'%(mkind(s2,a2),) + '\\t')\n                H_dump_file.write('%s'%(mkind(s1,a3),) + '\\t')\n                H_dump_file.write('%s'%(mkind(s2,a4),) + '\\t')\n                H_dump_file.write(str(U_val if complex else U_val.real) + '\\n')", "                fields = [str(mkind(s1,a1)), str(mkind(s2,a2)), str(mkind(s1,a3)), str(mkind(s2,a4)), str(U_val if complex else U_val.real)]\n                H_dump_file.write('\\t'.join(fields) + '\\n')")]),
    ('w helper', 'C44', [(_H, "                H_dump_file.write('%s'%(mkind(s1,a1),) + '\\t')\n                H_dump_file.write('%s'%(mkind(s2,a2),) + '\\t')\n                H_dump_file.write(str(-J_hund) + '\\n')", '                _dump_term(H_dump_file, [mkind(s1,a1), mkind(s2,a2)], -J_hund)'), (_H, 'def h_int_kanamori(', "def _dump_term(out, ops, value):\n    for o in ops:\n        out.write('%s'%(o,) + '\\t')\n    out.write(str(value) + '\\n')\n\ndef h_int_kanamori(")]),
    ('w close', 'C44', [(_H, "                H_dump_file.write(str(U_val if complex else U_val.real) + '\\n')\n\n    return H", "                H_dump_file.write(str(U_val if complex else U_val.real) + '\\n')\n\n    if H_dump: H_dump_file.close()\n\n    return H")]),
]
