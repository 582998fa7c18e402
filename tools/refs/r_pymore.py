"""observables, fit, backward compatible constructors, redirection, distribution over nodes"""
O = 'python/triqs/operators/util/observables.py'
F = 'python/triqs/fit/fit.py'
B = 'python/triqs/gf/backwd_compat/gf_%s.py'
R = 'python/triqs/utility/redirect.py'
D = 'python/triqs/utility/dist_on_nodes.py'
CASES = [
    ('3 N sum', 'C45', [(O, "    N = Operator()\n    for sn, o in product(spin_names,range(n_orb)): N += n(*mkind(sn,o))\n    return N",
                         "    return sum((n(*mkind(sn,o)) for sn in spin_names for o in range(n_orb)), Operator())")]),
    ('3 N nested', 'C45', [(O, "    for sn, o in product(spin_names,range(n_orb)): N += n(*mkind(sn,o))\n", "    for sn in spin_names:\n        for o in range(n_orb):\n            block, index = mkind(sn, o)\n            N = N + n(block, index)\n")]),
    ('3 S enumerate', 'C45', [(O, """    spin_range = list(range(len(spin_names)))
    for n1, n2 in product(spin_range,spin_range):
        for o in range(n_orb):
            S += 0.5 * c_dag(*mkind(spin_names[n1],o)) * pm[n1,n2] * c(*mkind(spin_names[n2],o))
""", """    for n1, s1 in enumerate(spin_names):
        for n2, s2 in enumerate(spin_names):
            for o in range(n_orb):
                S += 0.5 * pm[n1,n2] * c_dag(*mkind(s1,o)) * c(*mkind(s2,o))
""")]),
    ('3 S half', 'C45', [(O, "            S += 0.5 * c_dag(*mkind(spin_names[n1],o)) * pm[n1,n2] * c(*mkind(spin_names[n2],o))", "            bra = c_dag(*mkind(spin_names[n1],o))\n            ket = c(*mkind(spin_names[n2],o))\n            S += bra * pm[n1,n2] * ket / 2")]),
    ('3 S2 dict', 'C45', [(O, """    Sz, Sp, Sm = [S_op(k,spin_names,n_orb,off_diag,map_operator_structure) for k in ('z','+','-')]
    return Sz*Sz + 0.5*(Sp*Sm + Sm*Sp)""", """    comp = {k: S_op(k,spin_names,n_orb,off_diag,map_operator_structure) for k in ('z','+','-')}
    return comp['z']*comp['z'] + 0.5*(comp['+']*comp['-'] + comp['-']*comp['+'])""")]),
    ('3 S2 calls', 'C45', [(O, "    Sz, Sp, Sm = [S_op(k,spin_names,n_orb,off_diag,map_operator_structure) for k in ('z','+','-')]\n    return Sz*Sz", "    args = (spin_names, n_orb, off_diag, map_operator_structure)\n    Sz = S_op('z', *args)\n    Sp = S_op('+', *args)\n    Sm = S_op('-', *args)\n    return Sz*Sz")]),
    ('3 L fn', 'C45', [(O, """    L_melem_dict = {'z' : lambda m,mp: m if np.isclose(m,mp) else 0,
                    '+' : lambda m,mp: np.sqrt(l*(l+1)-mp*(mp+1)) if np.isclose(m,mp+1) else 0,
                    '-' : lambda m,mp: np.sqrt(l*(l+1)-mp*(mp-1)) if np.isclose(m,mp-1) else 0,
                    'x' : lambda m,mp: 0.5*(L_melem_dict['+'](m,mp) + L_melem_dict['-'](m,mp)),
                    'y' : lambda m,mp: -0.5j*(L_melem_dict['+'](m,mp) - L_melem_dict['-'](m,mp))}
""", """    def lz(m, mp):
        return m if np.isclose(m,mp) else 0
    def lp(m, mp):
        return np.sqrt(l*(l+1)-mp*(mp+1)) if np.isclose(m,mp+1) else 0
    def lm(m, mp):
        return np.sqrt(l*(l+1)-mp*(mp-1)) if np.isclose(m,mp-1) else 0
    L_melem_dict = {'z' : lz, '+' : lp, '-' : lm,
                    'x' : lambda m,mp: 0.5*(lp(m,mp) + lm(m,mp)),
                    'y' : lambda m,mp: -0.5j*(lp(m,mp) - lm(m,mp))}
""")]),
    ('3 L range', 'C45', [(O, "    orb_range = list(range(int(2*l+1)))", "    orb_range = range(int(2*l+1))")]),
    ('3 L elif', 'C45', [(O, """        T = spherical_to_cubic(int(l))
    if basis == "other" and T is None: raise""", """        T = spherical_to_cubic(int(l))
    elif basis == "other" and T is None:
        raise""")]),
    ('3 L nested', 'C45', [(O, """    for sn in spin_names:
        for o1, o2 in product(orb_range,orb_range):
            L += c_dag(*mkind(sn,o1)) * L_matrix[o1,o2] * c(*mkind(sn,o2))
""", """    for sn, o1, o2 in product(spin_names, orb_range, orb_range):
        L += c_dag(*mkind(sn,o1)) * L_matrix[o1,o2] * c(*mkind(sn,o2))
""")]),
    ('3 LS helper', 'C45', [(O, "    Lz, Lp, Lm = [L_op(k,spin_names,n_orb,off_diag,map_operator_structure, basis, T) for k in ('z','+','-')]\n    return Lz*Sz + 0.5*(Lp*Sm + Lm*Sp)",
                             "    Lz, Lp, Lm = [L_op(k,spin_names,n_orb,off_diag,map_operator_structure, basis=basis, T=T) for k in ('z','+','-')]\n    return _scalar_product((Lz, Lp, Lm), (Sz, Sp, Sm))\n\ndef _scalar_product(a, b):\n    az, ap, am = a\n    bz, bp, bm = b\n    return az*bz + 0.5*(ap*bm + am*bp)\n")]),
    ('3 compat', 'C45', [(O, """    if orb_names is not None:
        raise RuntimeError("Argument orb_names is no longer supported. Please provide n_orb instead.")
    if isinstance(n_orb, list):
        import warnings
        warnings.warn("Positional argument n_orb of function {} should provide the number of orbitals, not a list".format(fname))
        n_orb = len(n_orb)
    return n_orb
""", """    if not (orb_names is None):
        raise RuntimeError("orb_names is no longer supported. Please provide n_orb instead of orb_names.")
    if not isinstance(n_orb, list):
        return n_orb
    import warnings
    warnings.warn(f"Positional argument n_orb of function {fname} should provide the number of orbitals, not a list")
    return len(n_orb)
""")]),
    ('3 fit def', 'C61', [(F, "        errfunc = lambda x :  np.abs ( self.function(x_array,*x)  - y_array[:])\n        self.param, success = leastsq(errfunc, p0 if p0 is not None else p00 )",
                           "        def residual(params):\n            return np.abs(self.function(x_array, *params) - y_array[:])\n        start = p00 if p0 is None else p0\n        self.param, _ = leastsq(residual, start)")]),
    ('3 fit unpack', 'C61', [(F, "        self.function, self.fname, p00 = fitter\n", "        function, name, p00 = fitter\n        self.function = function\n        self.fname = name\n")]),
    ('3 fit asserts', 'C61', [(F, "        assert len(y_array) == len(x_array)\n        assert len(y_array) > len (p00)\n", "        n_points = len(x_array)\n        assert n_points == len(y_array) and n_points > len(p00), 'wrong number of points'\n")]),
    ('3 fit args', 'C61', [(F, "len(ins.getfullargspec(self.function)[0])== len(p00) + 1", "len(ins.getfullargspec(self.function).args) - 1 == len(p00)")]),
    ('3 fit idx', 'C61', [(F, "        self.param, success = leastsq(errfunc, p0 if p0 is not None else p00 )", "        if p0 is None:\n            p0 = p00\n        self.param = leastsq(errfunc, p0)[0]")]),
    ('3 fit str', 'C61', [(F, "    def __str__ (self) : return (self.fname%tuple(self.param) or 'Fit').replace(\"+ -\",\"-\")", "    def __str__ (self) :\n        text = self.fname % tuple(self.param)\n        if not text:\n            text = 'Fit'\n        return text.replace(\"+ -\",\"-\")")]),
    ('3 fit poly', 'C61', [(F, "lambda X, a,b,c : (a * X + b)*X + c,", "lambda X, a,b,c : a*X*X + b*X + c,")]),
    ('3 bc super', 'C64', [(B % 'imfreq', """            super(GfImFreq, self).__init__(
                      mesh = mesh, 
                      data = data, 
                      target_shape = target_shape,
                      name = name,
                      indices = indices) 
""", "            Gf.__init__(self, mesh=mesh, data=data, target_shape=target_shape, name=name, indices=indices)\n")]),
    ('3 bc kwargs', 'C64', [(B % 'imtime', """            super(GfImTime, self).__init__(
                      mesh = mesh, 
                      data = data, 
                      target_shape = target_shape,
                      name = name,
                      indices = indices) 
""", "            kwargs = dict(mesh=mesh, data=data, target_shape=target_shape, name=name, indices=indices)\n            super(GfImTime, self).__init__(**kwargs)\n")]),
    ('3 bc method', 'C64', [(B % 'legendre', """        def delegate(self, mesh=None, data = None, target_shape=None, name='', n_points = 30, beta = None, statistic = 'Fermion', indices=None):
            if mesh is None:
                assert isinstance(beta, (int, float)), "If the Mesh is not given, beta is mandatory and must be float"
                assert isinstance(n_points, int) and n_points >0, "n_points is crazy"
                mesh = MeshLegendre(beta, statistic, n_points)
            assert isinstance(mesh, MeshLegendre), "GfLegendre requires mesh to be of type MeshLegendre"
        
            super(GfLegendre, self).__init__(
                      mesh = mesh, 
                      data = data, 
                      target_shape = target_shape,
                      name = name,
                      indices = indices) 

        delegate(self, **kw)""", """        self._delegate(**kw)

    def _delegate(self, mesh=None, data = None, target_shape=None, name='', n_points = 30, beta = None, statistic = 'Fermion', indices=None):
        if mesh is None:
            assert isinstance(beta, (int, float)), "If the Mesh is not given, beta is mandatory and must be float"
            assert isinstance(n_points, int) and n_points >0, "n_points is crazy"
            mesh = MeshLegendre(beta, statistic, n_points)
        assert isinstance(mesh, MeshLegendre), "GfLegendre requires mesh to be of type MeshLegendre"

        super(GfLegendre, self).__init__(mesh = mesh, data = data, target_shape = target_shape, name = name, indices = indices)
""")]),
    ('3 bc mesh fn', 'C64', [(B % 'refreq', """            if mesh is None:
                assert isinstance(n_points, int) and n_points >0, "n_points is crazy"
                mesh = MeshReFreq(window[0], window[1], n_points)
""", """            if mesh is None:
                assert isinstance(n_points, int), "n_points is crazy"
                assert 0 < n_points, "n_points is crazy"
                lo, hi = window[0], window[1]
                mesh = MeshReFreq(lo, hi, n_points)
""")]),
    ('3 bc popping', 'C64', [(B % 'imfreq', """        def delegate(self, mesh=None, data = None,""", """        def delegate(self, *, mesh=None, data = None,""")]),
    ('3 bc isinst', 'C64', [(B % 'retime', "assert isinstance(n_points, int) and n_points >0,", "assert isinstance(n_points, int) and not n_points <= 0,")]),
    ('3 redir loop', 'C37', [(R, "    while self.go_on:\n", "    while True:\n      if not self.go_on:\n        break\n")]),
    ('3 redir early', 'C37', [(R, """  if started:
    print("Already redirected c++ output")
  else:
    started = True
    # start a new redirection thread
    a = T()
    a.start()
""", """  if started:
    print("Already redirected c++ output")
    return
  a = T()
  started = True
  a.start()
""")]),
    ('3 redir text', 'C37', [(R, "        sys.stdout.write(os.read(piper, 10000).decode(errors='replace'))\n", "        chunk = os.read(piper, 10000)\n        text = chunk.decode(errors='replace')\n        sys.stdout.write(text)\n")]),
    ('3 redir stop', 'C37', [(R, "  if started:\n    started = False\n    a.stop()", "  if not started:\n    return\n  started = False\n  a.stop()")]),
    ('3 redir super', 'C37', [(R, "    threading.Thread.__init__(self)\n", "    super().__init__()\n")]),
    ('3 redir fcntl', 'C37', [(R, "import threading, time, sys, os, fcntl", "import threading, time, sys, os\nfrom fcntl import fcntl, F_SETFL"), (R, "fcntl.fcntl(piper,fcntl.F_SETFL,os.O_NONBLOCK)", "fcntl(piper, F_SETFL, os.O_NONBLOCK)")]),
    ('3 dist single', 'C47', [(D, """                n = next(self)
                if n!=None : 
                    self.treate(self.the_function(n),0)
""", """                point = next(self)
                if point is None:
                    continue
                self.treate(self.the_function(point), 0)
""")]),
    ('3 dist any', 'C47', [(D, "or [n for n in node_running if n] != [] :", "or any(node_running) :")]),
    ('3 dist keep', 'C47', [(D, """                  T = r.test()
                  if T is None :  return True
                  value = T[0]
                  if value[0] is not None : self.treate(*value)
                  node_running[T[1].source] = False
                  return False
""", """                  T = r.test()
                  if T is not None:
                      value, status = T[0], T[1]
                      if value[0] is not None:
                          self.treate(*value)
                      node_running[status.source] = False
                      return False
                  return True
""")]),
    ('3 dist idle', 'C47', [(D, "              for node in [ n for n in range(1,mpi.size) if not(node_running[n] or node_stopped[n]) ] :\n", "              idle = [ n for n in range(1,mpi.size) if not node_running[n] and not node_stopped[n] ]\n              for node in idle :\n")]),
    ('3 dist worker', 'C47', [(D, """                if omega ==None :
                    res = None
                else :
                    res = self.the_function(omega)
                mpi.send((res,mpi.rank),0)
""", """                res = None if omega is None else self.the_function(omega)
                mpi.send((res, mpi.rank), 0)
""")]),
    ('3 dist sleep', 'C47', [(D, "              if (pid): time.sleep(self.SleepTime) # so", "              if pid != 0:\n                  time.sleep(self.SleepTime) # so")]),
    ('3 dist child', 'C47', [(D, """                          if currently_calculated_by_master is not None :
                              res = self.the_function(currently_calculated_by_master)
                          else:
                              res = None
                          pickle.dump((res,mpi.rank),open('res_master','wb'))
""", """                          res = None
                          if currently_calculated_by_master is not None :
                              res = self.the_function(currently_calculated_by_master)
                          with open('res_master','wb') as out:
                              pickle.dump((res,mpi.rank), out)
""")]),
    ('3 dist stack', 'C47', [(D, "        self.__l = list(the_stack)\n        self.__l.reverse()\n", "        self.__l = list(reversed(list(the_stack)))\n")]),
    ('3 dist stack2', 'C47', [(D, "        self.__l = list(the_stack)\n        self.__l.reverse()\n", "        self.__l = list(the_stack)[::-1]\n")]),
    ('3 dist fin', 'C47', [(D, "        return self.__l==[]\n", "        return len(self.__l) == 0\n")]),
    ('3 dist names', 'C47', [(D, "RequestList", "pending")] if False else [(D, "    def result(self) : return self.__result\n", "    def result(self):\n        res = self.__result\n        return res\n")]),
    ('3 dist method', 'C47', [(D, """        if mpi.size==1 : # single machine. Avoid the fork
            while not(self.finished()):
                n = next(self)
                if n!=None : 
                    self.treate(self.the_function(n),0)
            return
""", """        if mpi.size==1 : # single machine. Avoid the fork
            self._run_serial()
            return
"""), (D, """    def run(self):
        \"\"\"
        \"\"\"
        mpi.barrier()""", """    def _run_serial(self):
        while not self.finished():
            n = next(self)
            if n is not None:
                self.treate(self.the_function(n), 0)

    def run(self):
        \"\"\"
        \"\"\"
        mpi.barrier()""")]),
    ('3 S2 loop', 'C45', [(O, "    Sz, Sp, Sm = [S_op(k,spin_names,n_orb,off_diag,map_operator_structure) for k in ('z','+','-')]\n    return Sz*Sz", "    res = []\n    for k in ('z','+','-'):\n        res.append(S_op(k,spin_names,n_orb,off_diag,map_operator_structure))\n    Sz, Sp, Sm = res\n    return Sz*Sz")]),
]
