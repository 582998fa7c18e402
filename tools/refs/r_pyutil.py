MP = 'python/triqs/gf/mesh_point.py'
PR = 'python/triqs/gf/mesh_product.py'
MF = 'python/triqs/gf/matsubara_freq.py'
DI = 'python/triqs/utility/dichotomy.py'
BB = 'python/triqs/utility/bound_and_bisect.py'
HD = 'python/triqs/utility/h5diff.py'
CT = 'python/triqs/utility/comparison_tests.py'
CS = 'python/triqs/utility/capture_stdout.py'
RD = 'python/triqs/utility/redirect.py'
MB = 'python/triqs/gf/map_block.py'
NO = 'python/triqs/utility/mpi_nompi.py'
M4 = 'python/triqs/utility/mpi_mpi4py.py'
DN = 'python/triqs/utility/dist_on_nodes.py'
CASES = [
('mp getval', 'C34', [(MP, "        return (x.value if hasattr(x, 'value') else x)\n", "        if hasattr(x, 'value'):\n            return x.value\n        return x\n")]),
('mp getval getattr', 'C34', [(MP, "        return (x.value if hasattr(x, 'value') else x)\n", "        return getattr(x, 'value', x)\n")]),
('mp helper', 'C34', [(MP, "    def _get_val(self, x):\n        return (x.value if hasattr(x, 'value') else x)\n", "    @staticmethod\n    def _get_val(x):\n        return (x.value if hasattr(x, 'value') else x)\n")]),
('mp add order', 'C34', [(MP, "        return self.value - self._get_val(x)\n", "        rhs = self._get_val(x)\n        return self.value - rhs\n")]),
('mp module helper', 'C34', [(MP, "class MeshPoint :\n", "def _value_of(x):\n    return x.value if hasattr(x, 'value') else x\n\nclass MeshPoint :\n"), (MP, "        return self.value * self._get_val(x)\n", "        return self.value * _value_of(x)\n")]),
('mp str fstring', 'C34', [(MP, '''        return "mesh_point(index = %s, data_index = %s, value = %s)"%(self.index, self.data_index, self.value)
''', '''        return f"mesh_point(index = {self.index}, data_index = {self.data_index}, value = {self.value})"
''')]),
('mp gen', 'C34', [(MP, "        return (x.value for x in self.m)\n", "        for x in self.m:\n            yield x.value\n")]),
('mp gen map', 'C34', [(MP, "        return (x.value for x in self.m)\n", "        return map(lambda p: p.value, self.m)\n")]),
('mp ctor order', 'C34', [(MP, '''        self.index = index
        self.data_index = data_index
        self.mesh_hash = mesh_hash
''', '''        self.mesh_hash = mesh_hash
        self.index, self.data_index = index, data_index
''')]),
('mpr soc', 'C34', [(PR, "        return (len(x) for x in self._mlist)\n", "        return map(len, self._mlist)\n")]),
('mpr len loop', 'C34', [(PR, "        return reduce(operator.mul, self.size_of_components(), 1)\n", "        n = 1\n        for size in self.size_of_components():\n            n *= size\n        return n\n")]),
('mpr len prod', 'C34', [(PR, "        return reduce(operator.mul, self.size_of_components(), 1)\n", "        return reduce(lambda x, y: x * y, (len(m) for m in self._mlist), 1)\n")]),
('mpr len mathprod', 'C34', [(PR, "        return reduce(operator.mul, self.size_of_components(), 1)\n", "        import math\n        return math.prod(self.size_of_components())\n")]),
('mpr rank', 'C34', [(PR, "        return len(self._mlist)\n\n    # @property", "        return len(self.components)\n\n    # @property")]),
('mpr copy', 'C34', [(PR, "        return self.__class__(*[x.copy() for x in self._mlist])\n", "        copies = [m.copy() for m in self._mlist]\n        return type(self)(*copies)\n")]),
('mpr copy map', 'C34', [(PR, "        return self.__class__(*[x.copy() for x in self._mlist])\n", "        return self.__class__(*(mesh.copy() for mesh in self.components))\n")]),
('mpr copy_from', 'C34', [(PR, "        return self.__class__(*[x.copy_from(y) for x,y in zip(self._mlist, another._mlist)])\n", "        meshes = []\n        for x, y in zip(self._mlist, another._mlist):\n            meshes.append(x.copy_from(y))\n        return self.__class__(*meshes)\n")]),
('mpr copy_from idx', 'C34', [(PR, "        return self.__class__(*[x.copy_from(y) for x,y in zip(self._mlist, another._mlist)])\n", "        return self.__class__(*[self._mlist[i].copy_from(another._mlist[i]) for i in range(self.rank)])\n")]),
('mpr to_data_index', 'C34', [(PR, "        return tuple(x.to_data_index(i) for x,i in zip(self._mlist, idx))\n", "        indices = []\n        for mesh, i in zip(self._mlist, idx):\n            indices.append(mesh.to_data_index(i))\n        return tuple(indices)\n")]),
('mpr reduce', 'C34', [(PR, "        return dict (('MeshComponent%s'%i, m) for i,m in enumerate(self._mlist))\n", "        return {'MeshComponent%s' % i: m for i, m in enumerate(self._mlist)}\n")]),
('mpr reduce loop', 'C34', [(PR, "        return dict (('MeshComponent%s'%i, m) for i,m in enumerate(self._mlist))\n", "        d = {}\n        for i, m in enumerate(self._mlist):\n            d[f'MeshComponent{i}'] = m\n        return d\n")]),
('mpr factory', 'C34', [(PR, "        return cls(*(d['MeshComponent%s'%i] for i in range(len(d)))) #.values())\n", "        n = len(d)\n        meshes = [d['MeshComponent%s' % i] for i in range(n)]\n        return cls(*meshes)\n")]),
('mpr eq', 'C34', [(PR, "        return self._mlist == other._mlist\n", "        return self.components == other.components\n")]),
('mpr str', 'C34', [(PR, "        return ', '.join(str(x) for x in self._mlist)\n", "        return ', '.join(map(str, self._mlist))\n")]),
('mpr assert', 'C34', [(PR, '        assert self.rank == another.rank, "copy_from requires the same rank for meshes"\n', '        if self.rank != another.rank:\n            raise AssertionError("copy_from requires the same rank for meshes")\n')]),
('mf fermion', 'C34', [(MF, '        self.is_fermion = (True if self.statistic == "Fermion" else False)\n', '        self.is_fermion = statistic == "Fermion"\n')]),
('mf complex', 'C34', [(MF, "        return 1j * (2*self.n + self.is_fermion) * math.pi / self.beta\n", "        k = 2*self.n + self.is_fermion\n        return 1j * k * math.pi / self.beta\n")]),
('mf complex int', 'C34', [(MF, "        return 1j * (2*self.n + self.is_fermion) * math.pi / self.beta\n", "        offset = 1 if self.is_fermion else 0\n        return 1j * (2*self.n + offset) * math.pi / self.beta\n")]),
('mf add', 'C34', [(MF, '''        if isinstance(other, MatsubaraFreq):
            if not self.beta == other.beta:
                raise RuntimeError(f"Values of beta do not match: self.beta={self.beta} other.beta={other.beta}")
            is_fermion = self.is_fermion ^ other.is_fermion
            statistic = "Fermion" if is_fermion else "Boson"
            return MatsubaraFreq(self.n + other.n + (self.is_fermion and other.is_fermion), self.beta, statistic)
        else:
            return complex(self) + other
''', '''        if not isinstance(other, MatsubaraFreq):
            return complex(self) + other
        if self.beta != other.beta:
            raise RuntimeError("Values of beta do not match: self.beta=%s other.beta=%s" % (self.beta, other.beta))
        n = self.n + other.n
        if self.is_fermion and other.is_fermion:
            n += 1
        if self.is_fermion != other.is_fermion:
            statistic = "Fermion"
        else:
            statistic = "Boson"
        return MatsubaraFreq(n, self.beta, statistic)
''')]),
('mf neg', 'C34', [(MF, "        return MatsubaraFreq(-self.n - self.is_fermion, self.beta, self.statistic)\n", "        n = -(self.n + self.is_fermion)\n        return MatsubaraFreq(n, self.beta, statistic=self.statistic)\n")]),
('mf radd', 'C34', [(MF, "        return self.__add__(other)\n", "        return self + other\n")]),
('mf sub', 'C34', [(MF, "        return self.__add__(other.__neg__())\n", "        return self + (-other)\n")]),
('mf rsub', 'C34', [(MF, "        neg = self.__neg__()\n        return neg.__add__(other)\n", "        return (-self) + other\n")]),
('mf imag', 'C34', [(MF, "        return complex(self).imag\n", "        return self.value.imag\n")]),
# ---- dichotomy
('di swap', 'C38', [(DI, '''    if x1 > x2:
        x1,x2 = x2,x1
        y1,y2 = y2,y1
''', '''    if x2 < x1:
        x1, y1, x2, y2 = x2, y2, x1, y1
''')]),
('di closest', 'C38', [(DI, '''    if abs(y1-y_value) < abs(y2-y_value) :
        yfound = y1
        x = x1
    else:
        yfound = y2
        x = x2
''', '''    x, yfound = (x1, y1) if abs(y1 - y_value) < abs(y2 - y_value) else (x2, y2)
''')]),
('di init', 'C38', [(DI, '''    x=x_init;delta_x= abs(delta_x)

    # First find the bounds
    y1 = function(x)
    eps = np.sign(y1-y_value)
    x1=x;y2=y1;x2=x1
    nbre_loop=0
''', '''    delta_x = abs(delta_x)

    # First find the bounds
    nbre_loop = 0
    x1 = x2 = x_init
    y1 = y2 = function(x_init)
    eps = np.sign(y1-y_value)
''')]),
('di helper', 'C38', [(DI, "def dichotomy(function, x_init", "def _interpolate(x1, y1, x2, y2, y):\n    return x1 + (x2 - x1) * (y - y1)/(y2 - y1)\n\ndef dichotomy(function, x_init"), (DI, "        x = x1  + (x2 - x1) * (y_value - y1)/(y2-y1)\n", "        x = _interpolate(x1, y1, x2, y2, y_value)\n")]),
('di while true', 'C38', [(DI, '''    while (nbre_loop<= max_loops) and (abs(yfound-y_value)>precision_on_y) :
        nbre_loop +=1
''', '''    while True:
        if nbre_loop > max_loops or abs(yfound - y_value) <= precision_on_y:
            break
        nbre_loop += 1
''')]),
('di early', 'C38', [(DI, '''    if abs(yfound - y_value) < precision_on_y :
        if verbosity>0:
            mpi.report("%(PR)s%(x_name)s found in %(nbre_loop)d iterations : "%locals())
            mpi.report("%(PR)s%(y_name)s = %(yfound)f;%(x_name)s = %(x)f"%locals())
        return (x,yfound)
    else : 
        if verbosity > 0:
            mpi.report("%(PR)sFAILURE to adjust %(x_name)s to the value %(y_value)f after %(nbre_loop)d iterations."%locals())
            mpi.report("%(PR)sFAILURE returning (None, None) due to failure."%locals())
        return (None,None)
''', '''    converged = abs(yfound - y_value) < precision_on_y
    if not converged:
        if verbosity > 0:
            mpi.report("%(PR)sFAILURE to adjust %(x_name)s to the value %(y_value)f after %(nbre_loop)d iterations."%locals())
            mpi.report("%(PR)sFAILURE returning (None, None) due to failure."%locals())
        return None, None
    if verbosity>0:
        mpi.report("%(PR)s%(x_name)s found in %(nbre_loop)d iterations : "%locals())
        mpi.report("%(PR)s%(y_name)s = %(yfound)f;%(x_name)s = %(x)f"%locals())
    return x, yfound
''')]),
('di side', 'C38', [(DI, '''        if (y1-y_value)*(yfound - y_value)>0 : 
            x1 = x; y1=yfound
        else :
            x2= x;y2=yfound;
''', '''        same_side = (y1 - y_value)*(yfound - y_value) > 0
        if same_side:
            x1, y1 = x, yfound
        else:
            x2, y2 = x, yfound
''')]),
('bb helper', 'C38', [(BB, '''    # Determine lower bound
    x = x_0; i = 0
    while not F(x) < 0.0:
        x -= dx
        i += 1
        if i > maxiter: raise ValueError("determine_bounds: cannot find lower bound.")
    a = x
    # Determine upper bound
    x = x_0; i = 0
    while not F(x) > 0.0:
        x += dx
        i += 1
        if i > maxiter: raise ValueError("determine_bounds: cannot find upper bound.")
    b = x
    return a, b
''', '''    # Determine lower bound
    a, n = x_0, 0
    while not F(a) < 0.0:
        a -= dx
        n += 1
        if n > maxiter:
            raise ValueError("determine_bounds: cannot find lower bound.")
    # Determine upper bound
    b, n = x_0, 0
    while not F(b) > 0.0:
        b += dx
        n += 1
        if n > maxiter:
            raise ValueError("determine_bounds: cannot find upper bound.")
    return a, b
''')]),
('bb dx', 'C38', [(BB, "    if F(x_0 + dx) - F(x_0) < 0: dx *= -1.0 \n", "    decreasing = F(x_0 + dx) - F(x_0) < 0\n    if decreasing:\n        dx = -dx\n")]),
('bb dx cmp', 'C38', [(BB, "    if F(x_0 + dx) - F(x_0) < 0: dx *= -1.0 \n", "    if F(x_0 + dx) < F(x_0):\n        dx = -1.0 * dx\n")]),
('bb lambda def', 'C38', [(BB, "    F = lambda x: f(x) - y\n", "    def F(x):\n        return f(x) - y\n")]),
('bb print', 'C38', [(BB, "        print('Bounds are determined: %s <= %s <= %s'%(a,x_name,b))\n", "        print(f'Bounds are determined: {a} <= {x_name} <= {b}')\n")]),
('bb bounds tuple', 'C38', [(BB, "    a,b = determine_bounds(F,x_0,dx,maxiter)\n", "    bounds = determine_bounds(F, x_0, dx, maxiter)\n    a, b = bounds\n")]),
# ---- h5diff, comparison tests
('hd same', 'C39', [(HD, '''        elif t in [Gf] :
            assert_gfs_are_close(a,b,precision)
''', '''        elif t == Gf:
            assert_gfs_are_close(a, b, precision=precision)
''')]),
('hd keys', 'C39', [(HD, '''            if list(a.keys()) != list(b.keys()):
                failures.append("Two archive groups '%s' with different keys \\n %s \\n vs\\n %s"%(key,list(a.keys()), list(b.keys())))
            for k in [k for k in a.keys() if k in b.keys()]:
                compare(key + '/'+ k, a[k], b[k], level + 1, precision)
''', '''            keys_a, keys_b = list(a.keys()), list(b.keys())
            if keys_a != keys_b:
                failures.append("Two archive groups '%s' with different keys \\n %s \\n vs\\n %s"%(key, keys_a, keys_b))
            for k in keys_a:
                if k not in keys_b: continue
                compare(f'{key}/{k}', a[k], b[k], level + 1, precision)
''')]),
('hd list', 'C39', [(HD, '''            for x,y in zip(a,b):
                compare(key, x, y, level+1, precision)
''', '''            for i in range(len(a)):
                compare(key, a[i], b[i], level + 1, precision)
''')]),
('hd float', 'C39', [(HD, '''            assert abs(a-b) < 1.e-10, " a-b = %s"%(a-b)
''', '''            diff = a - b
            assert abs(diff) < 1.e-10, " a-b = %s" % diff
''')]),
('hd mess', 'C39', [(HD, '''        mess = '\\n'.join([l for l in str(e).split('\\n') if l.strip() and not l.startswith('..')])
        failures.append("Comparison of key '%s'  has failed:\\n """%key + mess)
''', '''        lines = []
        for l in str(e).split('\\n'):
            if l.strip() and not l.startswith('..'):
                lines.append(l)
        failures.append("Comparison of key '%s'  has failed:\\n """%key + '\\n'.join(lines))
''')]),
('hd merge asserts', 'C39', [(HD, '''        elif t in [bool, numpy.bool_]:
           assert a==b

''', ''), (HD, '''        else:
            raise NotImplementedError(''', '''        elif t in [bool, numpy.bool_]:
           assert a==b

        else:
            raise NotImplementedError(''')]),
('hd fail', 'C39', [(HD, '''    compare('', HDFArchive(f1,'r'), HDFArchive(f2,'r'), 0, precision)
    if failures :
''', '''    archive1 = HDFArchive(f1, 'r')
    archive2 = HDFArchive(f2, 'r')
    compare('', archive1, archive2, 0, precision)
    if len(failures) > 0:
''')]),
('hd guard', 'C39', [(HD, '''    if failures :
        print ('-'*50, file=sys.stderr )
        print ('-'*20 + '  FAILED  ' +  '-'*20, file=sys.stderr)
        print ('-'*50, file=sys.stderr)
        for x in failures:
            print (x, file=sys.stderr)
            print ('-'*50, file=sys.stderr)
        raise RuntimeError("FAILED")
''', '''    if not failures:
        return
    line = '-'*50
    print (line, file=sys.stderr )
    print ('-'*20 + '  FAILED  ' +  '-'*20, file=sys.stderr)
    print (line, file=sys.stderr)
    for x in failures:
        print (x, file=sys.stderr)
        print (line, file=sys.stderr)
    raise RuntimeError("FAILED")
''')]),
('ct arrays', 'C39', [(CT, '''    d = np.amax(np.abs(a - b))
    assert  d< precision, "Arrays''', '''    diff = np.abs(a - b)
    d = np.amax(diff)
    assert precision > d, "Arrays''')]),
('ct raise', 'C39', [(CT, '''    assert  d< precision, "Arrays are different. Difference is %s.\\n %s \\n\\n --------- \\n\\n %s"%(d,a,b)
''', '''    if not d < precision:
        raise AssertionError("Arrays are different. Difference is %s.\\n %s \\n\\n --------- \\n\\n %s"%(d,a,b))
''')]),
('ct block', 'C39', [(CT, '''    for (nx,x),(ny,y) in zip(a,b):
        # first check if the names of the two blocks match
        assert nx == ny, "block name {} does not match {}".format(nx,ny)
        assert_gfs_are_close(x, y, precision)
''', '''    for block_a, block_b in zip(a, b):
        name_a, g_a = block_a
        name_b, g_b = block_b
        assert name_a == name_b, f"block name {name_a} does not match {name_b}"
        assert_gfs_are_close(g_a, g_b, precision)
''')]),
('ct scalar', 'C39', [(CT, "    assert_arrays_are_close(a, np.identity(a.shape[0])*(x), precision)\n", "    expected = x * np.identity(a.shape[0])\n    assert_arrays_are_close(a, expected, precision)\n")]),
('ct gf and', 'C39', [(CT, '''    assert type(a.mesh) == type(b.mesh), "GFs have different type of meshes !"
    assert a.mesh == b.mesh, "meshes are different"
''', '''    mesh_a, mesh_b = a.mesh, b.mesh
    assert type(mesh_a) == type(mesh_b), "GFs have different type of meshes !"
    assert mesh_a == mesh_b, "meshes are different"
''')]),
# ---- capture, redirect
('cs enter', 'C37', [(CS, "        sys.stdout = self._stringio = StringIO()\n", "        self._stringio = StringIO()\n        sys.stdout = self._stringio\n")]),
('cs exit', 'C37', [(CS, "        self.extend(self._stringio.getvalue().splitlines())\n        del self._stringio\n", "        text = self._stringio.getvalue()\n        self.extend(text.splitlines())\n        del self._stringio\n")]),
('rd run', 'C37', [(RD, '''    piper, pipew = os.pipe()
    os.dup2(pipew, 1)
    os.close(pipew)
''', '''    read_end, pipew = os.pipe()
    os.dup2(pipew, 1)
    os.close(pipew)
    piper = read_end
''')]),
('rd guard', 'C37', [(RD, '''  if started:
    print("Already redirected c++ output")
  else:
    started = True
    # start a new redirection thread
    a = T()
    a.start()
''', '''  if started:
    print("Already redirected c++ output")
    return
  a = T()
  started = True
  a.start()
''')]),
('rd stop', 'C37', [(RD, '''  if started:
    started = False
    a.stop()
''', '''  if not started:
    return
  started = False
  a.stop()
''')]),
('rd read', 'C37', [(RD, '''        sys.stdout.write(os.read(piper, 10000).decode(errors='replace'))
''', '''        data = os.read(piper, 10000)
        sys.stdout.write(data.decode(errors='replace'))
''')]),
('rd super', 'C37', [(RD, "    threading.Thread.__init__(self)\n", "    super().__init__()\n")]),
# ---- map_block
('mb early', 'C48', [(MB, '''        block_list = [fun(bl) for name, bl in G]
        if isinstance(block_list[0], Gf):
            return BlockGf(name_list = list(G.indices), block_list = block_list)
        else:
            return block_list
''', '''        block_list = []
        for _, bl in G:
            block_list.append(fun(bl))
        if not isinstance(block_list[0], Gf):
            return block_list
        return BlockGf(name_list = list(G.indices), block_list = block_list)
''')]),
('mb nested', 'C48', [(MB, '''        block_list = []
        for bn1 in G.indices1:
            block_list.append([fun(G[bn1,bn2]) for bn2 in G.indices2])
''', '''        block_list = [[fun(G[bn1, bn2]) for bn2 in G.indices2] for bn1 in G.indices1]
''')]),
('mb order', 'C48', [(MB, '''    if isinstance(G, BlockGf):
        block_list = [''', '''    if not isinstance(G, (BlockGf, Block2Gf)):
        raise Exception('map_block only applicable for BlockGf and Block2Gf')
    if isinstance(G, BlockGf):
        block_list = [''')]),
# ---- mpi
('no report', 'C36', [(NO, '''        myprint,myflush = (myprint_err,sys.stderr.flush)  if 'stderr' in opt and opt['stderr'] else (myprint_out,sys.stdout.flush)
''', '''        if opt.get('stderr', False):
            myprint, myflush = myprint_err, sys.stderr.flush
        else:
            myprint, myflush = myprint_out, sys.stdout.flush
''')]),
('no recv', 'C36', [(NO, '''    recval = _sendval
    _sendval = None
    return recval
''', '''    result, _sendval = _sendval, None
    return result
''')]),
('m4 slice', 'C36', [(M4, '''  j=(imax - imin + 1)//size
  i= imax - imin + 1 - size*j
  return imin + rank*(j+1)  if  rank<=i-1 else imin + rank*j + i
''', '''  j, i = divmod(imax - imin + 1, size)
  if rank < i:
    return imin + rank*(j+1)
  return imin + rank*j + i
''')]),
('m4 slice n', 'C36', [(M4, '''  j=(imax - imin + 1)//size
  i= imax - imin + 1 - size*j
  return imin + rank*(j+1)  if  rank<=i-1 else imin + rank*j + i
''', '''  n = imax - imin + 1
  j = n // size
  i = n % size
  return imin + rank*(j+1) if rank <= i-1 else imin + rank*j + i
''')]),
('m4 slice helper', 'C36', [(M4, "def slice_inf(imin,imax) :\n", "def _chunk(imin, imax):\n  n = imax - imin + 1\n  j = n//size\n  return j, n - size*j\n\ndef slice_inf(imin,imax) :\n"), (M4, '''  j=(imax - imin + 1)//size
  i= imax - imin + 1 - size*j;
  return''', '''  j, i = _chunk(imin, imax)
  return''')]),
('m4 sup if', 'C36', [(M4, '''  return imin + (rank+1)*(j+1) -1  if  rank<=i-1  else imin + (rank+1)*j  + i - 1
''', '''  if rank >= i:
    return imin + (rank + 1)*j + i - 1
  return imin + (rank + 1)*(j + 1) - 1
''')]),
('m4 slice_array', 'C36', [(M4, '''    imax = A.shape[0]-1
    return A[slice_inf(0,imax):slice_sup(0,imax)+1] # +1 due to the slice convention
''', '''    last = A.shape[0] - 1
    start, stop = slice_inf(0, last), slice_sup(0, last) + 1
    return A[start:stop]
''')]),
('m4 slice_array len', 'C36', [(M4, "    imax = A.shape[0]-1\n", "    imax = len(A) - 1\n")]),
('m4 barrier', 'C36', [(M4, '''    if not poll_msec:
        world.barrier()
    else:
        req = world.Ibarrier()
        while not req.Test():
            time.sleep(poll_msec / 1000)
''', '''    if poll_msec:
        request = world.Ibarrier()
        while True:
            if request.Test():
                break
            time.sleep(poll_msec / 1000)
    else:
        world.barrier()
''')]),
('m4 allreduce', 'C36', [(M4, '''        if isinstance(x, MPI.Intracomm):
            report(
                "WARNING: the signature for all_reduce is now 'all_reduce(x, comm=world, op=MPI.SUM)'\\n\\tattempting compatibility with old signature"
            )
            return world.allreduce(comm)
        raise e
''', '''        if not isinstance(x, MPI.Intracomm):
            raise
        report("WARNING: the signature for all_reduce is now 'all_reduce(x, comm=world, op=MPI.SUM)'\\n\\tattempting compatibility with old signature")
        return world.allreduce(comm)
''')]),
('m4 hosts', 'C36', [(M4, '''    HostNames[rank] = gethostname()
    if is_master_node() :
      for proc in range (1,size) :
        HostNames[proc] = recv(proc)
    else:
      send(gethostname(),master)
''', '''    name = gethostname()
    HostNames[rank] = name
    if not is_master_node():
      send(name, master)
    else:
      for proc in range(1, size):
        HostNames[proc] = recv(proc)
''')]),
('m4 hosts items', 'C36', [(M4, "      for u,host in list(HostNames.items()) :\n", "      for u, host in HostNames.items():\n")]),
('m4 report', 'C36', [(M4, '''    try :
        if opt['Verbosity_Level'] >  Verbosity_Level_Report_Max : return
    except :
        pass
''', '''    try:
        too_verbose = opt['Verbosity_Level'] > Verbosity_Level_Report_Max
    except:
        too_verbose = False
    if too_verbose:
        return
''')]),
('dn run', 'C47', [(DN, '''            while not(self.finished()):
                n = next(self)
                if n!=None : 
                    self.treate(self.the_function(n),0)
            return
''', '''            while not self.finished():
                point = next(self)
                if point is None:
                    continue
                value = self.the_function(point)
                self.treate(value, 0)
            return
''')]),
('dn stack', 'C47', [(DN, '''        self.__l = list(the_stack)
        self.__l.reverse()
''', '''        self.__l = list(reversed(list(the_stack)))
''')]),
('dn slave', 'C47', [(DN, '''                if omega ==None :
                    res = None
                else :
                    res = self.the_function(omega)
                mpi.send((res,mpi.rank),0)
''', '''                res = self.the_function(omega) if omega != None else None
                mpi.send((res, mpi.rank), 0)
''')]),
('dn finished', 'C47', [(DN, "        return self.__l==[]\n", "        return len(self.__l) == 0\n")]),
('dn running', 'C47', [(DN, "or [n for n in node_running if n] != [] :", "or any(node_running) :")]),
('dn list', 'C47', [(DN, "              for node in [ n for n in range(1,mpi.size) if not(node_running[n] or node_stopped[n]) ] :\n", "              idle = [n for n in range(1, mpi.size) if not node_running[n] and not node_stopped[n]]\n              for node in idle:\n")]),
('dn keep', 'C47', [(DN, '''                  value = T[0]
                  if value[0] is not None : self.treate(*value)
                  node_running[T[1].source] = False
                  return False
''', '''                  value, status = T[0], T[1]
                  if value[0] is not None : self.treate(*value)
                  node_running[status.source] = False
                  return False
''')]),
]
CASES += [
('mp inline getval', 'C34', [(MP, "    def _get_val(self, x):\n        return (x.value if hasattr(x, 'value') else x)\n", "    def _value_of(self, x):\n        return (x.value if hasattr(x, 'value') else x)\n"), *[(MP, "self.value %s self._get_val(x)" % o, "self.value %s self._value_of(x)" % o) for o in "+-*/"], *[(MP, "self._get_val(x) %s self.value" % o, "self._value_of(x) %s self.value" % o) for o in "+-*/"]]),
]
