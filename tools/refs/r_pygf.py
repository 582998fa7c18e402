G = 'python/triqs/gf/gf.py'
CASES = [
('positive loop all', 'C31', [(G, """            if target_shape : 
                for i in target_shape : 
                    assert i>0, "Target shape elements must be >0"
""", """            if target_shape:
                assert all(i > 0 for i in target_shape), "Target shape elements must be >0"
""")]),
('mesh names var', 'C31', [(G, """            assert isinstance(mesh, all_meshes), "Mesh is unknown. Possible type of meshes are %s" % ', '.join([m.__name__ for m in all_meshes])
            self._mesh = mesh
""", """            if not isinstance(mesh, all_meshes):
                known = ', '.join(m.__name__ for m in all_meshes)
                raise AssertionError("Mesh is unknown. Possible type of meshes are %s" % known)
            self._mesh = mesh
""")]),
('is product flag', 'C31', [(G, """                l = mesh.size_of_components() if isinstance(mesh, MeshProduct) else [len(mesh)]
                data = np.zeros(list(l) + list(target_shape), dtype = np.float64 if is_real else np.complex128)
            else:
                l = tuple(mesh.size_of_components()) if isinstance(mesh, MeshProduct) else (len(mesh),)
                assert l == data.shape[0:len(l)],""", """                sizes = list(mesh.size_of_components()) if isinstance(mesh, MeshProduct) else [len(mesh)]
                if is_real:
                    dtype = np.float64
                else:
                    dtype = np.complex128
                data = np.zeros(sizes + list(target_shape), dtype = dtype)
            else:
                if isinstance(mesh, MeshProduct):
                    l = tuple(mesh.size_of_components())
                else:
                    l = (len(mesh),)
                assert data.shape[:len(l)] == l,""")]),
('indices shape helper', 'C31', [(G, """                if isinstance(indices[0], (list, range)):
                    target_shape = [len(li) for li in indices]
                else:
                    target_shape = [len(indices), len(indices)]
""", """                target_shape = _shape_from_indices(indices)
"""), (G, "class Idx:\n", """def _shape_from_indices(indices):
    if isinstance(indices[0], (list, range)):
        return list(map(len, indices))
    n = len(indices)
    return [n, n]

class Idx:
""")]),
('shortcuts order', 'C31', [(G, """            self._data = data
            len_data_shape = len(self._data.shape) 
            self._target_rank = len_data_shape - (self._mesh.rank if isinstance(mesh, MeshProduct) else 1)  
            self._rank = len_data_shape - self._target_rank 
            assert self._rank >= 0
""", """            self._data = data
            self._rank = mesh.rank if isinstance(mesh, MeshProduct) else 1
            self._target_rank = data.ndim - self._rank
            assert self._rank >= 0
""")]),
('shortcuts var', 'C31', [(G, """            len_data_shape = len(self._data.shape) 
            self._target_rank = len_data_shape - (self._mesh.rank if isinstance(mesh, MeshProduct) else 1)  
            self._rank = len_data_shape - self._target_rank 
""", """            n_dims = len(data.shape)
            mesh_rank = self._mesh.rank if isinstance(mesh, MeshProduct) else 1
            self._target_rank = n_dims - mesh_rank
            self._rank = mesh_rank
""")]),
('proxy name', 'C31', [(G, """            s = '_x_'.join( m.__class__.__name__[4:] for m in self.mesh._mlist) if isinstance(mesh, MeshProduct) else self._mesh.__class__.__name__[4:]
            proxyname = 'CallProxy%s_%s%s'%(s, self.target_rank,'_R' if data.dtype == np.float64 else '') 
            try:
                self._c_proxy = all_call_proxies.get(proxyname, CallProxyNone)(self)
            except:
                self._c_proxy = None
""", """            prefix_len = len('Mesh')
            if isinstance(mesh, MeshProduct):
                s = '_x_'.join([m.__class__.__name__[prefix_len:] for m in mesh._mlist])
            else:
                s = type(mesh).__name__[prefix_len:]
            suffix = '_R' if data.dtype == np.float64 else ''
            proxyname = f'CallProxy{s}_{self.target_rank}{suffix}'
            try:
                proxy_type = all_call_proxies.get(proxyname, CallProxyNone)
                self._c_proxy = proxy_type(self)
            except:
                self._c_proxy = None
""")]),
('delegate inline', 'C31', [(G, """        delegate(self, **kw)

    def __check""", """        return delegate(self, **kw)

    def __check""")]),
('to data index', 'C31', [(G, """            return x.data_index
        elif isinstance(x, Idx):
            return m.to_data_index(x.idx)
        else:
            return x
""", """            return x.data_index
        if isinstance(x, Idx):
            return m.to_data_index(x.idx)
        return x
""")]),
('getitem helper', 'C31', [(G, """            return self.data[tuple(self._to_data_index(x,m) for x,m in zip(key,self._mesh._mlist))]

        # If any argument""", """            return self.data[self._mesh_key(key)]

        # If any argument"""), (G, """            k = tuple(self._to_data_index(x,m) for x,m in zip(key,mlist)) + self._target_rank * (slice(0, None),)
""", """            k = self._mesh_key(key) + self._target_rank * (slice(0, None),)
"""), (G, """            self.data[tuple(self._to_data_index(x,m) for x,m in zip(key,self._mesh._mlist))] = val
""", """            self.data[self._mesh_key(key)] = val
"""), (G, "    _full_slice = slice(None, None, None) \n", """    _full_slice = slice(None, None, None) 

    def _mesh_key(self, key):
        return tuple(self._to_data_index(x, m) for x, m in zip(key, self._mesh._mlist))
""")]),
('getitem key tuple', 'C31', [(G, """            if isinstance(key, (Idx, MeshPoint)):
                return self.data[self._to_data_index(key, self._mesh)]
            else: key = (key,)
""", """            if isinstance(key, MeshPoint) or isinstance(key, Idx):
                return self.data[self._to_data_index(key, self._mesh)]
            key = (key,)
""")]),
('getitem remaining comp', 'C31', [(G, """            mlist = [m for i,m in filter(lambda tup_im : not isinstance(tup_im[0], (MeshPoint, Idx)), zip(key, mlist))]
""", """            mlist = [m for x, m in zip(key, mlist) if not isinstance(x, (MeshPoint, Idx))]
""")]),
('getitem remaining loop', 'C31', [(G, """            mlist = [m for i,m in filter(lambda tup_im : not isinstance(tup_im[0], (MeshPoint, Idx)), zip(key, mlist))]
            assert len(mlist) > 0, "Internal error" 
            mesh = MeshProduct(*mlist) if len(mlist)>1 else mlist[0]
            sing = None 
            r = Gf(mesh = mesh, data = dat)
            r.__check""", """            remaining = []
            for x, m in zip(key, mlist):
                if isinstance(x, (MeshPoint, Idx)):
                    continue
                remaining.append(m)
            assert remaining, "Internal error"
            if len(remaining) > 1:
                mesh = MeshProduct(*remaining)
            else:
                mesh = remaining[0]
            r = Gf(mesh = mesh, data = dat)
            r.__check""")]),
('getitem partial any', 'C31', [(G, """            for x in key:
                if isinstance(x, slice) and x != self._full_slice: raise NotImplementedError("Partial slice of the mesh not implemented")
""", """            if any(isinstance(x, slice) and x != self._full_slice for x in key):
                raise NotImplementedError("Partial slice of the mesh not implemented")
""")]),
('getitem bools', 'C31', [(G, """        if all(isinstance(x, (MeshPoint, Idx)) for x in key):
            assert len(key) == self.rank, "wrong number of arguments in [ ]. Expected %s, got %s"%(self.rank, len(key))
            return self.data[""", """        is_point = [isinstance(x, (MeshPoint, Idx)) for x in key]
        if all(is_point):
            assert len(key) == self.rank, "wrong number of arguments in [ ]. Expected %s, got %s"%(self.rank, len(key))
            return self.data["""), (G, "        elif any(isinstance(x, (MeshPoint, Idx)) for x in key):", "        elif any(is_point):")]),
('getitem target merged', 'C31', [(G, """            if all(isinstance(x, slice) for x in key): 
                key_tpl = tuple(key)

            # Integer access
            elif all(isinstance(x, int) for x in key):
                key_tpl = tuple(key)
""", """            if all(isinstance(x, slice) for x in key) or all(isinstance(x, int) for x in key):
                key_tpl = tuple(key)
""")]),
('getitem target helper', 'C31', [(G, """            # Slicing with ranges
            if all(isinstance(x, slice) for x in key): 
                key_tpl = tuple(key)

            # Integer access
            elif all(isinstance(x, int) for x in key):
                key_tpl = tuple(key)

            # Invalid Access
            elif any(isinstance(x, str) for x in key):
                raise RuntimeError("String indices are no longer supported. Please use integer indices for the target.")
            else:
                raise NotImplementedError("Partial slice of the target space not implemented")

            dat = self._data[ self._rank*(slice(0,None),) + key_tpl ]
""", """            self._check_target_key(key)
            dat = self._data[ self._rank*(slice(0,None),) + tuple(key) ]
"""), (G, "    _full_slice = slice(None, None, None) \n", """    _full_slice = slice(None, None, None) 

    @staticmethod
    def _check_target_key(key):
        if all(isinstance(x, slice) for x in key) or all(isinstance(x, int) for x in key):
            return
        if any(isinstance(x, str) for x in key):
            raise RuntimeError("String indices are no longer supported. Please use integer indices for the target.")
        raise NotImplementedError("Partial slice of the target space not implemented")
""")]),
('setitem early', 'C31', [(G, """            self.data[self._to_data_index(key, self._mesh)] = val

        # If all arguments are MeshPoint, we are slicing the mesh or evaluating
        elif isinstance(key, tuple) and all(isinstance(x, (MeshPoint, Idx)) for x in key):
            assert len(key) == self.rank, "wrong number of arguments in [ ]. Expected %s, got %s"%(self.rank, len(key))
            self.data[tuple(self._to_data_index(x,m) for x,m in zip(key,self._mesh._mlist))] = val

        else:
            self[key] << val
""", """            self.data[self._to_data_index(key, self._mesh)] = val
            return

        if isinstance(key, tuple) and all(isinstance(x, (MeshPoint, Idx)) for x in key):
            n_args = len(key)
            assert n_args == self.rank, "wrong number of arguments in [ ]. Expected %s, got %s"%(self.rank, n_args)
            idx = []
            for x, m in zip(key, self._mesh._mlist):
                idx.append(self._to_data_index(x, m))
            self.data[tuple(idx)] = val
            return

        self[key] << val
""")]),
('real imag helper', 'C31', [(G, """        return Gf(mesh = self._mesh, data = self._data.real, name = ("Re " + self.name) if self.name else '') 
""", """        return self._part("Re ", self._data.real)
"""), (G, """        return Gf(mesh = self._mesh, data = self._data.imag, name = ("Im " + self.name) if self.name else '') 
""", """        return self._part("Im ", self._data.imag)

    def _part(self, prefix, data):
        name = prefix + self.name if self.name else ''
        return Gf(mesh = self._mesh, data = data, name = name)
""")]),
('lshift early', 'C31', [(G, """        elif isinstance(A, lazy_expressions.LazyExprTerminal): #e.g. g<< SemiCircular (...)
            self << lazy_expressions.LazyExpr(A)
        elif descriptors.is_scalar(A): #in the case it is a scalar ....
            self << lazy_expressions.LazyExpr(A)
        else:
            raise NotImplemented
        return self
""", """        elif isinstance(A, lazy_expressions.LazyExprTerminal) or descriptors.is_scalar(A):
            self << lazy_expressions.LazyExpr(A)
        else:
            raise NotImplemented
        return self
""")]),
('lshift self guard', 'C31', [(G, """            if self is not A: # otherwise it is useless AND does not work !!
                assert self.mesh == A.mesh, "Green function meshes are not compatible:\\n  %s\\nand\\n  %s" % (self.mesh, A.mesh)
                self.copy_from(A)
""", """            if self is A:
                return self
            assert self.mesh == A.mesh, "Green function meshes are not compatible:\\n  %s\\nand\\n  %s" % (self.mesh, A.mesh)
            self.copy_from(A)
""")]),
('lshift e_t', 'C31', [(G, """            def e_t (x):
                if not isinstance(x, descriptors.Base): return x
                tmp = self.copy()
                x(tmp)
                return tmp
            self.copy_from (lazy_expressions.eval_expr_with_context(e_t, A2) )
""", """            def evaluate_terminal(x):
                if isinstance(x, descriptors.Base):
                    target = self.copy()
                    x(target)
                    return target
                return x
            result = lazy_expressions.eval_expr_with_context(evaluate_terminal, A2)
            self.copy_from(result)
""")]),
('call loop', 'C31', [(G, """        return self._c_proxy(*[filt(x) for x in args])
""", """        filtered = tuple(map(filt, args))
        return self._c_proxy(*filtered)
""")]),
('call cond', 'C31', [(G, """            if isinstance(x, MeshPoint):
                return x.value
            if isinstance(x, Idx):
                return x.idx
            return x
        return""", """            return x.value if isinstance(x, MeshPoint) else (x.idx if isinstance(x, Idx) else x)
        return""")]),
('iadd rank first', 'C31', [(G, """            if self._target_rank != 2 and not isinstance(arg, np.ndarray):
                 self._data[:] += arg
            elif self._target_rank == 2:
                 wrapped_aux._iadd_g_matrix_scalar(self, arg) 
            else:
                 raise NotImplemented
        return self

    def __add__""", """            if self._target_rank == 2:
                wrapped_aux._iadd_g_matrix_scalar(self, arg)
            elif isinstance(arg, np.ndarray):
                raise NotImplemented
            else:
                self._data[:] += arg
        return self

    def __add__""")]),
('mesh check helper', 'C31', [(G, """            assert type(self.mesh) == type(arg.mesh), "Can not add two Gf with meshes of different type"
            assert self.mesh == arg.mesh, "Can not add two Gf with different mesh"
            self._data += arg._data 
""", """            self._check_same_mesh(arg, "add")
            self._data += arg._data
"""), (G, """           assert type(self.mesh) == type(arg.mesh), "Can not subtract two Gf with meshes of different type"
           assert self.mesh == arg.mesh, "Can not subtract two Gf with different mesh"
           self._data -= arg._data 
""", """           self._check_same_mesh(arg, "subtract")
           self._data -= arg._data
"""), (G, "    def __add__(self,y):\n", """    def _check_same_mesh(self, other, verb):
        assert type(self.mesh) == type(other.mesh), "Can not %s two Gf with meshes of different type" % verb
        assert self.mesh == other.mesh, "Can not %s two Gf with different mesh" % verb

    def __add__(self,y):
""")]),
('radd inline', 'C31', [(G, "    def __radd__(self,y): return self.__add__(y)\n", "    def __radd__(self, y):\n        return self + y\n")]),
('radd alias', 'C31', [(G, "    def __radd__(self,y): return self.__add__(y)\n", "    __radd__ = __add__\n")]),
('rsub order', 'C31', [(G, """        c = (-1)*self.copy()
        c += y
        return c
""", """        result = (-1) * self.copy()
        result += y
        return result
""")]),
('imatmul early', 'C31', [(G, """        elif isinstance(arg, numbers.Number):
            self._data[:] *= arg
        elif isinstance(arg, np.ndarray):
            assert len(arg.shape) == 2, "Multiplication only supported for matrices"
            assert len(self.target_shape) == 2, "Multiplication only supported for matrix_valued Gfs"
            self.data[:] = np.tensordot(self.data, arg, axes=([-1], [-2]))
        else:
            assert False, "Invalid operand type for Gf in-place multiplication"
        return self
""", """            return self

        if isinstance(arg, numbers.Number):
            self._data[:] *= arg
            return self

        assert isinstance(arg, np.ndarray), "Invalid operand type for Gf in-place multiplication"
        assert arg.ndim == 2, "Multiplication only supported for matrices"
        assert len(self.target_shape) == 2, "Multiplication only supported for matrix_valued Gfs"
        self.data[:] = np.tensordot(self.data, arg, axes=([-1], [-2]))
        return self
""")]),
('imatmul scalar case first', 'C31', [(G, """            if self.target_rank == 2:
                if arg.target_rank == 2:
                    assert arg.target_shape[0] == arg.target_shape[1], \\
                        "In place multiplication not supported if the argument is a nonsquare matrix. Use regular multiplication instead."
                    np.matmul(self.data, arg.data, out=self.data)
                elif arg.target_rank == 0:
                    self.data[:] *= arg.data[..., None, None]
                else:
                    raise NotImplementedError("argument of in place multiplication must be rank 0 or 2")

            elif self.target_rank == 0:
                assert arg.target_rank == 0, "argument of in place multiplication must have rank 0 if self does"
                self.data[:] = self.data * arg.data

            else:
                raise NotImplementedError("Green's functions must be of rank 0 or 2 for multiplication")
""", """            if self.target_rank not in (0, 2):
                raise NotImplementedError("Green's functions must be of rank 0 or 2 for multiplication")

            if self.target_rank == 0:
                assert arg.target_rank == 0, "argument of in place multiplication must have rank 0 if self does"
                self.data[:] = self.data * arg.data
            elif arg.target_rank == 2:
                n_rows, n_cols = arg.target_shape
                assert n_rows == n_cols, \\
                    "In place multiplication not supported if the argument is a nonsquare matrix. Use regular multiplication instead."
                np.matmul(self.data, arg.data, out=self.data)
            elif arg.target_rank == 0:
                self.data[:] *= arg.data[..., None, None]
            else:
                raise NotImplementedError("argument of in place multiplication must be rank 0 or 2")
""")]),
('combine early', 'C31', [(G, """        if not type(l) is meshes.MeshImTime: #regular case
            assert l==r, "Can not multiply two Gf with different mesh"
            return l.copy()
        else:
            assert abs(l.beta-r.beta) < 1.e-15 and len(l)== len(r), "Can not multiply two Gf with different mesh"
            return meshes.MeshImTime(l.beta, 'Boson' if l.statistic == r.statistic else 'Fermion', len(l)) 
""", """        if type(l) is meshes.MeshImTime:
            assert abs(l.beta - r.beta) < 1.e-15, "Can not multiply two Gf with different mesh"
            assert len(l) == len(r), "Can not multiply two Gf with different mesh"
            statistic = 'Fermion' if l.statistic != r.statistic else 'Boson'
            return meshes.MeshImTime(l.beta, statistic, len(l))

        # regular case
        assert l == r, "Can not multiply two Gf with different mesh"
        return l.copy()
""")]),
('combine loop', 'C31', [(G, """            return MeshProduct(*[Gf._combine_mesh_mul(l,r) for (l,r) in zip(l.components, r.components)])
""", """            combined = []
            for m1, m2 in zip(l.components, r.components):
                combined.append(Gf._combine_mesh_mul(m1, m2))
            return MeshProduct(*combined)
""")]),
('matmul helper', 'C31', [(G, """            if self.target_rank == 2 and y.target_rank == 2:
                c = Gf(mesh=result_mesh, target_shape=[self.target_shape[0], y.target_shape[1]])
                np.matmul(self.data, y.data, out=c.data)
            elif self.target_rank == 0 and y.target_rank == 0:
                c = Gf(mesh=result_mesh, target_shape=[])
                c.data[:] = self.data * y.data
            elif self.target_rank == 2 and y.target_rank == 0:
                c = Gf(mesh=result_mesh, target_shape=self.target_shape)
                c.data[:] = self.data * y.data[..., None, None]
            elif self.target_rank == 0 and y.target_rank == 2:
                c = Gf(mesh=result_mesh, target_shape=y.target_shape)
                c.data[:] = self.data[..., None, None] * y.data

            else:
                raise NotImplementedError("Green's functions must be of rank 0 or 2 for multiplication")
""", """            ranks = (self.target_rank, y.target_rank)
            if ranks == (2, 2):
                c = Gf(mesh=result_mesh, target_shape=[self.target_shape[0], y.target_shape[1]])
                np.matmul(self.data, y.data, out=c.data)
            elif ranks == (0, 0):
                c = Gf(mesh=result_mesh, target_shape=[])
                c.data[:] = self.data * y.data
            elif ranks == (2, 0):
                c = Gf(mesh=result_mesh, target_shape=self.target_shape)
                c.data[:] = self.data * y.data[..., None, None]
            elif ranks == (0, 2):
                c = Gf(mesh=result_mesh, target_shape=y.target_shape)
                c.data[:] = self.data[..., None, None] * y.data
            else:
                raise NotImplementedError("Green's functions must be of rank 0 or 2 for multiplication")
""")]),
('matmul nested', 'C31', [(G, """            if self.target_rank == 2 and y.target_rank == 2:
                c = Gf(mesh=result_mesh, target_shape=[self.target_shape[0], y.target_shape[1]])
                np.matmul(self.data, y.data, out=c.data)
            elif self.target_rank == 0 and y.target_rank == 0:
                c = Gf(mesh=result_mesh, target_shape=[])
                c.data[:] = self.data * y.data
            elif self.target_rank == 2 and y.target_rank == 0:
                c = Gf(mesh=result_mesh, target_shape=self.target_shape)
                c.data[:] = self.data * y.data[..., None, None]
            elif self.target_rank == 0 and y.target_rank == 2:
                c = Gf(mesh=result_mesh, target_shape=y.target_shape)
                c.data[:] = self.data[..., None, None] * y.data

            else:
                raise NotImplementedError("Green's functions must be of rank 0 or 2 for multiplication")
""", """            left, right = self.target_rank, y.target_rank
            if left not in (0, 2) or right not in (0, 2):
                raise NotImplementedError("Green's functions must be of rank 0 or 2 for multiplication")
            if left == 2:
                if right == 2:
                    c = Gf(mesh=result_mesh, target_shape=[self.target_shape[0], y.target_shape[1]])
                    np.matmul(self.data, y.data, out=c.data)
                else:
                    c = Gf(mesh=result_mesh, target_shape=self.target_shape)
                    c.data[:] = self.data * y.data[..., None, None]
            else:
                if right == 2:
                    c = Gf(mesh=result_mesh, target_shape=y.target_shape)
                    c.data[:] = self.data[..., None, None] * y.data
                else:
                    c = Gf(mesh=result_mesh, target_shape=[])
                    c.data[:] = self.data * y.data
""")]),
('matmul data method', 'C31', [(G, """                np.matmul(self.data, y.data, out=c.data)
            elif self.target_rank == 0 and""", """                np.matmul(self._data, y._data, out=c._data)
            elif self.target_rank == 0 and""")]),
('rmatmul early', 'C31', [(G, """            c.data[:] = np.moveaxis(np.tensordot(y, self.data, axes=([-1], [-2])), 0, -2)
        elif""", """            product = np.tensordot(y, self.data, axes=([-1], [-2]))
            c.data[:] = np.moveaxis(product, 0, -2)
        elif""")]),
('mul delegates', 'C31', [(G, "        return self.__imatmul__(arg)\n", "        self @= arg\n        return self\n"), (G, "        return self.__matmul__(y)\n", "        return self @ y\n")]),
('neg', 'C31', [(G, "        c = self.copy()\n        c *= -1\n        return c\n", "        negated = self.copy()\n        negated *= -1\n        return negated\n")]),
('invert shape', 'C31', [(G, """            d.shape = (np.prod(d.shape[:-2]),) + d.shape[-2:] # reshaped view, guarantee no copy
""", """            shape = d.shape
            d.shape = (np.prod(shape[:-2]),) + shape[-2:] # reshaped view, guarantee no copy
""")]),
('invert early raise', 'C31', [(G, """        if self.target_rank == 0: # Scalar target space
            self.data[:] = 1. / self.data
        elif self.target_rank == 2: # Matrix target space
""", """        if self.target_rank not in (0, 2):
            raise TypeError(
                "Inversion only makes sense for matrix or scalar_valued Greens functions")
        if self.target_rank == 0: # Scalar target space
            self.data[:] = 1. / self.data
            return
        if self.target_rank == 2: # Matrix target space
""")]),
('transpose var', 'C31', [(G, """        d = np.transpose(self.data.copy(), (0, 2, 1))
        return Gf(mesh = self.mesh, data= d)
""", """        transposed = self._data.copy().transpose((0, 2, 1))
        return Gf(mesh = self._mesh, data = transposed)
""")]),
('conj method', 'C31', [(G, "data= np.conj(self.data))", "data = np.conjugate(self._data))")]),
('lgr contiguous loop', 'C31', [(G, """        if not L.strides == sorted(L.strides):
            L = L.copy(order='C')

        if not R.strides == sorted(R.strides):
            R = R.copy(order='C')

        wrapped""", """        def ordered(M):
            return M if M.strides == sorted(M.strides) else M.copy(order='C')

        L, R = ordered(L), ordered(R)
        wrapped""")]),
('lgr dims', 'C31', [(G, """        assert L.shape[1] == G.target_shape[0], "Dimension mismatch between L and G"
        assert R.shape[0] == G.target_shape[1], "Dimension mismatch between G and R"

        assert L.shape[0] == self.target_shape[0], "Dimension mismatch between L and self"
        assert R.shape[1] == self.target_shape[1], "Dimension mismatch between R and self"
""", """        n_a, n_c = L.shape
        n_d, n_b = R.shape
        assert n_c == G.target_shape[0], "Dimension mismatch between L and G"
        assert n_d == G.target_shape[1], "Dimension mismatch between G and R"
        assert n_a == self.target_shape[0], "Dimension mismatch between L and self"
        assert n_b == self.target_shape[1], "Dimension mismatch between R and self"
""")]),
('total density', 'C31', [(G, "        return np.trace(gf_fnt.density(self, *args, **kwargs))\n", "        return np.trace(self.density(*args, **kwargs))\n")]),
('factory pop loop', 'C31', [(G, """        d.pop('singularity', None)
        # Backward compatibility layer
        # Drop indices from the grp and ignore it
        d.pop('indices', None)
""", """        # Drop indices from the grp and ignore it
        for obsolete in ('singularity', 'indices'):
            d.pop(obsolete, None)
""")]),
('factory return', 'C31', [(G, """        need_unfold = isinstance(r.mesh, meshes.MeshImFreq) and r.mesh.positive_only() 
        return r if not need_unfold else wrapped_aux._make_gf_from_real_gf(r)
""", """        if isinstance(r.mesh, meshes.MeshImFreq) and r.mesh.positive_only():
            return wrapped_aux._make_gf_from_real_gf(r)
        return r
""")]),
('reduce dict', 'C31', [(G, """        d = {'mesh' : self._mesh, 'data' : self._data}
        return d
""", """        return dict(mesh = self._mesh, data = self._data)
""")]),
('xdata', 'C31', [(G, """        X = [x.imag for x in self.mesh] if isinstance(self.mesh, meshes.MeshImFreq) \\
            else [x for x in self.mesh]
        
        X, data = np.array(X), self.data
        if x_window:
            # the slice due to clip option x_window
            sl = clip_array(X, *x_window) if x_window else slice(len(X))
            X, data = X[sl],  data[sl, :, :]
""", """        if isinstance(self.mesh, meshes.MeshImFreq):
            X = np.array([x.imag for x in self.mesh])
        else:
            X = np.array(list(self.mesh))

        data = self.data
        if x_window:
            # the slice due to clip option x_window
            sl = clip_array(X, *x_window)
            X = X[sl]
            data = data[sl, :, :]
""")]),
('bckwd', 'C31', [(G, """    for suffix in ['_s', 'Tv3', 'Tv4'] : 
        if m.endswith(suffix) :
            m, t = m[:-len(suffix)], suffix
            break
    return { 'mesh': 'Mesh'+m }
""", """    for suffix in ('_s', 'Tv3', 'Tv4'):
        if m.endswith(suffix):
            return {'mesh': 'Mesh' + m[:-len(suffix)]}
    return {'mesh': 'Mesh' + m}
""")]),
('bckwd next', 'C31', [(G, """    for suffix in ['_s', 'Tv3', 'Tv4'] : 
        if m.endswith(suffix) :
            m, t = m[:-len(suffix)], suffix
            break
    return { 'mesh': 'Mesh'+m }
""", """    suffix = next((s for s in ['_s', 'Tv3', 'Tv4'] if m.endswith(s)), None)
    if suffix is not None:
        m = m[:-len(suffix)]
    return {'mesh': f'Mesh{m}'}
""")]),
('add method loop', 'C31', [(G, """        for a in [f for f in list(gf_fnt.__dict__.values()) if callable(f)]:
            if not hasattr(cls, a.__name__):
                setattr(cls, a.__name__, add_method_helper(a,cls))
""", """        for fnt in list(gf_fnt.__dict__.values()):
            if not callable(fnt):
                continue
            if hasattr(cls, fnt.__name__):
                continue
            setattr(cls, fnt.__name__, add_method_helper(fnt, cls))
""")]),
('idx', 'C31', [(G, "        self.idx = x[0] if len(x)==1 else x\n", "        if len(x) == 1:\n            self.idx = x[0]\n        else:\n            self.idx = x\n")]),
('idx unpack', 'C31', [(G, "        self.idx = x[0] if len(x)==1 else x\n", "        if len(x) == 1:\n            (x,) = x\n        self.idx = x\n")]),
]
