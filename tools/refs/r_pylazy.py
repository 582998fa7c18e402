L = 'python/triqs/gf/lazy_expressions.py'
D = 'python/triqs/gf/descriptor_base.py'
E = 'python/triqs/gf/descriptors.py'
P = 'C33'
CASES = [
('binary helper', P, [(L, '''    def __add__(self, y): return LazyExpr("+", LazyExpr(self), LazyExpr(y))
    def __sub__(self, y): return LazyExpr("-", LazyExpr(self), LazyExpr(y))
    def __mul__(self, y): return LazyExpr("*", LazyExpr(self), LazyExpr(y))
    def __truediv__(self, y): return LazyExpr("/", LazyExpr(self), LazyExpr(y))

    def __radd__(self, y): return LazyExpr("+", LazyExpr(y), LazyExpr(self))
    def __rsub__(self, y): return LazyExpr("-", LazyExpr(y), LazyExpr(self))
    def __rmul__(self, y): return LazyExpr("*", LazyExpr(y), LazyExpr(self))
    def __rtruediv__(self, y): return LazyExpr("/", LazyExpr(y), LazyExpr(self))
''', '''    @staticmethod
    def _binary(op, a, b):
        return LazyExpr(op, LazyExpr(a), LazyExpr(b))

    def __add__(self, y): return self._binary("+", self, y)
    def __sub__(self, y): return self._binary("-", self, y)
    def __mul__(self, y): return self._binary("*", self, y)
    def __truediv__(self, y): return self._binary("/", self, y)

    def __radd__(self, y): return self._binary("+", y, self)
    def __rsub__(self, y): return self._binary("-", y, self)
    def __rmul__(self, y): return self._binary("*", y, self)
    def __rtruediv__(self, y): return self._binary("/", y, self)
''')]),
('binary module helper', P, [(L, '''    def __add__(self, y): return LazyExpr("+", LazyExpr(self), LazyExpr(y))
    def __sub__(self, y): return LazyExpr("-", LazyExpr(self), LazyExpr(y))
''', '''    def __add__(self, y): return _node("+", self, y)
    def __sub__(self, y): return _node("-", self, y)
'''), (L, '''def make_lazy(x): return LazyExpr(x)
''', '''def _node(op, a, b):
    left = make_lazy(a)
    right = make_lazy(b)
    return LazyExpr(op, left, right)

def make_lazy(x): return LazyExpr(x)
''')]),
('call comp', P, [(L, 'return LazyExpr("F", make_lazy(self), *list(map(make_lazy, args)))', 'return LazyExpr("F", make_lazy(self), *[make_lazy(a) for a in args])')]),
('call lazyexpr', P, [(L, 'return LazyExpr("F", make_lazy(self), *list(map(make_lazy, args)))', '''
        childs = [LazyExpr(self)]
        for a in args:
            childs.append(LazyExpr(a))
        return LazyExpr("F", *childs)''')]),
('iadd local', P, [(L, "    def __iadd__(self, y): return self.set_from(self+y)\n", "    def __iadd__(self, y):\n        result = self + y\n        return self.set_from(result)\n")]),
('ctor branches', P, [(L, '''            a0 = args[0]
            self.tag, self.childs = (a0.tag, a0.childs) if isinstance(a0, self.__class__) else ("T", [a0])
        elif len(args) >1:
            self.tag, self.childs = args[0], args[1:]
        else: raise ValueError("too few arguments")
''', '''            a0 = args[0]
            if isinstance(a0, self.__class__):
                self.tag = a0.tag
                self.childs = a0.childs
            else:
                self.tag = "T"
                self.childs = [a0]
        elif len(args) > 1:
            self.tag = args[0]
            self.childs = args[1:]
        else:
            raise ValueError("too few arguments")
''')]),
('ctor guard', P, [(L, '''        if len(args) == 1:
            a0 = args[0]
            self.tag, self.childs = (a0.tag, a0.childs) if isinstance(a0, self.__class__) else ("T", [a0])
        elif len(args) >1:
            self.tag, self.childs = args[0], args[1:]
        else: raise ValueError("too few arguments")
''', '''        if not args:
            raise ValueError("too few arguments")
        first, rest = args[0], args[1:]
        if rest:
            self.tag, self.childs = first, rest
        elif isinstance(first, type(self)):
            self.tag, self.childs = first.tag, first.childs
        else:
            self.tag, self.childs = "T", [first]
''')]),
('terminal', P, [(L, '        return self.childs[0] if self.tag == "T" else None\n', '        if not self.is_terminal():\n            return None\n        return self.childs[0]\n')]),
('eval tag dict', P, [(L, '''    ops = { "+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y }
    return ops[expr.tag] (*[eval_expr_with_context(eval_term, e) for e in expr.childs] )
''', '''    args = [eval_expr_with_context(eval_term, e) for e in expr.childs]
    ops = { "+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y }
    return ops[expr.tag](*args)
''')]),
('eval term helper', P, [(L, '''    if expr.tag == "T": return eval_term(expr.childs[0]) #eval the terminals

    if expr.tag == "F":
        f = expr.childs[0].get_terminal()[1]
        return f (*[eval_expr_with_context(eval_term, e) for e in expr.childs[1:]] )
''', '''    tag = expr.tag
    if tag == "T":
        return eval_term(expr.childs[0]) #eval the terminals

    if tag == "F":
        f = expr.childs[0].get_terminal()[1]
        args = [eval_expr_with_context(eval_term, e) for e in expr.childs[1:]]
        return f(*args)
''')]),
('eval operators', P, [(L, '''    ops = { "+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y }
    return ops[expr.tag] (*[''', '''    import operator
    ops = { "+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv }
    return ops[expr.tag] (*[''')]),
('eval is_terminal', P, [(L, '    if expr.tag == "T": return eval_term(expr.childs[0]) #eval the terminals\n', '    if expr.is_terminal(): return eval_term(expr.get_terminal()) #eval the terminals\n')]),
('transform', P, [(L, '''    tag, ch = Fnode (expr.tag, [transform (e, Fnode, Fterm) for e in expr.childs])
    ch = [LazyExpr(x) for x in ch]
    return LazyExpr (tag, *ch)
''', '''    transformed = []
    for e in expr.childs:
        transformed.append(transform(e, Fnode, Fterm))
    tag, childs = Fnode(expr.tag, transformed)
    return LazyExpr(tag, *map(LazyExpr, childs))
''')]),
('terminals yield from', P, [(L, '''        yield expr.childs[0]
    else:
        for ch in expr.childs:
            for t in all_terminals(ch):
                yield t
''', '''        yield expr.childs[0]
        return
    for child in expr.childs:
        yield from all_terminals(child)
''')]),
('eval all', P, [(L, '''    all_equal = reduce (lambda x, y: x and y , [ C[0] == x for x in C ])
    if not all_equal: raise''', '''    if not all(C[0] == x for x in C): raise''')]),
('eval context loop', P, [(L, '''    C = [ t.__lazy_expr_eval_context__() for t in all_terminals(expr) if hasattr(t, "__lazy_expr_eval_context__") ]
    if C == []: raise''', '''    C = []
    for t in all_terminals(expr):
        if hasattr(t, "__lazy_expr_eval_context__"):
            C.append(t.__lazy_expr_eval_context__())
    if len(C) == 0: raise''')]),
('eval not C', P, [(L, "    if C == []: raise", "    if not C: raise"), (L, '''    C = C[0]
    return eval_expr_with_context(C, expr)
''', '''    return eval_expr_with_context(C[0], expr)
''')]),
('ctx meshes', P, [(D, '''        m1,m2  = self.G.mesh, g.mesh
        return m1 is m2 or m1 == m2
''', '''        mesh = self.G.mesh
        if mesh is g.mesh:
            return True
        return mesh == g.mesh
''')]),
('ctx eq', P, [(D, '''        return isinstance(y, self.__class__) and self._is_compatible_for_ops(y.G)
''', '''        if not isinstance(y, self.__class__):
            return False
        return self._is_compatible_for_ops(y.G)
''')]),
('ctx call', P, [(D, '''        if not isinstance(x, Base): return x
        tmp = self.G.copy()
        x(tmp)
        return tmp
''', '''        if isinstance(x, Base):
            result = self.G.copy()
            x(result)
            return result
        return x
''')]),
('is_lazy order', P, [(D, "isinstance(y,(Omega_, LazyExpr, LazyExprTerminal))", "isinstance(y, (LazyExpr, LazyExprTerminal, Omega_))")]),
('is_lazy or', P, [(D, "isinstance(y,(Omega_, LazyExpr, LazyExprTerminal))", "isinstance(y, LazyExpr) or isinstance(y, LazyExprTerminal)")]),
('is_scalar tuple', P, [(D, "    return type(x) in [ type(1), type(1.0), type(1j), numpy.ndarray, int, ", "    return type(x) in [ numpy.ndarray, int, ")]),
('convert comp', P, [(D, '''            for n,c in enumerate(childs): 
                t = c.get_terminal()
                if is_scalar(t): childs[n] =  Const (t)
''', '''            for n in range(len(childs)):
                terminal = childs[n].get_terminal()
                if is_scalar(terminal):
                    childs[n] = Const(terminal)
''')]),
('convert guard', P, [(D, '''        if tag in ["+", "-"]:
            for n,c in enumerate(childs): 
                t = c.get_terminal()
                if is_scalar(t): childs[n] =  Const (t)
        return (tag,childs)
''', '''        if tag not in ("+", "-"):
            return tag, childs
        for n, c in enumerate(childs):
            t = c.get_terminal()
            if not is_scalar(t):
                continue
            childs[n] = Const(t)
        return tag, childs
''')]),
('convert new list', P, [(D, '''        if tag in ["+", "-"]:
            for n,c in enumerate(childs): 
                t = c.get_terminal()
                if is_scalar(t): childs[n] =  Const (t)
        return (tag,childs)
''', '''        if tag == "+" or tag == "-":
            childs = [Const(c.get_terminal()) if is_scalar(c.get_terminal()) else c for c in childs]
        return (tag, childs)
''')]),
('baseblock', P, [(D, "            self.descriptors = [self.__class__(g, *args, **kw) for i,g in G]\n", "            descriptor_type = self.__class__\n            self.descriptors = [descriptor_type(g, *args, **kw) for name, g in G]\n")]),
('baseblock type', P, [(D, "        return self.G.__class__.__name__ == 'BlockGf'\n", "        return type(self.G).__name__ == 'BlockGf'\n")]),
('super init', P, [(D, "        Base.__init__(self, function=function)\n", "        super().__init__(function=function)\n")]),
('function loop', P, [(D, '''        res = G.data[...]
        try:
            for n,om in enumerate(G.mesh): res[n,...] = self.function(om.value)
        except:
''', '''        f = self.function
        res = G.data[...]
        try:
            for n, point in enumerate(G.mesh):
                res[n,...] = f(point.value)
        except:
''')]),
('function check', P, [(D, '''        if not(callable(self.function)): raise RuntimeError("GFInitializer.Function: f must be callable")
        res''', '''        if not callable(self.function):
            msg = "GFInitializer.Function: f must be callable"
            raise RuntimeError(msg)
        res''')]),
('const mesh', P, [(D, '''        if type(G.mesh) not in [MeshImFreq, MeshDLRImFreq, MeshReFreq]:
            raise TypeError("This initializer is only correct in frequency")

        if not''', '''        if not (type(G.mesh) in (MeshImFreq, MeshDLRImFreq, MeshReFreq)):
            raise TypeError("This initializer is only correct in frequency")

        if not''')]),
('const shape', P, [(D, '''        if not isinstance(C,numpy.ndarray) and G.target_rank > 0: 
            assert G.target_shape[0]==G.target_shape[1], "Const only applies to square G"
            C = C*numpy.identity(G.target_shape[0]) 
        if G.target_rank > 0 and C.shape != (G.target_shape[0],G.target_shape[1]): raise RuntimeError("Size of constant incorrect")
''', '''        if G.target_rank > 0:
            n_rows, n_cols = G.target_shape[0], G.target_shape[1]
            if not isinstance(C, numpy.ndarray):
                assert n_rows == n_cols, "Const only applies to square G"
                C = C * numpy.identity(n_rows)
            if C.shape != (n_rows, n_cols):
                raise RuntimeError("Size of constant incorrect")
''')]),
('const def', P, [(D, '''        Function(lambda om: C)(G)
        return G
''', '''        def constant(om):
            return C
        fill = Function(constant)
        fill(G)
        return G
''')]),
('omega id', P, [(D, '''        Id = 1. if G.target_rank == 0 else numpy.identity(G.target_shape[0])
        
        for n,om in enumerate(G.mesh): G.data[n,...] = om*Id
''', '''        if G.target_rank == 0:
            Id = 1.
        else:
            Id = numpy.identity(G.target_shape[0])

        data = G.data
        for n, om in enumerate(G.mesh):
            data[n,...] = om*Id
''')]),
('onefermion', P, [(E, '''        fact = -1/(1+exp(-L*G.mesh.beta))
        Function(lambda t: fact* exp(-L*t) *Id)(G)
''', '''        beta = G.mesh.beta
        norm = -1/(1+exp(-L*beta))

        def f(t):
            return norm * exp(-L*t) * Id

        Function(f)(G)
''')]),
('semi dos', P, [(E, '''        if (abs(x)<larg): return sqrt( 1 - (x/larg)**2 )*2/pi/larg
        else: return 0.0
''', '''        if abs(x) >= larg:
            return 0.0
        y = x/larg
        return sqrt(1 - y**2)*2/pi/larg
''')]),
('semicirc closures', P, [(E, '''            def f(om_):
                om = om_ + mu
                return (om - 1j*copysign(1,om.imag)*sqrt(D*D - om**2))/D/D*2*Id
''', '''            def f(om_):
                om = om_ + mu
                sign = copysign(1, om.imag)
                root = sqrt(D**2 - om**2)
                return 2*(om - 1j*sign*root)/D**2*Id
''')]),
('semicirc refreq', P, [(E, '''              if (om > -D) and (om < D):
                return (2.0/D**2) * (om - 1j* sqrt(D**2 - om**2)) * Id
              else:
                return (2.0/D**2) * (om - copysign(1,om) * sqrt(om**2 - D**2)) * Id
''', '''              prefactor = 2.0/D**2
              if -D < om < D:
                return prefactor * (om - 1j* sqrt(D**2 - om**2)) * Id
              return prefactor * (om - copysign(1,om) * sqrt(om**2 - D**2)) * Id
''')]),
('semicirc order', P, [(E, '''        D = self.half_bandwidth
        mu = self.chem_potential
        Id = complex''', '''        D, mu = self.half_bandwidth, self.chem_potential
        Id = complex''')]),
('flat nested', P, [(E, '''              if (om.real > -D) and (om.real < D):
                return -numpy.log(numpy.divide(abs(om-D),abs(om+D)))*Id/(2*D) - 1j*pi*Id/(2*D)
              else:
                return -numpy.log(numpy.divide(abs(om-D),abs(om+D)))*Id/(2*D)
''', '''              real_part = -numpy.log(numpy.divide(abs(om-D),abs(om+D)))*Id/(2*D)
              if -D < om.real and om.real < D:
                return real_part - 1j*pi*Id/(2*D)
              return real_part
''')]),
('flat lambda', P, [(E, '''            f = lambda om: (-1/(2.0*D)) * numpy.log(numpy.divide(om-D,om+D)) * Id
''', '''            def f(om):
                ratio = numpy.divide(om-D, om+D)
                return (-1/(2.0*D)) * numpy.log(ratio) * Id
''')]),
('flat errstate', P, [(E, '''        Function(f)(G)
        numpy.seterr(**old_err)
        return G
''', '''        initializer = Function(f)
        initializer(G)
        numpy.seterr(**old_err)
        return G
''')]),
('fourier', P, [(E, '''        self.args, self.kw = args, kw
    def''', '''        self.args = args
        self.kw = kw
    def''')]),
('str', P, [(E, '''return "SemiCircular(%s, %s)"%(self.half_bandwidth, self.chem_potential)''', '''return f"SemiCircular({self.half_bandwidth}, {self.chem_potential})"''')]),
]
