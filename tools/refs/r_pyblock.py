B = 'python/triqs/gf/block_gf.py'
B2 = 'python/triqs/gf/block2_gf.py'
CASES = [
('fix struct loop', 'C29', [(B, "        return[(k, len(v)) for k, v in gf_struct]\n", "        converted = []\n        for k, v in gf_struct:\n            converted.append((k, len(v)))\n        return converted\n")]),
('init name list', 'C29', [(B, "[str(i) for i in range(len(kwargs['block_list']))])", "list(map(str, range(len(kwargs['block_list']))))) ")]),
('init setdefault', 'C29', [(B, """            kwargs['make_copies'] = kwargs.get('make_copies', False)
            kwargs['name_list'] = kwargs.get(""", """            kwargs.setdefault('make_copies', False)
            kwargs['name_list'] = kwargs.get(""")]),
('init gf helper', 'C29', [(B, """                if bl_size > 0 and kwargs['target_rank'] > 0:
                    GFlist.append(Gf(mesh=kwargs['mesh'], target_shape=[bl_size]*kwargs['target_rank'], name='G_%s'%bl))
                else:
                    GFlist.append(Gf(mesh=kwargs['mesh'], target_shape=[], name='G_%s'%bl))
""", """                shape = [bl_size]*kwargs['target_rank'] if bl_size > 0 and kwargs['target_rank'] > 0 else []
                GFlist.append(Gf(mesh=kwargs['mesh'], target_shape=shape, name='G_%s'%bl))
""")]),
('init static helper', 'C29', [(B, """                if bl_size > 0 and kwargs['target_rank'] > 0:
                    GFlist.append(Gf(mesh=kwargs['mesh'], target_shape=[bl_size]*kwargs['target_rank'], name='G_%s'%bl))
                else:
                    GFlist.append(Gf(mesh=kwargs['mesh'], target_shape=[], name='G_%s'%bl))
""", """                GFlist.append(_make_block(kwargs['mesh'], bl, bl_size, kwargs['target_rank']))
"""), (B, "class BlockGf:\n", """def _make_block(mesh, bl, bl_size, rank):
    shape = []
    if bl_size > 0 and rank > 0:
        shape = [bl_size]*rank
    return Gf(mesh=mesh, target_shape=shape, name='G_%s'%bl)

class BlockGf:
""")]),
('init table comp', 'C29', [(B, "dict( (i,n) for n,i in enumerate(self.__indices) ) #", "{i: n for n, i in enumerate(self.__indices)} #")]),
('init keys var', 'C29', [(B, "        if set(kwargs.keys()) == set(['name_list','block_list','make_copies']):", "        keys = set(kwargs)\n        if keys == {'name_list','block_list','make_copies'}:"), (B, "        elif set(kwargs.keys()) == set(['mesh','gf_struct','target_rank']):", "        elif keys == {'mesh','gf_struct','target_rank'}:"), (B, "        elif set(kwargs.keys()) == set(['name_block_generator','make_copies']):", "        elif keys == {'name_block_generator','make_copies'}:")]),
('init copies loop', 'C29', [(B, "        if kwargs.get('make_copies', False): GFlist = [g.copy() for g in GFlist]", "        if kwargs.get('make_copies', False):\n            copied = []\n            for g in GFlist:\n                copied.append(g.copy())\n            GFlist = copied")]),
('init all types', 'C29', [(B, "len(set([ type(g) for g in GFlist])) != 1", "len({type(g) for g in GFlist}) != 1")]),
('init rename if', 'C29', [(B, """            for i,g in self: g.name = "%s_%s"%(str(self.name),i) if self.name else '%s'%(i,)
        del""", """            for i,g in self:
                if self.name:
                    g.name = "%s_%s"%(str(self.name),i)
                else:
                    g.name = '%s'%(i,)
        del""")]),
('init rename zip', 'C29', [(B, """            for i,g in self: g.name = "%s_%s"%(str(self.name),i) if self.name else '%s'%(i,)
        del""", """            for i,g in zip(self.__indices, self.__GFlist):
                g.name = "%s_%s"%(str(self.name),i) if self.name else '%s'%(i,)
        del""")]),
('init rename prefix', 'C29', [(B, """            for i,g in self: g.name = "%s_%s"%(str(self.name),i) if self.name else '%s'%(i,)
        del""", """            prefix = "%s_" % str(self.name) if self.name else ''
            for i,g in self: g.name = prefix + '%s'%(i,)
        del""")]),
('copy locals', 'C29', [(B, "       return self.__class__ (name_list = self.__indices[:], block_list = [ g.copy(*args) for g in self.__GFlist],make_copies=False)", "       names = self.__indices[:]\n       blocks = [block.copy(*args) for block in self.__GFlist]\n       return self.__class__(block_list=blocks, name_list=names, make_copies=False)")]),
('selected helper', 'C29', [(B, """        for b in selected_blocks: assert b in self.__indices,"Selected Blocks must be existing blocks"
        return self.__class__ ( name_block_generator = [(n,g) for n,g in self if n in selected_blocks ],make_copies=False)
""", """        return self._select(selected_blocks, False)

    def _select(self, selected_blocks, make_copies):
        for b in selected_blocks: assert b in self.__indices,"Selected Blocks must be existing blocks"
        return self.__class__ ( name_block_generator = [(n,g) for n,g in self if n in selected_blocks ],make_copies=make_copies)
"""), (B, """        for b in selected_blocks: assert b in self.__indices,"Selected Blocks must be existing blocks"
        return self.__class__ ( name_block_generator = [(n,g) for n,g in self if n in selected_blocks ],make_copies=True)
""", "        return self._select(selected_blocks, True)\n")]),
('selected loop', 'C29', [(B, """        return self.__class__ ( name_block_generator = [(n,g) for n,g in self if n in selected_blocks ],make_copies=True)
""", """        pairs = []
        for n, g in self:
            if n not in selected_blocks:
                continue
            pairs.append((n, g))
        return self.__class__(name_block_generator=pairs, make_copies=True)
""")]),
('selected all assert', 'C29', [(B, """        for b in selected_blocks: assert b in self.__indices,"Selected Blocks must be existing blocks"
        return self.__class__ ( name_block_generator = [(n,g) for n,g in self if n in selected_blocks ],make_copies=True)
""", """        assert all(b in self.__indices for b in selected_blocks), "Selected Blocks must be existing blocks"
        return self.__class__ ( name_block_generator = [(n,g) for n,g in self if n in selected_blocks ],make_copies=True)
""")]),
('copy_from slices', 'C29', [(B, "           if  (g.target_shape[0],g.target_shape[1]) != (g2.target_shape[0],g2.target_shape[1]): \n", "           if g.target_shape[0] != g2.target_shape[0] or g.target_shape[1] != g2.target_shape[1]:\n")]),
('indices yield from', 'C29', [(B, """        for ind in self.__indices:
            yield ind
""", """        yield from self.__indices
""")]),
('all_indices product', 'C29', [(B, """          val = g.indices
          for x in val:
              for y in val:
                  yield  (sig,x,y)
""", """          for x in g.indices:
              for y in g.indices:
                  yield  (sig,x,y)
""")]),
('real loop', 'C29', [(B, """        return BlockGf(name_list = self.__indices, block_list = [g.real for g in self.__GFlist], name = ("Re " + self.name) if self.name else '')""", """        name = ''
        if self.name:
            name = "Re " + self.name
        return BlockGf(name_list = self.__indices, block_list = [g.real for g in self.__GFlist], name = name)""")]),
('reduce dict comp', 'C29', [(B, "        d = dict(self)\n        d['block_names'] = list(self.indices)\n        return d", "        d = {name: g for name, g in self}\n        d['block_names'] = list(self.indices)\n        return d")]),
('factory if', 'C29', [(B, """        keys = list(map(str,d.pop('block_names'))) if 'block_names' in d else eval(d.pop('indices'))
""", """        if 'block_names' in d:
            keys = [str(k) for k in d.pop('block_names')]
        else:
            keys = eval(d.pop('indices'))
"""), (B, "        res = cls(name_list = keys, block_list = [d[k] for k in keys], make_copies=False, name=name)\n        return res", "        return cls(name_list = keys, block_list = [d[k] for k in keys], make_copies=False, name=name)")]),
('repr join', 'C29', [(B, """        for i,g in self:
            s += " %s \\n"%repr(g)  #"  Block %s: indices %s \\n"%(i,self[i].indices)
        return s
""", """        return s + "".join(" %s \\n"%repr(g) for i,g in self)
""")]),
('getitem return in try', 'C29', [(B, """            g = self.__me_as_dict[key]
        except KeyError:
            raise IndexError("bloc index '" + repr(key) + "' incorrect. Possible indices are: "+ repr(self.__indices))
        return g
""", """            return self.__me_as_dict[key]
        except KeyError:
            raise IndexError("bloc index '" + repr(key) + "' incorrect. Possible indices are: "+ repr(self.__indices))
""")]),
('setitem getitem', 'C29', [(B, """        try:
            g = self.__me_as_dict[key]
        except KeyError:
            raise IndexError("bloc index '" + repr(key) + "' incorrect. Possible indices are: "+ repr(self.__indices))
        g << val
""", """        g = self[key]
        g << val
""")]),
('setitem else', 'C29', [(B, """        if key == slice(None, None, None): # G[:] = XXX is the same as G << XXX
            self << val
            return
        try:
            g = self.__me_as_dict[key]
        except KeyError:
            raise IndexError("bloc index '" + repr(key) + "' incorrect. Possible indices are: "+ repr(self.__indices))
        g << val
""", """        if key == slice(None, None, None): # G[:] = XXX is the same as G << XXX
            self << val
        else:
            if key not in self.__me_as_dict:
                raise IndexError("bloc index '" + repr(key) + "' incorrect. Possible indices are: "+ repr(self.__indices))
            self.__me_as_dict[key] << val
""")]),
('lshift early', 'C29', [(B, """        if isinstance(A, self.__class__):
            for (i,g) in self: g << A[i]
        elif hasattr""", """        if isinstance(A, self.__class__):
            for name, block in self:
                block << A[name]
            return self
        if hasattr""")]),
('lshift idx', 'C29', [(B, "            for g,a in zip(self.__GFlist, A): g << a\n        else:\n            for g in self.__GFlist: g << A\n", "            for g,a in zip(self.__GFlist, A): g << a\n        else:\n            for _, g in self: g << A\n")]),
('iadd helper', 'C29', [(B, """            assert len(arg) == len(self.__GFlist), "list of incorrect length"
            for l,g in zip(arg,self.__GFlist): g +=l
        else:
            for i,g in self: g += arg
        return self
""", """            self.__check_length(arg)
            for l,g in zip(arg,self.__GFlist): g +=l
        else:
            for i,g in self: g += arg
        return self

    def __check_length(self, arg):
        assert len(arg) == len(self.__GFlist), "list of incorrect length"
""")]),
('isub idx', 'C29', [(B, "            for l,g in zip(arg,self.__GFlist): g -=l", "            for k, l in enumerate(arg):\n                g = self.__GFlist[k]\n                g -= l")]),
('isub setitem', 'C29', [(B, "           for (n,g) in self: self[n] -= arg[n]", "           for n in self.__indices: self[n] -= arg[n]")]),
('rsub', 'C29', [(B, "        c = (-1)*self.copy()\n        c += y\n        return c", "        negated = (-1)*self.copy()\n        negated += y\n        return negated")]),
('imul early', 'C29', [(B, """        if isinstance(arg, BlockGf):
            for (n,g) in self: self[n] *= arg[n]
        else:
            for i,g in self: g *= arg
        return self""", """        if not isinstance(arg, BlockGf):
            for i,g in self: g *= arg
            return self
        for (n,g) in self: self[n] *= arg[n]
        return self""")]),
('mul comp', 'C29', [(B, """            name_list = []
            block_list = []
            for (n,g) in self:
                name_list.append(n)
                block_list.append(self[n] * y[n])
            c = BlockGf(name_list=name_list, block_list=block_list)
        else:
            c = self.copy()
            c *= y
        return c""", """            names = [n for n, g in self]
            return BlockGf(name_list=names, block_list=[self[n] * y[n] for n in names])
        c = self.copy()
        c *= y
        return c""")]),
('mul g', 'C29', [(B, "                block_list.append(self[n] * y[n])", "                block_list.append(g * y[n])")]),
('neg', 'C29', [(B, "        c = self.copy()\n        c *= -1\n        return c", "        res = self.copy()\n        res *= -1\n        return res")]),
('plot temps', 'C29', [(B, "            initial_dict = opt_dict.copy()\n            r += g._plot_(initial_dict)", "            r.extend(g._plot_(opt_dict.copy()))")]),
('plot swap', 'C29', [(B, "        self.name, name_kept = opt_dict.pop('name', self.name), self.name\n", "        name_kept = self.name\n        self.name = opt_dict.pop('name', name_kept)\n")]),
('density comp', 'C29', [(B, "dict( (s,g.density(*args, **kwargs)) for s,g in self )", "{s: g.density(*args, **kwargs) for s, g in self}")]),
('density loop', 'C29', [(B, "        return dict( (s,g.density(*args, **kwargs)) for s,g in self )", "        res = {}\n        for s, g in self:\n            res[s] = g.density(*args, **kwargs)\n        return res")]),
('total loop', 'C29', [(B, "        return sum([ g.total_density(*args, **kwargs)  for i,g in self ])", "        total = 0\n        for _, g in self:\n            total += g.total_density(*args, **kwargs)\n        return total")]),
('total gen', 'C29', [(B, "        return sum([ g.total_density(*args, **kwargs)  for i,g in self ])", "        return sum(g.total_density(*args, **kwargs) for g in self.__GFlist)")]),
('inverse helper', 'C29', [(B, """       return self.__class__( name_block_generator = [ (n, g.inverse()) for n,g in self], make_copies=False)
""", """       return self._map(lambda g: g.inverse())

    def _map(self, fn):
       return self.__class__( name_block_generator = [ (n, fn(g)) for n,g in self], make_copies=False)
""")]),
('mymakestring loop', 'C29', [(B, """        return str(x).replace(' ','').replace('(','').replace(')','').replace("'",'').replace(',','-')""", """        s = str(x)
        for c in (' ', '(', ')', "'"):
            s = s.replace(c, '')
        return s.replace(',','-')""")]),
('load path', 'C29', [(B, """            try:
                g.load( "%s_%s"%(filename,self.__mymakestring(i)))
            except:
                if not(no_exception): raise""", """            path = "%s_%s"%(filename,self.__mymakestring(i))
            try:
                g.load(path)
            except:
                if no_exception: continue
                raise""")]),
# ---- two-index
('b2 checks merge', 'C30', [(B2, """            for bn in name_list:
                try:
                    hash(bn)
                except:
                    raise RuntimeError("%s: block name '%s' is not hashable" % (var_name,bn))
            for bn in name_list:
                assert not str(bn)""", """            for bn in name_list:
                try:
                    hash(bn)
                except:
                    raise RuntimeError("%s: block name '%s' is not hashable" % (var_name,bn))
                assert not str(bn)""")]),
('b2 callable comp', 'C30', [(B2, """            for bn1 in name_list1:
                self.__GFlist.append([])
                for bn2 in name_list2:
                    self.__GFlist[-1].append(block_list(bn1,bn2).copy() if make_copies else block_list(bn1,bn2))
""", """            self.__GFlist = [[block_list(bn1,bn2).copy() if make_copies else block_list(bn1,bn2) for bn2 in name_list2] for bn1 in name_list1]
""")]),
('b2 callable row', 'C30', [(B2, """            for bn1 in name_list1:
                self.__GFlist.append([])
                for bn2 in name_list2:
                    self.__GFlist[-1].append(block_list(bn1,bn2).copy() if make_copies else block_list(bn1,bn2))
""", """            for bn1 in name_list1:
                row = []
                for bn2 in name_list2:
                    g = block_list(bn1,bn2)
                    if make_copies:
                        g = g.copy()
                    row.append(g)
                self.__GFlist.append(row)
""")]),
('b2 types', 'C30', [(B2, "        if len(set([type(g) for g in chain.from_iterable(self.__GFlist)])) != 1:", "        types = {type(g) for row in self.__GFlist for g in row}\n        if len(types) != 1:")]),
('b2 copy loops', 'C30', [(B2, """       return self.__class__(self.__indices1[:], self.__indices2[:],
                             [[g.copy(*args) for g in g_row] for g_row in self.__GFlist], make_copies=False)""", """       blocks = []
       for row in self.__GFlist:
           blocks.append([g.copy(*args) for g in row])
       return self.__class__(self.__indices1[:], self.__indices2[:], blocks, make_copies=False)""")]),
('b2 check helper', 'C30', [(B2, """        for bn in selected_blocks1: assert bn in self.__indices1, "selected_blocks1: selected blocks must be existing blocks"
        for bn in selected_blocks2: assert bn in self.__indices2, "selected_blocks2: selected blocks must be existing blocks"
        return self.__class__ (selected_blocks1, selected_blocks2, lambda bn1, bn2: self[bn1,bn2], make_copies=False)
""", """        self.__check_selection(selected_blocks1, selected_blocks2)
        return self.__class__ (selected_blocks1, selected_blocks2, lambda bn1, bn2: self[bn1,bn2], make_copies=False)

    def __check_selection(self, sel1, sel2):
        for bn in sel1: assert bn in self.__indices1, "selected_blocks1: selected blocks must be existing blocks"
        for bn in sel2: assert bn in self.__indices2, "selected_blocks2: selected blocks must be existing blocks"
""")]),
('b2 lambda def', 'C30', [(B2, """        return self.__class__ (selected_blocks1, selected_blocks2, lambda bn1, bn2: self[bn1,bn2], make_copies=True)
""", """        def get_block(bn1, bn2):
            return self[bn1,bn2]
        return self.__class__ (selected_blocks1, selected_blocks2, get_block, make_copies=True)
""")]),
('b2 indices yield from', 'C30', [(B2, """        for ind in product(self.__indices1, self.__indices2):
            yield ind
""", """        for i1 in self.__indices1:
            for i2 in self.__indices2:
                yield (i1, i2)
""")]),
('b2 iter loops', 'C30', [(B2, "        return len(self.__indices1) * len(self.__indices2)", "        n1, n2 = len(self.__indices1), len(self.__indices2)\n        return n1 * n2")]),
('b2 reduce loop', 'C30', [(B2, """        d = {"%s_%s"%bn : g for bn, g in self}
""", """        d = {}
        for bn, g in self:
            d["%s_%s"%bn] = g
""")]),
('b2 reduce unpack', 'C30', [(B2, """        d = {"%s_%s"%bn : g for bn, g in self}
""", """        d = {"%s_%s" % (bn1, bn2) : g for (bn1, bn2), g in self}
""")]),
('b2 getitem idx', 'C30', [(B2, """            g = self.__GFlist[self.__indices1.index(key[0])][self.__indices2.index(key[1])]
        except ValueError:
            raise IndexError("Block index '" + repr(key) + "' incorrect. Possible indices are: " + repr""", """            i1 = self.__indices1.index(key[0])
            i2 = self.__indices2.index(key[1])
            g = self.__GFlist[i1][i2]
        except ValueError:
            raise IndexError("Block index '" + repr(key) + "' incorrect. Possible indices are: " + repr""")]),
('b2 setitem get', 'C30', [(B2, """        try:
            g = self.__GFlist[self.__indices1.index(key[0])][self.__indices2.index(key[1])]
        except ValueError:
            raise IndexError("Block index '" + repr(key) + "' incorrect. Possible indices are: "+ repr(list(product(self.__indices1,self.__indices2))))
        g << val
""", """        self.__getitem__(key) << val
""")]),
('b2 mul comp', 'C30', [(B2, """            block_list = []
            for i1, name1 in enumerate(self.__indices1):
                block_list.append([])
                for i2, name2 in enumerate(self.__indices2):
                    block_list[i1].append(self[(name1, name2)] * y[(name1, name2)])
""", """            block_list = [[self[(name1, name2)] * y[(name1, name2)] for name2 in self.__indices2] for name1 in self.__indices1]
""")]),
('b2 mul row', 'C30', [(B2, """            block_list = []
            for i1, name1 in enumerate(self.__indices1):
                block_list.append([])
                for i2, name2 in enumerate(self.__indices2):
                    block_list[i1].append(self[(name1, name2)] * y[(name1, name2)])
""", """            block_list = []
            for name1 in self.__indices1:
                row = []
                for name2 in self.__indices2:
                    row.append(self[name1, name2] * y[name1, name2])
                block_list.append(row)
""")]),
('b2 iadd', 'C30', [(B2, "            for bn, g in self: self[bn] += arg[bn]\n        elif", "            for bn in product(self.__indices1, self.__indices2): self[bn] += arg[bn]\n        elif")]),
('b2 all_indices', 'C30', [(B2, """            for i in product(*list(map(range, target_shape))):
                yield (sig[0],sig[1]) + i""", """            ranges = [range(n) for n in target_shape]
            for i in product(*ranges):
                yield (sig[0],sig[1]) + i""")]),
('b2 plot', 'C30', [(B2, "        for dic in r:\n           dic['ylabel'] = ylabel # replace the ylabel of the elements to a single ylabel\n", "        for k in range(len(r)):\n           r[k]['ylabel'] = ylabel\n")]),
('b2 copy_from merged', 'C30', [(B2, "        for (i,g),(i2,g2) in zip(self,G2): g.copy_from(g2)", "        for pair, pair2 in zip(self,G2):\n            pair[1].copy_from(pair2[1])")]),
]
