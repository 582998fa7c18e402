"""Trace-partitioned abstract interpreter over the common IR (C++ dump or Python ast).

Values are canonical terms (terms.py).  Branches partition the trace; loops are abstracted: every
location the body may modify is replaced by a loop symbol (or a recognised closed form), the body is
analysed once for an arbitrary iteration.  Nothing is executed and no path goes to a solver: a
branch is pruned only by interval/atom contradiction of canonical terms.
"""
import time
from fractions import Fraction
import re
from terms import *
import terms as T


class Limit(Exception):
    pass


class State:
    __slots__ = ('heap', 'facts', 'ev', 'env', 'depth', 'iters', 'unk', 'sepoch')

    def __init__(self):
        self.heap = {}
        self.facts = Facts()
        self.ev = ()
        self.env = {}
        self.depth = 0
        self.iters = ()
        self.unk = ()
        self.sepoch = 0

    def copy(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.facts = self.facts
        s.ev = self.ev
        s.env = dict(self.env)
        s.depth = self.depth
        s.iters = self.iters
        s.unk = self.unk
        s.sepoch = self.sepoch
        return s


class Path:
    def __init__(self, st, kind, value, info=None):
        self.st, self.kind, self.value, self.info = st, kind, value, info

    @property
    def facts(self):
        return self.st.facts

    @property
    def ev(self):
        return self.st.ev

    def calls(self, *names):
        return [e for e in self.st.ev if e[0] == 'call' and (not names or e[1] in names)]

    def load(self, loc):
        return Interp.load_in(self.st, loc)

    def cond_text(self):
        return ' && '.join(('' if v else '!') + '(' + show(c) + ')' for c, v, _ in self.st.facts.log) or 'true'


def root(loc):
    while loc[0] in ('fld', 'idx', 'elem', 'deref'):
        loc = loc[1]
    return loc


PURE = set('''is_zero size empty length begin end cbegin cend rbegin rend first second get abs fabs sqrt exp log log2 floor ceil round pow sin cos tan
max_element min_element count find contains has_key has_subgroup has_dataset at front back c_str str real imag conj norm arg is_running
shape extent data capacity is_empty to_string make_pair make_tuple tie distance next prev lower_bound upper_bound hash_value
rank name indexmap lengths strides isnan isfinite isinf lgamma tgamma erf count_seconds numeric_limits epsilon infinity typeid_name demangle
mesh index data_index mesh_hash beta statistic n_iw target_shape what
len range zip enumerate reversed sorted isinstance issubclass hasattr callable type int float complex bool list tuple dict set str repr
keys values items copy join split strip startswith endswith format lower upper upper_bound isclose allclose array asarray zeros ones eye identity empty_like zeros_like
dot transpose conjugate reshape flatten ravel sum prod mean all any max min arange linspace arctan arctan2 sinh cosh tanh __fstr__ iter hash id ord chr divmod
isdigit isreal iscomplex isscalar ndim kron diag trace outer tensordot einsum inv det get_attr set_stub frozenset slice nonzero where concatenate vstack hstack roll product permutations combinations'''.split())

MUTATING = set('push_back emplace_back pop_back clear resize reserve insert erase emplace pop append extend remove update sort reverse push assign swap rebind'.split())

TRANSPARENT = set('move forward ref cref as_const addressof make_const_view make_regular decay_copy'.split())

MAXPATHS = 3000

# console output: never part of a property
QUIET = {'print', 'report'}


_NAMES = {}


def call_names(e):
    """the functions called in a loop, for a quick answer"""
    x = _NAMES.get(id(e))
    if x is not None and x[0] is e:
        return x[1]
    r = set()

    def rec(e):
        if e[0] == 'call':
            r.add(e[1])
        elif e[0] == 'inloop':
            rec(e[1])
        elif e[0] == 'loop':
            for bp in e[2]:
                for y in bp[1]:
                    rec(y)
    rec(e)
    if len(_NAMES) > 20000:
        _NAMES.clear()
    _NAMES[id(e)] = (e, r)
    return r


def calls_in(ev, call):
    """how often at most a path makes this very call"""
    n = 0
    for e in ev:
        while e[0] == 'inloop':
            e = e[1]
        if e[0] == 'call':
            n += e[1] == call[0] and e[2] == call[1] and e[3] == call[2]
        elif e[0] == 'loop' and call[0] in call_names(e):
            n += max([calls_in(bp[1], call) for bp in e[2]] or [0])
    return n


class Interp:
    deadline = None
    def __init__(self, prog, lang='c++', inline=None, pure=None, models=None, depth=6, commutative=None, maxpaths=MAXPATHS,
                 throwing=None, int_all=False, opaque=None, inline_ctor=None, nothrow=None):
        self.prog = prog
        self.lang = lang
        self.maxdepth = depth
        self.inline = inline            # predicate(fdecl)->bool
        self.pure = PURE | set(pure or ())
        self.models = dict(models or {})
        self.frame = 0
        self.n = 0
        self.throws = [[]]
        self.maxpaths = maxpaths
        self.steps = 0
        self.lams = []
        self.throwing = throwing        # predicate(name) for may-throw externs
        self.comm = (lang == 'c++') if commutative is None else commutative
        self.int_all = int_all
        self.opaque = set(opaque or ())
        self.nothrow = set(nothrow or ())
        self.stack = []
        self.analysed = set()
        self.loopdepth = 0
        self.inline_ctor = inline_ctor
        self.lvsize = {}
        self.lvpoint = {}
        self.lvstr = set()
        self.lvlit = set()
        self.lvlist = set()
        self.lvset = set()
        self._clo = {}
        self.curfile = None

    # ---------------------------------------------------------------- utils
    def fresh(self):
        self.n += 1
        return self.n

    def unk(self, why):
        return ('unk', why)

    def tick(self):
        self.steps += 1
        if self.steps > 400000:
            raise Limit('steps')
        if self.steps % 64 == 0 and self.deadline and time.time() > self.deadline:
            raise Limit('time')

    # ---------------------------------------------------------------- heap
    @staticmethod
    def load_in(st, loc):
        return Interp._load(st, loc)

    @staticmethod
    def _distinct(i, j):
        d = sub(i, j) if i[0] not in NONNUM and j[0] not in NONNUM else None
        if d is None:
            return i != j if (i[0] == 'str' and j[0] == 'str') else None
        if d[0] == 'num':
            return d[1] != 0
        return None

    @staticmethod
    def _load(st, loc):
        h = st.heap
        if loc in h:
            v = h[loc]
            # snapshot descendants
            desc = None
            for k in h:
                if k[0] in ('fld', 'idx') and k[1] == loc:
                    desc = desc or []
                    desc.append(k)
            if desc:
                return ('struct', v, tuple(sorted(((k[0], k[2], Interp._load(st, k)) for k in desc), key=repr)))
            return v
        if loc[0] in ('fld', 'idx', 'elem'):
            par = loc[1]
            if loc[0] == 'idx':
                for k in h:
                    if k[0] == 'idx' and k[1] == par and k[2] != loc[2]:
                        d = Interp._distinct(k[2], loc[2])
                        if d is None:
                            f = st.facts.value(cmp_term('==', k[2], loc[2]))
                            if f is False:
                                continue
                            if f is True:
                                return h[k]
                            return ('app', 'sel?', loc, ('tup', (k[2], h[k])))
            if Interp._anc(st, par):
                return project(Interp._load(st, par), loc[0], loc[2], st)
            desc = None
            for k in h:
                if k[0] in ('fld', 'idx') and k[1] == loc:
                    desc = desc or []
                    desc.append(k)
            if desc:
                return ('struct', loc, tuple(sorted(((k[0], k[2], Interp._load(st, k)) for k in desc), key=repr)))
            return loc
        desc = None
        for k in h:
            if k[0] in ('fld', 'idx') and k[1] == loc:
                desc = desc or []
                desc.append(k)
        if desc:
            return ('struct', loc, tuple(sorted(((k[0], k[2], Interp._load(st, k)) for k in desc), key=repr)))
        return loc

    @staticmethod
    def _anc(st, loc):
        while True:
            if loc in st.heap:
                return True
            if loc[0] in ('fld', 'idx', 'elem'):
                loc = loc[1]
            else:
                return False

    def load(self, st, loc):
        return self._load(st, loc)

    def store(self, st, loc, val, line=None, op='='):
        h = st.heap
        if loc[0] == 'res' and self.lang == 'c++' and loc[2] == '()' and root(loc[3])[0] in ('loc', 'cap', 'sym', 'glob'):
            # assignment through what an access returned: the accessed object is changed
            o = loc[3]
            self.store_quiet(st, o, ('app', 'upd', self.load(st, o), ('tup', loc[4]), val))
            if root(o)[0] in ('loc', 'cap'):
                return
            st.ev = st.ev + (('store', loc, val, line),)
            return
        for k in [k for k in h if k != loc and k[0] in ('fld', 'idx') and self._below(k, loc)]:
            del h[k]
        if loc[0] == 'idx':
            for k in [k for k in h if k[0] == 'idx' and k[1] == loc[1] and k != loc]:
                if not self._distinct(k[2], loc[2]):
                    h[k] = ('app', 'maybe', h[k], loc[2], val)
        h[loc] = val
        r = root(loc)
        if r[0] not in ('loc',):
            st.ev = st.ev + (('store', loc, val, line),)

    @staticmethod
    def _below(k, loc):
        while k[0] in ('fld', 'idx', 'elem'):
            k = k[1]
            if k == loc:
                return True
        return False

    def havoc(self, st, loc, tag):
        self.store_quiet(st, loc, ('hv', tag, loc))

    def store_quiet(self, st, loc, val):
        h = st.heap
        for k in [k for k in h if k != loc and k[0] in ('fld', 'idx') and self._below(k, loc)]:
            del h[k]
        h[loc] = val

    # ---------------------------------------------------------------- branching
    def branch(self, st, c, line=None):
        """-> list of (bool, state)"""
        c = self.truth(c)
        out = []
        if c[0] == 'and':
            # short-circuit expansion
            cur = [st]
            for x in c[1]:
                nxt = []
                for s in cur:
                    for b, s2 in self.branch(s, x, line):
                        if b:
                            nxt.append(s2)
                        else:
                            out.append((False, s2))
                cur = nxt
            return out + [(True, s) for s in cur]
        if c[0] == 'or':
            return [(not b, s) for b, s in self.branch(st, ('and', tuple(mk_not(x) for x in c[1])), line)]
        if c[0] == 'not':
            return [(not b, s) for b, s in self.branch(st, c[1], line)]
        if c[0] == 'ite':
            for b, s in self.branch(st, c[1], line):
                out += self.branch(s, c[2] if b else c[3], line)
            return out
        v = st.facts.value(c)
        if v is not None:
            return [(v, st)]
        for b in (True, False):
            f = st.facts.assume(c, b, line)
            if f is not None:
                s = st.copy()
                s.facts = f
                out.append((b, s))
        self.tick()
        return out

    def truth(self, v):
        if v[0] in ('cmp', 'not', 'and', 'or', 'bool', 'ite', 'forall'):
            return v
        if v[0] == 'num':
            return ('bool', v[1] != 0)
        if v[0] == 'poly':
            return mk_not(cmp_term('==', v, ZERO))
        if v[0] in ('str', 'list', 'tup'):
            return ('bool', len(v[1]) > 0)
        if v[0] == 'none':
            return FALSE
        if v[0] == 'app' and v[1] in ('size', 'len', 'idiv', 'mod', 'bitand', 'bitor', 'xor'):
            return mk_not(cmp_term('==', v, ZERO))
        return v

    # ---------------------------------------------------------------- expressions
    def tcond(self, e, v):
        """truth of a value of the type of expression e"""
        if self.lang == 'c++' and v[0] not in ('cmp', 'not', 'and', 'or', 'bool', 'ite', 'forall', 'num') and e.get('k') in ('var', 'mem', 'call') and self.tparam(e.get('ty')):
            return mk_not(cmp_term('==', v, ZERO))
        return v

    def tparam(self, ty):
        t = bare(ty or '')
        if not re.fullmatch(r'\w+', t):
            return False
        for i in reversed(self.stack):
            f = self.prog.fn(i) if self.prog else None
            if f and t in (f.get('tp') or ()):
                return True
        return False

    def throw(self, st, info):
        self.throws[-1].append((st, info))

    def ev(self, st, e):
        """rvalue: list of (state, value)"""
        self.tick()
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            return [(st, self.unk(k + ':' + str(e.get('why', ''))))]
        return m(st, e)

    def evs(self, st, es):
        cur = [(st, ())]
        for x in es:
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(s, x):
                    nxt.append((s2, vs + (v,)))
            cur = nxt
            if len(cur) > self.maxpaths:
                raise Limit('paths')
        return cur

    def e_int(self, st, e):
        return [(st, num(int(e['v'])))]

    def e_flt(self, st, e):
        try:
            return [(st, num(Fraction(e['v'])))]
        except Exception:
            return [(st, ('app', 'fltlit', ('str', e['v'])))]

    def e_bool(self, st, e):
        return [(st, ('bool', e['v']))]

    def e_str(self, st, e):
        return [(st, ('str', e['v']))]

    def e_null(self, st, e):
        return [(st, NONE)]

    def e_this(self, st, e):
        return [(st, st.env.get('this', ('sym', 'this')))]

    def e_enum(self, st, e):
        q = e['q']
        return [(st, ('enum', q) if False else num(int(e['v'])))]

    def e_defarg(self, st, e):
        return self.ev(st, e['e'])

    def e_fref(self, st, e):
        return [(st, ('fn', e.get('fid'), e['q']))]

    def e_dref(self, st, e):
        c = e.get('cands') or []
        return [(st, ('fn', c[0] if len(c) == 1 else None, e['n']) if c else ('sym', e['n']))]

    def e_sizeofpack(self, st, e):
        return [(st, ('app', 'size', ('sym', 'pack:' + e['n'])))]

    def e_sizeof(self, st, e):
        return [(st, ('app', 'sizeof', ('str', e['t'])))]

    def targ(self, st, a):
        """a template argument: an expression or a type"""
        if isinstance(a, dict):
            return self.ev(st, a)
        try:
            return [(st, num(int(a)))]
        except ValueError:
            return [(st, ('sym', a))]

    def targs(self, st, e):
        cur = [(st, ())]
        for a in e.get('ta') or []:
            cur = [(s2, vs + (v,)) for s, vs in cur for s2, v in self.targ(s, a)]
        return cur

    def e_concept(self, st, e):
        return [(st, ('app', 'concept', ('str', e['n']), ('str', ','.join(e['ta']))))]

    def e_unk(self, st, e):
        return [(st, self.unk(e.get('why')))]

    def e_typeid(self, st, e):
        return [(st, ('app', 'typeid'))]

    def e_pack(self, st, e):
        return [(s, ('app', 'pack', v)) for s, v in self.ev(st, e['e'])]

    def e_fold(self, st, e):
        # (init op ... op pattern)
        res = []
        n0 = len(st.ev)
        for s, v in self.ev(st, e['e']):
            pat = s.ev[n0:]
            s2 = s
            if pat:
                s2 = s.copy()
                s2.ev = st.ev + (('fold', e['op'], pat, v, bool(e.get('right')), e.get('ln')),)
            if e.get('init'):
                for s3, i in self.ev(s2, e['init']):
                    res.append((s3, ('app', 'fold', ('str', e['op']), v, i)))
            else:
                res.append((s2, ('app', 'fold', ('str', e['op']), v)))
        return res

    def e_throw(self, st, e):
        if e['e'] is None:
            self.throw(st, ('rethrow', None, e.get('ln')))
            return []
        for s, v in self.ev(st, e['e']):
            self.throw(s, (exc_type(e, v), v, e.get('ln')))
        return []

    def e_lambda(self, st, e):
        caps = {}
        st2 = st
        for c in e['caps']:
            if c.get('this'):
                continue
            if 'id' not in c:
                continue
            if c.get('byref') and 'init' not in c:
                if c['id'] in st.env:
                    caps[c['id']] = ('ref', st.env[c['id']])
            elif c.get('init'):
                r = self.ev(st2, c['init'])
                if r:
                    st2, v = r[0]
                    caps[c['id']] = ('val', v)
            else:
                if c['id'] in st.env:
                    caps[c['id']] = ('val', self.load(st, st.env[c['id']]))
        if e.get('defcap'):
            # implicit captures of a dependent body are not listed by the front end
            if '_vars' not in e:
                e['_vars'] = set(var_ids(e['body'], []))
            for n in e['_vars']:
                if n not in caps and n in st.env:
                    caps[n] = ('ref', st.env[n]) if e['defcap'] == '&' else ('val', self.load(st, st.env[n]))
        if e.get('pycap'):
            # python closure: captures by reference everything visible
            for k, v in st.env.items():
                caps.setdefault(k, ('ref', v))
        self.lams.append((e, caps, st.env.get('this', ('sym', 'this')), st))
        return [(st2, ('lam', len(self.lams) - 1))]

    def e_cond(self, st, e):
        out = []
        for s, c in self.ev(st, e['c']):
            for b, s2 in self.branch(s, self.tcond(e['c'], c), e.get('ln')):
                out += self.ev(s2, e['t'] if b else e['f'])
        return out

    def e_cast(self, st, e):
        out = []
        if e.get('ck') == 'ArrayToPointerDecay':
            return [(s, ('ptr', l) if l[0] not in NONNUM else l) for s, l in self.lv(st, e['e'])]
        for s, v in self.ev(st, e['e']):
            ck = e.get('ck')
            if ck == 'FloatingToIntegral':
                if v[0] == 'num':
                    f = v[1]
                    v = num(int(f))
                else:
                    v = ('app', 'trunc', v)
            elif ck in ('IntegralToBoolean', 'FloatingToBoolean'):
                v = mk_not(cmp_term('==', v, ZERO)) if v[0] != 'bool' else v
            elif ck == 'PointerToBoolean':
                v = ('bool', False) if v == NONE else mk_not(cmp_term('==', v, NONE))
            elif ck == 'Dependent' and e.get('exp'):
                t = e.get('ty', '')
                if t in ('int', 'long', 'size_t', 'unsigned int', 'unsigned long'):
                    v = ('app', 'trunc', v) if v[0] != 'num' else num(int(v[1]))
            elif ck == 'IntegralCast':
                if self.narrow_hook is not None:
                    v = self.narrow_hook(s, e, v)
                else:
                    a, b = WIDTH.get(bare(e.get('cty') or e.get('ty'))), WIDTH.get(bare(e.get('from')))
                    if a and b and a < b:
                        if v[0] == 'num':
                            v = num(int(v[1]) % (1 << a)) if not (-(1 << a - 1) <= v[1] < (1 << a)) else v
                        else:
                            v = ('app', 'wrap%d' % a, v)
            elif ck == 'FloatingCast' and bare(e.get('cty') or e.get('ty')) == 'float' and v[0] != 'num':
                v = ('app', 'f32', v)
            out.append((s, v))
        return out

    narrow_hook = None

    def e_copy(self, st, e):
        return self.ev(st, e['e'])

    def e_ilist(self, st, e):
        if len(e['a']) == 1 and 'fields' not in e and self.lang == 'c++' and not e.get('ty', '').startswith('std::initializer'):
            pass
        out = []
        for s, vs in self.evs(st, e['a']):
            if e.get('fields') and len(e['fields']) == len(vs):
                out.append((s, ('struct', ('new', e.get('q', e.get('ty')), (), 0), tuple(sorted((('fld', f, v) for f, v in zip(e['fields'], vs)), key=repr)))))
            else:
                out.append((s, ('tup', vs)))
        return out

    e_plist = e_ilist

    def e_tuple(self, st, e):
        return [(s, (e.get('kind', 'tup'), vs)) for s, vs in self.evs(st, e['a'])]

    def e_ctor(self, st, e):
        ty = e['ty']
        base = re.sub(r'^(const )?(class |struct )?', '', ty)
        out = []
        for s, vs in self.evs(st, e['a']):
            f = self.prog.fn(e.get('fid')) if self.prog else None
            name = e.get('q') or base
            short = name.split('::')[-1].split('<')[0]
            if base.endswith(('int', 'long', 'double', 'bool', 'float', 'size_t', 'dcomplex', 'char')) or base.startswith('std::complex'):
                if not vs:
                    out.append((s, FALSE if base.endswith('bool') else ZERO))
                    continue
                if len(vs) == 1:
                    out.append((s, vs[0]))
                    continue
                if len(vs) == 2:
                    out.append((s, vs[0] if vs[1] == ZERO else ('app', 'complex', *vs)))
                    continue
            if short in ('pair', 'tuple'):
                out.append((s, ('tup', vs)))
                continue
            if short == 'basic_string' and len(vs) >= 1 and vs[0][0] == 'str':
                out.append((s, vs[0]))
                continue
            if short in ('function', 'optional', 'reference_wrapper', 'move_only_function') and len(vs) == 1:
                out.append((s, vs[0]))
                continue
            h = self.models.get('ctor:' + short)
            if h:
                r = h(self, s, e, vs)
                if r is not None:
                    out += r
                    continue
            if f and 'body' in f and self.want_inline(f, s):
                out += self.construct(s, f, vs, name)
                continue
            if f is None and self.tparam(base) and (not vs or vs == (('tup', ()),)):
                out.append((s, ZERO))
                continue
            if e.get('dep') and f is None and len(vs) == 1 and vs[0][0] == 'num' and not e.get('list') and re.fullmatch(r'\w+', base) and not e.get('ta'):
                # a number written in an unknown scalar type
                out.append((s, vs[0]))
                continue
            if e.get('ta'):
                for s2, ts in self.targs(s, e):
                    out.append((s2, ('new', short, vs + (('app', 'targs', *ts),), 0)))
                continue
            out.append((s, ('new', short, vs, 0)))
        return out

    def construct(self, st, f, vs, name, this=None):
        loc = this or ('loc', self.fresh(), 'tmp:' + name.split('::')[-1])
        out = []
        for s, kind, v, info in self.call_fn(st, f, loc, vs):
            if kind == 'ret':
                out.append((s, ('new', name.split('::')[-1], (), 0) if not any(True for k in s.heap if root(k) == loc) else self._retag(self.load(s, loc), name)))
        return out

    @staticmethod
    def _retag(v, name):
        if v[0] == 'struct':
            return ('struct', ('new', name.split('::')[-1], (), 0), v[2])
        return v

    def e_new(self, st, e):
        if e.get('init'):
            return [(s, ('new', 'heap:' + e['ty'], (v,), 0)) for s, v in self.ev(st, e['init'])]
        return [(st, ('new', 'heap:' + e['ty'], (), 0))]

    def e_delete(self, st, e):
        out = []
        for s, v in self.ev(st, e['e']):
            s = s.copy()
            s.ev = s.ev + (('call', 'delete', None, (v,), e.get('ln')),)
            out.append((s, NONE))
        return out

    def e_stmtexpr(self, st, e):
        return [(s, self.unk('stmtexpr')) for s, c in self.ex(st, e['b']) if c is None]

    def e_arrow(self, st, e):
        return self.ev(st, e['e'])

    # ---- lvalues
    def lv(self, st, e):
        """list of (state, location)"""
        k = e['k']
        if k == 'var':
            if e['id'] in st.env:
                return [(st, st.env[e['id']])]
            if e.get('g'):
                return [(st, ('glob', e.get('q') or e['n']))]
            if e.get('nttp'):
                return [(st, ('sym', e['n']))]
            return [(st, ('glob', e['n']))]
        if k == 'mem':
            if e.get('g'):
                return [(st, ('glob', e['q']))]
            out = []
            if e.get('arrow') or self.lang == 'py':
                bs = self.ev(st, e['o'])
            else:
                bs = self.lv(st, e['o'])
            for s, b in bs:
                if b[0] == 'ref':
                    b = b[1]
                if e.get('arrow') and b[0] == 'app' and self.lang == 'c++':
                    b = ('deref', b)
                if b[0] == 'deref' and self.lang == 'c++' and e['f'] in ('first', 'second'):
                    out.append((s, ('idx', b, ZERO if e['f'] == 'first' else ONE)))
                    continue
                out.append((s, ('fld', b, e['f'])))
            return out
        if k == 'this':
            return [(st, st.env.get('this', ('sym', 'this')))]
        if k == 'idx':
            out = []
            bs = self.lv(st, e['o']) if self.lang == 'c++' else self.ev(st, e['o'])
            for s, b in bs:
                for s2, i in self.ev(s, e['i']) if e['i'] else [(s, NONE)]:
                    out.append((s2, self.mkidx(s2, b, i)))
            return out
        if k == 'un' and e['op'] == '*':
            x = iter_at(e['e']) if self.lang == 'c++' else None
            if x is not None:
                out = []
                for s, b in self.lv(st, x[0]):
                    for s2, i in self.ev(s, x[2]) if x[2] is not None else [(s, ZERO)]:
                        out.append((s2, ('idx', b, add(i, ZERO) if x[1] == 'begin' else sub(sub(self.size_of(s2, b), ONE), i) if x[1] == 'rbegin' else sub(self.size_of(s2, b), i))))
                return out
            stepped = e['e'].get('k') == 'un' and e['e'].get('op') in ('++', '--')
            return [(s, ('deref', v) if stepped and v[0] == 'fld' else at_ptr(v)) for s, v in self.ev(st, e['e'])] if self.lang == 'c++' and not e.get('ov') else [(s, ('deref', v)) for s, v in self.ev(st, e['e'])]
        if k == 'un' and e['op'] in ('++', '--') and not e.get('post'):
            r = self.ev(st, e)
            out = []
            for s, _ in r:
                out += self.lv(s, e['e'])
            return out
        if k == 'asg':
            out = []
            for s, _ in self.ev(st, e):
                out += self.lv(s, e['l'])
            return out
        if k in ('cast', 'copy', 'arrow', 'defarg'):
            return self.lv(st, e['e'])
        if k == 'cond':
            out = []
            for s, c in self.ev(st, e['c']):
                for b, s2 in self.branch(s, c, e.get('ln')):
                    out += self.lv(s2, e['t'] if b else e['f'])
            return out
        if k == 'call' and e.get('f') in TRANSPARENT and len(e['a']) == 1:
            return self.lv(st, e['a'][0])
        if k == 'call' and e.get('f') in ('at',) and 'o' in e and len(e['a']) == 1:
            return self.lv(st, {'k': 'idx', 'o': e['o'], 'i': e['a'][0]})
        if k == 'call' and e.get('f') in ('value', 'get') and 'o' in e and not e['a'] and e.get('f') == 'value':
            return self.lv(st, e['o'])
        if k == 'call' and e.get('f') == 'get' and e.get('ta') and len(e['a']) == 1:
            out = []
            for s, b in self.lv(st, e['a'][0]):
                for s2, i in self.targ(s, e['ta'][0]):
                    out.append((s2, ('idx', b, i)))
            return out
        if k == 'call' and e.get('f') in ('front', 'back') and 'o' in e and not e['a']:
            out = []
            for s, b in self.lv(st, e['o']):
                i = ZERO if e['f'] == 'front' else sub(self.size_of(s, b), ONE)
                out.append((s, ('idx', b, i)))
            return out
        # value
        out = []
        for s, v in self.ev(st, e):
            if v[0] == 'ref':
                out.append((s, v[1]))
            else:
                out.append((s, v))
        return out

    def mkidx(self, st, b, i):
        if b[0] == 'loc' and self.lang == 'c++':
            v = st.heap.get(b)          # a local pointer into an array
            if v is not None and v[0] in ('ptr', 'poly') and i[0] not in NONNUM:
                l = at_ptr(add(v, i))
                if l[0] == 'idx':
                    return l
        return ('idx', b, i)

    def size_of(self, st, loc):
        v = self.load(st, loc)
        while v[0] == 'app' and v[1] == 'upd':
            v = v[2]
        if v in self.lvsize:
            return self.lvsize[v]
        return size_term(v)

    def rd(self, st, locs):
        out = []
        for s, l in locs:
            out.append((s, self.deref_val(self.load(s, l))))
        return out

    def deref_val(self, v):
        return v[1] if v[0] == 'refval' else v

    def e_var(self, st, e):
        if self.lang == 'py':
            return self.py_name(st, e)
        out = []
        for s, l in self.lv(st, e):
            k = self.const_of(s, l[1]) if l[0] == 'glob' and l not in s.heap else None
            out.append((s, k if k is not None else self.deref_val(self.load(s, l))))
        return out

    def const_of(self, st, q):
        """the value of a constant of namespace or class scope whose initialiser is a number"""
        tab = getattr(self.prog, 'consts', None)
        if tab is None:
            tab = self.prog.consts = {}
            for v in self.prog.vars:
                t = v.get('cty') or ''
                if t.startswith('const ') and '*' not in t and v.get('init') and scalar_type(t):
                    tab[v['q']] = v['init'] if v['q'] not in tab else None
        i = tab.get(q)
        if i is None:
            return None
        if i.get('k') == 'known':
            return i['v']
        tab[q] = None
        r = self.ev(st, i)
        v = r[0][1] if len(r) == 1 else None
        if v is not None and v[0] in ('num', 'bool'):
            tab[q] = {'k': 'known', 'v': v}
            return v
        return None

    def e_mem(self, st, e):
        if self.lang == 'py':
            return self.py_attr(st, e)
        if e.get('method') or e['o']['k'] not in ('var', 'mem', 'this', 'idx', 'un', 'call', 'callv', 'arrow', 'cast', 'copy', 'cond', 'ctor', 'ilist', 'bin', 'asg', 'stmtexpr', 'defarg', 'unk', 'dref', 'fref', 'lambda', 'tuple', 'str'):
            return [(st, self.unk('mem'))]
        out = []
        for s, l in self.lv(st, e):
            if l[0] == 'fld' and l[1][0] in ('struct', 'new', 'tup', 'app', 'res', 'hv') and l not in s.heap and not self._anc(s, l[1]):
                out.append((s, project(l[1], 'fld', l[2], s)))
            else:
                out.append((s, self.load(s, l)))
        return out

    def e_idx(self, st, e):
        if self.lang == 'py':
            return self.py_idx(st, e)
        out = []
        for s, l in self.lv(st, e):
            if l[1][0] in ('tup', 'list', 'struct', 'app', 'new') and l not in s.heap and not self._anc(s, l[1]):
                out.append((s, project(l[1], 'idx', l[2], s)))
            else:
                out.append((s, self.load(s, l)))
        return out

    def e_un(self, st, e):
        op = e['op']
        if op in ('++', '--'):
            out = []
            for s, l in self.lv(st, e['e']):
                v = self.load(s, l)
                nv = add(v, ONE) if op == '++' else sub(v, ONE)
                s = s.copy()
                self.store(s, l, nv, e.get('ln'))
                out.append((s, v if e.get('post') else nv))
            return out
        if op == '&':
            return self.lv(st, e['e'])
        if op == '*':
            if self.lang == 'c++' and iter_at(e['e']) is not None:
                return self.rd(st, self.lv(st, e))
            out = []
            for s, v in self.ev(st, e['e']):
                if v[0] == 'lam':
                    out.append((s, v))
                    continue
                v = at_ptr(v)
                if v[0] == 'fld' and e['e'].get('k') == 'un' and e['e'].get('op') in ('++', '--'):
                    out.append((s, v))          # what the member pointed to before it was stepped
                    continue
                if v[0] in ('sym', 'loc', 'fld', 'idx', 'glob', 'elem'):
                    out.append((s, self.load(s, v)))
                else:
                    out.append((s, ('deref', v)))
            return out
        out = []
        for s, v in self.ev(st, e['e']):
            if op == '-':
                out.append((s, neg(v) if v[0] not in NONNUM else ('app', 'neg', v)))
            elif op == '+':
                out.append((s, v))
            elif op == '!':
                out.append((s, mk_not(self.truth(self.tcond(e['e'], v)))))
            elif op == '~':
                out.append((s, ('app', 'bitnot', v)))
            else:
                out.append((s, ('app', 'un' + op, v)))
        return out

    def isint(self, e):
        a, b = e.get('lt', 'd'), e.get('rt', 'd')
        if self.int_all:
            return True
        def ii(x): return x[0] in 'iu' and x != 'd'
        return ii(a) and ii(b) or ii(a) and b == 'd' or ii(b) and a == 'd'

    def binop(self, op, a, b, e=None):
        e = e or {}
        if op == '+':
            return add(a, b)
        if op == '-':
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            lt, rt = e.get('lt', 'd'), e.get('rt', 'd')
            if lt[0] in 'iu' and rt[0] in 'iu' and self.lang == 'c++':
                return idiv(a, b)
            return div(a, b)
        if op == '//':
            return idiv(a, b)
        if op == '%':
            if a[0] == 'str':
                return ('app', 'strfmt', a, b)
            if is_num(a) and is_num(b) and b[1] != 0 and self.lang == 'c++':
                import math
                return num(math.fmod(int(a[1]), int(b[1])))
            return pymod(a, b)
        if op in ('<', '<=', '>', '>=', '==', '!='):
            if a[0] == 'app' and a[1] == 'op<=>' and b[0] in ('new', 'num'):
                return cmp_term(op, a[2], a[3], False)
            if b[0] == 'app' and b[1] == 'op<=>' and a[0] in ('new', 'num'):
                return cmp_term(op, b[3], b[2], False)
            return cmp_term(op, a, b, self.isint(e))
        if op in ('&', '|', '^'):
            nm = {'&': 'bitand', '|': 'bitor', '^': 'xor'}[op]
            if is_num(a) and is_num(b):
                x, y = int(a[1]), int(b[1])
                return num({'&': x & y, '|': x | y, '^': x ^ y}[op])
            if op == '&' and self.lang == 'c++':
                for x, m, t in ((a, b, e.get('lt', 'd')), (b, a, e.get('rt', 'd'))):
                    if is_num(m) and m[1] > 0 and (int(m[1]) + 1) & int(m[1]) == 0 and t[0] == 'u' and x[0] in ('sym', 'fld', 'loc', 'idx', 'poly', 'lv', 'iv'):
                        return pymod(x, num(m[1] + 1))
            if self.lang == 'c++' and not (a[0] == 'bool' or b[0] == 'bool' or is_cond(a) or is_cond(b)):
                return bitop(nm, a, b)
            if op == '^':
                return ('app', nm, *sorted((a, b), key=repr)) if self.lang == 'c++' else ('app', nm, a, b)
            if a[0] == 'bool' and b[0] == 'bool':
                return ('bool', (a[1] and b[1]) if op == '&' else (a[1] or b[1]))
            if is_cond(a) and is_cond(b):
                return ('and' if op == '&' else 'or', (a, b))
            return ('app', nm, *sorted((a, b), key=repr))
        if op in ('<<', '>>'):
            if is_num(a) and is_num(b) and 0 <= b[1] < 200:
                return num(int(a[1]) << int(b[1]) if op == '<<' else int(a[1]) >> int(b[1]))
            return ('app', 'shl' if op == '<<' else 'shr', a, b)
        if op == '**':
            if is_num(b) and b[1].denominator == 1 and 0 <= b[1] <= 4:
                r = ONE
                for _ in range(int(b[1])):
                    r = mul(r, a)
                return r
            return ('app', 'pow', a, b)
        if op == 'is':
            if a == b:
                return TRUE
            if NONE in (a, b):
                o = b if a == NONE else a
                if o[0] in ('num', 'str', 'bool', 'list', 'tup', 'lam', 'struct', 'poly', 'fn', 'cls', 'new', 'iv') or o[0] == 'lv' and o[2] == ('niter',):
                    return FALSE
                return ('app', 'is', o, NONE)
            x, y = sorted((a, b), key=repr)
            return ('app', 'is', x, y)
        if op == 'is not':
            return mk_not(self.binop('is', a, b))
        if op == 'in':
            if b[0] in ('list', 'tup') and all(x[0] in ('str', 'num', 'none', 'bool') for x in b[1]):
                if a[0] in ('str', 'num', 'none', 'bool'):
                    return ('bool', a in b[1])
                return ('or', tuple(cmp_term('==', a, x) for x in b[1])) if b[1] else FALSE
            return ('app', 'in', a, b)
        if op == 'not in':
            return mk_not(self.binop('in', a, b))
        if op == '@':
            return ('app', 'matmul', a, b)
        return ('app', 'op' + op, a, b)

    def e_bin(self, st, e, disc=False):
        op = e['op']
        if op == '<<' and self.lang == 'c++':
            r = self.to_stream(st, e)
            if r is not None:
                return r
        if disc and e['l']['k'] == 'bin' and e['l']['op'] == op:
            out = []
            for s, a in self.e_bin(st, e['l'], True):
                for s2, b in self.ev(s, e['r']):
                    if e.get('ov') or not self._intlike(e):
                        s2 = s2.copy()
                        s2.ev = s2.ev + (('call', 'operator' + op, a, (b,), e.get('ln')),)
                    out.append((s2, a))
            return out
        if op in ('&&', '||'):
            out = []
            for s, a in self.ev(st, e['l']):
                t = self.truth(self.tcond(e['l'], a))
                # evaluate the right side in the proper branch when it has effects or branches
                for b, s2 in self.branch(s, t, e.get('ln')) if (self.lang == 'c++' or True) else []:
                    if (op == '&&') == b:
                        for s3, v in self.ev(s2, e['r']):
                            out.append((s3, self.truth(self.tcond(e['r'], v)) if self.lang == 'c++' else v))
                    else:
                        out.append((s2, ('bool', b) if self.lang == 'c++' else (a if a[0] not in ('cmp', 'not', 'and', 'or') else ('bool', b))))
            return out
        if op == ',':
            out = []
            for s, _ in self.ev(st, e['l']):
                out += self.ev(s, e['r'])
            return out
        if e.get('ov') or self.lang == 'py':
            r = self.overloaded(st, e)
            if r is not None:
                return r
        out = []
        for s, (a, b) in self.evs(st, [e['l'], e['r']]):
            h = self.models.get('op:' + op)
            if h:
                r = h(self, s, e, a, b)
                if r is not None:
                    out += r
                    continue
            if (op == '<<' or disc and op in ('>>', '&', '|', '^', '%')) and self.lang == 'c++' and (e.get('ov') or not self._intlike(e)):
                s = s.copy()
                s.ev = s.ev + (('call', 'operator' + op, a, (b,), e.get('ln')),)
                out.append((s, a))
                continue
            if op == '+' and e.get('ov') and 'string' in (e.get('ty') or '') + (e.get('t0') or ''):
                out.append((s, strcat(a, b)))
                continue
            out.append((s, self.binop(op, a, b, e)))
        return out

    def to_stream(self, st, e):
        """text sent to a local string stream"""
        ops, x = [], e
        while x.get('k') == 'bin' and x.get('op') == '<<':
            ops.append(x['r'])
            x = x['l']
        if x.get('k') != 'var' or x.get('g') or not is_stream(x.get('ty')):
            return None
        l = st.env.get(x.get('id'))
        if l is None or l[0] != 'loc' or root(l) not in st.heap:
            return None
        cur = [st]
        for o in reversed(ops):
            nxt = []
            for s in cur:
                for s2, v in self.ev(s, o):
                    s2 = s2.copy()
                    t = bare(o.get('ty') or '')
                    if not (v[0] == 'str' or is_string(t) or t in ('char *', 'char') or t.startswith('char[')):
                        v = ('app', 'tostr', v)
                    self.store_quiet(s2, l, strcat(stream_text(self.load(s2, l)), v))
                    nxt.append(s2)
            cur = nxt
        return [(s, self.load(s, l)) for s in cur]

    @staticmethod
    def _intlike(e):
        return e.get('lt', 'd')[0] in 'iu' or (e['l']['k'] in ('int',)) or e.get('rt', 'd')[0] in 'iu' and e.get('lt') != 'o'

    def overloaded(self, st, e):
        """operator resolved to a repo function -> inline"""
        f = self.prog.fn(e.get('fid')) if self.prog else None
        if f is None or 'body' not in f or not self.want_inline(f, st):
            return None
        return self.call_resolved(st, f, e['l'] if 'cls' in f else None, [e['r']] if 'cls' in f else [e['l'], e['r']], e)

    def e_asg(self, st, e):
        op = e['op']
        if e.get('ov') and self.prog:
            f = self.prog.fn(e.get('fid'))
            if f and 'body' in f and self.want_inline(f, st):
                return self.call_resolved(st, f, e['l'], [e['r']], e)
        if self.lang == 'py':
            return self.py_asg(st, e)
        out = []
        for s, v in self.ev(st, e['r']):
            for s2, l in self.lv(s, e['l']):
                s2 = s2.copy()
                if op == '=':
                    nv = v
                    if l[0] == 'app' and l[1] == 'tie' or l[0] == 'tup':
                        items = l[1] if l[0] == 'tup' else l[2:]
                        for i, it in enumerate(items):
                            self.store(s2, it, project(v, 'idx', num(i), s2), e.get('ln'))
                        out.append((s2, v))
                        continue
                else:
                    old = self.load(s2, l)
                    h = self.models.get('opasg:' + op)
                    if h:
                        r = h(self, s2, e, l, old, v)
                        if r is not None:
                            out += r
                            continue
                    if op == '+=' and e.get('ov') and is_string(e['l'].get('ty')):
                        nv = strcat(old, v)
                    elif op == '<<=' and e.get('ov'):
                        nv = ('app', 'op<<=', old, v)
                    else:
                        nv = self.binop(op[:-1], old, v, e)
                    lty = e.get('lty', '')
                    if lty in ('int', 'long', 'unsigned long', 'unsigned int') and e.get('rt') == 'f' and op in ('*=', '/='):
                        nv = ('app', 'trunc', nv)
                self.store(s2, l, nv, e.get('ln'), op)
                out.append((s2, nv))
        return out

    # ---------------------------------------------------------------- calls
    def want_inline(self, f, st):
        if st.depth >= self.maxdepth:
            return False
        if f['id'] in self.stack:
            return False
        if f['name'] in self.opaque or f.get('q') in self.opaque:
            return False
        if self.inline is not None:
            return self.inline(f)
        return True

    def find_fn(self, st, e):
        if not self.prog:
            return None
        f = self.prog.fn(e.get('fid'))
        if f is None and e.get('cands'):
            c = [self.prog.fn(i) for i in e['cands']]
            c = [x for x in c if x and self.arity_ok(x, len(e['a']))]
            if len(c) == 1:
                f = c[0]
        if f is None and e.get('dep') and e.get('o', {}).get('k') == 'this':
            c = self.prog.methods(self.cls, e['f']) if getattr(self, 'cls', None) else []
            c = [x for x in c if self.arity_ok(x, len(e['a']))]
            if len(c) == 1:
                f = c[0]
        if f is None and e.get('dep') and e.get('o', {}).get('k') == 'var' and not getattr(self, 'cls', None):
            # in a friend of the class
            t = re.sub(r'\b(const|class|struct)\b|[&*]|<.*', '', e['o'].get('ty') or '').strip()
            c = [x for x in self.prog.functions if x.get('cls') and x['name'] == e['f'] and t and x['cls'].split('::')[-1] == t.split('::')[-1] and self.arity_ok(x, len(e['a']))]
            if len(c) == 1:
                f = c[0]
        if f is None and getattr(self, 'cls', None) and e.get('o', {}).get('k') == 'var' and not e['o'].get('g'):
            t = re.sub(r'\b(const|class|struct)\b|[&*]|<.*', '', e['o'].get('ty') or '').strip()
            if t and t.split('::')[-1] == self.cls.split('::')[-1]:
                c = [x for x in self.prog.methods(self.cls, e['f']) if self.arity_ok(x, len(e['a']))]
                if len(c) == 1:
                    f = c[0]
        return f

    @staticmethod
    def arity_ok(f, n):
        ps = f['params']
        if any(p.get('pack') for p in ps):
            return n >= len(ps) - 1
        return n <= len(ps) and all('def' in p for p in ps[n:])

    def e_call(self, st, e):
        if self.lang == 'py':
            return self.py_call(st, e)
        if e['f'] == 'operator()' and e.get('o') is not None and e.get('dep'):
            o = e['o']['e'] if e['o'].get('k') == 'arrow' else e['o']
            return self.e_callv(st, {'k': 'callv', 'a': e['a'], 'ln': e.get('ln'), 'ty': e.get('ty'), 'fe': {'k': 'un', 'op': '*', 'e': o, 'ln': e.get('ln'), 'ty': '<dependent type>'} if e.get('arrow') else o})
        f = self.find_fn(st, e)
        name = e['f']
        h = self.models.get(e.get('q') or '') or self.models.get(name)
        if h:
            r = h(self, st, e)
            if r is not None:
                return r
        if f is not None and 'body' in f and self.want_inline(f, st):
            return self.call_resolved(st, f, e.get('o'), e['a'], e)
        r = self.builtin(st, e)
        if r is not None:
            return r
        # calling a field that holds a closure
        if 'o' in e and (e.get('dep') or f is None):
            pass
        return self.extern(st, e, f)

    def builtin(self, st, e):
        name, args = e['f'], e['a']
        if name in TRANSPARENT and len(args) == 1:
            return self.ev(st, args[0])
        if name == 'swap' and len(args) == 2 and 'o' not in e:
            out = []
            for s, a in self.lv(st, args[0]):
                for s2, b in self.lv(s, args[1]):
                    s2 = s2.copy()
                    va, vb = self.load(s2, a), self.load(s2, b)
                    self.store(s2, a, vb, e.get('ln'))
                    self.store(s2, b, va, e.get('ln'))
                    out.append((s2, NONE))
            return out
        if name == 'exchange' and len(args) == 2 and 'o' not in e:
            out = []
            for s, a in self.lv(st, args[0]):
                old = self.load(s, a)
                for s2, v in self.ev(s, args[1]):
                    s2 = s2.copy()
                    self.store(s2, a, v, e.get('ln'))
                    out.append((s2, old))
            return out
        if name in ('min', 'max') and len(args) == 2 and 'o' not in e:
            out = []
            for s, (a, b) in self.evs(st, args):
                for t, s2 in self.branch(s, cmp_term('<', b, a, self.int_all) if name == 'min' else cmp_term('<', a, b, self.int_all)):
                    out.append((s2, b if t else a))
            return out
        if name == 'tie':
            out = [(st, ())]
            for a in args:
                out = [(s2, ls + (l,)) for s, ls in out for s2, l in self.lv(s, a)]
            return [(s, ('tup', ls)) for s, ls in out]
        if name in ('make_tuple', 'make_pair', 'forward_as_tuple'):
            return [(s, ('tup', vs)) for s, vs in self.evs(st, args)]
        if name == 'get' and e.get('ta') and len(args) == 1 and 'o' not in e:
            out = []
            for s, v in self.ev(st, args[0]):
                for s2, i in self.targ(s, e['ta'][0]):
                    out.append((s2, project(v, 'idx', i, s2)))
            return out
        if name in ('push_back', 'append') and 'o' in e and len(args) == 1 and is_string(e['o'].get('ty')):
            out = []
            for s, v in self.ev(st, args[0]):
                for s2, l in self.lv(s, e['o']):
                    s2 = s2.copy()
                    self.store(s2, l, strcat(self.load(s2, l), v), e.get('ln'), '+=')
                    out.append((s2, self.load(s2, l)))
            return out
        if name == 'str' and 'o' in e and not args and is_stream(e['o'].get('ty')):
            return [(s, stream_text(self.load(s, l))) for s, l in self.lv(st, e['o'])]
        if name == 'getline' and 'o' not in e and len(args) == 3 and args[2].get('k') in ('int', 'str', 'char') and str(args[2].get('v')) in ('10', '\n'):
            e = dict(e, a=args[:2], pt=(e.get('pt') or [])[:2])
            return self.extern(st, e)
        if name in ('push_back', 'emplace_back') and 'o' in e and len(args) == 1:
            out = []
            for s, v in self.ev(st, args[0]):
                for s2, l in self.lv(s, e['o']):
                    s2 = s2.copy()
                    cur = self.load(s2, l)
                    nv = append_term(cur, v)
                    self.store_quiet(s2, l, nv)
                    s2.ev = s2.ev + (('append', l, v, e.get('ln')),)
                    out.append((s2, NONE))
            return out
        if name == 'clear' and 'o' in e and not args:
            out = []
            for s2, l in self.lv(st, e['o']):
                s2 = s2.copy()
                self.store_quiet(s2, l, ('list', ()))
                s2.ev = s2.ev + (('store', l, ('list', ()), e.get('ln')),)
                out.append((s2, NONE))
            return out
        if name in ('size', 'ssize', 'length') and ('o' in e and not args or 'o' not in e and len(args) == 1):
            out = []
            tgt = e['o'] if 'o' in e else args[0]
            for s, l in self.lv(st, tgt):
                out.append((s, self.size_of(s, l)))
            return out
        if name == 'empty' and 'o' in e and not args:
            out = []
            for s, l in self.lv(st, e['o']):
                out.append((s, cmp_term('==', self.size_of(s, l), ZERO, True)))
            return out
        if name in ('front', 'back', 'at') and 'o' in e:
            return self.rdp(st, e)
        if name in ('value', 'has_value') and 'o' in e and not args:
            return [(s, v if name == 'value' else ('app', 'truth', v)) for s, v in self.ev(st, e['o'])]
        if name == 'visit' and len(args) == 2:
            pass
        return None

    def rdp(self, st, e):
        out = []
        for s, l in self.lv(st, e):
            if l[0] == 'idx' and l[1][0] in ('tup', 'list', 'struct', 'app', 'new') and not self._anc(s, l):
                out.append((s, project(l[1], 'idx', l[2], s)))
            else:
                out.append((s, self.load(s, l)))
        return out

    def extern(self, st, e, f=None):
        name = e['f']
        out = []
        o = e.get('o')
        pure = name in self.pure or (e.get('const') and name not in MUTATING and False)
        objs = [(st, None)]
        if o is not None:
            objs = self.lv(st, o)
        pts = e.get('pt')
        for s, ol in objs:
            # closure stored in a field?
            if o is not None and o['k'] == 'this' and (e.get('dep') or ('fld', ol, name) in s.heap):
                fl = ('fld', ol, name)
                v = self.load(s, fl)
                if v[0] == 'lam':
                    out += self.call_value(s, v, e['a'], e)
                    continue
            # evaluate args; non-const reference args are passed as locations and havocked
            cur = [(s, (), ())]
            for i, a in enumerate(e['a']):
                nxt = []
                mutref = pts and i < len(pts) and pts[i].endswith('&') and not pts[i].startswith('const') and not pts[i].endswith('&&') and ' const ' not in pts[i]
                for s2, vs, ml in cur:
                    if mutref:
                        for s3, l in self.lv(s2, a):
                            nxt.append((s3, vs + (self.load(s3, l),), ml + ((i, l),)))
                    else:
                        for s3, v in self.ev(s2, a):
                            nxt.append((s3, vs + (v,), ml))
                cur = nxt
            if e.get('ta'):
                cur = [(s3, vs + (('app', 'targs', *ts),), ml) for s2, vs, ml in cur for s3, ts in self.targs(s2, e)]
            for s2, vs, ml in cur:
                ov = None
                if ol is not None:
                    ov = self.load(s2, ol) if pure else ol
                if pure:
                    if name in ('abs', 'fabs') and o is None and len(vs) == 1 and vs[0][0] not in NONNUM:
                        isint = int_type(e['a'][0])
                        if s2.facts.assume(cmp_term('<', vs[0], ZERO, isint), True) is None:
                            out.append((s2, vs[0]))
                            continue
                        if s2.facts.assume(cmp_term('<', ZERO, vs[0], isint), True) is None:
                            out.append((s2, neg(vs[0])))
                            continue
                    out.append((s2, ('app', name) + ((ov,) if ov is not None else ()) + vs))
                    continue
                if name in QUIET and (ol is None or name == 'report'):
                    out.append((s2, NONE))
                    continue
                s2 = s2.copy()
                ptrs_ = []
                for i, a in enumerate(e['a']):
                    if a.get('k') == 'this' or (a.get('k') == 'un' and a.get('op') == '&' and not a.get('ov')):
                        if not (pts and i < len(pts) and pts[i].startswith('const ') and '*' in pts[i]):
                            ptrs_.append((i, vs[i]))
                        if root(vs[i])[0] in ('loc', 'cap'):
                            # the callee sees what the pointed-to local holds now
                            vs = vs[:i] + (('app', 'addr', self.load(s2, vs[i])),) + vs[i + 1:]
                n = self.callno(s2.ev, (name, ol, vs))
                isconst = e.get('const')
                s2.ev = s2.ev + (('call', name, ol, vs, e.get('ln')),)
                res = ('res', n, name, ol if ol is not None else NONE, vs)
                if self.throwing and self.throwing(name, e):
                    f_ = s2.facts.assume(('app', 'raises', res), True)
                    if f_ is not None:
                        t_ = s2.copy()
                        t_.facts = f_
                        self.throw(t_, ('exc:' + name, res, e.get('ln')))
                    f_ = s2.facts.assume(('app', 'raises', res), False)
                    if f_ is not None:
                        s2.facts = f_
                for i, pl in ptrs_:
                    self.store_quiet(s2, pl, ('hv', (name, n), vs[i]))
                for v in vs:
                    if v[0] == 'lam':
                        self.clobber(s2, v[1], (name, n))
                for i, l in ml:
                    self.store_quiet(s2, l, ('out', n, name, num(i), ol if ol is not None else NONE, vs))
                if ol is not None and not isconst and root(ol)[0] in ('loc', 'sym', 'glob') and o['k'] != 'this':
                    self.store_quiet(s2, ol, ('hv', (name, n), self.load(s2, ol)))
                out.append((s2, res))
        return out

    def clobber(self, st, i, tag):
        """locals a closure given away may have changed through its references"""
        le, caps, this, cst = self.lams[i]
        saved = self._clo
        self._clo = {}
        try:
            c = self.closure(i, st, 0)
        finally:
            self._clo = saved
        if c[0] != 'clo':
            return
        used = self.captured(le, caps)
        for k, n in enumerate(used):
            kind, cv = caps[n]
            if kind != 'ref' or root(cv)[0] not in ('loc', 'cap'):
                continue
            me = ('sym', '&0.%d' % k)
            hit = any(root(l) == me for _, t in c[3][1] for l, _ in (x[1] for x in t[1][2][1]))
            if hit:
                self.store_quiet(st, cv, ('hv', tag, self.load(st, cv)))

    @staticmethod
    def captured(le, caps):
        used = []
        for n in var_ids(le['body'], []) + var_ids([p.get('def') for p in le['params']], []):
            if n in caps and n not in used:
                used.append(n)
        return used

    def e_callv(self, st, e):
        """call of a value (variable, member object with operator(), closure)"""
        f = self.prog.fn(e.get('fid')) if self.prog and e.get('fid') else None
        if f is not None and 'body' in f and e.get('ov') and self.want_inline(f, st):
            return self.call_resolved(st, f, e['fe'], e['a'], e)
        out = []
        h = self.models.get('callv')
        for s, l in self.lv(st, e['fe']):
            v = self.load(s, l) if l[0] in ('loc', 'fld', 'idx', 'glob', 'sym', 'elem', 'cap') else l
            if v[0] == 'lam':
                out += self.call_value(s, v, e['a'], e)
                continue
            if v[0] == 'fn':
                fd = self.prog.fn(v[1])
                if fd and 'body' in fd and self.want_inline(fd, s):
                    out += self.call_resolved(s, fd, None, e['a'], e)
                    continue
            if root(l)[0] == 'cap' and v != l:
                l = v
            if l[0] == 'loc' and v[0] == 'new' and self.stateless(v[1]):
                l = v
            if l[0] == 'loc' and v[0] == 'uninit' and '<' in (e['fe'].get('ty') or '') and '::' not in e['fe']['ty'].split('<')[0] and e.get('ty') == '<dependent type>':
                l = self.unk('object of dependent type')
            for s2, vs in self.evs(s, e['a']):
                if h:
                    r = h(self, s2, e, l, v, vs)
                    if r is not None:
                        out += r
                        continue
                s2 = s2.copy()
                n = self.callno(s2.ev, ('()', l, vs))
                if v[0] == 'app' and v[1] == 'recfn':
                    # a function that calls itself: its body is compared as a closure
                    s2.ev = s2.ev + (('call', '()', v, vs, e.get('ln')),)
                    self.clobber(s2, v[2][1], ('()', n))
                    out.append((s2, ('res', n, '()', v, vs)))
                    continue
                s2.ev = s2.ev + (('call', '()', l, vs, e.get('ln')),)
                out.append((s2, ('res', n, '()', l, vs)))
        return out

    def stateless(self, short):
        rs = [r for q, x in self.prog.records.items() if q.split('::')[-1] == short for r in x] if self.prog and getattr(self.prog, 'records', None) else []
        return bool(rs) and not any(r['fields'] or r.get('bases') for r in rs)

    def call_value(self, st, v, argexprs, e, argvals=None):
        le, caps, this, _ = self.lams[v[1]]
        out = []
        cur = self.bind_args(st, le['params'], argexprs) if argvals is None else [(st, argvals)]
        for s, bound in cur:
            s2 = s.copy()
            saved = s2.env
            env = {}
            self.frame += 1
            fr = self.frame
            for cid, (kind, cv) in caps.items():
                if kind == 'ref':
                    env[cid] = cv
                else:
                    loc = ('cap', v[1], cid)
                    env[cid] = loc
                    if loc not in s2.heap:
                        s2.heap[loc] = cv
            env['this'] = this
            self.bind_params(s2, env, le['params'], bound, fr)
            s2.env = env
            s2.depth += 1
            body = le['body']
            self.throws.append([])
            if le.get('expr'):
                rs = [(s3, ('ret', x)) for s3, x in self.ev(s2, body)]
            else:
                rs = self.ex(s2, body)
            th = self.throws.pop()
            for s3, info in th:
                s3 = s3.copy()
                s3.env = saved
                s3.depth -= 1
                self.throw(s3, info)
            for s3, c in rs:
                s3 = s3.copy()
                s3.env = dict(saved)
                s3.depth -= 1
                out.append((s3, c[1] if c and c[0] == 'ret' else NONE))
        return out

    def bind_args(self, st, params, argexprs):
        """-> list of (state, bound) bound: list of ('ref',loc)|('val',v)"""
        cur = [(st, [])]
        n = len(argexprs)
        for i, p in enumerate(params):
            nxt = []
            for s, b in cur:
                if p.get('pack'):
                    vs = self.evs(s, argexprs[i:])
                    for s2, v in vs:
                        if len(v) == 1 and v[0][0] == 'app' and v[0][1] == 'pack':
                            nxt.append((s2, b + [('val', v[0][2])]))
                        else:
                            nxt.append((s2, b + [('val', ('tup', v))]))
                    continue
                if i < n:
                    a = argexprs[i]
                elif 'def' in p:
                    a = p['def']
                else:
                    nxt.append((s, b + [('val', self.unk('missing arg'))]))
                    continue
                if a.get('k') == 'defarg':
                    a = a['e']
                if p.get('ref'):
                    for s2, l in self.lv(s, a):
                        if l[0] in ('loc', 'fld', 'idx', 'glob', 'sym', 'cap', 'elem') :
                            nxt.append((s2, b + [('ref', l)]))
                        else:
                            nxt.append((s2, b + [('val', l)]))
                else:
                    for s2, v in self.ev(s, a):
                        nxt.append((s2, b + [('val', v)]))
            cur = nxt
        return cur

    def bind_params(self, st, env, params, bound, fr):
        for p, b in zip(params, bound):
            if b[0] == 'ref':
                env[p['id']] = b[1]
            else:
                loc = ('loc', fr, p['n'] or '_')
                env[p['id']] = loc
                st.heap[loc] = b[1]

    def call_resolved(self, st, f, oexpr, argexprs, e):
        out = []
        objs = [(st, None)]
        if oexpr is not None and 'cls' in f and not f.get('static'):
            if e.get('arrow'):
                objs = self.ev(st, oexpr)
            else:
                objs = self.lv(st, oexpr)
        for s, this in objs:
            for s2, bound in self.bind_args(s, f['params'], argexprs):
                for s3, kind, v, info in self.call_fn(s2, f, this, None, bound):
                    if kind == 'ret':
                        out.append((s3, v))
        return out

    def call_fn(self, st, f, this, argvals, bound=None):
        """-> list of (state, 'ret', value, None); throws go to the collector"""
        self.analysed.add((f['q'], f.get('file'), f.get('line')))
        s = st.copy()
        saved = s.env
        env = {}
        self.frame += 1
        fr = self.frame
        if this is not None:
            env['this'] = this
        elif f.get('cls') and not f.get('static'):
            env['this'] = saved.get('this', ('sym', 'this'))
        if bound is None:
            bound = [('val', v) for v in argvals]
            for p in f['params'][len(bound):]:
                if 'def' in p:
                    r = self.ev(s, p['def'])
                    bound.append(('val', r[0][1]))
                else:
                    bound.append(('val', self.unk('missing arg')))
        self.bind_params(s, env, f['params'], bound, fr)
        s.env = env
        s.depth += 1
        self.stack.append(f['id'])
        oldcls = getattr(self, 'cls', None)
        if f.get('cls'):
            self.cls = f['cls']
        self.throws.append([])
        try:
            sts = [s]
            if f.get('ctor'):
                sts = self.ctor_inits(s, f, env.get('this'))
            rs = []
            for s1 in sts:
                rs += self.ex(s1, f['body']) if self.lang == 'c++' else self.py_body(s1, f)
        finally:
            self.stack.pop()
            self.cls = oldcls
            th = self.throws.pop()
        for s2, info in th:
            s2 = s2.copy()
            s2.env = saved
            s2.depth -= 1
            self.throw(s2, info)
        out = []
        for s2, c in rs:
            s2 = s2.copy()
            s2.env = dict(saved)
            s2.depth -= 1
            v = NONE
            if c and c[0] == 'ret' and f.get('ret') != 'void':
                v = c[1]
                if v[0] == 'ref' and not self._retref(f):
                    v = v[1]
            out.append((s2, 'ret', v, None))
        return out

    @staticmethod
    def _retref(f):
        return False

    def ctor_inits(self, st, f, this):
        cur = [st]
        done = {i.get('f') for i in f.get('inits', ())}
        rec = self.prog.record(f.get('cls'))
        order = []
        inits = {i.get('f'): i for i in f.get('inits', ()) if 'f' in i}
        if any(i.get('deleg') for i in f.get('inits', ())):
            for i in f['inits']:
                nxt = []
                for s in cur:
                    e = i['e']
                    fd = self.prog.fn(e.get('fid')) if e and e['k'] == 'ctor' else None
                    if fd and 'body' in fd:
                        for s2, bound in self.bind_args(s, fd['params'], e['a']):
                            for s3, k, v, _ in self.call_fn(s2, fd, this, None, bound):
                                nxt.append(s3)
                    else:
                        nxt.append(s)
                cur = nxt
            return cur
        if rec:
            for fd in rec['fields']:
                if fd.get('static'):
                    continue
                n = fd['n']
                if n in inits:
                    order.append((n, inits[n]['e'], inits[n].get('written')))
                elif fd.get('init'):
                    order.append((n, fd['init'], True))
        else:
            order = [(n, i['e'], True) for n, i in inits.items()]
        for n, e, written in order:
            if e is None:
                continue
            nxt = []
            for s in cur:
                if e['k'] == 'ctor' and e.get('deflt') and not written:
                    continue_ok = True
                for s2, v in self.ev(s, e):
                    s2 = s2.copy()
                    if e['k'] in ('plist', 'ilist') and v[0] == 'tup' and len(v[1]) == 1:
                        v = v[1][0]
                    if v == ('tup', ()):
                        v = ('new', 'default', (), 0)
                    self.store_quiet(s2, ('fld', this, n), v)
                    nxt.append(s2)
            if nxt or not cur:
                cur = nxt
        return cur

    # ---------------------------------------------------------------- statements
    def ex(self, st, s):
        """-> list of (state, ctl)  ctl None | ('ret',v) | ('break',) | ('continue',)"""
        self.tick()
        if s is None:
            return [(st, None)]
        return getattr(self, 's_' + s['k'], self.s_unknown)(st, s)

    def s_unknown(self, st, s):
        st = st.copy()
        st.unk = st.unk + ((s['k'], s.get('ln')),)
        st.ev = st.ev + (('unknown', s['k'], s.get('ln')),)
        return [(st, None)]

    def s_block(self, st, s):
        cur = [(st, None)]
        if self.lang == 'c++' and '_wf' not in s:
            s['_wf'] = whilefor(s['b'])
        for x in s['_wf'] if self.lang == 'c++' else s['b']:
            nxt = []
            done = []
            for a, c in cur:
                if c is not None:
                    done.append((a, c))
                else:
                    nxt += self.ex(a, x)
            cur = done + nxt
            if len(cur) > self.maxpaths:
                raise Limit('paths')
        return cur

    s_seq = s_block

    def s_decl(self, st, s):
        self.frame += 1
        loc = ('loc', self.frame, s['n'])
        if s.get('static') and not (s.get('const') or (s.get('cty') or '').startswith('const ')):
            loc = ('glob', 'static:' + s['n'])
        init = s.get('init')
        if s.get('bind'):
            return self.bind_decl(st, s, init)
        if s.get('ref') and init is not None:
            out = []
            for s2, l in self.lv(st, init):
                s2 = s2.copy()
                if l[0] in ('loc', 'fld', 'idx', 'glob', 'sym', 'elem', 'cap'):
                    s2.env[s['id']] = l
                else:
                    s2.env[s['id']] = loc
                    s2.heap[loc] = l
                out.append((s2, None))
            return out
        if s.get('static') and loc in st.heap:
            s2 = st.copy()
            s2.env[s['id']] = loc
            return [(s2, None)]
        if init is None:
            s2 = st.copy()
            s2.env[s['id']] = loc
            s2.heap[loc] = ('uninit', s['n'])
            return [(s2, None)]
        out = []
        if self.lang == 'c++' and '_rec' not in s:
            s['_rec'] = s['id'] in var_ids(init, [])
        rec = self.lang == 'c++' and s['_rec']
        if rec:
            st = st.copy()
            st.env[s['id']] = loc
        for s2, v in self.ev(st, init):
            s2 = s2.copy()
            s2.env[s['id']] = loc
            if rec and v[0] == 'lam':
                v = ('app', 'recfn', v)
            if init['k'] in ('plist', 'ilist') and v[0] == 'tup' and len(v[1]) == 1 and not s.get('cty', '').startswith(('std::vector', 'std::array', 'nda::')):
                v = v[1][0]
            elif init['k'] in ('plist', 'ilist') and v == ('tup', ()):
                v = ZERO if s.get('cty') in ('int', 'long', 'double', 'unsigned long', 'unsigned int') else ('new', 'default', (), 0)
            if v[0] == 'new' and v[1] in ('vector', 'set', 'map', 'basic_string', 'deque', 'list') and not v[2]:
                v = ('list', ()) if v[1] in ('vector', 'deque', 'list') else v
            if v[0] == 'app' and v[1] == 'trunc':
                pass
            s2.heap[loc] = v
            out.append((s2, None))
        return out

    def bind_decl(self, st, s, init):
        out = []
        if s.get('ref'):
            for s2, l in self.lv(st, init):
                s2 = s2.copy()
                for i, b in enumerate(s['bind']):
                    if l[0] == 'tup':
                        lv = l[1][i]
                        if lv[0] in ('loc', 'fld', 'idx', 'glob', 'sym', 'elem'):
                            s2.env[b['id']] = lv
                            continue
                        self.frame += 1
                        loc = ('loc', self.frame, b['n'])
                        s2.env[b['id']] = loc
                        s2.heap[loc] = lv
                    else:
                        s2.env[b['id']] = ('idx', l, num(i))
                out.append((s2, None))
            return out
        for s2, v in self.ev(st, init):
            s2 = s2.copy()
            for i, b in enumerate(s['bind']):
                self.frame += 1
                loc = ('loc', self.frame, b['n'])
                s2.env[b['id']] = loc
                s2.heap[loc] = project(v, 'idx', num(i), s2)
            out.append((s2, None))
        return out

    def s_expr(self, st, s):
        e = s['e']
        if self.lang == 'c++' and e['k'] == 'bin' and e['op'] in ('>>', '&', '|', '^', '%') and not e.get('fid'):
            # a discarded operator expression is there for its effect
            return [(s2, None) for s2, _ in self.e_bin(st, e, True)]
        return [(s2, None) for s2, _ in self.ev(st, s['e'])]

    def s_if(self, st, s):
        out = []
        starts = [(st, None)]
        if s.get('init'):
            starts = self.ex(st, s['init'])
        for s0, _ in starts:
            if s.get('cv'):
                for s1, _ in self.s_decl(s0, s['cv']):
                    v = self.load(s1, s1.env[s['cv']['id']])
                    for b, s2 in self.branch(s1, v, s.get('ln')):
                        out += self.ex(s2, s['t'] if b else s['e'])
                continue
            for s1, c in self.ev(s0, s['c']):
                for b, s2 in self.branch(s1, self.tcond(s['c'], c), s.get('ln')):
                    out += self.ex(s2, s['t'] if b else s['e'])
        return self.dedupe(out)

    def dedupe(self, rs):
        """merge identical states (keeps path growth down)"""
        if len(rs) < 2:
            return rs
        seen = {}
        out = []
        for st, c in rs:
            k = (frozenset(st.heap.items()), st.ev, c, frozenset(st.env.items()))
            try:
                if k in seen:
                    j = seen[k]
                    fa, fb = out[j][0].facts, st.facts
                    m = join_facts(fa, fb)
                    if m is None:
                        out.append((st, c))
                        continue
                    s2 = out[j][0].copy()
                    s2.facts = m
                    out[j] = (s2, c)
                    continue
            except TypeError:
                pass
            seen[k] = len(out)
            out.append((st, c))
        return out

    def s_ret(self, st, s):
        if s['e'] is None:
            return [(st, ('ret', NONE))]
        return [(s2, ('ret', v)) for s2, v in self.ev(st, s['e'])]

    def s_break(self, st, s):
        return [(st, ('break',))]

    def s_continue(self, st, s):
        return [(st, ('continue',))]

    def s_switch(self, st, s):
        out = []
        body = s['b']['b'] if s['b']['k'] == 'block' else [s['b']]
        # flatten: list of (label or None, stmt)
        flat = []
        for x in body:
            labels = []
            while x is not None and x['k'] in ('case', 'default'):
                labels.append(x['v'] if x['k'] == 'case' else 'default')
                x = x['b']
            flat.append((labels, x))
        starts = [(st, None)] if not s.get('init') else self.ex(st, s['init'])
        for s00, _ in starts:
          for s0, v in self.ev(s00, s['c']):
            cur = s0
            rem = [s0]
            entries = []
            dflt = None
            for i, (labels, x) in enumerate(flat):
                for l in labels:
                    if l == 'default':
                        dflt = i
                        continue
                    nrem = []
                    for r in rem:
                        for s2, lv in self.ev(r, l):
                            for b, s3 in self.branch(s2, cmp_term('==', v, lv, True), s.get('ln')):
                                if b:
                                    entries.append((i, s3))
                                else:
                                    nrem.append(s3)
                    rem = nrem
            for r in rem:
                if dflt is not None:
                    entries.append((dflt, r))
                else:
                    out.append((r, None))
            for i, se in entries:
                for s2, c in self.s_block(se, {'b': [x for _, x in flat[i:]]}):
                    out.append((s2, None if c == ('break',) else c))
        return out

    def s_case(self, st, s):
        return self.ex(st, s['b'])

    s_default = s_case

    def s_try(self, st, s):
        npend = len(self.throws[-1]) if self.throws else 0
        self.throws.append([])
        old = self.throwing
        if s.get('h'):
            if old is None or True:
                base = old
                self.throwing = (lambda n, e, base=base: (base(n, e) if base else False) or self.try_throws(n, e))
        rs = self.ex(st, s['b'])
        self.throwing = old
        self.try_done(s)
        th = self.throws.pop()
        out = []
        norm = []
        for s2, c in rs:
            if c is None and s.get('els'):
                norm += self.ex(s2, s['els'])
            else:
                norm.append((s2, c))
        for s2, info in th:
            handled = False
            for h in s['h']:
                m = catch_match(h['ty'], info)
                if m is False:
                    continue
                s3 = s2.copy()
                if m is None:
                    c_ = ('app', 'excis', ('str', str(info[0])), info[1] if info[1] is not None else NONE, ('str', str(h['ty'])))
                    fy = s2.facts.assume(c_, True)
                    fn_ = s2.facts.assume(c_, False)
                    if fy is None:
                        continue
                    s3.facts = fy
                    if fn_ is None:
                        m = True
                    else:
                        s2 = s2.copy()
                        s2.facts = fn_
                s3.env = dict(st.env)
                for k, v in s2.env.items():
                    s3.env.setdefault(k, v)
                s3.ev = s3.ev + (('catch', h['ty'], info[0], h.get('ln')),)
                if h.get('n') and 'id' in h:
                    self.frame += 1
                    loc = ('loc', self.frame, h['n'])
                    s3.env[h['id']] = loc
                    s3.heap[loc] = info[1] if info[1] is not None else self.unk('exc')
                self.curexc = info
                norm += self.ex(s3, h['b'])
                if m is True:
                    handled = True
                    break
            if not handled and not any(catch_match(h['ty'], info) is True for h in s['h']):
                self.throw(s2, info)
        if s.get('fin'):
            o2 = []
            for s2, c in norm:
                for s3, c3 in self.ex(s2, s['fin']):
                    o2.append((s3, c3 if c3 is not None else c))
            # throws raised inside handlers or unhandled
            th2 = self.throws[-1]
            pend = th2[npend:]
            del th2[npend:]
            for s2, info in pend:
                for s3, c3 in self.ex(s2, s['fin']):
                    if c3 is not None:
                        o2.append((s3, c3))
                    else:
                        self.throws[-1].append((s3, info))
            return o2
        return norm

    def try_done(self, s):
        pass

    def try_throws(self, n, e):
        return n not in self.pure and n not in self.nothrow

    # ---- loops
    def s_for(self, st, s):
        out = []
        if self.lang == 'c++':
            if '_iter' not in s:
                s['_iter'] = iterfor(s)
            if s['_iter']:
                return self.s_rfor(st, s['_iter']) if s['_iter']['k'] == 'rfor' else self.s_block(st, s['_iter'])
        if rotated(s):
            # for (v = E; c; v = E) B  is  while (true) { v = E; if (!c) break; B }
            for s0, _ in self.ex(st, s['init']):
                out += self.loop(s0, 'for', s, cond=s['c'], body=s['b'], pre=[{'k': 'expr', 'e': s['inc'], 'ln': s.get('ln')}])
            return out
        for s0, _ in self.ex(st, s['init']):
            pre, c, b = guard(s.get('c'), s['b']) if s.get('inc') is None else ([], s.get('c'), s['b'])
            out += self.loop(s0, 'for', s, cond=c, body=b, inc=s.get('inc'), pre=pre)
        return out

    def s_while(self, st, s):
        pre, c, b = guard(s['c'], s['b'])
        return self.loop(st, 'while', s, cond=c, body=b, pre=pre)

    def s_do(self, st, s):
        return self.loop(st, 'do', s, cond=s['c'], body=s['b'], post=True)

    def s_rfor(self, st, s):
        starts = [(st, None)] if not s.get('init') else self.ex(st, s['init'])
        out = []
        for s0, _ in starts:
            rs = self.lv(s0, s['r']) if self.lang == 'c++' else self.ev(s0, s['r'])
            for s1, r in rs:
                out += self.loop(s1, 'rfor', s, rng=r, body=s['b'])
        return out

    def bind_elem(self, st, s, rng, iv):
        """bind the loop variable of a range-for; returns domain term"""
        if self.lang == 'py':
            return self.py_bind_elem(st, s, rng, iv)
        v = s['v']
        dom, el = self.elem_of(st, rng, iv if not s.get('_peeled') else add(iv, ONE))
        if s.get('_peeled'):
            dom = ('range', ZERO, sub(dom_count(dom), ONE))
        if v.get('bind'):
            for i, b in enumerate(v['bind']):
                if el[0] == 'tup':
                    x = el[1][i]
                    if x[0] in ('idx', 'fld', 'loc', 'sym', 'elem'):
                        st.env[b['id']] = x
                    else:
                        self.frame += 1
                        loc = ('loc', self.frame, b['n'])
                        st.env[b['id']] = loc
                        st.heap[loc] = x
                else:
                    st.env[b['id']] = ('idx', el, num(i))
            return dom
        if v.get('ref') and el[0] in ('idx', 'fld', 'loc', 'sym', 'elem'):
            st.env[v['id']] = el
        else:
            self.frame += 1
            loc = ('loc', self.frame, v['n'])
            st.env[v['id']] = loc
            val = self.load(st, el) if el[0] in ('idx', 'fld', 'loc') else el
            st.heap[loc] = val
        return dom

    def elem_of(self, st, rng, iv):
        """(domain, element) — element is a location for containers, value otherwise"""
        if rng[0] in ('new', 'app') and rng[1] == 'range':
            a = rng[2] if rng[0] == 'new' else rng[2:]
            if len(a) == 1:
                return ('range', ZERO, same_size(st.facts, a[0]) if self.lang == 'py' else a[0]), iv
            if len(a) == 2:
                return ('range', a[0], a[1]), add(a[0], iv) if a[0] != ZERO else iv
        if rng[0] == 'app' and rng[1] == 'enumerate':
            d, x = self.elem_of(st, rng[2], iv)
            return d, ('tup', (iv, x))
        if rng[0] == 'app' and rng[1] == 'zip':
            xs = [self.elem_of(st, r, iv) for r in rng[2:]]
            ds = tuple(('range', ZERO, same_size(st.facts, d[2])) if d[0] == 'range' and d[1] == ZERO else d for d, _ in xs)
            return ('zip',) + ds if len(set(ds)) > 1 or len(ds) < 2 or self.lang != 'py' else ds[0], ('tup', tuple(x for _, x in xs))
        if rng[0] == 'res' and rng[2] in ('enumerate', 'zip', 'range'):
            return self.elem_of(st, ('app', rng[2]) + rng[4], iv)
        if rng[0] in ('loc', 'fld', 'idx', 'sym', 'glob', 'cap', 'elem'):
            return ('range', ZERO, self.size_of(st, rng)), ('idx', rng, iv)
        return ('range', ZERO, size_term(rng)), project(rng, 'idx', iv, st)

    unswitch = False
    splits = 0

    def loop(self, st, kind, s, cond=None, body=None, inc=None, rng=None, post=False, pre=()):
        self.loopdepth += 1
        depth = self.loopdepth
        try:
            if self.peelmode and depth == 1 and not post and not pre and not s.get('_peeled'):
                return self.peeled(st, kind, s, cond, body, inc, rng)
            if self.unroll:
                self.loopdepth -= 1
                try:
                    r = self.unrolled(st, kind, s, cond, body, inc, rng, post, pre)
                finally:
                    self.loopdepth += 1
                if r is not None:
                    return r
            if self.unswitch and self.splits < 6:
                # conditions decided inside the loop which no iteration can change
                save = self.n, self.frame, [list(t) for t in self.throws], self.splits
                self.splits = 99
                rs = self._loop(st, kind, s, cond, body, inc, rng, post, depth, pre)
                self.n, self.frame, _, self.splits = save
                self.throws[:] = save[2]
                c = self.invariant(st, rs)
                if c is not None:
                    out = []
                    for val in (True, False):
                        f = st.facts.assume(c, val, s.get('ln'))
                        if f is not None:
                            s2 = st.copy()
                            s2.facts = f
                            self.splits += 1
                            self.loopdepth -= 1
                            out += self.loop(s2, kind, s, cond, body, inc, rng, post, pre)
                            self.loopdepth += 1
                            self.splits -= 1
                    return out
            return self._loop(st, kind, s, cond, body, inc, rng, post, depth, pre)
        finally:
            self.loopdepth -= 1

    peelmode = False

    def peeled(self, st, kind, s, cond, body, inc, rng):
        """the first iteration, then the others"""
        s_ = dict(s, _peeled=True)
        out, enter = [], []
        if kind == 'rfor':
            n = dom_count(self.bind_elem(st.copy(), s, rng, ZERO))
            if n is None:
                raise Limit('peel')
            for b, s1 in self.branch(st, cmp_term('<', ZERO, n, True), s.get('ln')):
                if b:
                    s1 = s1.copy()
                    env = dict(s1.env)
                    self.bind_elem(s1, s, rng, ZERO)
                    enter.append((s1, env))
                else:
                    out.append((s1, None))
        else:
            for s0, c in self.ev(st, cond) if cond is not None else [(st, TRUE)]:
                for b, s1 in self.branch(s0, c, s.get('ln')):
                    if b:
                        enter.append((s1, dict(s1.env)))
                    else:
                        out.append((s1, None))
        if s.get('els'):
            out = [r for y, _ in out for r in self.ex(y, s['els'])]
        for s1, env in enter:
            for s2, c in self.ex(s1, body):
                s2 = s2.copy()
                s2.env = dict(env)
                if c is None or c == ('continue',):
                    for x in ([x for x, _ in self.ev(s2, inc)] if inc is not None else [s2]):
                        self.loopdepth -= 1
                        out += self.loop(x, kind, s_, cond, body, inc, rng)
                        self.loopdepth += 1
                else:
                    out.append((s2, None if c[0] == 'break' else c))
        return self.dedupe(out)

    unroll = False

    def unrolled(self, st, kind, s, cond, body, inc, rng, post, pre):
        """a loop of known small number of iterations, one after the other (None: not such a loop)"""
        save = self.n, self.frame, len(self.throws[-1])

        def undo():
            self.n, self.frame = save[:2]
            del self.throws[-1][save[2]:]
            return None
        out, cur = [], [st]
        if kind == 'rfor':
            d = self.bind_elem(st.copy(), s, rng, ZERO)
            n = dom_count(d)
            if n is None or n[0] != 'num' or not 0 <= n[1] <= 8:
                return undo()
            for k in range(int(n[1])):
                nxt = []
                for s1 in cur:
                    s1 = s1.copy()
                    env = dict(s1.env)
                    self.bind_elem(s1, s, rng, num(k))
                    for s2, c in self.ex(s1, body):
                        s2 = s2.copy()
                        s2.env = dict(env)
                        if c is None or c == ('continue',):
                            nxt.append(s2)
                        else:
                            out.append((s2, None if c[0] == 'break' else c, c[0] == 'break'))
                cur = nxt
                if len(cur) + len(out) > 64:
                    return undo()
        else:
            if cond is None:
                return undo()
            done = []
            for k in range(10):
                nxt = []
                for s1 in cur:
                    starts = [s1]
                    if not (post and k == 0):
                        starts = []
                        for s0, ctl in self.s_block(s1, {'b': pre}) if pre else [(s1, None)]:
                            if ctl is not None:
                                return undo()
                            for sa, c in self.ev(s0, cond):
                                bs = self.branch(sa, c, s.get('ln'))
                                if len(bs) != 1:
                                    return undo()
                                (starts if bs[0][0] else done).append(bs[0][1])
                    for s2 in starts:
                        env = dict(s2.env)
                        for s3, c in self.ex(s2, body):
                            s3 = s3.copy()
                            s3.env = dict(env)
                            if c is None or c == ('continue',):
                                nxt += [x for x, _ in self.ev(s3, inc)] if inc is not None else [s3]
                            else:
                                out.append((s3, None if c[0] == 'break' else c, c[0] == 'break'))
                cur = nxt
                if not cur:
                    break
                if len(cur) + len(out) > 64:
                    return undo()
            if cur:
                return undo()
            cur = done
        res = [(y, c) for y, c, _ in out]
        if s.get('els'):
            res += [r for y in cur for r in self.ex(y, s['els'])]
        else:
            res += [(y, None) for y in cur]
        return self.dedupe(res)

    def invariant(self, st, rs):
        k = len(st.ev)
        for y, _ in rs:
            if len(y.ev) <= k or y.ev[k][0] != 'loop':
                continue
            for bp in y.ev[k][2]:
                for c, v in bp[0]:
                    if any(x[:1] in (('lv',), ('iv',), ('hv',), ('out',), ('uninit',), ('bv',), ('forall',), ('new',)) or x[:1] == ('res',) and not any(x == z for v_ in st.heap.values() for z in walk(v_)) for x in walk(c)):
                        continue
                    a, b = st.facts.assume(c, True), st.facts.assume(c, False)
                    if a is not None and b is not None:
                        return c
        return None

    # a call in a loop is none of the equal calls before the loop, a call after it none of those in it
    before = ()

    def callno(self, ev, call):
        return sum(calls_in(e, call) for e in self.before) + sum(calls_in(e, call) for e in (ev,))

    def _run_body(self, st, kind, s, cond, body, inc, rng, post, iv, pre=(), outer=()):
        self.before = self.before + (outer,)
        try:
            return self._run_body_(st, kind, s, cond, body, inc, rng, post, iv, pre)
        finally:
            self.before = self.before[:-1]

    def _run_body_(self, st, kind, s, cond, body, inc, rng, post, iv, pre=()):
        """one arbitrary iteration from st. -> (iterations [(state,ctl)], exits [state], throws, dom)"""
        self.throws.append([])
        dom = None
        iters, exits = [], []
        st0 = st.copy()
        entry = [(True, st0)]
        if kind == 'rfor':
            dom = self.bind_elem(st0, s, rng, iv)
        elif cond is not None and not post:
            entry = []
            for st1, ctl in self.s_block(st0, {'b': pre}) if pre else [(st0, None)]:
                if ctl is not None:
                    iters.append((st1, ctl))
                    continue
                for s1, c in self.ev(st1, cond):
                    for b, s2 in self.branch(s1, c, s.get('ln')):
                        entry.append((b, s2))
        elif cond is None:
            entry = [(True, st0)]
        for b, s1 in entry:
            if not b:
                exits.append(s1)
                continue
            for s2, c in self.ex(s1, body):
                if c is None or c == ('continue',):
                    cur = [s2]
                    if inc is not None:
                        cur = [x for x, _ in self.ev(s2, inc)]
                    for x in cur:
                        if post and cond is not None:
                            for s3, cv in self.ev(x, cond):
                                for bb, s4 in self.branch(s3, cv, s.get('ln')):
                                    if bb:
                                        iters.append((s4, None))
                                    else:
                                        exits.append(s4)
                                        iters.append((s4, ('last',)))
                        else:
                            iters.append((x, c))
                else:
                    iters.append((s2, c))
        th = self.throws.pop()
        return iters, exits, th, dom

    nopeel = frozenset()
    lvpoint = {}

    def stringy(self, v):
        return False

    def _loop(self, st, kind, s, cond, body, inc, rng, post, depth, pre=()):
        ln = s.get('ln')
        iv = ('iv', depth)
        seq = sum(1 for e in st.ev if e[0] == 'loop')

        def lvsym(l):
            return ('lv', depth, strip_loc(l), seq)
        # 1. discover modified locations by abstract execution from a havocked state
        mod = {}
        peel = {}       # containers of which the loop fills the element appended last

        def hv(l, sym):
            v0 = st.heap.get(l) if self.lang == 'py' and l not in self.nopeel else None
            if v0 is not None and v0[0] == 'app' and v0[1] == 'append' and literal(v0[3]):
                peel[l] = v0[2]
                return ('app', 'append', v0[2], sym)
            if v0 is not None and v0[0] == 'list' and v0[1] and literal(v0[1][-1]):
                peel[l] = ('list', v0[1][:-1])
                return ('list', v0[1][:-1] + (sym,))
            return sym

        def unpeel(l, v):
            if l not in peel:
                return v
            if v[0] == 'app' and v[1] == 'append' and v[2] == peel[l]:
                return v[3]
            if v[0] == 'list' and v[1] and v[1][:-1] == peel[l][1]:
                return v[1][-1]
            return ('unk', 'peel')
        decayed = {v[1] for l, v in st.heap.items() for v in ptr_atoms(v)}
        for rnd in range(4):
            h = st.copy()
            h.ev = ()
            for l, sym in mod.items():
                self.store_quiet(h, l, hv(l, sym))
            save0 = (self.n, self.frame)
            # a pointer into an array stepped by the loop denotes the element at the loop index
            ptrs = [l for l in mod if is_ptr(self.load(st, l))]
            if ptrs:
                iters, exits, th, dom = self._run_body(h, kind, s, cond, body, inc, rng, post, iv, pre, st.ev)
                conts = [x for x, c in iters if c in (None, ('continue',))]
                for l in ptrs:
                    ds = {sub(self.load(x, l), mod[l]) if self.load(x, l)[0] not in NONNUM else None for x in conts}
                    d = ds.pop() if len(ds) == 1 else None
                    if d is not None and d[0] == 'num':
                        self.store_quiet(h, l, add(self.load(st, l), mul(d, iv)))
                self.n, self.frame = save0
            iters, exits, th, dom = self._run_body(h, kind, s, cond, body, inc, rng, post, iv, pre, st.ev)
            new = {}
            for s2 in [x for x, _ in iters] + exits + [x for x, _ in th]:
                for l, v in s2.heap.items():
                    if l[0] == 'loc' and l not in h.heap:
                        continue
                    r = root(l)
                    if r[0] == 'loc' and r not in h.heap and not any(root(k) == r for k in h.heap):
                        continue
                    if h.heap.get(l) != v and l not in mod:
                        # indexed store at a loop-variant index: generalise to the container
                        g = l
                        while g[0] in ('idx', 'fld') and (any(x[:1] in (('iv',), ('lv',)) for x in walk(g)) or (rnd == 0 and g[0] == 'idx' and g[1] in decayed)):
                            g = g[1]
                        if g in mod:
                            continue
                        new[g] = lvsym(g)
                for l in h.heap:
                    if l not in s2.heap and l not in mod and not any(self._below(l, g) for g in list(mod) + list(new)):
                        g = l
                        while g[0] in ('idx', 'fld'):
                            g = g[1]
                            if g in s2.heap:
                                break
                        if g in s2.heap and g not in mod:
                            new[g] = lvsym(g)
            # a container of which the iterations only assign elements keeps its size
            keep = False
            for l, sym in mod.items():
                if self.lang == 'py' and l not in peel and self.load(st, l) == ('list', ()) and iters:
                    # one element appended by every iteration: as many elements as iterations so far
                    one = all(c in (None, ('continue',)) and x.heap.get(l, NONE)[:3] == ('app', 'append', sym) for x, c in iters) and not exits
                    if one and self.lvsize.get(sym) != iv:
                        self.lvsize[sym] = iv
                        keep = True
                    elif not one:
                        self.lvsize.pop(sym, None)
                    continue
                same = all(upd_base(x.heap.get(l)) == sym for x in [x for x, _ in iters] + exits)
                if same and sym not in self.lvsize and any(x.heap.get(l) != sym or self.lang != 'py' and any(k[0] == 'idx' and k[1] == l and k[2][0] not in NONNUM and (is_num(sub(k[2], iv)) or k[2][0] == 'lv' and k[2] in mod.values()) for k in x.heap) for x, _ in iters):
                    self.lvsize[sym] = self.size_of(st, l)
                    keep = True
                elif not same:
                    self.lvsize.pop(sym, None)
            for l, sym in mod.items() if self.lang == 'py' else ():
                # elements assigned only at the index of the iteration
                below = [k for x in [x for x, _ in iters] + exits for k in x.heap if k[0] in ('idx', 'elem') and k[1] == l]
                pt = (iv, self.load(st, l)) if below and all(k[2] == iv for k in below) and not new and all(x.heap.get(l) == sym for x in [x for x, _ in iters] + exits) else None
                if pt != self.lvpoint.get(sym):
                    self.lvpoint[sym] = pt
                    keep = True
            if not new and not keep:
                break
            mod.update(new)
            for l, sym in new.items():
                self.lvstr.discard(sym)
                self.lvsize.pop(sym, None)
                v0 = unpeel(l, self.load(st, l))
                if self.stringy(v0):
                    self.lvstr.add(sym)
                self.lvlit.discard(sym)
                if literal(v0) or v0 in self.lvlit:
                    self.lvlit.add(sym)
                self.lvlist.discard(sym)
                if self.lang == 'py' and self.aslist(v0):
                    self.lvlist.add(sym)
                self.lvset.discard(sym)
                if v0[0] == 'app' and v0[1] == 'set' and len(v0) == 3 or v0 in self.lvset:
                    self.lvset.add(sym)
        # 2. recognise induction variables: every continuing path ends with old+const
        conts = [x for x, c in iters if c in (None, ('continue',))]
        ivars = {}
        for l, sym in mod.items():
            init = self.load(st, l)
            steps = set()
            for x in conts:
                e0 = self.load(h, l) if is_ptr(self.load(h, l)) else sym
                d = sub(self.load(x, l), e0) if self.load(x, l)[0] not in NONNUM and e0[0] not in NONNUM else None
                steps.add(d)
            if len(steps) == 1 and conts:
                d = steps.pop()
                if d is not None and d[0] == 'num' and d[1] != 0:
                    ivars[l] = (init, d)
        if ivars:
            h = st.copy()
            h.ev = ()
            for l, sym in mod.items():
                self.store_quiet(h, l, hv(l, sym))
            for l, (init, d) in ivars.items():
                self.store_quiet(h, l, add(init, mul(d, iv)) if init[0] not in ('uninit',) else sym)
            h.facts = h.facts.copy()
            f = h.facts._narrow(iv, Fraction(1), Fraction(0), '<0', False, True)
            if f is not None:
                h.facts = f
            iters, exits, th, dom = self._run_body(h, kind, s, cond, body, inc, rng, post, iv, pre, st.ev)
            conts = [x for x, c in iters if c in (None, ('continue',))]
        else:
            h = st.copy()
            h.ev = ()
            for l, sym in mod.items():
                self.store_quiet(h, l, hv(l, sym))
        base_log = len(st.facts.log)
        # a local which is carried along an array: the element at the loop index plus a constant
        carried = {}
        while self.lang == 'c++' and not post:
            cand = {}
            for l, sym in mod.items():
                if l in ivars or l in carried or not conts or root(l)[0] != 'loc':
                    continue
                vs = {self.load(x, l) for x in conts}
                v = vs.pop() if len(vs) == 1 else NONE
                if v[0] != 'idx' or v[1] not in mod.values() or v[2][0] in NONNUM:
                    continue
                c = sub(v[2], iv)
                if not is_num(c):
                    continue
                a = [k for k, t in mod.items() if t == v[1]][0]
                if any(x.heap.get(a) != v[1] or any(k[0] == 'idx' and k[1] == a and (k[2][0] in NONNUM or not is_num(sub(k[2], iv)) or sub(k[2], iv) == c) for k in x.heap)
                       or any(self._below(k, a) and not (k[0] == 'idx' and k[1] == a) for k in x.heap) for x in conts):
                    continue
                if self.load(st, l) == self.load(st, ('idx', a, sub(c, ONE))):
                    cand[l] = ('idx', v[1], add(iv, sub(c, ONE)))
            if not cand:
                break
            carried.update(cand)
            f0 = h.facts
            h = h.copy()
            for l, v in cand.items():
                self.store_quiet(h, l, v)
            h.facts = f0
            iters, exits, th, dom = self._run_body(h, kind, s, cond, body, inc, rng, post, iv, pre, st.ev)
            conts = [x for x, c in iters if c in (None, ('continue',))]
        # a value set to the same thing by every iteration: one value in the first iteration, another afterwards
        firsts = {}
        for l, sym in mod.items():
            if l in ivars or l in carried or not conts or post or root(l)[0] != 'loc':
                continue
            vs = {sym if (x.facts.value(sym) is None) and self.load(x, l) == sym else ('bool', x.facts.value(sym)) if self.load(x, l) == sym else self.load(x, l) for x in conts}
            v = vs.pop() if len(vs) == 1 else None
            i0 = self.load(st, l)
            if v is not None and v[0] in ('bool', 'str', 'num') and i0[0] in ('bool', 'str', 'num') and any(t == sym for x, _ in iters for t in walk((x.ev, tuple(x.facts.log[base_log:]), tuple(x.heap.items())))):
                firsts[l] = (i0, v)
        if firsts and dom is None and kind == 'rfor':
            firsts = {}
        if firsts:
            res = [[], [], []]
            hs = []
            for b, s1 in self.branch(h, cmp_term('==', iv, ZERO, True)):
                s1 = s1.copy()
                for l, (i0, v) in firsts.items():
                    self.store_quiet(s1, l, i0 if b else v)
                hs.append(s1)
                a1, a2, a3, dom = self._run_body(s1, kind, s, cond, body, inc, rng, post, iv, pre, st.ev)
                res[0] += a1
                res[1] += a2
                res[2] += a3
            iters, exits, th = res
            conts = [x for x, c in iters if c in (None, ('continue',))]
            h = hs[-1]
        # a local set only by iterations which leave the loop: all others see its first value
        still = {}
        if any(c not in (None, ('continue',)) for _, c in iters):
            for l, sym in mod.items():
                if l in ivars or l in carried or l in firsts or l in peel or not conts or l[0] != 'loc':
                    continue
                i0 = self.load(st, l)
                if i0[0] in ('none', 'bool', 'num', 'str') and all(self.load(x, l) == sym and not any(k != l and self._below(k, l) for k in x.heap) for x in conts):
                    still[l] = i0
        if still and not firsts:
            f0 = h.facts
            h = h.copy()
            for l, v in still.items():
                self.store_quiet(h, l, v)
            h.facts = f0
            iters, exits, th, dom = self._run_body(h, kind, s, cond, body, inc, rng, post, iv, pre, st.ev)
            conts = [x for x, c in iters if c in (None, ('continue',))]
        else:
            still = {}
        # domain of a counted loop
        if dom is None and cond is not None and not post and exits and len([1 for x in exits]) >= 1:
            dom = self.counted_domain(h, exits, iv, base_log)
        # 3. closed forms: accumulations
        closed = {}
        lvs = set(mod.values())
        # python/c++ accumulations only if all iterations continue (no break/return)
        allcont = all(c in (None, ('continue',)) for _, c in iters) and not post
        for l, sym in mod.items():
            if l in ivars or l in carried:
                continue
            init = unpeel(l, self.load(st, l))
            if not conts:
                continue
            if l in still:
                closed[l] = still[l]
                continue
            if l in firsts:
                if dom_count(dom) is not None:
                    closed[l] = ('ite', cmp_term('==', dom_count(dom), ZERO, True), *firsts[l])
                continue
            deltas = []
            ok = allcont and dom is not None
            for x in conts:
                v = unpeel(l, self.load(x, l))
                cond_ = tuple((c, b) for c, b, _ in x.facts.log[base_log:])
                d = accum_delta(v, sym)
                if d is None:
                    ok = False
                    break
                kind_, dv = d
                if any(t in lvs for t in walk(dv)) or any(t in lvs for c, _ in cond_ for t in walk(c)):
                    ok = False
                    break
                deltas.append((kind_, cond_, dv))
            if ok and deltas:
                kinds = {k for k, _, dv in deltas if not (k == 'sum' and dv == ZERO)}
                if not kinds:
                    closed[l] = init if l not in peel else append_term(peel[l], init)
                    continue
                if len(kinds) == 1:
                    kk = kinds.pop()
                    dd = [(c, dv if k == kk else None) for k, c, dv in deltas]
                    dd = strip_dom_cond(dd, dom, iv)
                    closed[l] = accum_close(kk, init, dom, depth, dd)
                    if l in peel:
                        closed[l] = append_term(peel[l], closed[l])
                    continue
            if l in peel:
                self.nopeel = self.nopeel | {l}
                try:
                    return self._loop(st, kind, s, cond, body, inc, rng, post, depth, pre)
                finally:
                    self.nopeel = self.nopeel - {l}
            # plain container filled at index iv
            if ok is False and allcont and dom is not None and len(conts) == 1:
                x = conts[0]
        # array fill: only writes are l[iv] = g(iv)
        for l, sym in mod.items():
            if l in ivars or l in closed or l in firsts or not (allcont and dom is not None) or not conts:
                continue
            vals = []
            ok = True
            for x in conts:
                writes = [k for k in x.heap if k[0] == 'idx' and k[1] == l]
                others = [k for k in x.heap if self._below(k, l) and k not in writes and not (k[0] == 'fld')]
                if len(writes) != 1 or writes[0][2] != iv or x.heap.get(l) != sym:
                    ok = False
                    break
                v = self.load(x, writes[0])
                if any(t in lvs for t in walk(v)):
                    ok = False
                    break
                vals.append((tuple((c, b) for c, b, _ in x.facts.log[base_log:]), v))
            if ok and len(vals) == len(conts):
                dd = strip_dom_cond(vals, dom, iv)
                closed[l] = ('app', 'fill', self.load(st, l), dom, shift_iv(('pw', tuple(sorted(dd, key=repr))), depth))
        opq = [l for l in mod if l not in ivars and l not in closed and l not in firsts]

        def stores(x):
            r = []
            for l in x.heap:
                if l in mod or x.heap[l] == h.heap.get(l) or root(l)[0] in ('loc', 'cap', 'uninit', 'new'):
                    continue
                if any(self._below(l, g) for g in opq):
                    r.append((strip_loc(l), x.heap[l]))
            return tuple(sorted(r, key=repr))
        bodypaths = tuple((tuple((c, b) for c, b, _ in x.facts.log[base_log:]), x.ev, c, stores(x)) for x, c in iters)
        seen = {t for bp in bodypaths for t in walk((bp[0], bp[1], bp[3])) if t[:1] == ('lv',)} if closed else ()
        # loop-carried values without a closed form: start value and one step per partition
        lvtab = tuple((mod[l] if mod[l][:1] == ('lv',) else lvsym(l), self.load(st, l),
                       tuple((tuple((c, b) for c, b, _ in x.facts.log[base_log:]), self.load(x, l)) for x, c in iters if c in (None, ('continue',)))) for l in opq + [l for l in closed if mod[l] in seen])
        # loops without a counted domain: when does an iteration continue, when is the loop left
        ctl = ()
        if dom is None:
            cs = lambda x: tuple((c, b) for c, b, _ in x.facts.log[base_log:])
            ctl = tuple((cs(x), 'cont' if c in (None, ('continue',)) else 'leave') for x, c in iters if c != ('last',)) + tuple((cs(x), 'leave') for x in exits) + tuple((cs(x), 'leave') for x, _ in th)
        # after the loop its index is a loop value of its own (number of iterations / position of the break)
        niter = ('lv', depth, ('niter',), seq)
        if (dom is None and exits) or any(c is not None and c[0] == 'break' for _, c in iters):
            lvtab = lvtab + ((niter, ZERO, (((), add(niter, num(1))),)),)
        loopev = ('loop', dom, bodypaths, tuple(sorted((strip_loc(l), i, d) for l, (i, d) in ivars.items())), ln, lvtab, ctl)
        out = []

        def leave(x, evs_suffix=()):
            y = x.copy()
            y.ev = st.ev + (loopev,) + evs_suffix
            y.env = dict(st.env)
            return y
        # exits taken from inside an iteration: the normal exit knows that no iteration took one
        part = []
        for x, c in iters:
            part.append((tuple(cb for cb in ((c_, b_) for c_, b_, _ in x.facts.log[base_log:]) if not is_dom_cond(cb, dom, iv)), c is not None and c[0] not in ('continue', 'last')))
        for x, info in th:
            part.append((tuple(cb for cb in ((c_, b_) for c_, b_, _ in x.facts.log[base_log:]) if not is_dom_cond(cb, dom, iv)), True))
        fall = None
        if dom is not None and any(b for _, b in part):
            fall = forall_term(dom, part, depth)

        def mark(y, val):
            if fall is None:
                return True
            f = y.facts.assume(fall, val, ln)
            if f is None:
                return False
            y.facts = f
            return True
        # 4. normal exits
        count = dom_count(dom)

        def moved(x):
            # evaluating the condition the last time has effects of its own
            return bool(x.ev) or any(x.heap.get(l) != v for l, v in h.heap.items() if l not in firsts)
        if kind != 'rfor' and dom is not None and exits and count is not None and any(moved(x) for x in exits):
            m = {mod[l]: c for l, c in closed.items()}
            for x in exits:
                y = leave(x, tuple(('inloop',) + (ev,) for ev in x.ev))
                y.heap = {l: T.subst(v, m) for l, v in y.heap.items()}
                for l in closed:
                    if x.heap.get(l) == mod[l]:
                        y.heap[l] = closed[l]
                z = close_iv(y, iv, count, base_log)
                if z is not None and mark(z, True):
                    out.append((z, None))
        elif kind == 'rfor' or (dom is not None and exits):
            y = st.copy()
            for l, sym in mod.items():
                if l in closed:
                    self.store_quiet(y, l, closed[l])
                elif l in ivars and count is not None:
                    init, d = ivars[l]
                    self.store_quiet(y, l, add(init, mul(d, count)) if init[0] not in NONNUM else sym)
                elif l in carried and count is not None:
                    self.store_quiet(y, l, T.subst(carried[l], {iv: count}))
                else:
                    self.store_quiet(y, l, lvsym(l))
            y = leave(y)
            if mark(y, True):
                out.append((y, None))
        else:
            for x in exits:
                z = close_iv(leave(x, tuple(('inloop',) + (ev,) for ev in x.ev)), iv, niter, base_log)
                if z is not None:
                    out.append((z, None))
        if s.get('els'):
            out = [r for y, _ in out for r in self.ex(y, s['els'])]
        # 5. break / return / throw
        for x, c in iters:
            if c is None or c[0] in ('continue', 'last'):
                continue
            y = x.copy()
            y.ev = st.ev + (loopev,) + tuple(('inloop',) + (ev,) for ev in x.ev)
            if not mark(y, False):
                continue
            if c[0] == 'break':
                y.env = dict(st.env)
                y = close_iv(y, iv, niter, base_log)
                if y is not None:
                    out.append((y, None))
            else:
                out.append((y, c))
        for x, info in th:
            y = x.copy()
            y.ev = st.ev + (loopev,) + tuple(('inloop',) + (ev,) for ev in x.ev)
            if mark(y, False):
                self.throw(y, info)
        return self.dedupe(out)

    def counted_domain(self, h, exits, iv, base_log):
        # the first condition evaluated must be a comparison linear in iv with coefficient +-1
        cands = set()
        for x in exits:
            log = [z for z in x.facts.log[base_log:] if z[0] != cmp_term('==', iv, ZERO, True)]
            if not log:
                return None
            cands.add((log[0][0], log[0][1]) if len(log) == 1 else None)
        if len(cands) != 1 or None in cands:
            return None
        c, b = cands.pop()
        if c[0] == 'not':
            c, b = c[1], not b
        if c[0] != 'cmp':
            return None
        cc = c if not b else mk_not(c)     # continuing condition is not(exit) ; exit is (c==b)
        # continue condition K = not exit
        if cc[0] == 'not':
            inner = cc[1]
            if inner[0] == 'cmp' and inner[1] == '==0':
                d = to_poly(inner[2])
                k = d.get((iv,))
                if k is None or abs(k) != 1 or sum(1 for m in d if iv in m) != 1:
                    return None
                rest = from_poly({m: v for m, v in d.items() if m != (iv,)})
                n = neg(rest) if k == 1 else rest
                return ('range', ZERO, n)
            return None
        if cc[0] != 'cmp':
            return None
        d = to_poly(cc[2])
        k = d.get((iv,))
        if k is None or sum(1 for m in d if iv in m) != 1 or k <= 0:
            return None
        rest = from_poly({m: v for m, v in d.items() if m != (iv,)})
        # k*iv + rest < 0   -> iv < -rest/k
        n = mul(neg(rest), ('num', 1 / k))
        if k != 1:
            # steps: iv < n  with n maybe fractional -> ceil
            return ('range', ZERO, ('app', 'ceil', n))
        if cc[1] == '<0':
            return ('range', ZERO, n)
        if cc[1] == '<=0':
            return ('range', ZERO, add(n, ONE))
        return None

    # ---------------------------------------------------------------- entry
    def run(self, f, this=('sym', 'this'), args=None, init=None):
        """analyse function f from a symbolic state -> list of Path"""
        T.COMM[0] = self.comm is True
        T.OPS[0] = frozenset() if self.comm in (True, False) else frozenset(self.comm)
        st = State()
        self.frame += 1
        fr = self.frame
        env = {}
        if f.get('cls') and not f.get('static') and this is not None:
            env['this'] = this
        for i, p in enumerate(f['params']):
            v = args[i] if args and i < len(args) and args[i] is not None else ('sym', p['n'] or 'arg%d' % i)
            if p.get('pack') and not (args and i < len(args) and args[i] is not None):
                v = ('sym', 'pack:' + p['n'])
            if (p.get('ref') or self.lang == 'py' and False) and v[0] in ('sym', 'loc', 'fld', 'glob'):
                env[p['id']] = v
            else:
                loc = ('loc', fr, p['n'])
                env[p['id']] = loc
                st.heap[loc] = v
        st.env = env
        if init:
            init(self, st)
        self.cls = f.get('cls')
        self.stack.append(f['id'])
        self.throws = [[]]
        self.analysed.add((f['q'], f.get('file'), f.get('line')))
        try:
            sts = [st]
            if f.get('ctor'):
                sts = self.ctor_inits(st, f, env.get('this'))
            rs = []
            for s in sts:
                rs += self.ex(s, f['body']) if self.lang == 'c++' else self.py_body(s, f)
        finally:
            self.stack.pop()
        out = []
        for s, c in rs:
            out.append(Path(s, 'ret', c[1] if c and c[0] == 'ret' and f.get('ret') != 'void' else NONE))
        for s, info in self.throws[0]:
            out.append(Path(s, 'throw', ('str', str(info[0])), info))
        self.throws = [[]]
        return self.close_lams(out)

    # ---- closures that leave the function: their value is the summary of their body
    def close_lams(self, paths):
        self._clo = {}
        for p in paths:
            st = p.st
            hit = [x for x in walk((p.value, tuple(v for l, v in st.heap.items() if root(l)[0] not in ('loc', 'cap')), st.ev)) if x[:1] == ('lam',) and len(x) == 2 and isinstance(x[1], int)]
            if not hit:
                continue
            # closures among the results: they outlive the local variables of the function
            self._escape = {x[1] for x in walk((p.value, tuple(v for l, v in st.heap.items() if root(l)[0] in ('sym', 'glob')))) if x[:1] == ('lam',) and len(x) == 2} if p.kind == 'ret' else set()
            m = {x: self.closure(x[1], st, 0) for x in set(hit)}
            p.value = T.subst(p.value, m)
            st = p.st = st.copy()
            st.heap = {l: (T.subst(v, m) if root(l)[0] not in ('loc', 'cap') else v) for l, v in st.heap.items()}
            st.ev = T.subst(st.ev, m)
        return paths

    _escape = ()

    def closure(self, i, st, level):
        le, caps, this, cst = self.lams[i]
        used = [n for n in self.captured(le, caps) if n not in le.get('locals', ())]
        # captured variables: their value when the enclosing function ends (or at the creation when it is gone)
        vals = []
        for n in used:
            kind, cv = caps[n]
            if kind == 'ref' and root(cv)[0] in ('loc', 'cap'):
                src = st if any(root(l) == root(cv) for l in st.heap) else cst
                vals.append(tuple(sorted(((l, v) for l, v in src.heap.items() if root(l) == root(cv)), key=repr)))
            else:
                vals.append(cv)
        rec = ('app', 'recfn', ('lam', i))
        vals = [tuple((l, ('sym', 'λself') if x == rec else x) for l, x in v) if v and isinstance(v[0], tuple) else v for v in vals]
        key = (i, level, tuple(vals))
        if self.lang == 'c++' and level == 0 and any(caps[n][0] == 'ref' and root(caps[n][1])[0] == 'loc' for n in used) and i in self._escape:
            return ('app', 'dangling', ('str', 'a local variable'))
        if key in self._clo:
            return self._clo[key]
        if level > 3 or len(self._clo) > 60:
            return ('lam', 0)
        self._clo[key] = ('app', 'closure?')
        s = State()
        env = {}
        names = {}
        for k, n in enumerate(used):
            kind, cv = caps[n]
            if kind == 'ref':
                env[n] = cv
                if root(cv)[0] in ('loc', 'cap'):
                    names[root(cv)] = ('sym', '&%d.%d' % (level, k))
                    for l, v in vals[k]:
                        s.heap[l] = v
            else:
                loc = ('cap', i, n)
                env[n] = loc
                s.heap[loc] = cv
                names[loc] = ('sym', '&%d.%d' % (level, k))
        base = dict(s.heap)
        env['this'] = this
        bound, defs = [], []
        for k, p in enumerate(le['params']):
            bound.append(('val', ('sym', 'λ%d.%d' % (level, k))))
            if 'def' in p:
                s.env = dict(env)
                r = self.ev(s, p['def'])
                defs.append(r[0][1] if r else NONE)
        self.frame += 1
        self.bind_params(s, env, le['params'], bound, self.frame)
        s.env = env
        s.depth = 1
        saved = self.throws, self.loopdepth
        self.throws = [[]]
        try:
            if le.get('expr'):
                rs = [(s3, ('ret', x)) for s3, x in self.ev(s, le['body'])]
            else:
                rs = self.ex(s, le['body'])
            th = self.throws[0]
        finally:
            self.throws, self.loopdepth = saved
        parts = []
        for s3, c in [(a, c) for a, c in rs] + [(a, ('thr', info)) for a, info in th]:
            v = c[1] if c and c[0] == 'ret' else ('str', 'raises ' + str(c[1][0])) if c and c[0] == 'thr' else NONE
            if v[0] == 'ref':
                v = v[1]
            stores = []
            for l, x in s3.heap.items():
                r = root(l)
                if r[0] in ('loc', 'cap', 'uninit') and r not in names:
                    continue
                if base.get(l) == x:
                    continue
                stores.append(('tup', (T.subst(l, names), x)))
            evs = ev_terms(s3.ev)
            if c and c[0] == 'thr':
                evs = [x for x in evs if not (x[1] == 'ev:operator<<')]
            t = ('tup', (v, ('list', tuple(evs)), ('list', tuple(sorted(stores, key=repr)))))
            inner = {x for x in walk(t) if x[:1] == ('lam',) and len(x) == 2 and isinstance(x[1], int)}
            t = T.subst(t, {x: self.closure(x[1], s3, level + 1) for x in inner})
            t = T.subst(t, names)
            parts.append((tuple((T.subst(c_, names), b_) for c_, b_, _ in s3.facts.log), t))
        r = ('clo', num(len(le['params'])), ('tup', tuple(defs)), ('pw', tuple(parts)))
        if any(s3.unk for s3, _ in rs):
            r = ('clo', num(len(le['params'])), ('unk', 'closure'), ('pw', tuple(parts)))
        self._clo[key] = r
        return r


IGNORED = {'print', 'locals', 'report', 'warn', 'flush', 'warning', 'info', 'debug'}


def scalar_type(t):
    return re.sub(r'\b(const|unsigned|signed|long|short)\b', '', t).strip() in ('int', 'char', 'bool', 'double', 'float', '')


def ptr_atoms(v):
    if v[0] == 'ptr':
        return [v]
    if v[0] == 'poly':
        return [a for m, c in v[1] for a in m if a[0] == 'ptr']
    return []


def is_ptr(v):
    return bool(ptr_atoms(v))


def at_ptr(v):
    """the place a pointer value into an array points to"""
    if v[0] == 'ptr':
        return ('idx', v[1], ZERO)
    if v[0] == 'poly':
        ps = [m for m, c in v[1] if any(a[0] == 'ptr' for a in m)]
        if len(ps) == 1 and len(ps[0]) == 1:
            c = dict(v[1])[ps[0]]
            if c == 1:
                return ('idx', ps[0][0][1], sub(v, ps[0][0]))
    return v


def ev_terms(ev):
    out = []
    for e in ev:
        if e[0] == 'call':
            if e[1] in IGNORED:
                continue
            out.append((repr(root(e[2])) if e[2] is not None else '', ('app', 'ev:' + e[1], e[2] if e[2] is not None else NONE, ('tup', e[3]))))
        elif e[0] == 'loop':
            pw = ('pw', tuple((conds, ('list', tuple(ev_terms(bev)) + tuple(('tup', ls) for ls in stores))) for conds, bev, ctl, stores in e[2]))
            dom = e[1] if e[1] else NONE
            if dom[0] == 'over':
                dom = ('range', ZERO, size_term(dom[1]))
            out.append(('~loop', ('app', 'evloop', dom, pw)))
        elif e[0] == 'inloop':
            out += [('~in', x) for x in ev_terms((e[1],))]
        else:
            out.append(('~' + str(e[0]), ('app', 'ev:' + str(e[0])) + tuple(x for x in e[1:] if isinstance(x, tuple) and x and isinstance(x[0], str))))
    if out and isinstance(out[0], tuple) and len(out[0]) == 2 and isinstance(out[0][0], str):
        out = [x[1] for x in sorted(out, key=lambda x: x[0])]
    return out


def var_ids(e, acc):
    if isinstance(e, dict):
        if e.get('k') == 'var':
            acc.append(e.get('id'))
        for k, v in e.items():
            if isinstance(v, (dict, list, tuple)):
                var_ids(v, acc)
    elif isinstance(e, (list, tuple)):
        for v in e:
            var_ids(v, acc)
    return acc


# ------------------------------------------------------------------------------ helpers
def strip_loc(l):
    """location identity independent of frame numbers"""
    if not isinstance(l, tuple):
        return l
    if l and l[0] == 'loc':
        return ('loc', 0, l[2])
    return tuple(strip_loc(x) for x in l)


def exc_type(e, v):
    t = e.get('ty') or ''
    if v[0] == 'new':
        return v[1]
    if v[0] == 'cls':
        return v[1]
    if v[0] == 'app' and v[1] == 'exc':
        return v[2][1]
    if v[0] == 'struct' and v[1][0] == 'new':
        return v[1][1]
    return t or 'exc'


def catch_match(ty, info):
    """True: surely caught, None: maybe, False: no"""
    if ty in ('...', None, 'BaseException'):
        return True
    t = str(info[0])
    if '|' in str(ty):
        r = [catch_match(x, info) for x in ty.split('|')]
        return True if True in r else None if None in r else False
    if t.startswith('exc:'):
        return None
    import builtins
    x, y = getattr(builtins, t, None), getattr(builtins, ty, None)
    if isinstance(x, type) and isinstance(y, type) and issubclass(x, BaseException) and issubclass(y, BaseException):
        return issubclass(x, y)
    base = ty.replace('const ', '').replace('&', '').strip().split('::')[-1]
    tb = t.split('::')[-1].strip()
    if base == tb:
        return True
    if base in ('exception', 'Exception', 'runtime_error', 'error_stub'):
        return True if base in ('Exception',) else None
    if tb in ('exc', ''):
        return None
    return False


def project(v, kind, f, st=None):
    if v[0] == 'struct':
        for k, n, x in v[2]:
            if k == kind and n == f:
                return x
        if v[1][0] == 'new' and kind == 'fld':
            return ('fld', v[1], f)
        return project(v[1], kind, f, st)
    if kind == 'idx':
        if v[0] in ('tup', 'list') and f[0] == 'num' and f[1].denominator == 1:
            i = int(f[1])
            if -len(v[1]) <= i < len(v[1]):
                return v[1][i]
        if v[0] == 'app' and v[1] == 'map' and f[0] == 'iv':
            return T.subst(v[4], {('iv', v[3][1]): f}) if False else ('idx', v, f)
        if v[0] == 'app' and v[1] == 'append':
            n = size_term(v[2])
            if f == n:
                return v[3]
    if kind == 'fld' and v[0] == 'tup' and f in ('first', 'second') and len(v[1]) == 2:
        return v[1][0 if f == 'first' else 1]
    if kind == 'fld' and f == 'first':
        return ('idx', v, ZERO)
    if kind == 'fld' and f == 'second':
        return ('idx', v, ONE)
    if v[0] == 'ite':
        return ('ite', v[1], project(v[2], kind, f, st), project(v[3], kind, f, st))
    return (kind, v, f)


def is_string(t):
    t = re.sub(r'\bconst\b|[& ]', '', t or '')
    return t in ('std::string', 'string', 'std::basic_string<char>', 'basic_string<char>')


def is_stream(t):
    return bool(re.search(r'\bo?(basic_)?o?(string)stream\b', t or ''))


def stream_text(v):
    return ('str', '') if v[0] == 'new' and v[1].endswith('stream') and not v[2] else v


def strcat(*xs):
    out = []
    for x in xs:
        for y in x[2:] if x[0] == 'app' and x[1] == 'strcat' else (x,):
            if y[0] == 'new' and y[1] in ('basic_string', 'string') and not y[2]:
                y = ('str', '')
            if y == ('str', ''):
                continue
            if out and y[0] == 'str' and out[-1][0] == 'str':
                out[-1] = ('str', out[-1][1] + y[1])
            else:
                out.append(y)
    return ('str', '') if not out else out[0] if len(out) == 1 else ('app', 'strcat', *out)


def upd_base(v):
    while v is not None and v[0] == 'app' and v[1] == 'upd':
        v = v[2]
    return v


def size_term(v):
    if v[0] in ('list', 'tup'):
        return num(len(v[1]))
    if v[0] == 'str':
        return num(len(v[1]))
    if v[0] == 'app' and v[1] == 'append':
        return add(size_term(v[2]), ONE)
    if v[0] == 'app' and v[1] in ('fill', 'upd'):
        return size_term(v[2])
    if v[0] == 'app' and v[1] == 'map' and dom_count(v[2]) is not None and not (v[3][0] == 'pw' and any(x == ('skip',) for _, x in v[3][1])):
        return dom_count(v[2])
    if v[0] == 'struct':
        return size_term(v[1])
    if v[0] == 'new' and v[1] in ('vector', 'basic_array') and len(v[2]) >= 1 and v[2][0][0] in ('num', 'poly', 'sym'):
        return v[2][0]
    return ('app', 'size', v)


def literal(b):
    return b[0] in ('list', 'dict') or b[0] == 'app' and b[1] in ('append', 'map', 'concat', 'setitem', 'dictmap')


def append_term(cur, v):
    if cur[0] == 'list':
        return ('list', cur[1] + (v,))
    if cur[0] == 'new' and cur[1] in ('vector', 'default') and not cur[2]:
        return ('list', (v,))
    return ('app', 'append', cur, v)


def accum_delta(v, sym):
    """v as sym + delta / append(sym, delta) / sym*delta"""
    if v == sym:
        return ('sum', ZERO)
    if v[0] == 'app' and v[1] == 'append' and v[2] == sym:
        return ('append', v[3])
    if v[0] == 'app' and v[1] == 'setitem' and v[2] == sym:
        return ('setitem', ('tup', (v[3], v[4])))
    if v[0] == 'app' and v[1] == 'setadd' and v[2] == sym:
        return ('setadd', v[3])
    if v[0] == 'app' and v[1] == 'strcat' and v[2] == sym:
        return ('strcat', strcat(*v[3:]))
    if v[0] in NONNUM:
        return None
    if v[0] == 'app' and v[1] == 'concat' and v[2] == sym:
        return ('concat', v[3])
    if sym[0] in NONNUM:
        return None
    d = sub(v, sym)
    if not any(t == sym for t in walk(d)):
        return ('sum', d)
    p = to_poly(v)
    if len(p) == 1:
        (m, c), = p.items()
        if m.count(sym) == 1:
            mm = list(m)
            mm.remove(sym)
            rest = from_poly({tuple(mm): c})
            if not any(t == sym for t in walk(rest)):
                return ('prod', rest)
    # all monomials contain sym exactly once: v = sym * (…)
    if p and all(m.count(sym) == 1 for m in p):
        q = {}
        for m, c in p.items():
            mm = list(m)
            mm.remove(sym)
            q[tuple(mm)] = q.get(tuple(mm), 0) + c
        rest = from_poly(q)
        if not any(t == sym for t in walk(rest)):
            return ('prod', rest)
    return None


def strip_dom_cond(dd, dom, iv):
    """remove from the piecewise conditions the loop-domain condition (true in every iteration)"""
    out = []
    for c, v in dd:
        cc = tuple(x for x in c if not is_dom_cond(x, dom, iv))
        out.append((cc, v))
    return out


def is_dom_cond(x, dom, iv):
    c, b = x
    if c[0] == 'cmp' and dom and dom[0] == 'range':
        for op, isint in (('<', True), ('<', False)):
            t = cmp_term('<', iv, sub(dom[2], dom[1]), isint)
            if (c == t and b) or (c == mk_not(t) and not b):
                return True
            if c[:3] == t[:3] and b:
                return True
    return False


def accum_close(kind, init, dom, depth, dd):
    if kind == 'append' and len(dd) > 1 and len({v for _, v in dd}) == 1:
        dd = [((), dd[0][1])]
    if len(dd) == 1 and not dd[0][0]:
        e = dd[0][1]
    else:
        e = ('pw', tuple(sorted(((c, v if v is not None else ('skip',)) for c, v in dd), key=repr)))
    own = any(t == ('iv', depth) for t in walk(e))
    e = shift_iv(e, depth)
    if kind == 'sum' and e[0] == 'pw':
        # conditions no iteration changes: outside the sum
        bv = ('bv', bv_level(e))
        back = {bv: ('iv', depth)}
        g = {}
        for c, v in e[1]:
            inv = tuple(x for x in c if not any(t == bv or t[:1] in (('lv',), ('res',)) for t in walk(x[0])))
            g.setdefault(frozenset(inv), []).append((tuple(x for x in c if x not in inv), v, inv))
        ks = list(g)
        if len(ks) > 1 and all(any((c, not b) in k2 for c, b in k1) for n, k1 in enumerate(ks) for k2 in ks[:n]):
            out = []
            for k, cs in g.items():
                vs = [(c, v) for c, v, _ in cs]
                if all(v == ('skip',) or v == ZERO for _, v in vs):
                    out.append((cs[0][2], ('skip',)))
                else:
                    out.append((cs[0][2], accum_close('sum', ZERO, dom, depth, [(tuple((T.subst(x, back), b) for x, b in c), None if v == ('skip',) else T.subst(v, back)) for c, v in vs])))
            return add(init, ('pw', tuple(sorted(out, key=repr))))
    if kind == 'sum':
        if e[0] not in ('pw',) and not own:
            n = dom_count(dom)
            if n is not None:
                return add(init, mul(n, e))
        return add(init, ('app', 'sum', dom, e))
    if kind == 'prod':
        return mul(init, ('app', 'prodover', dom, e))
    if kind in ('append',):
        m = ('app', 'map', dom, e)
        if init == ('list', ()):
            return m
        return ('app', 'concat', init, m)
    if kind == 'setadd' and init[0] == 'app' and init[1] == 'set' and len(init) == 3:
        m = ('app', 'map', dom, e)
        return ('app', 'set', m if init[2] == ('list', ()) else ('app', 'concat', init[2], m))
    if kind == 'setitem':
        return ('app', 'dictmap', init, dom, e)
    return ('app', 'accum:' + kind, init, dom, e)


def shift_iv(e, depth):
    """close the loop index: ('iv',depth) becomes a bound variable numbered by nesting inside e"""
    return T.subst(e, {('iv', depth): ('bv', bv_level(e))})


_HEIGHT = {}


def binder(t):
    """does the last component of this term range over a bound index?"""
    return t[0] == 'app' and t[1] in ('map', 'sum', 'prodover', 'dictmap', 'fill') and len(t) > 3 or t[0] == 'app' and isinstance(t[1], str) and t[1].startswith('accum:') or t[0] == 'forall' and len(t) == 3


def height(t):
    """nesting of the binders in a term"""
    if not isinstance(t, tuple) or not t or t[0] in ('num', 'str', 'sym', 'bool', 'none', 'loc', 'iv', 'bv', 'glob'):
        return 0
    x = _HEIGHT.get(id(t))
    if x is not None:
        return x[1]
    h = 0
    for y in t:
        if isinstance(y, tuple):
            h = max(h, height(y))
    if isinstance(t[0], str) and len(t) > 2 and binder(t):
        h = max(h, 1 + height(t[-1]))
    if len(_HEIGHT) > 300000:
        _HEIGHT.clear()
    _HEIGHT[id(t)] = (t, h)
    return h


def bv_level(e):
    """the number of the index bound directly around e"""
    return 1 + height(e)


WIDTH = {'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64}


def bare(t):
    return re.sub(r'\b(const|volatile)\b', '', t or '').replace('&', '').strip()


def strip_ir(e):
    if isinstance(e, dict):
        while e.get('k') in ('copy', 'paren') and 'e' in e:
            e = e['e']
        return {k: strip_ir(v) for k, v in e.items() if k not in ('ln', 'ty', 'cty', 'from')}
    if isinstance(e, (list, tuple)):
        return [strip_ir(x) for x in e]
    return e


def jumps(s, inner=False):
    """does the statement continue the loop it belongs to?"""
    if isinstance(s, dict):
        if s.get('k') == 'continue':
            return True
        if s.get('k') in ('while', 'for', 'do', 'rfor', 'lambda'):
            return False
        return any(jumps(v) for v in s.values())
    if isinstance(s, (list, tuple)):
        return any(jumps(v) for v in s)
    return False


def rotated(s):
    inc, c, init = s.get('inc'), s.get('c'), s.get('init')
    if not inc or not c or not init or inc.get('k') not in ('asg', 'call') or jumps(s['b']):
        return False
    if init.get('k') in ('block', 'seq'):
        if len(init['b']) != 1:
            return False
        init = init['b'][0]
    if inc.get('k') == 'call' and inc.get('f') in ('operator=',) and len(inc.get('a', ())) == 2:
        l, r = inc['a']
    elif inc.get('k') == 'asg' and inc.get('op') == '=':
        l, r = inc['l'], inc['r']
    else:
        return False
    if init.get('k') == 'decl' and l.get('k') == 'var' and l.get('id') == init.get('id') and not init.get('ref'):
        return strip_ir(init.get('init')) == strip_ir(r)
    if init.get('k') == 'expr' and strip_ir(init.get('e')) == strip_ir(inc):
        return True
    return False


def iterfor(s):
    """for (it = begin(c); it != end(c); ++it) B(*it)  is  for (x : c) B(x)"""
    ini, c, inc = s.get('init'), s.get('c'), s.get('inc')
    if not ini or not c or not inc:
        return None
    ds = ini['b'] if ini.get('k') in ('block', 'seq') else [ini]
    if not 1 <= len(ds) <= 2 or any(d.get('k') != 'decl' or d.get('bind') or d.get('ref') or not d.get('init') for d in ds):
        return None

    def cont(x, names):
        x = bare_expr(x)
        if x.get('k') == 'call' and x.get('f') in names:
            if 'o' in x and not x['a']:
                return x['o']
            if 'o' not in x and len(x['a']) == 1:
                return x['a'][0]
        return None
    it = ds[0]['id']
    r = cont(ds[0]['init'], ('begin', 'cbegin'))
    inc = bare_expr(inc)
    if r is None or bare_expr(r).get('k') not in ('var', 'mem', 'this') or inc.get('k') != 'un' or inc.get('op') != '++' or not is_var(inc['e'], it):
        return None
    c = bare_expr(c)
    if c.get('k') == 'un' and c.get('op') == '!':
        c = bare_expr(c['e'])
        ops = ('==',)
    else:
        ops = ('!=',)
    if c.get('k') != 'bin' or c.get('op') not in ops:
        return None
    a, b = c['l'], c['r']
    if is_var(b, it):
        a, b = b, a
    if not is_var(a, it):
        return None
    if len(ds) == 2:
        if not is_var(b, ds[1]['id']):
            return None
        e = cont(ds[1]['init'], ('end', 'cend'))
    else:
        e = cont(b, ('end', 'cend'))
    if e is None or strip_ir(e) != strip_ir(r):
        return None
    ok = [True]
    count = []

    def sub_(x):
        if isinstance(x, dict):
            if x.get('k') == 'bin' and x.get('op') in ('==', '!='):
                a_, b_ = (x['l'], x['r']) if is_var(x['l'], it) else (x['r'], x['l'])
                e_ = cont(b_, ('begin', 'cbegin'))
                if is_var(a_, it) and e_ is not None and strip_ir(e_) == strip_ir(r):
                    count.append(1)
                    return dict(x, l={'k': 'var', 'id': ('count', it), 'n': 'i#', 'ty': 'unsigned long'}, r={'k': 'int', 'v': '0', 'ty': 'unsigned long'})
            if x.get('k') == 'un' and x.get('op') == '*' and is_var(x['e'], it):
                return {'k': 'var', 'id': it, 'n': ds[0]['n'], 'ln': x.get('ln'), 'ty': x.get('ty')}
            if x.get('k') == 'mem' and x.get('arrow') and (is_var(x['o'], it) or x['o'].get('k') == 'arrow' and is_var(x['o']['e'], it)):
                return dict(x, arrow=False, o={'k': 'var', 'id': it, 'n': ds[0]['n'], 'ln': x.get('ln'), 'ty': ''})
            if x.get('k') == 'call' and x.get('o') and (x['o'].get('k') == 'arrow' and is_var(x['o']['e'], it)):
                return dict({k: sub_(v) for k, v in x.items() if k != 'o'}, o={'k': 'var', 'id': it, 'n': ds[0]['n'], 'ln': x.get('ln'), 'ty': ''})
            if x.get('k') == 'var' and x.get('id') == it:
                ok[0] = False
            return {k: sub_(v) if isinstance(v, (dict, list)) else v for k, v in x.items()}
        if isinstance(x, list):
            return [sub_(v) for v in x]
        return x
    body = sub_(s['b'])
    if not ok[0]:
        return None
    f = {'k': 'rfor', 'r': r, 'v': {'id': it, 'n': ds[0]['n'], 'ref': True}, 'b': body, 'ln': s.get('ln')}
    if count:
        if jumps(body):
            return None
        k = {'k': 'var', 'id': ('count', it), 'n': 'i#', 'ty': 'unsigned long'}
        f['b'] = {'k': 'block', 'b': [body, {'k': 'expr', 'e': {'k': 'un', 'op': '++', 'e': k, 'ln': s.get('ln'), 'ty': 'unsigned long'}, 'ln': s.get('ln')}]}
        return {'k': 'block', 'b': [{'k': 'decl', 'id': ('count', it), 'n': 'i#', 'ty': 'unsigned long', 'init': {'k': 'int', 'v': '0', 'ty': 'unsigned long'}, 'ln': s.get('ln')}, f]}
    return f


def iter_at(x):
    """container, 'begin' | 'rbegin' | 'end' and offset of begin() + n, rbegin() + n or end() - n of a vector"""
    x = bare_expr(x)
    n, op = None, None
    if x.get('k') == 'bin' and x.get('op') in ('+', '-'):
        op, n, x = x['op'], x['r'], bare_expr(x['l'])
    if x.get('k') == 'call' and x.get('f') in ('prev', 'next') and len(x['a']) in (1, 2) and 'o' not in x:
        op, n, x = '-' if x['f'] == 'prev' else '+', x['a'][1] if len(x['a']) == 2 else None, bare_expr(x['a'][0])
        n = n if n is not None and n.get('k') != 'defarg' else {'k': 'int', 'v': '1'}
    if x.get('k') != 'call' or x.get('f') not in ('begin', 'cbegin', 'rbegin', 'crbegin', 'end', 'cend'):
        return None
    o = x['o'] if 'o' in x and not x['a'] else x['a'][0] if 'o' not in x and len(x['a']) == 1 else None
    if o is None:
        return None
    t = bare_expr(o).get('cty') or bare_expr(o).get('ty') or ''
    if not any(w in t for w in ('vector<', 'basic_string<', 'std::string', 'deque<', 'array<')) or t.strip().endswith('*'):
        return None
    f = x['f'].lstrip('c') if x['f'] != 'crbegin' else 'rbegin'
    if (op == '-') != (f == 'end') or f == 'end' and n is None:
        return None
    return o, f, n


def whilefor(b):
    """auto it = begin(c); while (it != end(c)) { B; ++it; }  is a for loop"""
    out, i = [], 0
    while i < len(b):
        x = b[i]
        y = b[i + 1] if i + 1 < len(b) else None
        if x.get('k') == 'decl' and y and y.get('k') == 'while' and x.get('init') and y['b'].get('k') in ('block', 'seq') and y['b']['b'] and not y.get('cv'):
            last = y['b']['b'][-1]
            inc = bare_expr(last['e']) if last.get('k') == 'expr' else {}
            if inc.get('k') == 'un' and inc.get('op') == '++' and is_var(inc['e'], x.get('id')) and not jumps(y['b']) and not uses(b[i + 2:], x['id']):
                f = {'k': 'for', 'init': x, 'c': y['c'], 'inc': inc, 'b': dict(y['b'], b=y['b']['b'][:-1]), 'ln': y.get('ln')}
                if iterfor(f):
                    out.append(f)
                    i += 2
                    continue
        out.append(x)
        i += 1
    return out


def uses(x, i):
    if isinstance(x, dict):
        return x.get('k') == 'var' and x.get('id') == i or any(uses(v, i) for v in x.values())
    if isinstance(x, (list, tuple)):
        return any(uses(v, i) for v in x)
    return False


def int_type(e):
    t = (bare_expr(e).get('ty') or bare_expr(e).get('cty') or '').replace('const ', '').replace('&', '').strip()
    return t in ('int', 'long', 'unsigned int', 'unsigned long', 'short', 'size_t', 'long long', 'unsigned')


def bitop(nm, *xs):
    """associative and commutative operation on the bits of integers"""
    fl, k = [], None
    for x in xs:
        fl += x[2:] if x[:2] == ('app', nm) else [x]
    out = []
    for x in fl:
        if is_num(x):
            a = int(x[1])
            k = a if k is None else k & a if nm == 'bitand' else k | a if nm == 'bitor' else k ^ a
        elif x in out:
            if nm == 'xor':
                out.remove(x)
        else:
            out.append(x)
    if k is not None and (k != 0 or nm == 'bitand' or not out):
        out.append(num(k))
    out.sort(key=repr)
    return out[0] if len(out) == 1 else ('app', nm, *out) if out else ZERO


def bare_expr(x):
    while x.get('k') in ('cast', 'copy', 'paren') or x.get('k') == 'ctor' and x.get('implicit') and len(x.get('a', ())) == 1:
        x = x['e'] if 'e' in x else x['a'][0]
    return x


def is_var(x, i):
    x = bare_expr(x)
    return x.get('k') == 'var' and x.get('id') == i


def guard(c, b):
    """while (true) { S; if (q) break; T }  ->  S, not q, T"""
    if c is not None and not (c.get('k') == 'bool' and c.get('v') in (True, 'true', 1) or c.get('k') == 'int' and str(c.get('v')) == '1'):
        return [], c, b
    if b.get('k') not in ('block', 'seq'):
        return [], c, b
    for i, x in enumerate(b['b']):
        if x.get('k') == 'if' and only_break(x.get('t')) and not x.get('init') and not x.get('cv'):
            e = x.get('e')
            rest = ([e] if e and e.get('b', True) else []) + list(b['b'][i + 1:])
            return list(b['b'][:i]), {'k': 'un', 'op': '!', 'e': x['c'], 'ln': x.get('ln'), 'ty': 'bool', 'rt': 'b'}, {'k': 'block', 'b': rest}
    return [], c, b


def only_break(t):
    while t and t.get('k') in ('block', 'seq') and len(t['b']) == 1:
        t = t['b'][0]
    return bool(t) and t.get('k') == 'break'


def close_iv(y, iv, sym, base_log):
    m = {iv: sym}
    if any(iv in walk(c) for c, _, _ in y.facts.log[base_log:]):
        f = Facts()
        for i, (c, v, ln) in enumerate(y.facts.log):
            f = f.assume(T.subst(c, m) if i >= base_log else c, v, ln)
            if f is None:
                return None
        y.facts = f
    for l, v in list(y.heap.items()):
        if iv in walk(v):
            y.heap[l] = T.subst(v, m)
    for l in [l for l in y.heap if iv in walk(l)]:
        y.heap[T.subst(l, m)] = y.heap.pop(l)
    y.ev = tuple(T.subst(e, m) if e[0] == 'inloop' else e for e in y.ev)
    return y


def beta(e, iv):
    """element of a closed map body at index iv"""
    return T.subst(e, {('bv', bv_level(e)): iv})


def forall_term(dom, part, depth):
    return ('forall', dom, shift_iv(tuple(sorted(set(part), key=repr)), depth))


def same_size(f, n):
    """of two lengths known to be equal, one"""
    if n[:2] != ('app', 'size'):
        return n
    for _ in range(3):
        m = n
        for q, v in f.iv.items():
            if v[0] == 0 and v[2] == 0 and q[0] == 'poly':
                d = to_poly(q)
                if len(d) == 2 and sorted(d.values()) == [-1, 1] and (n,) in d:
                    o = [x for x in d if x != (n,)][0]
                    if len(o) == 1 and o[0][:2] == ('app', 'size') and repr(o[0]) < repr(n):
                        m = o[0]
        if m == n:
            return n
        n = m
    return n


def dom_count(dom):
    if dom is None:
        return None
    if dom[0] == 'range':
        return sub(dom[2], dom[1])
    if dom[0] == 'over':
        return size_term(dom[1])
    return None


def join_facts(a, b):
    """facts true in both (used when two traces reach the same state); the differing parts become a disjunction"""
    f = Facts()
    lb = set((c, v) for c, v, _ in b.log)
    la = set((c, v) for c, v, _ in a.log)
    for c, v, ln in a.log:
        if (c, v) in lb:
            g = f.assume(c, v, ln)
            if g is not None:
                f = g
    ra = tuple(c if v else mk_not(c) for c, v, _ in a.log if (c, v) not in lb)
    rb = tuple(c if v else mk_not(c) for c, v, _ in b.log if (c, v) not in la)
    if ra and rb and not (len(ra) == 1 and len(rb) == 1 and mk_not(ra[0]) == rb[0]):
        ca = ra[0] if len(ra) == 1 else ('and', ra)
        cb = rb[0] if len(rb) == 1 else ('and', rb)
        d = flat_or(ca, cb)
        if len(repr(d)) > 8000:
            return None
        # (x and r1) or (not x and r2): keep as is
        g = f.assume(d, True, a.log[-1][2])
        if g is not None:
            f = g
    return f


def flat_or(a, b):
    xs = []
    for t in (a, b):
        for x in (t[1] if t[0] == 'or' else (t,)):
            if x not in xs:
                xs.append(x)
    # x or (not x and y)  ->  x or y
    while True:
        ys = []
        for n, x in enumerate(xs):
            rest = xs[:n] + xs[n + 1:]
            if x[0] == 'and':
                p = tuple(y for y in x[1] if mk_not(y) not in rest and not any(z == mk_not(y) or mk_not(z) == y for z in rest))
                if not p:
                    return TRUE
                if p != x[1]:
                    ys = xs[:n] + [p[0] if len(p) == 1 else ('and', p)] + xs[n + 1:]
                    break
        if not ys:
            break
        xs = []
        for x in ys:
            if x not in xs:
                xs.append(x)
    return ('or', tuple(xs)) if len(xs) > 1 else xs[0]
