"""Value-numbering domain: canonical terms, polynomial normal form, path facts."""
from fractions import Fraction

TRUE = ('bool', True)
FALSE = ('bool', False)
NONE = ('none',)


def num(x):
    return ('num', Fraction(x))


ZERO = num(0)
ONE = num(1)


def is_num(t):
    return t[0] == 'num'


class Ctx:
    commutative = True


UNPACKED = set()            # values taken apart into so many pieces
COMM = [True]


def wipe(t):
    """t without the numbers of its indices"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] in ('iv', 'bv'):
        return ('iv',)
    if t[0] == 'lv':
        return ('lv',)
    if t[0] == 'res' and len(t) == 5:
        return ('res', t[2], wipe(t[3]))
    return tuple('idx' if x == 'elem' else wipe(x) for x in t)
OPS = [frozenset()]         # where products do not commute: the functions whose results are operators (empty: unknown)
_CENTRAL = {}


def central(x):
    """a factor which is a plain number"""
    if x[0] in ('num', 'bv', 'iv', 'str') or x == ('sym', '1j') or x[0] == 'app' and x[1] == 'size':
        return True
    if not OPS[0]:
        return False
    k = (OPS[0], x)
    r = _CENTRAL.get(k)
    if r is None:
        if len(_CENTRAL) > 100000:
            _CENTRAL.clear()
        st, r = [x], True
        while st:
            t = st.pop()
            if isinstance(t, tuple):
                if len(t) > 2 and t[0] in ('res', 'hv') and t[2] in OPS[0] or t[:1] == ('lv',):
                    r = False
                    break
                st += [y for y in t if isinstance(y, tuple)]
        _CENTRAL[k] = r
    return r


_KEY = {}


def key(t):
    """repr, remembered per object (terms share their parts)"""
    if not isinstance(t, tuple):
        return repr(t)
    i = id(t)
    r = _KEY.get(i)
    if r is not None:
        return r[1]
    x = '(' + ', '.join([key(y) for y in t]) + (',)' if len(t) == 1 else ')')
    if len(_KEY) > 400000:
        _KEY.clear()
    _KEY[i] = (t, x)
    return x


# ---- polynomials -------------------------------------------------------------
def to_poly(t):
    if t[0] == 'num':
        return {(): t[1]} if t[1] != 0 else {}
    if t[0] == 'bool':
        return {(): Fraction(1)} if t[1] else {}
    if t[0] == 'poly':
        return dict(t[1])
    return {(t,): Fraction(1)}


def from_poly(d):
    d = {m: c for m, c in d.items() if c != 0}
    if not d:
        return ZERO
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return ('num', c)
        if len(m) == 1 and c == 1:
            return m[0]
    return ('poly', tuple(sorted(d.items(), key=lambda kv: (len(kv[0]), key(kv[0])))))


NONNUM = ('str', 'list', 'tup', 'none', 'dict')


def add(a, b):
    if a[0] in NONNUM or b[0] in NONNUM:
        if a[0] == b[0] == 'str':
            return ('str', a[1] + b[1])
        if a[0] == b[0] and a[0] in ('list', 'tup'):
            return (a[0], a[1] + b[1])
        return ('app', 'concat', a, b)
    pa, pb = to_poly(a), to_poly(b)
    for m, c in pb.items():
        pa[m] = pa.get(m, 0) + c
    return from_poly(pa)


def neg(a):
    return from_poly({m: -c for m, c in to_poly(a).items()})


def sub(a, b):
    if a[0] in NONNUM or b[0] in NONNUM:
        return ('app', 'sub', a, b)
    return add(a, neg(b))


def mono_mul(m1, m2):
    m = list(m1) + list(m2)
    if COMM[0]:
        m.sort(key=key)
        # cancel x * inv(x)
        out = []
        for f in m:
            g = f[2] if (f[0] == 'app' and f[1] == 'inv') else ('app', 'inv', f)
            if g in out:
                out.remove(g)
            else:
                out.append(f)
        m = out
    elif len(m) > 1:
        cs = [f for f in m if central(f)]
        if cs:
            cs.sort(key=key)
            m = cs + [f for f in m if not central(f)]
    return tuple(m)


def mul(a, b):
    if a[0] in NONNUM or b[0] in NONNUM:
        return ('app', 'mul', a, b)
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > 60:
        return ('app', 'mul', a, b)
    r = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = mono_mul(m1, m2)
            r[m] = r.get(m, 0) + c1 * c2
    return from_poly(r)


def div(a, b):
    if a[0] in NONNUM or b[0] in NONNUM:
        return ('app', 'div', a, b)
    if is_num(b):
        if b[1] == 0:
            return ('app', 'div', a, b)
        return mul(a, ('num', 1 / b[1]))
    pb = to_poly(b)
    if len(pb) == 1:
        (m, c), = pb.items()
        inv = ONE
        for f in m:
            g = f[2] if (f[0] == 'app' and f[1] == 'inv') else ('app', 'inv', f)
            inv = mul(inv, g)
        return mul(mul(a, ('num', 1 / c)), inv)
    return mul(a, ('app', 'inv', b))


def idiv(a, b):
    if is_num(a) and is_num(b) and b[1] != 0:
        q = abs(a[1]) // abs(b[1])
        return num(q if (a[1] < 0) == (b[1] < 0) else -q)
    if is_num(b) and b[1] == 1:
        return a
    return ('app', 'idiv', a, b)


def pymod(a, b):
    if is_num(a) and is_num(b) and b[1] != 0:
        return num(a[1] % b[1])
    return ('app', 'mod', a, b)


def poly_div_exact(a, b):
    return None


def lin_split(p):
    """p -> (q, s, c): p = s*q + c, q canonical without constant, leading coefficient +1."""
    d = to_poly(p)
    c = d.pop((), Fraction(0))
    if not d:
        return None, Fraction(0), c
    items = sorted(d.items(), key=lambda kv: (len(kv[0]), key(kv[0])))
    s = items[0][1]
    q = from_poly({m: k / s for m, k in d.items()})
    return q, s, c


# ---- conditions ---------------------------------------------------------------
# ('cmp', op, p, isint) op in '<0','<=0','==0' ; ('not',c); other terms are boolean atoms.

NUMERIC_HINT = ('num', 'poly', 'bool')


def cmp_term(op, a, b, isint=False):
    """canonical term of (a op b), op in < <= > >= == !="""
    if op == '>':
        return cmp_term('<', b, a, isint)
    if op == '>=':
        return cmp_term('<=', b, a, isint)
    if op == '!=':
        return mk_not(cmp_term('==', a, b, isint))
    if op == '==':
        if a == b:
            return TRUE
        if a[0] in NONNUM or b[0] in NONNUM:
            if a[0] == b[0] and a[0] in ('str', 'none'):
                return ('bool', a == b)
            if a[0] == 'none' and b[0] in ('num', 'str', 'bool', 'list', 'tup', 'new', 'lam', 'struct', 'poly') or \
               b[0] == 'none' and a[0] in ('num', 'str', 'bool', 'list', 'tup', 'new', 'lam', 'struct', 'poly'):
                return FALSE
            x, y = sorted([a, b], key=repr)
            return ('app', 'eq', x, y)
        if a[0] == 'bool' and b[0] == 'bool':
            return ('bool', a == b)
        if a[0] == 'bool':
            a, b = b, a
        if b[0] == 'bool' and is_cond(a):
            return a if b[1] else mk_not(a)
    p = sub(a, b)
    q, s, c = lin_split(p)
    if q is None:
        return ('bool', {'<': c < 0, '<=': c <= 0, '==': c == 0}[op])
    isint = isint or intpoly(q)
    if op == '==':
        p = add(q, ('num', c / s))
        return ('cmp', '==0', p, isint)
    if ABS_MODE[0]:
        d = to_poly(p)
        for m, k in d.items():
            if len(m) == 1 and m[0][0] == 'app' and m[0][1] in ('abs', 'max', 'min') and len(m[0]) >= 3:
                f, xs = m[0][1], m[0][2:]
                if f == 'abs':
                    xs = (xs[0], neg(xs[0]))
                if len(xs) < 2 or any(x[0] in NONNUM for x in xs):
                    continue
                rest = from_poly({n: c for n, c in d.items() if n != m})
                cs = tuple(cmp_term(op, add(rest, mul(('num', k), x)), ZERO, isint) for x in xs)
                # every one of them, or one of them, below
                return ('and' if (k > 0) == (f != 'min') else 'or', cs)
    return ('cmp', op + '0', from_poly({m: k / abs(s) for m, k in to_poly(p).items()}), isint)


ABS_MODE = [False]


# names which hold integers (set by the Python front end)
INTNAMES = set()


def intpoly(q):
    """sizes and loop indices with integer coefficients"""
    d = to_poly(q)
    if not all(k.denominator == 1 for k in d.values()):
        return False
    if any(a[0] == 'app' and a[1] == 'idiv' for m in d for a in m):
        return True   # a floored quotient: index arithmetic
    return all(a[0] == 'iv' or a[0] == 'app' and a[1] == 'size' or INTNAMES and (a[-1] if a[0] == 'fld' else a[1] if a[0] == 'sym' else None) in INTNAMES for m in d for a in m)


def is_cond(t):
    return t[0] in ('cmp', 'not', 'and', 'or', 'forall') or (t[0] == 'app' and t[1] in ('eq', 'in', 'is', 'isinstance', 'truth'))


NAN_MODE = [False]


def mk_not(c):
    if c[0] == 'bool':
        return ('bool', not c[1])
    if c[0] == 'num':
        return ('bool', c[1] == 0)
    if c[0] == 'not':
        return c[1]
    if c[0] == 'cmp' and c[1] in ('<0', '<=0') and not NAN_MODE[0]:
        return ('cmp', '<=0' if c[1] == '<0' else '<0', neg(c[2]), c[3])
    if c[0] == 'and':
        return ('or', tuple(mk_not(x) for x in c[1]))
    if c[0] == 'or':
        return ('and', tuple(mk_not(x) for x in c[1]))
    return ('not', c)


CLASSES = {}   # name -> names of the bases, for the classes whose ancestors are all known
BUILTIN = {'int': (), 'str': (), 'list': (), 'tuple': (), 'dict': (), 'set': (), 'frozenset': (), 'slice': (), 'float': (), 'complex': (), 'bytes': (), 'bool': ('int',), 'range': (), 'ndarray': (), 'bool_': ()}


def class_name(c):
    return c[1] if c[0] in ('cls', 'glob') else c[2] if c[0] == 'fld' and isinstance(c[2], str) else None


def ancestors(n):
    """the classes n derives from, or None"""
    out, todo = set(), [n]
    while todo:
        x = todo.pop()
        if x in out or x == 'object':
            continue
        b = BUILTIN.get(x, CLASSES.get(x))
        if b is None:
            if x.startswith('Mesh') and x not in ('Mesh', 'MeshPoint'):
                b = ()
            else:
                return None
        out.add(x)
        todo += b
    return out


def class_relation(a, b):
    """'sub': every a is a b; 'excl': no object is both"""
    a, b = class_name(a), class_name(b)
    if a is None or b is None:
        return None
    x, y = ancestors(a), ancestors(b)
    if x is None or y is None:
        return None
    if b in x:
        return 'sub'
    if a in y:
        return None
    return 'excl'


CONSTK = ('str', 'none')


def is_const(y):
    return y[0] in CONSTK or y[0] == 'tup' and all(z[0] in ('num', 'str', 'none') for z in y[1])

BOOLF = set()      # attributes only ever assigned truth values
LISTF = set()      # attributes and module variables only ever assigned lists


def boolish(t):
    return t[0] == 'bool' or is_cond(t) or t[0] == 'fld' and t[2] in BOOLF


class Facts:
    """conjunction of path conditions: intervals per canonical linear form + boolean atoms"""
    __slots__ = ('iv', 'ba', 'log')

    def __init__(self):
        self.iv = {}   # q -> (lo, lo_open, hi, hi_open, excl frozenset, isint)
        self.ba = {}   # atom -> bool
        self.log = ()  # ordered ((cond,bool,line))

    def copy(self):
        f = Facts.__new__(Facts)
        f.iv = dict(self.iv)
        f.ba = dict(self.ba)
        f.log = self.log
        return f

    # tri-state evaluation of an atomic cond
    def value(self, c):
        if c[0] == 'bool':
            return c[1]
        if c[0] == 'num':
            return c[1] != 0
        if c[0] == 'not':
            v = self.value(c[1])
            return None if v is None else not v
        if c[0] == 'and':
            r = True
            for x in c[1]:
                v = self.value(x)
                if v is False:
                    return False
                if v is None:
                    r = None
            return self.ba.get(c) if r is None else r
        if c[0] == 'or':
            r = False
            for x in c[1]:
                v = self.value(x)
                if v is True:
                    return True
                if v is None:
                    r = None
            return self.ba.get(c) if r is None else r
        if c in self.ba:
            return self.ba[c]
        if c[0] == 'app' and c[1] == 'isinstance' and len(c) == 4:
            for k, v in self.ba.items():
                if k[0] == 'app' and k[1] == 'isinstance' and k[2] == c[2]:
                    if v and class_name(k[3]):
                        r = class_relation(k[3], c[3])
                        if r:
                            return r == 'sub'
                    elif not v and class_relation(c[3], k[3]) == 'sub':
                        return False
                elif v and k == ('app', 'is', c[2], NONE):
                    return False
            for k, v in self.ba.items():
                if v and k[0] == 'app' and k[1] == 'eq':
                    for x, y in ((k[2], k[3]), (k[3], k[2])):
                        if x == ('app', 'type', c[2]) and class_name(y):
                            r = class_relation(y, c[3])
                            if r:
                                return r == 'sub'
        elif c[0] == 'app' and c[1] == 'eq' and len(c) == 4:
            if c[2] == c[3]:
                return True
            if is_const(c[2]) and is_const(c[3]):
                return False
            for t, y in ((c[2], c[3]), (c[3], c[2])):
                if is_const(y):
                    for k, v in self.ba.items():
                        if v and k[0] == 'app' and k[1] == 'eq' and len(k) == 4 and t in k[2:]:
                            z = k[3] if k[2] == t else k[2]
                            if is_const(z) and z != y:
                                return False
                if t[:2] == ('app', 'type') and class_name(y):
                    for k, v in self.ba.items():
                        if v and k[0] == 'app' and k[1] == 'eq' and t in k[2:]:
                            z = k[3] if k[2] == t else k[2]
                            if class_name(z) and class_relation(y, z):
                                return class_name(y) == class_name(z)
                        elif v and k[0] == 'app' and k[1] == 'isinstance' and k[2] == t[2] and class_relation(y, k[3]) == 'excl':
                            return False
        elif c[0] == 'app' and c[1] == 'is' and len(c) == 4 and c[3] == NONE:
            if c[2] == NONE:
                return True
            for k, v in self.ba.items():
                if v and k[0] == 'app' and k[1] == 'isinstance' and k[2] == c[2]:
                    return False
        if c[0] == 'cmp':
            q, s, k = lin_split(c[2])
            t = self._interval_truth(q, s, k, c[1], c[3])
            return t
        if c[0] in ('str', 'list', 'tup'):
            return len(c[1]) > 0
        if c[0] == 'none':
            return False
        if c[0] in ('new', 'lam', 'fn', 'cls', 'bm'):
            return True if c[0] in ('lam', 'fn', 'cls', 'bm') else None
        if c[0] == 'poly':
            q, s, k = lin_split(c)
            t = self._interval_truth(q, s, k, '==0', False)
            return None if t is None else not t
        return None

    def _get(self, q, isint=False):
        v = self.iv.get(q)
        if v is None:
            d = self.derived(q)
            if d is not None:
                return (d, False, d, False, frozenset(), isint)
            lo = Fraction(0) if nonneg(q) else None
            return (lo, False, None, False, frozenset(), isint)
        return v

    def derived(self, q):
        """the value of a difference a - b which follows from two known differences a - c, c - b"""
        if q is None or q[0] != 'poly' or len(q[1]) != 2:
            return None
        ms = {m for m, _ in q[1]}
        pts = [(p, v[0]) for p, v in self.iv.items() if v[0] is not None and v[0] == v[2] and p != q and p[0] == 'poly' and len(p[1]) == 2 and ms & {m for m, _ in p[1]}]
        if not 2 <= len(pts) <= 6:
            return None
        for i, (p, x) in enumerate(pts):
            for r, y in pts[i + 1:]:
                for z, b in ((add(p, r), x + y), (sub(p, r), x - y)):
                    q2, s, k = lin_split(z)
                    if q2 == q:
                        return (b - k) / s
        return None

    def _interval_truth(self, q, s, k, op, isint):
        lo, lo_o, hi, hi_o, ex, ii = self._get(q, isint)
        isint = isint or ii
        b = -k / s   # boundary for q
        if op == '==0':
            if b in ex:
                return False
            if lo is not None and (b < lo or (b == lo and lo_o)):
                return False
            if hi is not None and (b > hi or (b == hi and hi_o)):
                return False
            if isint and b.denominator != 1:
                return False
            if lo is not None and lo == hi and lo == b:
                return True
            return None
        # s*q + k < 0  -> q < b if s>0 else q > b
        strict = op == '<0'
        if s > 0:
            # q < b or q <= b
            if hi is not None and (hi < b or (hi == b and (hi_o or not strict))):
                return True
            if lo is not None and (lo > b or (lo == b and (lo_o or strict))):
                return False
        else:
            if lo is not None and (lo > b or (lo == b and (lo_o or not strict))):
                return True
            if hi is not None and (hi < b or (hi == b and (hi_o or strict))):
                return False
        return None

    def assume(self, c, val, line=None, record=True):
        """returns new Facts or None if contradictory"""
        v = self.value(c)
        if v is not None:
            return self if v == val else None
        f = self.copy()
        if record:
            f.log = f.log + ((c, val, line),)
        return f._assume(c, val)

    def _assume(self, c, val):
        if c[0] == 'not':
            return self._assume(c[1], not val)
        if c[0] == 'and' and val or c[0] == 'or' and not val:
            f = self
            for x in c[1]:
                f = f.assume(x, val, record=False)
                if f is None:
                    return None
            return f
        if c[0] in ('and', 'or'):
            self.ba[c] = val
            return self
        if c[0] == 'poly' or (c[0] not in ('cmp',) and False):
            q, s, k = lin_split(c)
            return self._narrow(q, s, k, '==0', not val, False)
        if c[0] == 'cmp':
            if NAN_MODE[0]:
                self.ba[c] = val
                return self
            q, s, k = lin_split(c[2])
            return self._narrow(q, s, k, c[1], val, c[3])
        self.ba[c] = val
        return self

    def _narrow(self, q, s, k, op, val, isint):
        lo, lo_o, hi, hi_o, ex, ii = self._get(q, isint)
        isint = isint or ii
        b = -k / s
        if op == '==0':
            if val:
                lo = hi = b
                lo_o = hi_o = False
            else:
                ex = ex | {b}
        else:
            strict = op == '<0'
            up = (s > 0) == val           # q bounded above by b
            st = strict if val else not strict
            if up:
                if hi is None or b < hi or (b == hi and st):
                    hi, hi_o = b, st
            else:
                if lo is None or b > lo or (b == lo and st):
                    lo, lo_o = b, st
        if isint:
            import math
            if lo is not None:
                l2 = math.floor(lo) + 1 if (lo_o and lo.denominator == 1) else math.ceil(lo)
                lo, lo_o = Fraction(l2), False
            if hi is not None:
                h2 = math.ceil(hi) - 1 if (hi_o and hi.denominator == 1) else math.floor(hi)
                hi, hi_o = Fraction(h2), False
            while lo is not None and lo in ex:
                lo += 1
            while hi is not None and hi in ex:
                hi -= 1
        else:
            if lo is not None and lo in ex:
                lo_o = True
            if hi is not None and hi in ex:
                hi_o = True
        if lo is not None and hi is not None and (lo > hi or (lo == hi and (lo_o or hi_o))):
            return None
        self.iv[q] = (lo, lo_o, hi, hi_o, ex, isint)
        if lo is not None and lo == hi and q is not None and q[0] == 'poly' and len(q[1]) == 2:
            for r, (l, lx, h, hx, x, _) in self.iv.items():
                if r != q and not (l is not None and l == h):
                    d = self.derived(r)
                    if d is not None and (d in x or l is not None and (d < l or d == l and lx) or h is not None and (d > h or d == h and hx)):
                        return None
        return self

    def consistent(self):
        for a, v in self.ba.items():
            if a[0] in ('or', 'and'):
                r = self._parts(a)
                if r is not None and r != v:
                    return False
        return True

    def leaves(self, limit=24):
        """the disjunctive facts resolved into cases: list of Facts, [] when contradictory, None when too many"""
        out, todo, n = [], [self], 0
        while todo:
            f = todo.pop()
            n += 1
            if n > 8 * limit or len(out) > limit:
                return None
            best = None
            for a, v in f.ba.items():
                if a[0] in ('or', 'and') and (a[0] == 'or') == v:
                    vals = [f.value(x) for x in a[1]]
                    if v in vals:
                        continue
                    un = [x for x, r in zip(a[1], vals) if r is None]
                    if not un:
                        best = (0, (), v)
                        break
                    if best is None or len(un) < best[0]:
                        best = (len(un), un, v)
            if best is None:
                if f.consistent():
                    out.append(f)
                continue
            prev = f
            for x in best[1]:
                g = prev.assume(x, best[2], record=False)
                if g is not None:
                    todo.append(g)
                prev = prev.assume(x, not best[2], record=False)
                if prev is None:
                    break
        return out

    def _parts(self, c):
        # like value() but ignoring the stored atom itself
        vals = [self.value(x) if x[0] not in ('or', 'and') else self._parts(x) for x in c[1]]
        if c[0] == 'or':
            return True if True in vals else (False if all(v is False for v in vals) else None)
        return False if False in vals else (True if all(v is True for v in vals) else None)

    def merge(self, other):
        f = self
        for c, v, ln in other.log:
            f = f.assume(c, v, ln)
            if f is None:
                return None
        return f

    def equal(self, a, b):
        """are a and b equal under these facts (True/None)"""
        if a == b:
            return True
        try:
            d = sub(a, b)
        except Exception:
            return None
        if d == ZERO:
            return True
        if d[0] in ('num',):
            return False
        if d[0] == 'poly' or d[0] not in ('app', 'num'):
            # substitute point intervals of atoms
            q, s, k = lin_split(d)
            if q is not None:
                t = self._interval_truth(q, s, k, '==0', False)
                if t is True:
                    return True
            dd = self.subst_points(d)
            if dd == ZERO:
                return True
        return None

    def subst_points(self, t):
        env = {q: ('num', v[0]) for q, v in self.iv.items() if v[0] is not None and v[0] == v[2] and q[0] != 'poly'}
        if not env:
            return t
        r = ZERO
        for m, c in to_poly(t).items():
            x = ('num', c)
            for f in m:
                x = mul(x, env.get(f, f))
            r = add(r, x)
        return r


PURE_NONNEG = {'size', 'len', 'length', 'abs', 'norm'}


def nonneg(q):
    return q[0] == 'app' and q[1] in PURE_NONNEG


def walk(t):
    """all sub-terms (shared ones once)"""
    if not isinstance(t, tuple):
        return
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        i = id(x)
        if i in seen:
            continue
        seen.add(i)
        yield x
        for y in x:
            if isinstance(y, tuple):
                stack.append(y)


LEAF = ('num', 'str', 'bool', 'none')


def subst(t, m):
    """replace sub-terms by mapping; rebuilds polys; what does not change is shared"""
    hs = set()
    for k in m:
        hs.add(k[0] if k else None)
    memo = {}

    def go(t):
        if not isinstance(t, tuple) or not t:
            return t
        h = t[0]
        if isinstance(h, str):
            if h in hs:
                x = m.get(t, memo)
                if x is not memo:
                    return x
            if h in LEAF:
                return t
        elif h in hs and t in m:
            return m[t]
        i = id(t)
        x = memo.get(i)
        if x is not None:
            return x
        x = memo[i] = sub_(t, h)
        return x

    def sub_(t, h):
        if h == 'poly':
            mono = [(tuple([go(f) for f in ms]), c) for ms, c in t[1]]
            if all(a is b for (ms, _), (ns, _) in zip(t[1], mono) for a, b in zip(ms, ns)):
                return t
            r = ZERO
            for ms, c in mono:
                x = ('num', c)
                for f in ms:
                    x = mul(x, f)
                r = add(r, x)
            return r
        if h == 'cmp':
            p = go(t[2])
            if p is t[2]:
                return t
            return cmp_term({'<0': '<', '<=0': '<=', '==0': '=='}[t[1]], p, ZERO, t[3])
        if h == 'not':
            c = go(t[1])
            return t if c is t[1] else mk_not(c)
        r = tuple([go(x) for x in t])
        for a, b in zip(t, r):
            if a is not b:
                return r
        return t
    return go(t)


def show(t, depth=0):
    if not isinstance(t, tuple) or not t:
        return str(t)
    if depth > 8:
        return '…'
    k = t[0]
    d = depth + 1
    if not isinstance(k, str):
        return '(' + ', '.join(show(x, d) for x in t) + ')'
    if k == 'num':
        return str(t[1])
    if k in ('str',):
        return repr(t[1])
    if k == 'bool':
        return str(t[1])
    if k == 'none':
        return 'None'
    if k == 'sym':
        return str(t[1])
    if k == 'loc':
        return str(t[2])
    if k == 'fld':
        return show(t[1], d) + '.' + str(t[2])
    if k == 'idx':
        return show(t[1], d) + '[' + show(t[2], d) + ']'
    if k == 'elem':
        return show(t[1], d) + '[' + show(t[2], d) + ']'
    if k == 'poly':
        out = []
        for m, c in t[1]:
            s = '*'.join(show(f, d) for f in m)
            out.append((str(c) if (c != 1 or not s) else '') + ('*' if (c != 1 and s) else '') + s)
        return '(' + ' + '.join(out) + ')'
    if k == 'cmp':
        return show(t[2], d) + {'<0': ' < 0', '<=0': ' <= 0', '==0': ' == 0'}[t[1]]
    if k == 'not':
        return '!(' + show(t[1], d) + ')'
    if k == 'app':
        return str(t[1]) + '(' + ', '.join(show(x, d) for x in t[2:]) + ')'
    if k == 'res':
        return 'ret#%s:%s' % (t[1], t[2])
    if k == 'iv':
        return 'i%s' % (t[1],)
    if k in ('tup', 'list'):
        return k + '(' + ', '.join(show(x, d) for x in t[1]) + ')'
    if k == 'glob':
        return t[1]
    return k + '<' + ', '.join(show(x, d) if isinstance(x, tuple) else str(x) for x in t[1:4]) + '>'
