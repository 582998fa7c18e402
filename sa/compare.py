"""Summary comparison: the trace-partitioned summary of a repository function against the summary of its
reference (specification) function, both produced by the same abstract interpreter.

A pair of traces (implementation, reference) whose path conditions are jointly consistent must agree on
outcome, returned value, final non-local state and, per object, on the sequence of externally visible calls.
Three answers: equal / differs / undecided.  `differs` needs the implementation trace to be built only from
operations whose meaning is known (the vocabulary of the reference plus interpreted operators)."""
import time
from fractions import Fraction
from terms import *
import terms as T
from interp import append_term, Interp, root, strip_loc, size_term, walk, binder, bv_level

KNOWN = set('''inv idiv mod eq is in bitand bitor bitnot xor shl shr pow abs fabs floor ceil round trunc real imag conj conjugate transpose
size len sqrt exp log sum map prodover fill pw concat append setitem dictmap mul div sub neg matmul complex isinstance truth shape range
keys values items sorted reversed zip enumerate min max any all tuple list str int float bool getitem first second tup fltlit
isfinite isnan isinf strfmt set type lower upper T dictget sin cos tan arctan arctan2 sinh cosh tanh log2 log10
front back begin end empty cbegin cend rbegin rend lgamma power multiply f32 wrap8 wrap16 dangling'''.split())

UNSURE = {'unk', 'sel?', 'maybe', 'hv', 'uninit'}


def heads(t, acc=None):
    acc = set() if acc is None else acc
    for x in walk(t):
        if not x or not isinstance(x[0], str):
            continue
        k = x[0]
        if k == 'app' and len(x) > 1 and isinstance(x[1], str):
            acc.add(('f', x[1]))
        elif k == 'fld' and len(x) > 2 and isinstance(x[2], str):
            acc.add(('.', x[2]))
        elif k == 'glob':
            acc.add(('g', x[1]))
        elif k == 'new' and len(x) > 1 and isinstance(x[1], str):
            acc.add(('n', x[1]))
        elif k == 'res' and len(x) > 2:
            acc.add(('c', x[2]))
        elif k == 'hv' and len(x) > 1 and isinstance(x[1], tuple) and len(x[1]) == 2 and isinstance(x[1][0], str):
            acc.add(('c', x[1][0]))
        elif k in UNSURE:
            acc.add(('?', k))
    return acc


def ev_heads(ev, acc):
    for e in ev:
        if e[0] == 'call':
            acc.add(('c', e[1]))
            if e[2] is not None:
                heads(e[2], acc)
            heads(e[3], acc)
        elif e[0] == 'loop':
            if e[1]:
                heads(e[1], acc)
            for conds, bev, ctl, stores in e[2]:
                for c, _ in conds:
                    heads(c, acc)
                ev_heads(bev, acc)
                heads(stores, acc)
        elif e[0] == 'inloop':
            ev_heads((e[1],), acc)
        elif e[0] == 'unknown':
            acc.add(('?', 'stmt'))
        elif e[0] in ('store', 'yield', 'append', 'fold', 'yieldfrom', 'enter'):
            for x in e[1:]:
                if isinstance(x, tuple):
                    heads(x, acc)
    return acc


def path_heads(p):
    acc = set()
    for c, _, _ in p.facts.log:
        heads(c, acc)
    heads(p.value, acc) if p.kind == 'ret' else None
    for l, v in p.st.heap.items():
        if root(l)[0] not in ('loc', 'cap'):
            heads(l, acc)
            heads(v, acc)
    ev_heads(p.ev, acc)
    if p.st.unk:
        acc.add(('?', 'stmt'))
    return acc


# --------------------------------------------------------------------------- canonical forms
REWRITE = []
TERMK = {'app', 'fld', 'idx', 'sym', 'res', 'glob', 'iv', 'bv', 'lv', 'elem', 'out'}


_CANON = {}
_CSTATE = [None]


def canon(t):
    if not isinstance(t, tuple) or not t or t[0] in ('num', 'str', 'sym', 'bool', 'none'):
        return t if not REWRITE else canon_(t)
    stt = (T.COMM[0], T.OPS[0], len(REWRITE))
    if _CSTATE[0] != stt or len(_CANON) > 300000:
        _CANON.clear()
        _CSTATE[0] = stt
    i = id(t)
    x = _CANON.get(i)
    if x is not None:
        return x[1]
    r = canon_(t)
    if isinstance(t[0], str) and len(t) > 2 and binder(t) and isinstance(r, tuple) and len(r) > 2 and binder(r):
        # the numbers of the bound indices depend on the nesting, which may have changed
        a, b = bv_level(t[-1]), bv_level(r[-1])
        if a != b:
            r = r[:-1] + (T.subst(r[-1], {('bv', a): ('bv', b)}),)
    _CANON[i] = (t, r)
    return r


def canon_(t):
    r = canon1(t)
    if REWRITE and isinstance(r, tuple) and len(r) > 1 and isinstance(r[0], str):
        for h in REWRITE:
            x = h(r)
            if x is not None:
                r = x
    return r


def canon1(t):
    if not isinstance(t, tuple) or not t:
        return t
    k = t[0]
    if k == 'num' or k == 'str' or k == 'sym' or k == 'bool' or k == 'none':
        return t
    if k == 'poly':
        r = ZERO
        for mono, c in t[1]:
            x = ('num', c)
            for f in mono:
                x = mul(x, canon(f))
            r = add(r, x)
        return r
    if k == 'cmp':
        p = canon(t[2])
        return cmp_term({'<0': '<', '<=0': '<=', '==0': '=='}[t[1]], p, ZERO, t[3])
    if k == 'not':
        return mk_not(canon(t[1]))
    if k == 'loc':
        return ('loc', 0, t[2])
    if k == 'lam':
        return ('lam', 0)
    if k == 'over':
        return ('range', ZERO, canon(size_term(canon(t[1]))))
    if k == 'range':
        a, b = canon(t[1]), canon(t[2])
        return ('range', ZERO, sub(b, a)) if a[0] not in NONNUM and b[0] not in NONNUM else ('range', a, b)
    if k == 'elem':
        return ('idx', canon(t[1]), canon(t[2]))
    if k == 'cls':
        return ('glob', t[1])
    if k == 'fn':
        return ('glob', t[-1])
    if k == 'dict':
        return ('dict', tuple(sorted(((canon(a), canon(b)) for a, b in t[1]), key=repr)))
    if k == 'new' and len(t) == 4:
        args = tuple(canon(x) for x in t[2])
        kws = tuple(sorted((x for x in args if isinstance(x, tuple) and x and x[0] == 'kw'), key=repr))
        pos = tuple(x for x in args if not (isinstance(x, tuple) and x and x[0] == 'kw'))
        if len(pos) == 2 and not kws and pos[0][:2] == ('app', 'real') and len(pos[0]) == 3:
            # T(Re x, Im x), T(Re x, -Im x)
            im = ('app', 'imag', pos[0][2])
            if pos[1] == im:
                return pos[0][2]
            if pos[1] == neg(im):
                return ('app', 'conj', pos[0][2])
        return ('new', t[1], pos + kws, 0)
    if k == 'app' and t[1] == 'concat' and len(t) == 4 and t[3][0] == 'list' and not any(x[0] == 'star' for x in t[3][1]):
        r = canon(t[2])
        for x in t[3][1]:
            r = append_term(r, canon(x))
        return r
    if k == 'app' and t[1] in ('eq', 'xor', 'bitand', 'bitor'):
        return ('app', t[1]) + tuple(sorted((canon(x) for x in t[2:]), key=repr))
    if k == 'zip':
        ds = []
        for x in t[1:]:
            d = canon(x)
            for y in (d[1:] if d[0] == 'zip' else (d,)):
                if y not in ds:
                    ds.append(y)
        if len(ds) == 1:
            return ds[0]
        return ('zip',) + tuple(sorted(ds, key=repr))
    if k == 'struct':
        return ('struct', canon(t[1]), tuple(sorted((canon(x) for x in t[2]), key=repr)))
    if k == 'app' and t[1] == 'conjugate':
        return canon(('app', 'conj') + t[2:])
    if k == 'app' and t[1] == 'map' and len(t) == 4 and t[3][0] in ('idx', 'elem') and t[3][2] == ('bv', 1) and t[2] in (('over', t[3][1]), ('range', ZERO, ('app', 'size', t[3][1]))):
        return ('app', 'list', canon(t[3][1]))
    if k == 'app' and t[1] == 'isinstance' and len(t) == 4:
        c = canon(t[3])
        return ('app', 'isinstance', canon(t[2]), c)
    if k == 'pw' and len(t) == 2:
        return canon_pw0(t, True)
    if k == 'clo' and len(t) == 4 and t[3][0] == 'pw':
        return ('clo', canon(t[1]), canon(t[2]), canon_pw(t[3], False))
    if k == 'forall' and len(t) == 3:
        r = canon_pw(('pw', tuple((cc, ('bool', v) if isinstance(v, bool) else v) for cc, v in t[2])), True)
        if all(x[0] == 'bool' for _, x in r[1]):
            return ('forall', canon(t[1]), tuple((cc, x[1]) for cc, x in r[1]))
    if not isinstance(k, str):
        return tuple(canon(x) for x in t)
    return tuple(canon(x) if isinstance(x, tuple) else x for x in t)


def literal(c):
    """(atom, sign) of a canonical atomic condition"""
    if c[0] == 'not':
        a, s = literal(c[1])
        return a, not s
    if c[0] == 'cmp' and c[1] == '<=0' and not T.NAN_MODE[0]:
        return cmp_term('<', neg(c[2]), ZERO, c[3]), False
    return c, True


def b_atoms(c, acc):
    if c[0] == 'not':
        b_atoms(c[1], acc)
    elif c[0] in ('and', 'or') and len(c) == 2 and isinstance(c[1], tuple):
        for x in c[1]:
            b_atoms(x, acc)
    elif c[0] != 'bool':
        acc.add(literal(c)[0])
    return acc


def b_eval(c, env):
    """True / False / None (open) under a partial assignment of the atoms"""
    if c[0] == 'bool':
        return c[1]
    if c[0] == 'not':
        x = b_eval(c[1], env)
        return None if x is None else not x
    if c[0] in ('and', 'or') and len(c) == 2 and isinstance(c[1], tuple):
        vs = [b_eval(x, env) for x in c[1]]
        if c[0] == 'and':
            return False if False in vs else None if None in vs else True
        return True if True in vs else None if None in vs else False
    a, s = literal(c)
    v = env.get(a)
    return None if v is None else v == s


def canon_pw0(t, total):
    r = canon_pw(t, total)
    return r[1][0][1] if len(r[1]) == 1 and r[1][0][0] == () else r


def canon_pw(t, total):
    """a piecewise value in a normal form: the reduced decision tree over its atomic conditions in a fixed order.
    total: combinations covered by no case do not occur (they left the place the value belongs to)"""
    cases = [(tuple((canon(c), v) for c, v in cc), canon(x)) for cc, x in t[1]]
    plain = lambda: ('pw', tuple(sorted(cases, key=repr)))
    acc = set()
    for cc, x in cases:
        for c, v in cc:
            b_atoms(c, acc)
    if len(acc) > 9 or len(cases) > 60:
        return plain()
    atoms = sorted(acc, key=key)
    budget = [600]

    def go(i, live, env):
        budget[0] -= 1
        if budget[0] < 0:
            raise OverflowError
        if not live:
            return None
        if all(x[1] == live[0][1] for x in live) and (total or any(all(b_eval(c, env) == v for c, v in x[0]) for x in live)):
            return ('leaf', live[0][1])
        while i < len(atoms):
            a = atoms[i]
            if any(b_eval(c, env) is None and a in b_atoms(c, set()) for x in live for c, _ in x[0]):
                break
            i += 1
        if i == len(atoms):
            return ('leaf', live[0][1])
        r = []
        for v in (True, False):
            e2 = dict(env)
            e2[a] = v
            l2 = [x for x in live if not any(b_eval(c, e2) is (not w) for c, w in x[0])]
            r.append(go(i + 1, l2, e2))
        if total and r[0] is None:
            return r[1]
        if total and r[1] is None:
            return r[0]
        if r[0] == r[1]:
            return r[0]
        return ('if', a, r[0], r[1])

    def emit(n, cc, out):
        if n is None:
            return
        if n[0] == 'leaf':
            out.append((cc, n[1]))
        else:
            emit(n[2], cc + ((n[1], True),), out)
            emit(n[3], cc + ((n[1], False),), out)
    try:
        n = go(0, cases, {})
    except OverflowError:
        return plain()
    out = []
    emit(n, (), out)
    return ('pw', tuple(out)) if out else plain()


def fact_env(f):
    env = {}
    for q, v in f.iv.items():
        if v[0] is not None and v[0] == v[2] and q[0] != 'poly':
            env[q] = ('num', v[0])
    for a, b in f.ba.items():
        if a[0] == 'fld' and a[2] in T.BOOLF:
            env[a] = ('num', Fraction(int(b)))
        if b and a[0] == 'app' and a[1] == 'is' and a[3] == NONE:
            env[a[2]] = NONE
        elif b and a[0] == 'app' and a[1] in ('eq', 'is') and len(a) == 4:
            x, y = a[2], a[3]
            if y[0] in ('str', 'none'):
                x, y = y, x
            if x[0] in ('str', 'none') and y[0] not in ('str', 'none'):
                env[y] = x
    return env


def canon_facts(f):
    g = Facts()
    for c, v, ln in f.log:
        g2 = g.assume(canon(c), v, ln)
        if g2 is None:
            return None
        g = g2
    return g


def linear_constraints(f):
    """list of (poly-dict, strict) meaning poly <= 0 / < 0, and equalities as two"""
    out = []
    for q, (lo, lo_o, hi, hi_o, ex, isint) in f.iv.items():
        d = to_poly(q)
        if lo is not None:
            e = {m: -c for m, c in d.items()}
            e[()] = e.get((), 0) + lo
            out.append((e, lo_o))
        if hi is not None:
            e = dict(d)
            e[()] = e.get((), 0) - hi
            out.append((e, hi_o))
    return out


def fm_infeasible(f, limit=400):
    """Fourier-Motzkin emptiness test of the linear facts (monomials as dimensions)"""
    cons = linear_constraints(f)
    if len(cons) < 2:
        return False
    dims = {m for d, _ in cons for m in d if m != ()}
    # implicit non-negativity of sizes
    for m in dims:
        if len(m) == 1 and T.nonneg(m[0]):
            cons.append(({m: Fraction(-1)}, False))
    for m in sorted(dims, key=lambda m: sum(1 for d, _ in cons if m in d)):
        pos = [(d, s) for d, s in cons if d.get(m, 0) > 0]
        ng = [(d, s) for d, s in cons if d.get(m, 0) < 0]
        rest = [(d, s) for d, s in cons if d.get(m, 0) == 0]
        if len(pos) * len(ng) + len(rest) > limit:
            return False
        for d, s in pos:
            for e, r in ng:
                a, b = d[m], -e[m]
                n = {}
                for k, c in d.items():
                    n[k] = n.get(k, 0) + c * b
                for k, c in e.items():
                    n[k] = n.get(k, 0) + c * a
                n = {k: c for k, c in n.items() if c != 0}
                rest.append((n, s or r))
        cons = rest
    for d, s in cons:
        c = d.get((), Fraction(0))
        if all(k == () for k in d) and (c > 0 or (c == 0 and s)):
            return True
    return False


def written(*xs):
    """pieces of text one after another; str(x) and x as a piece are the same"""
    out = []
    for x in xs:
        for y in x[2:] if x[:2] == ('app', 'strcat') else (x,):
            if y[:2] == ('app', 'str') and len(y) == 3:
                y = y[2]
            if y == ('str', ''):
                continue
            if out and y[0] == 'str' and out[-1][0] == 'str':
                out[-1] = ('str', out[-1][1] + y[1])
            else:
                out.append(y)
    return ('app', 'strcat', *out)


def is_file(o):
    return o is not None and o[0] == 'res' and o[2] == 'open'


# --------------------------------------------------------------------------- comparison
class TooLong(Exception):
    pass


class Cmp:
    def __init__(self, ignore=(), order='object', ret=True, exc=False, heap=True, events=True, only_fields=None, models=None, any_ret_throw=False,
                 only_calls=None, ret_self=True, commuting=()):
        self.ignore = {'print', 'locals', 'report', 'warn', 'flush', 'warning', 'info', 'debug'} | set(ignore)
        self.order = order
        self.ret = ret
        self.exc = exc
        self.heap = heap
        self.events = events
        self.only_fields = only_fields
        self.only_calls = set(only_calls) if only_calls else None
        self.commuting = set(commuting)

    # ---- term equality under facts
    def eqt(self, a, b, f, env=None, lv=None):
        if a == b:
            return True
        env = fact_env(f) if env is None else env
        if env:
            a2, b2 = T.subst(a, env), T.subst(b, env)
            if a2 == b2:
                return True
            a, b = a2, b2
        return self._eq(a, b, f, lv if lv is not None else {})

    def _eq(self, a, b, f, lv):
        if a == b:
            return True
        if not isinstance(a, tuple) or not isinstance(b, tuple) or not a or not b:
            return a == b
        if a == ('glob', 'ANY') or b == ('glob', 'ANY'):
            return True
        if a[0] == 'lv' and b[0] == 'lv':
            return False
        if isinstance(a[0], str) and isinstance(b[0], str):
            for u, v in ((a, b), (b, a)):
                # x % m is x when 0 <= x < m
                if u[:2] == ('app', 'mod') and len(u) == 4 and is_num(u[3]) and v[:2] != ('app', 'mod') and u[2][0] not in NONNUM \
                        and f.value(cmp_term('<', u[2], u[3], True)) is True and f.value(cmp_term('<', u[2], ZERO, True)) is False:
                    return self.eqt(u[2], v, f, None, lv)
            if a[0] == 'ite':
                v = f.value(a[1])
                if v is not None:
                    return self._eq(a[2] if v else a[3], b, f, lv)
            if b[0] == 'ite':
                v = f.value(b[1])
                if v is not None:
                    return self._eq(a, b[2] if v else b[3], f, lv)
            if a[0] == 'idx' and b[0] == 'idx' and T.COMM[0]:
                # x % m is x when x < m
                x, y = (z[2] for z in (a, b))
                for u, v in ((x, y), (y, x)):
                    if isinstance(u, tuple) and u[:2] == ('app', 'mod') and is_num(u[3]) and f.value(cmp_term('<', u[2], u[3], True)) is True and self.eqt(u[2], v, f, None, lv):
                        return self._eq(a[1], b[1], f, lv)
            if (a[0] == 'zip' or b[0] == 'zip') and a[0] in ('zip', 'range') and b[0] in ('zip', 'range'):
                xs, ys = (x[1:] if x[0] == 'zip' else (x,) for x in (a, b))
                return all(any(self.eqt(x, y, f, None, lv) for y in ys) for x in xs) and all(any(self.eqt(x, y, f, None, lv) for x in xs) for y in ys)
            if a[0] == 'forall' and b[0] == 'forall':
                return self.eq_forall(a, b, f)
            if a[0] == 'app' and b[0] == 'app' and a[1] == b[1] and a[1] in ('sum', 'prodover') and len(a) == len(b) == 4 and T.COMM[0] \
                    and a[2][0] == 'range' and self.eqt(a[2], b[2], f, None, lv):
                if self.eqt(a[3], b[3], f, None, lv):
                    return True
                # the same terms in the opposite order
                bv = ('bv', bv_level(b[3]))
                return bv in walk(b[3]) and self.eqt(a[3], canon(T.subst(b[3], {bv: sub(sub(b[2][2], b[2][1]), add(ONE, bv))})), f, None, lv)
            bl = lambda t: t[0] in ('cmp', 'not', 'and', 'or', 'bool', 'forall') or (t[0] == 'app' and t[1] in ('eq', 'in', 'is', 'isinstance', 'truth'))
            if bl(a) or bl(b):
                va, vb = f.value(a) if bl(a) else None, f.value(b) if bl(b) else None
                if va is not None and vb is not None:
                    return va == vb
                if va is not None and b[0] == 'num':
                    return (1 if va else 0) == b[1]
                if vb is not None and a[0] == 'num':
                    return (1 if vb else 0) == a[1]
                if bl(a) and bl(b):
                    # logical equivalence of two conditions: neither may hold without the other
                    return self.implies(f, a, b) and self.implies(f, b, a)
            if a[0] not in NONNUM and b[0] not in NONNUM and (a[0] in ('poly', 'num') or b[0] in ('poly', 'num')):
                if f.equal(a, b) is True:
                    return True
                pa, pb = to_poly(a), to_poly(b)
                if len(pa) == len(pb):
                    # match monomials up to equality of factors
                    rest = list(pb.items())
                    for m, c in pa.items():
                        for i, (m2, c2) in enumerate(rest):
                            if c == c2 and len(m) == len(m2) and self._eqmono(m, m2, f, lv):
                                del rest[i]
                                break
                        else:
                            return False
                    return True
                return False
            if a[0] not in NONNUM and b[0] not in NONNUM and a[0] in TERMK and b[0] in TERMK and f.iv:
                if f.equal(a, b) is True:
                    return True
            if a[0] == 'pw' and b[0] == 'pw':
                return self.eq_pw(a, b, f, lv)
            if a[0] == 'pw' and b[0] != 'pw':
                return self.eq_pw(a, ('pw', (((), b),)), f, lv)
            if b[0] == 'pw' and a[0] != 'pw':
                return self.eq_pw(('pw', (((), a),)), b, f, lv)
        if len(a) != len(b) or a[0] and a[0][:1] == ('star',) != b[0][:1]:
            for x, y in ((a, b), (b, a)):
                # f(*x) and f(x[0], x[1], ...)
                if len(x) == 1 and isinstance(x[0], tuple) and x[0][:1] == ('star',) and all(isinstance(z, tuple) and z[:1] == ('idx',) and len(z) == 3 and z[2] == ('num', i) for i, z in enumerate(y)) \
                        and (T.wipe(y[0][1]), len(y)) in T.UNPACKED and all(z[1] == y[0][1] for z in y):
                    return self._eq(x[0][1], y[0][1], f, lv)
            if len(a) != len(b):
                return False
        for x, y in zip(a, b):
            if isinstance(x, tuple) and isinstance(y, tuple):
                if not self._eq(x, y, f, lv):
                    return False
            elif x != y:
                return False
        return True

    def _eqmono(self, m, m2, f, lv):
        if not T.COMM[0]:
            p, q = [x for x in m if not T.central(x)], [x for x in m2 if not T.central(x)]
            if len(p) != len(q) or not all(self._eq(x, y, f, lv) for x, y in zip(p, q)):
                return False
            m, m2 = [x for x in m if T.central(x)], [x for x in m2 if T.central(x)]
        rest = list(m2)
        for x in m:
            for i, y in enumerate(rest):
                if self._eq(x, y, f, lv):
                    del rest[i]
                    break
            else:
                return False
        return True

    def implies(self, f, a, b):
        g = self.assume_all(f, a)
        if g is None:
            return True
        v = g.value(b)
        if v is True:
            return True
        h = self.assume_all(g, mk_not(b))
        return h is None or fm_infeasible(h)

    @staticmethod
    def assume_all(f, c):
        return f.assume(c, True)

    def eq_pw(self, a, b, f, lv):
        fx = [(z, self.with_conds(f, z[0])) for z in a[1]]
        fy = [(z, self.with_conds(f, z[0])) for z in b[1]]
        fx = [z for z in fx if z[1] is not None]
        fy = [z for z in fy if z[1] is not None]
        ex = exclusion([z[1] for z in fx], [z[1] for z in fy], [z[0][0] for z in fx], [z[0][0] for z in fy])
        for ix, ((ca, va), fa) in enumerate(fx):
            for iy, ((cb, vb), _) in enumerate(fy):
                if (ix, iy) in ex:
                    continue
                fb = self.with_conds(fa, cb)
                if fb is None or fm_infeasible(fb):
                    continue
                if not self.eqt(va, vb, fb, None, lv):
                    return False
        return True

    def clash_before_loops(self, p, q):
        f = Facts()
        for st in (p.facts, q.facts):
            for c, v, ln in st.log:
                if any(x[:1] == ('lv',) for x in walk(c)):
                    continue
                f = f.assume(canon(c), v, ln)
                if f is None:
                    return True
        return not f.consistent()

    # ---- loop-carried values
    def by_name(self, pl, sf):
        """traces with loop-carried values of other names get those of the reference before conditions are compared"""
        names = {a for q, _ in sf for a in lvtab(q)}
        tabs = []
        for q, _ in sf:
            t = lvtab(q)
            if t and not any(t == x for x in tabs):
                tabs.append(t)
        out, seen = [], {}
        for p, pf in pl:
            tp = lvtab(p)
            if tp and not set(tp) <= names and time.time() - self.t0 < self.budget / 3:
                k = repr(tp)
                if k not in seen:
                    seen[k] = None
                    for tq in tabs:
                        if len(tq) == len(tp):
                            m = self.match_lvs(tp, tq)
                            if m and all(b in tq for b in m.values()):
                                seen[k] = m
                                break
                m = seen[k]
                if m and any(a != b for a, b in m.items()):
                    p2 = rename_path(p, m)
                    f2 = canon_facts(p2.facts)
                    if f2 is not None:
                        p, pf = p2, f2
            out.append((p, pf))
        return out

    def match_lvs(self, tp, tq):
        """rename loop-carried values of the implementation to those of the reference with the same start and the same
        step (coinductively); unmatched ones get a name of their own"""
        E = Facts()
        bydepth = lambda a, b: a[1] == b[1]
        cands, first = {}, {}
        for a in tp:
            bs = [b for b in tq if bydepth(a, b)]
            def start(b):
                x, y = tp[a][0], tq[b][0]
                if any(t[:1] == ('lv',) for t in walk((x, y))):
                    return True
                return self.eqt(canon(x), canon(y), E, None, None)
            bs.sort(key=lambda b: (b[2:] != a[2:], b[2] != a[2], b in tp, repr(b)))
            good = [b for b in bs if b == a or start(b)] if a not in tq else bs
            cands[a] = good + [b for b in bs if b not in good]
            first[a] = good
        order = list(tp)
        best = None
        tries = [0]

        def ok_steps(M_):
            bad = set()
            # a value without a counterpart is none of the values of the reference, whatever its name
            M = {a: M_[a] if a in M_ else ('lv', a[1], ('unmatched', a[2]), a[3]) for a in tp}
            for a, b in M_.items():
                ia, ib = tp[a][0], tq[b][0]
                if not self.eqt(canon(sub_all(ia, M)), canon(ib), E, None, None):
                    bad.add(a)
                    continue
                sa = ('pw', tuple((tuple((canon(sub_all(c, M)), v) for c, v in cc), canon(sub_all(x, M))) for cc, x in tp[a][1]))
                sb = ('pw', tuple((tuple((canon(c), v) for c, v in cc), canon(x)) for cc, x in tq[b][1]))
                if len(sa[1]) == 0 or len(sb[1]) == 0:
                    if len(sa[1]) != len(sb[1]):
                        bad.add(a)
                    continue
                if not self.eq_pw(sa, sb, from_zero(E, (sa, sb)), None):
                    bad.add(a)
                    continue
                ka = tuple((tuple((canon(sub_all(c, M)), v) for c, v in cc), k) for cc, k in tp[a][2])
                kb = tuple((tuple((canon(c), v) for c, v in cc), k) for cc, k in tq[b][2])
                if not self.eq_ctl(ka, kb, E, None):
                    bad.add(a)
            return bad

        def search(i, M, used):
            nonlocal best
            tries[0] += 1
            if tries[0] > 60 or best is not None:
                return
            if i == len(order):
                if not ok_steps(M):
                    best = dict(M)
                return
            a = order[i]
            for b in first[a]:
                if b in used:
                    continue
                if i == 0 or True:
                    M[a] = b
                    search(i + 1, M, used | {b})
                    del M[a]
                    if best is not None:
                        return
        if set(tp) == set(tq):
            M = {a: a for a in order}
            if not ok_steps(M):
                best = M
        elif len(tp) == len(tq):
            search(0, {}, frozenset())
        if best is None:
            # largest part of the name-by-name pairing that is consistent
            M = {}
            for a in order:
                for b in cands[a]:
                    if b[2] == a[2] and b not in M.values():
                        M[a] = b
                        break
            left = [a for a in order if a not in M]
            for a in left:
                for b in cands[a]:
                    if b not in M.values():
                        M[a] = b
                        break
            while M:
                bad = ok_steps(M)
                if not bad:
                    break
                for a in bad:
                    del M[a]
            best = M
        m = dict(best)
        for a in tp:
            if a not in m:
                m[a] = ('lv', a[1], ('unmatched', a[2]), a[3])
        return m

    # ---- events
    def items(self, ev, out=None, wrap=None):
        """resource -> ordered list of items"""
        out = {} if out is None else out

        def put(res, it):
            out.setdefault(res, []).append(it)
        for e in ev:
            k = e[0]
            if k == 'call':
                if e[1] in self.ignore or (self.only_calls is not None and e[1] not in self.only_calls):
                    continue
                if e[1] == 'operator<<' and e[3] == (('str', ''),):
                    continue
                o = canon(e[2]) if e[2] is not None else None
                it = ('call', e[1], o if o is not None else NONE, canon(e[3]))
                put(self.res(e[1], o, canon(e[3][0]) if e[3] else None), it)
            elif k == 'loop':
                sub_ = []
                allres = []
                for conds, bev, ctl, stores in e[2]:
                    m = self.items(bev)
                    cc = tuple((canon(c), b) for c, b in conds)
                    sub_.append((cc, m, ctl, stores))
                    for r in m:
                        if r not in allres:
                            allres.append(r)
                dom = canon(e[1]) if e[1] else None
                ctlc = tuple((tuple((canon(c), b) for c, b in cc), k) for cc, k in e[6])
                lvs = frozenset(canon(x[0]) for x in e[5])
                st_ = {}
                for conds, bev, ctl, stores in e[2]:
                    for l, v in stores:
                        st_.setdefault(canon(l), []).append((tuple((canon(c), b) for c, b in conds), canon(v)))
                for l, pv in st_.items():
                    put(('st', l), ('loopst', dom, tuple((cc, (('stv', v),), None) for cc, v in pv), ctlc, lvs))
                for r in allres:
                    put(r, ('loop', dom, tuple((cc, tuple(m.get(r, ())), (ctl[0] if ctl else None)) for cc, m, ctl, st in sub_), ctlc, lvs))
            elif k == 'inloop':
                m = self.items((e[1],))
                for r, l in m.items():
                    for it in l:
                        put(r, ('inloop', it))
            elif k in ('yield', 'yieldfrom'):
                put('yield', (k, canon(e[1])))
            elif k == 'enter':
                put('ctx', ('enter', canon(e[1])))
            elif k == 'exit':
                put('ctx', ('exit',))
            elif k == 'fold':
                m = self.items(e[2])
                for r, l in m.items():
                    put(r, ('foldev', e[1], tuple(l), e[4]))
                if not m:
                    pass
        for r, l in out.items():
            # text written to a file piece by piece
            if any(it[:2] == ('call', 'write') for it in l):
                m = []
                for it in l:
                    if it[:2] == ('call', 'write') and len(it[3]) == 1 and m and m[-1][:2] == ('call', 'write') and m[-1][2] == it[2] and len(m[-1][3]) == 1:
                        m[-1] = ('call', 'write', it[2], (written(m[-1][3][0], it[3][0]),))
                    elif it[:2] == ('call', 'write') and len(it[3]) == 1:
                        if it[3][0] != ('str', ''):
                            m.append(('call', 'write', it[2], (written(it[3][0]),)))
                    else:
                        m.append(it)
                l[:] = m
            # an opened file is closed when it is no longer used
            if l and l[-1][:2] == ('call', 'close') and is_file(l[-1][2]):
                l.pop()
        for l in out.values():
            # entries of different keys taken out of a dictionary one after another
            core = lambda it: it[1] if it[0] == 'inloop' else it
            for i in range(1, len(l)):
                j = i
                while j > 0:
                    a, b = core(l[j - 1]), core(l[j])
                    if not (a[:2] == b[:2] == ('call', 'pop') and a[2] == b[2] and a[3] and b[3] and a[3][0][0] == b[3][0][0] == 'str' and a[3][0][1] > b[3][0][1]):
                        break
                    l[j - 1], l[j] = l[j], l[j - 1]
                    j -= 1
        return out

    def res(self, name, o, args=None):
        if self.order == 'total':
            return 'all'
        if name in self.commuting:
            return ('c', name, o if o is not None else args)
        if o is None:
            return ('fn', name)
        r = root(o)
        if r not in self.whole:
            # different members of an object on which nothing is called as a whole
            m = o
            while m != r and m[1] != r:
                m = m[1]
            if m != r and m[0] == 'fld':
                r = m
        return ('obj', r)

    whole = frozenset()

    def whole_roots(self, evs, out):
        for e in evs:
            if e[0] == 'call' and e[2] is not None:
                o = canon(e[2])
                if root(o) == o:
                    out.add(o)
            elif e[0] == 'loop':
                for b in e[2]:
                    self.whole_roots(b[1], out)
            elif e[0] == 'inloop':
                self.whole_roots((e[1],), out)
            elif e[0] == 'fold':
                self.whole_roots(e[2], out)
        return out

    def eq_items(self, a, b, f, env, lv):
        if len(a) != len(b):
            return False
        f0 = f
        for x, y in zip(a, b):
            f = f0
            if x[0] != y[0]:
                return False
            if x[0] in ('loop', 'loopst'):
                if (x[1] is None) != (y[1] is None):
                    return False
                if x[1] is not None and not self.eqt(x[1], y[1], f, env, lv):
                    return False
                # what is known at the end of the loop is not known in its iterations
                f = self.index_facts(without(f0, x[4] | y[4]), x, y)
                if not self.eq_ctl(x[3], y[3], f, lv):
                    return False
                fx = [(z, self.with_conds(f, z[0])) for z in x[2]]
                fy = [(z, self.with_conds(f, z[0])) for z in y[2]]
                fx = [z for z in fx if z[1] is not None]
                fy = [z for z in fy if z[1] is not None]
                ex = exclusion([z[1] for z in fx], [z[1] for z in fy], [z[0][0] for z in fx], [z[0][0] for z in fy])
                for ix, ((c1, i1, k1), f1) in enumerate(fx):
                    for iy, ((c2, i2, k2), _) in enumerate(fy):
                        if (ix, iy) in ex:
                            continue
                        f2 = self.with_conds(f1, c2)
                        if f2 is None or fm_infeasible(f2):
                            continue
                        if not self.eq_items(i1, i2, f2, fact_env(f2), lv):
                            return False
            elif x[0] == 'inloop':
                if not self.eq_items((x[1],), (y[1],), f, env, lv):
                    return False
            elif x[0] == 'foldev':
                if x[1] != y[1] or x[3] != y[3] or not self.eq_items(x[2], y[2], f, env, lv):
                    return False
            elif x[0] == 'call':
                if x[1] != y[1] or not self.eqt(x[2], y[2], f, env, lv) or not self.eqt(x[3], y[3], f, env, lv):
                    return False
            else:
                if not self.eqt(x, y, f, env, lv):
                    return False
        return True

    def index_facts(self, f, x, y):
        """inside a loop its index is a number from 0 up"""
        if x[1] is None or x[1][0] != 'range':
            return f
        ivs = {t for z in (x, y) for cc, _, _ in z[2] for c, _ in cc for t in walk(c) if t[:1] == ('iv',)}
        if not ivs:
            return f
        iv = min(ivs, key=lambda t: t[1])
        g = f.assume(cmp_term('<', iv, ZERO, True), False)
        return g if g is not None else f

    def eq_ctl(self, a, b, f, lv):
        if not a or not b:
            return True
        fx = [(z, self.with_conds(f, z[0])) for z in a]
        fy = [(z, self.with_conds(f, z[0])) for z in b]
        fx = [z for z in fx if z[1] is not None]
        fy = [z for z in fy if z[1] is not None]
        ex = exclusion([z[1] for z in fx], [z[1] for z in fy], [z[0][0] for z in fx], [z[0][0] for z in fy])
        for ix, ((ca, ka), fa) in enumerate(fx):
            for iy, ((cb, kb), _) in enumerate(fy):
                if ka == kb or (ix, iy) in ex:
                    continue
                fb = self.with_conds(fa, cb)
                if fb is not None and not fm_infeasible(fb):
                    return False
        return True

    def with_conds(self, f, conds):
        for c, v in conds:
            f = f.assume(c, v)
            if f is None:
                return None
        return f if f.consistent() else None

    def nonlocal_state(self, p):
        out = {}
        for l in p.st.heap:
            r = root(l)
            if r[0] in ('loc', 'cap', 'uninit'):
                continue
            if r[0] in ('new',):
                continue
            if self.only_fields is not None and not any(x[0] == 'fld' and x[2] in self.only_fields for x in walk(l)):
                continue
            out[canon(l)] = l
        return out

    def agree(self, p, q, f):
        """None when equal, else text of the difference.  p implementation, q reference"""
        if p.kind != q.kind:
            return 'outcome: %s instead of %s' % (self.outcome(p), self.outcome(q))
        env = fact_env(f)
        lv = {}
        if p.kind == 'throw':
            if self.exc and p.value != q.value:
                return 'raises %s instead of %s' % (show(p.value), show(q.value))
        elif self.ret:
            if not self.eqt(canon(p.value), canon(q.value), f, env, lv):
                return 'returns %s instead of %s' % (show(canon(p.value))[:400], show(canon(q.value))[:400])
        if p.kind == 'throw' and not self.state_on_throw:
            return None
        if self.heap:
            a, b = self.nonlocal_state(p), self.nonlocal_state(q)
            b = self.align(a, b, f, env, lv)
            for l in sorted(set(a) | set(b), key=repr):
                va = canon(p.load(a.get(l, b.get(l))))
                vb = canon(q.load(b.get(l, a.get(l))))
                if not self.eqt(va, vb, f, env, lv):
                    return '%s ends as %s instead of %s' % (show(l), show(va)[:300], show(vb)[:300])
        if self.events:
            self.whole = self.whole_roots(p.ev, self.whole_roots(q.ev, set()))
            a, b = self.items(p.ev), self.items(q.ev)
            a = self.re_res(a, env)
            b = self.align(a, self.re_res(b, env), f, env, lv)
            for r in sorted(set(a) | set(b), key=repr):
                x, y = a.get(r, []), b.get(r, [])
                if not self.eq_items(x, y, f, env, lv):
                    return 'effects on %s: [%s] instead of [%s]' % (show_res(r), '; '.join(map(show_item, x))[:500], '; '.join(map(show_item, y))[:500])
        return None

    state_on_throw = False
    budget = 60

    def align(self, a, b, f, env, lv):
        """rename the places of b that are the same place as one of a under the joint condition"""
        ka = [r for r in a if r not in b]
        kb = [r for r in b if r not in a]
        if not ka or not kb:
            return b
        b = dict(b)
        for r in ka:
            for r2 in kb:
                if r2 in b and self.same_place(r, r2, f, env, lv):
                    b[r] = b.pop(r2)
                    break
        return b

    def same_place(self, r, r2, f, env, lv):
        if not isinstance(r, tuple) or not isinstance(r2, tuple) or len(r) != len(r2) or r[0] != r2[0]:
            return False
        if r[0] in ('obj', 'st', 'c'):
            return r[:-1] == r2[:-1] and isinstance(r[-1], tuple) and isinstance(r2[-1], tuple) and self.eqt(canon(r[-1]), canon(r2[-1]), f, env, lv)
        return self.eqt(canon(r), canon(r2), f, env, lv)

    @staticmethod
    def re_res(m, env):
        if not env:
            return m
        out = {}
        for r, l in m.items():
            r2 = T.subst(r, env) if isinstance(r, tuple) else r
            out.setdefault(r2, []).extend(l)
        return out

    def outcome(self, p):
        return 'raises ' + show(p.value) if p.kind == 'throw' else 'returns ' + show(canon(p.value))[:200]

    def dontcare(self, q):
        return any(e[0] == 'call' and e[1] == 'UNSPECIFIED' for e in q.ev) or any(e[0] == 'inloop' and e[1][0] == 'call' and e[1][1] == 'UNSPECIFIED' for e in q.ev)

    def forall_clash(self, f):
        fs = [(a, v) for a, v in f.ba.items() if a[0] == 'forall']
        for a, va in fs:
            for b, vb in fs:
                if va and not vb and self.eq_forall(a, b, f):
                    return True
        return False

    def eq_forall(self, a, b, f):
        if not self.eqt(a[1], b[1], f):
            return False
        fx = [(z, self.with_conds(f, z[0])) for z in a[2]]
        fy = [(z, self.with_conds(f, z[0])) for z in b[2]]
        fx = [z for z in fx if z[1] is not None]
        fy = [z for z in fy if z[1] is not None]
        ex = exclusion([z[1] for z in fx], [z[1] for z in fy], [z[0][0] for z in fx], [z[0][0] for z in fy])
        for ix, ((ca, ea), fa) in enumerate(fx):
            for iy, ((cb, eb), _) in enumerate(fy):
                if ea == eb or (ix, iy) in ex:
                    continue
                fb = self.with_conds(fa, cb)
                if fb is None or fm_infeasible(fb):
                    continue
                return False
        return True

    def compare(self, impl, spec, vocab, pre=()):
        """-> (diffs, undecided, pairs) ; diffs: list of dict"""
        diffs, und, pairs, dc = [], [], 0, 0
        def with_pre(p):
            pf = canon_facts(p.facts)
            for c in pre:
                if pf is None:
                    break
                pf = pf.assume(canon(c), True)
            return pf
        sf = [(q, with_pre(q)) for q in spec]
        sf = [(q, qf) for q, qf in sf if qf is not None]
        pl = [(p, with_pre(p)) for p in impl]
        pl = [(p, pf) for p, pf in pl if pf is not None]
        # the traces of a deterministic function exclude each other: a trace whose condition entails that of a
        # trace on the other side corresponds to that one only
        self.t0 = time.time()
        pl = self.by_name(pl, sf)
        excl = exclusion([pf for _, pf in pl], [qf for _, qf in sf])
        for ip, (pi, pfi) in enumerate(pl):
            for iq, (q, qf) in enumerate(sf):
                if (ip, iq) in excl:
                    continue
                p, pf = pi, pfi
                if time.time() - self.t0 > self.budget:
                    if diffs:
                        return diffs, und, pairs
                    raise TooLong('comparison time')
                tq = lvtab(q)
                tp = lvtab(p)
                if tp and tq:
                    if self.clash_before_loops(p, q):
                        continue
                    m = self.match_lvs(tp, tq)
                    if m is not None and any(a != b for a, b in m.items()):
                        p = rename_path(p, m)
                        pf = canon_facts(p.facts)
                        if pf is None:
                            continue
                f = pf.merge(qf)
                if f is None or not f.consistent() or fm_infeasible(f) or self.forall_clash(f):
                    continue
                if self.dontcare(q):
                    dc += 1
                    continue
                pairs += 1
                d = self.agree(p, q, f)
                if d is None:
                    continue
                ls = f.leaves()
                if ls is not None and (not ls or ls != [f] and all(self.agree(p, q, g) is None for g in ls if not fm_infeasible(g))):
                    continue
                foreign = {h for h in path_heads(p) if h not in vocab and not (h[0] == 'f' and h[1] in KNOWN) and not (h[0] == 'c' and h[1] in self.ignore)}
                foreign = {h for h in foreign if not (h[0] == '.' and h[1] in ('T', 'shape', 'real', 'imag', '__stdout__', '__stderr__', '__stdin__'))}
                if any(h[0] == '?' for h in path_heads(p)) and not all(h in path_heads(q) for h in path_heads(p) if h[0] == '?'):
                    foreign.add(('?', 'unanalysed construct'))
                else:
                    foreign = {h for h in foreign if h[0] != '?'}
                if len(tp) != len(tq):
                    na, nb = {a[2] for a in tp}, {b[2] for b in tq}
                    if not (na <= nb or nb <= na):
                        foreign.add(('?', 'loop of another structure'))
                rec = {'what': d, 'when': ' && '.join(('' if v else '!') + '(' + show(c)[:160] + ')' for c, v, _ in f.log) or 'always',
                       'lines': sorted({ln for _, _, ln in p.facts.log if ln} | {e[-1] for e in p.ev if isinstance(e[-1], int)})}
                if foreign:
                    rec['foreign'] = sorted('%s%s' % h for h in foreign)
                    und.append(rec)
                else:
                    diffs.append(rec)
                    if len(diffs) >= 3:
                        return diffs, und, pairs
        return diffs, und, pairs


_WITHOUT = {}


def from_zero(f, t):
    """a loop index is a number from 0 up"""
    for iv in sorted({x for x in walk(t) if x[:1] == ('iv',)}, key=repr):
        g = f.assume(cmp_term('<', iv, ZERO, True), False)
        f = g if g is not None else f
    return f


def without(f, lvs):
    if not lvs or not any(t in lvs for c, _, _ in f.log for t in walk(c)):
        return f
    k = (id(f), lvs)
    x = _WITHOUT.get(k)
    if x is not None and x[0] is f:
        return x[1]
    if len(_WITHOUT) > 5000:
        _WITHOUT.clear()
    g = Facts()
    for c, v, ln in f.log:
        if any(t in lvs for t in walk(c)):
            continue
        g2 = g.assume(c, v, ln)
        g = g2 if g2 is not None else g
    _WITHOUT[k] = (f, g)
    return g


def lvtab(p):
    if not hasattr(p, '_lvt'):
        out = {}

        def rec(ev):
            for e in ev:
                if e[0] == 'loop':
                    for sym, init, steps in e[5]:
                        out.setdefault(sym, (init, steps, e[6]))
                    for _, bev, _, _ in e[2]:
                        rec(bev)
        rec(p.ev)
        p._lvt = out
    return p._lvt


class _Ren:
    def __init__(self, p, st, value):
        self.st, self.value = st, value
        self.kind, self.info = p.kind, p.info
        self.facts, self.ev = st.facts, st.ev

    def load(self, loc):
        return Interp.load_in(self.st, loc)


def sub_all(t, m):
    if isinstance(t, tuple):
        if t in m:
            return m[t]
        r = tuple(sub_all(x, m) for x in t)
        return r if r != t else t
    return t


def rename_path(p, m):
    key = tuple(sorted(m.items(), key=repr))
    c = p.__dict__.setdefault('_ren', {})
    if key in c:
        return c[key]
    st = p.st.copy()
    st.heap = {sub_all(l, m): sub_all(v, m) for l, v in st.heap.items()}
    st.ev = sub_all(st.ev, m)
    g = Facts()
    for c_, v, ln in p.facts.log:
        g2 = g.assume(sub_all(c_, m), v, ln)
        if g2 is None:
            break
        g = g2
    st.facts = g
    c[key] = _Ren(p, st, sub_all(p.value, m))
    return c[key]


def logged(f):
    return [(canon(c), v) for c, v, _ in f.log]


def known(f):
    return {(canon(a), b) for a, b, _ in f.log} | {(a, b) for a, b, _ in f.log}


def entails(f, conds, log=None):
    for c, v in conds:
        if f.value(c) is v:
            continue
        if log is None:
            log = known(f)
        if (c, v) in log or (canon(c), v) in log:
            continue
        g = f.assume(c, not v)
        if g is None or not g.consistent():
            continue
        return False
    return True


def exclusion(pf, qf, pl=None, ql=None):
    pl = pl or [logged(f) for f in pf]
    ql = ql or [logged(f) for f in qf]
    ps, qs = [set(l) for l in pl], [set(l) for l in ql]
    if len(pf) * len(qf) > 400:
        neg = [{(c, not v) for c, v in l} for l in ql]
        clash = {(i, j) for i in range(len(pf)) for j in range(len(qf)) if not ps[i].isdisjoint(neg[j])}
        up = {i: {j for j in range(len(qf)) if qs[j] <= ps[i]} for i in range(len(pf))}
        dn = {j: {i for i in range(len(pf)) if ps[i] <= qs[j]} for j in range(len(qf))}
        return clash | {(i, j) for i in up for j in dn if (up[i] and j not in up[i]) or (dn[j] and i not in dn[j])}
    pk, qk = [known(f) for f in pf], [known(f) for f in qf]
    # a condition with the opposite sign on the other side: neither entails the other
    neg = [{(c, not v) for c, v in l} for l in qk]
    clash = {(i, j) for i in range(len(pf)) for j in range(len(qf)) if not pk[i].isdisjoint(neg[j])}
    up = {i: {j for j in range(len(qf)) if (i, j) not in clash and entails(pf[i], ql[j], pk[i])} for i in range(len(pf))}
    dn = {j: {i for i in range(len(pf)) if (i, j) not in clash and entails(qf[j], pl[i], qk[j])} for j in range(len(qf))}
    return {(i, j) for i in up for j in dn if (up[i] and j not in up[i]) or (dn[j] and i not in dn[j])}


def show_res(r):
    if isinstance(r, tuple) and r[0] == 'c' and len(r) == 3:
        return '%s %s' % (r[1], show(r[2]) if isinstance(r[2], tuple) else '')
    return r if isinstance(r, str) else (show(r[1]) if isinstance(r[1], tuple) else str(r[1]))


def show_item(i):
    if i[0] == 'call':
        return '%s%s(%s)' % (show(i[2]) + '.' if i[2] != NONE else '', i[1], ', '.join(show(x) for x in i[3]))
    if i[0] == 'loop':
        return 'for %s: {%s}' % (show(i[1]) if i[1] else '?', ' | '.join('%s: %s' % (' && '.join(('' if v else '!') + show(c)[:80] for c, v in cc), '; '.join(map(show_item, its))) for cc, its, k in i[2])[:400])
    if i[0] == 'inloop':
        return 'in loop: ' + show_item(i[1])
    return show(i)
