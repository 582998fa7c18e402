"""Python front end: ast -> common IR, plus the Python-specific transfer functions."""
import ast, os
from terms import *
import terms as T
from interp import *
from cpp_front import FrontError, REPO

OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.MatMult: '@',
       ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>'}
CMP = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
UN = {ast.USub: '-', ast.UAdd: '+', ast.Not: '!', ast.Invert: '~'}


class Conv:
    def __init__(self):
        pass

    def e(self, n):
        if n is None:
            return {'k': 'null'}
        ln = getattr(n, 'lineno', None)
        t = type(n)
        if t is ast.Constant:
            v = n.value
            if v is None:
                return {'k': 'null'}
            if v is Ellipsis:
                return {'k': 'str', 'v': '...'}
            if isinstance(v, bool):
                return {'k': 'bool', 'v': v}
            if isinstance(v, int):
                return {'k': 'int', 'v': str(v)}
            if isinstance(v, float):
                return {'k': 'flt', 'v': repr(v)}
            if isinstance(v, complex):
                return {'k': 'cplx', 'v': repr(v.imag)}
            if isinstance(v, bytes):
                return {'k': 'str', 'v': v.decode('latin1')}
            return {'k': 'str', 'v': str(v)}
        if t is ast.Name:
            return {'k': 'var', 'n': n.id, 'id': n.id, 'ln': ln}
        if t is ast.Attribute:
            return {'k': 'mem', 'o': self.e(n.value), 'f': n.attr, 'ln': ln}
        if t is ast.Subscript:
            return {'k': 'idx', 'o': self.e(n.value), 'i': self.e(n.slice), 'ln': ln}
        if t is ast.Slice:
            return {'k': 'slice', 'a': [self.e(n.lower), self.e(n.upper), self.e(n.step)], 'ln': ln}
        if t is ast.BinOp:
            return {'k': 'bin', 'op': OPS[type(n.op)], 'l': self.e(n.left), 'r': self.e(n.right), 'ln': ln}
        if t is ast.UnaryOp:
            return {'k': 'un', 'op': UN[type(n.op)], 'e': self.e(n.operand), 'ln': ln}
        if t is ast.BoolOp:
            op = '&&' if isinstance(n.op, ast.And) else '||'
            r = self.e(n.values[-1])
            for v in reversed(n.values[:-1]):
                r = {'k': 'bin', 'op': op, 'l': self.e(v), 'r': r, 'ln': ln}
            return r
        if t is ast.Compare:
            parts = []
            l = self.e(n.left)
            for o, c in zip(n.ops, n.comparators):
                r = self.e(c)
                parts.append({'k': 'bin', 'op': CMP[type(o)], 'l': l, 'r': r, 'ln': ln})
                l = r
            r = parts[-1]
            for p in reversed(parts[:-1]):
                r = {'k': 'bin', 'op': '&&', 'l': p, 'r': r, 'ln': ln}
            return r
        if t is ast.Call:
            kw = [(k.arg, self.e(k.value)) for k in n.keywords]
            a = [self.e(x) for x in n.args]
            if isinstance(n.func, ast.Attribute):
                return {'k': 'call', 'f': n.func.attr, 'o': self.e(n.func.value), 'a': a, 'kw': kw, 'ln': ln}
            if isinstance(n.func, ast.Name) and n.func.id == 'type' and len(n.args) == 1 and not kw and isinstance(n.args[0], ast.Constant) and type(n.args[0].value) in (int, float, complex, str, bool):
                return {'k': 'var', 'n': type(n.args[0].value).__name__, 'id': type(n.args[0].value).__name__, 'ln': ln}
            if isinstance(n.func, ast.Name):
                return {'k': 'call', 'f': n.func.id, 'a': a, 'kw': kw, 'ln': ln}
            return {'k': 'callv', 'fe': self.e(n.func), 'a': a, 'kw': kw, 'ln': ln}
        if t is ast.IfExp:
            g = dict_get(n.test, n.body, n.orelse)
            if g is not None:
                return self.e(g)
            return {'k': 'cond', 'c': self.e(n.test), 't': self.e(n.body), 'f': self.e(n.orelse), 'ln': ln}
        if t in (ast.Tuple, ast.List):
            return {'k': 'tuple', 'kind': 'tup' if t is ast.Tuple else 'list', 'a': [self.e(x) for x in n.elts], 'ln': ln}
        if t is ast.Set:
            return {'k': 'call', 'f': 'set', 'a': [{'k': 'tuple', 'kind': 'list', 'a': [self.e(x) for x in n.elts], 'ln': ln}], 'kw': [], 'ln': ln}
        if t is ast.Dict:
            return {'k': 'dict', 'keys': [self.e(k) if k is not None else None for k in n.keys], 'vals': [self.e(v) for v in n.values], 'ln': ln}
        if t is ast.Lambda:
            return {'k': 'lambda', 'caps': [], 'pycap': True, 'params': self.params(n.args), 'body': self.e(n.body), 'expr': True, 'ln': ln, 'defcap': ''}
        if t in (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp):
            elt = self.e(n.elt) if t is not ast.DictComp else {'k': 'tuple', 'kind': 'tup', 'a': [self.e(n.key), self.e(n.value)]}
            return {'k': 'comp', 'kind': t.__name__, 'elt': elt, 'gens': [{'v': self.e(g.target), 'r': self.e(g.iter), 'ifs': [self.e(i) for i in g.ifs]} for g in n.generators], 'ln': ln}
        if t is ast.JoinedStr:
            return {'k': 'call', 'f': '__fstr__', 'a': [self.e(x) for x in n.values], 'kw': [], 'ln': ln}
        if t is ast.FormattedValue:
            return {'k': 'fmtval', 'e': self.e(n.value), 'conv': n.conversion, 'spec': self.e(n.format_spec) if n.format_spec is not None else {'k': 'str', 'v': ''}, 'ln': ln}
        if t is ast.Starred:
            return {'k': 'star', 'e': self.e(n.value)}
        if t is ast.NamedExpr:
            return {'k': 'asg', 'op': '=', 'l': self.e(n.target), 'r': self.e(n.value), 'ln': ln}
        if t in (ast.Yield, ast.YieldFrom):
            return {'k': 'yield', 'e': self.e(n.value), 'from': t is ast.YieldFrom, 'ln': ln}
        return {'k': 'unk', 'why': t.__name__}

    def params(self, a):
        out = []
        ps = a.posonlyargs + a.args
        nd = len(a.defaults)
        for i, p in enumerate(ps):
            d = {'n': p.arg, 'id': p.arg}
            j = i - (len(ps) - nd)
            if j >= 0:
                d['def'] = self.e(a.defaults[j])
            out.append(d)
        if a.vararg:
            out.append({'n': a.vararg.arg, 'id': a.vararg.arg, 'star': 1, 'def': {'k': 'tuple', 'kind': 'tup', 'a': []}})
        for p, dflt in zip(a.kwonlyargs, a.kw_defaults):
            d = {'n': p.arg, 'id': p.arg, 'kwonly': 1}
            if dflt is not None:
                d['def'] = self.e(dflt)
            out.append(d)
        if a.kwarg:
            out.append({'n': a.kwarg.arg, 'id': a.kwarg.arg, 'star': 2, 'def': {'k': 'dict', 'keys': [], 'vals': []}})
        return out

    def block(self, ss):
        return {'k': 'block', 'b': [self.s(x) for x in ss]}

    def s(self, n):
        t = type(n)
        ln = n.lineno
        if t is ast.Expr and isinstance(n.value, ast.YieldFrom):
            return {'k': 'rfor', 'v': {'k': 'var', 'n': '%yf', 'id': '%yf'}, 'r': self.e(n.value.value), 'els': None, 'ln': ln,
                    'b': {'k': 'block', 'b': [{'k': 'expr', 'ln': ln, 'e': {'k': 'yield', 'e': {'k': 'var', 'n': '%yf', 'id': '%yf'}, 'from': False, 'ln': ln}}]}}
        if t is ast.Expr:
            return {'k': 'expr', 'e': self.e(n.value), 'ln': ln}
        if t is ast.Assign:
            r = self.e(n.value)
            if len(n.targets) == 1:
                return {'k': 'expr', 'ln': ln, 'e': {'k': 'asg', 'op': '=', 'l': self.e(n.targets[0]), 'r': r, 'ln': ln}}
            return {'k': 'multiasg', 'ts': [self.e(x) for x in n.targets], 'r': r, 'ln': ln}
        if t is ast.AugAssign:
            return {'k': 'expr', 'ln': ln, 'e': {'k': 'asg', 'op': OPS[type(n.op)] + '=', 'l': self.e(n.target), 'r': self.e(n.value), 'ln': ln}}
        if t is ast.AnnAssign:
            if n.value is None:
                return self.block([])
            return {'k': 'expr', 'ln': ln, 'e': {'k': 'asg', 'op': '=', 'l': self.e(n.target), 'r': self.e(n.value), 'ln': ln}}
        if t is ast.Return:
            return {'k': 'ret', 'e': self.e(n.value), 'ln': ln}
        if t is ast.If:
            if len(n.body) == len(n.orelse) == 1 and isinstance(n.body[0], ast.Assign) and isinstance(n.orelse[0], ast.Assign) \
                    and [ast.dump(x) for x in n.body[0].targets] == [ast.dump(x) for x in n.orelse[0].targets]:
                g = dict_get(n.test, n.body[0].value, n.orelse[0].value)
                if g is not None:
                    return self.s(ast.copy_location(ast.Assign(targets=n.body[0].targets, value=g), n.body[0]))
            return {'k': 'if', 'c': self.e(n.test), 't': self.block(n.body), 'e': self.block(n.orelse), 'ln': ln}
        if t is ast.For:
            return {'k': 'rfor', 'v': self.e(n.target), 'r': self.e(n.iter), 'b': self.block(n.body), 'els': self.block(n.orelse) if n.orelse else None, 'ln': ln}
        if t is ast.While:
            return {'k': 'while', 'c': self.e(n.test), 'b': self.block(n.body), 'els': self.block(n.orelse) if n.orelse else None, 'ln': ln}
        if t is ast.Break:
            return {'k': 'break', 'ln': ln}
        if t is ast.Continue:
            return {'k': 'continue', 'ln': ln}
        if t is ast.Pass:
            return self.block([])
        if t is ast.Assert:
            return {'k': 'assert', 'c': self.e(n.test), 'ln': ln}
        if t is ast.Raise:
            return {'k': 'raise', 'e': self.e(n.exc) if n.exc else None, 'ln': ln}
        if t is ast.Try:
            return {'k': 'try', 'b': self.block(n.body), 'h': [{'ty': self.exty(h.type), 'n': h.name, 'id': h.name, 'b': self.block(h.body), 'ln': h.lineno} for h in n.handlers],
                    'els': self.block(n.orelse) if n.orelse else None, 'fin': self.block(n.finalbody) if n.finalbody else None, 'ln': ln}
        if t is ast.With:
            return {'k': 'with', 'items': [(self.e(i.context_expr), self.e(i.optional_vars) if i.optional_vars else None) for i in n.items], 'b': self.block(n.body), 'ln': ln}
        if t in (ast.FunctionDef,):
            return {'k': 'pydef', 'n': n.name, 'lam': {'k': 'lambda', 'caps': [], 'pycap': True, 'params': self.params(n.args), 'body': self.block(n.body), 'ln': ln, 'defcap': '', 'gen': is_gen(n), 'locals': assigned(n)}, 'ln': ln}
        if t in (ast.Import, ast.ImportFrom):
            return {'k': 'import', 'names': [(a.asname or a.name).split('.')[0] for a in n.names], 'src': [(getattr(n, 'module', None) or '', a.name) for a in n.names], 'ln': ln}
        if t is ast.Delete:
            return {'k': 'del', 'ts': [self.e(x) for x in n.targets], 'ln': ln}
        if t in (ast.Global, ast.Nonlocal):
            return {'k': 'global', 'names': n.names, 'ln': ln}
        return {'k': 'unkstmt', 'why': t.__name__, 'ln': ln}

    def exty(self, n):
        if n is None:
            return '...'
        if isinstance(n, ast.Name):
            return n.id
        if isinstance(n, ast.Tuple):
            return '|'.join(self.exty(x) for x in n.elts)
        if isinstance(n, ast.Attribute):
            return n.attr
        return '?'


def dict_get(test, a, b):
    """d[k] if k in d else x   ->   d.get(k, x)"""
    if not (isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.In, ast.NotIn))):
        return None
    if isinstance(test.ops[0], ast.NotIn):
        a, b = b, a
    d, k = test.comparators[0], test.left
    if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == 'keys' and not d.args:
        d = d.func.value
    if isinstance(a, ast.Subscript) and ast.dump(a.value) == ast.dump(d).replace('Store', 'Load') and ast.dump(a.slice) == ast.dump(k) and isinstance(b, (ast.Constant, ast.Name)):
        c = ast.Call(func=ast.Attribute(value=a.value, attr='get', ctx=ast.Load()), args=[k, b], keywords=[])
        for x in ast.walk(c):
            ast.copy_location(x, test)
        return c
    return None


STRM = set('replace split rsplit strip lstrip rstrip lower upper title capitalize startswith endswith join zfill ljust rjust center splitlines isdigit isalpha partition rpartition encode decode format find rfind'.split())


def yields_appended(b):
    """body of a generator with `yield x` replaced by an append to a list, or None"""
    bad = []

    def go(n):
        if isinstance(n, list):
            return [go(x) for x in n]
        if not isinstance(n, dict):
            return n
        if n.get('k') in ('lam', 'pydef'):
            return n
        if n.get('k') == 'expr' and isinstance(n.get('e'), dict) and n['e'].get('k') == 'yield' and not n['e'].get('from') and n['e'].get('e') is not None:
            return {'k': 'pyacc', 'acc': '%yacc', 'elt': n['e']['e'], 'dict': False, 'sum': False, 'ln': n.get('ln')}
        if n.get('k') in ('yield', 'try', 'with', 'throw', 'raise'):
            bad.append(n)
        return {k: go(v) if isinstance(v, (dict, list)) else v for k, v in n.items()}
    r = go(b)
    return None if bad else r


def is_str(v):
    return v[0] == 'str' or v[0] == 'app' and v[1] in ('strcat', 'strfmt', 'str', 'repr', 'fmt', 'replace', 'strip', 'lower', 'upper', 'join', '__fstr__', 'accum:strcat') or v[0] == 'ite' and (is_str(v[2]) and is_str(v[3]))


def strval(v):
    """str(v)"""
    if is_str(v):
        return v
    if v[0] == 'num' and v[1].denominator == 1:
        return ('str', str(int(v[1])))
    return ('app', 'str', v)


def cat(*xs):
    """concatenation of strings; everything in it is a string"""
    fl = []
    for x in xs:
        fl += x[2:] if x[0] == 'app' and x[1] == 'strcat' else (x,)
    if len([x for x in fl if x != ('str', '')]) == 1:
        return [x for x in fl if x != ('str', '')][0]
    return strcat(*[x[2] if x[0] == 'app' and x[1] == 'str' and len(x) == 3 else x for x in fl])


def fmtpiece(v, spec, conv=''):
    if conv in ('r', 'a'):
        v = ('app', 'repr', v)
    if spec in ('', 's') or spec == 'd' and v[0] == 'num' and v[1].denominator == 1:
        return strval(v)
    if spec == 'i':
        spec = 'd'
    return ('app', 'fmt', v, ('str', spec))


def percent(fmt, arg):
    """'...' % arg as a concatenation (None: not understood)"""
    import re
    ps, pos = [], 0
    specs = []
    for m in re.finditer(r'%(\([^)]*\))?([-#0 +]*(?:\*|\d+)?(?:\.(?:\*|\d+))?)[hlL]?([a-zA-Z%])', fmt):
        if '*' in m.group(2):
            return None
        ps.append(('str', fmt[pos:m.start()]))
        pos = m.end()
        if m.group(3) == '%':
            ps.append(('str', '%'))
        else:
            ps.append(m)
            specs.append(m)
    ps.append(('str', fmt[pos:]))
    named = [m for m in specs if m.group(1)]
    if named:
        if len(named) != len(specs) or arg[0] != 'dict':
            return None
        d = dict((k[1], v) for k, v in arg[1] if k[0] == 'str')
        if any(m.group(1)[1:-1] not in d for m in named):
            return None
        vals = [d[m.group(1)[1:-1]] for m in specs]
    elif arg[0] == 'tup':
        if len(arg[1]) != len(specs):
            return None
        vals = list(arg[1])
    elif len(specs) == 1:
        vals = [arg]
    else:
        vals = [project(arg, 'idx', num(i)) for i in range(len(specs))]
    out = []
    for p in ps:
        if isinstance(p, tuple):
            out.append(p)
        else:
            v = vals.pop(0)
            t = p.group(3)
            sp = p.group(2) + ('d' if t in 'iu' else t)
            out.append(fmtpiece(v, '', 'r') if sp == 'r' else fmtpiece(v, sp if sp != 's' else ''))
    return cat(*out)


def braces(fmt, pos, kw):
    import string
    d = dict(kw)
    out, n = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            out.append(('str', lit))
            if field is None:
                continue
            if field == '':
                v = pos[n]
                n += 1
            elif field.isdigit():
                v = pos[int(field)]
            elif field in d:
                v = d[field]
            else:
                return None
            if '{' in spec:
                return None
            out.append(fmtpiece(v, spec, conv or ''))
    except (ValueError, IndexError):
        return None
    return cat(*out)


def has_break(n, top=True):
    if isinstance(n, dict):
        if n.get('k') == 'break':
            return True
        if n.get('k') in ('rfor', 'while', 'for', 'do', 'lambda', 'pydef') and not top:
            return False
        return any(has_break(v, False) for k, v in n.items() if k not in ('node', 'module'))
    if isinstance(n, (list, tuple)):
        return any(has_break(x, False) for x in n)
    return False


def alters(n, v):
    """the statement changes the object held by variable v in place (and does not rebind v)"""
    r = [False, False]

    def go(n):
        if isinstance(n, dict):
            if n.get('k') == 'call' and n.get('o', {}).get('k') == 'var' and n['o']['n'] == v and n['f'] in ('update', 'append', 'extend', 'setdefault', 'pop', 'insert', 'clear', 'sort', 'reverse', 'remove'):
                r[0] = True
            if n.get('k') in ('asg', 'iasg') and n['l'].get('k') == 'idx' and n['l']['o'].get('k') == 'var' and n['l']['o']['n'] == v:
                r[0] = True
            if n.get('k') == 'asg' and n['l'].get('k') == 'var' and n['l']['n'] == v or n.get('k') in ('lambda', 'pydef', 'comp'):
                r[1] = True
            for k, x in n.items():
                if k not in ('node', 'module'):
                    go(x)
        elif isinstance(n, (list, tuple)):
            for x in n:
                go(x)
    go(n)
    return r[0] and not r[1]


def replaced(n, v, e):
    """variable v replaced by expression e"""
    if isinstance(n, dict):
        if n.get('k') == 'var' and n.get('n') == v:
            return e
        return {k: (x if k in ('node', 'module') else replaced(x, v, e)) for k, x in n.items()}
    if isinstance(n, list):
        return [replaced(x, v, e) for x in n]
    if isinstance(n, tuple):
        return tuple(replaced(x, v, e) for x in n)
    return n


def fresh_elements(r):
    """a list of containers built here"""
    if r[0] == 'poly':
        return all(k == 1 and len(m) == 1 and fresh_elements(m[0]) for m, k in r[1])
    if r[0] == 'list':
        return bool(r[1]) and all(x[0] in ('dict', 'list') for x in r[1])
    if r[0] == 'app' and r[1] == 'concat':
        return all(fresh_elements(x) for x in r[2:])
    if r[0] == 'app' and r[1] == 'map' and len(r) == 4:
        return all(x == ('skip',) or x[0] in ('dict', 'list') for x in ([v for _, v in r[3][1]] if r[3][0] == 'pw' else [r[3]]))
    return False


def is_gen(n):
    class V(ast.NodeVisitor):
        r = False

        def visit_Yield(self, x): self.r = True
        def visit_YieldFrom(self, x): self.r = True
        def visit_FunctionDef(self, x): pass
        def visit_Lambda(self, x): pass
    v = V()
    for s in n.body:
        v.visit(s)
    return v.r


def assigned(n):
    """names local to a function: the ones its body binds"""
    loc, out = set(), set()

    class V(ast.NodeVisitor):
        def visit_Name(self, x):
            if isinstance(x.ctx, (ast.Store, ast.Del)):
                loc.add(x.id)
        def visit_FunctionDef(self, x): loc.add(x.name)
        def visit_ClassDef(self, x): loc.add(x.name)
        def visit_Lambda(self, x): pass
        def visit_ListComp(self, x): pass
        visit_SetComp = visit_GeneratorExp = visit_DictComp = visit_ListComp
        def visit_Global(self, x): out.update(x.names)
        visit_Nonlocal = visit_Global
        def visit_Import(self, x): loc.update((a.asname or a.name).split('.')[0] for a in x.names)
        visit_ImportFrom = visit_Import
        def visit_ExceptHandler(self, x):
            if x.name:
                loc.add(x.name)
            self.generic_visit(x)
    for x in n.body:
        V().visit(x)
    return sorted(loc - out)


def load_classes():
    """class hierarchy of the python package, for the facts on isinstance"""
    import re
    amb = set()
    for d, _, fs in os.walk(REPO + '/python/triqs'):
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            for m in re.finditer(r'^class[ ]+(\w+)[ ]*(?:\(([^)]*)\))?[ ]*:', open(os.path.join(d, f), errors='replace').read(), re.M):
                b = tuple(x.strip().split('.')[-1] for x in (m.group(2) or '').split(',') if x.strip() and '=' not in x)
                if T.CLASSES.setdefault(m.group(1), b) != b:
                    amb.add(m.group(1))
    for n in amb:
        del T.CLASSES[n]


def kinds(tree):
    """attributes and module variables that only ever hold truth values / lists"""
    got, mod = {}, {}

    def kind(v):
        if isinstance(v, (ast.List, ast.ListComp)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('list', 'sorted'):
            return 'list'
        if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Mult) and (isinstance(v.left, ast.List) or isinstance(v.right, ast.List)):
            return 'list'
        if isinstance(v, ast.Compare) or isinstance(v, ast.Constant) and isinstance(v.value, bool) or isinstance(v, ast.UnaryOp) and isinstance(v.op, ast.Not):
            return 'bool'
        if isinstance(v, ast.IfExp) and kind(v.body) == kind(v.orelse):
            return kind(v.body)
        if isinstance(v, ast.BoolOp) and len({kind(x) for x in v.values}) == 1:
            return kind(v.values[0])
        return '?'
    for n in ast.walk(tree):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For, ast.With, ast.comprehension)):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target] if not isinstance(n, ast.With) else [i.optional_vars for i in n.items if i.optional_vars]
            for t in ts:
                if isinstance(n, ast.Assign) and isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                    prs = list(zip(t.elts, n.value.elts))
                else:
                    prs = [(x, n.value if isinstance(n, ast.Assign) and x is t else None) for x in ast.walk(t)]
                for x, v in prs:
                    if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                        got.setdefault(x.attr, set()).add(kind(v))
                    elif isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        mod.setdefault(x.id, set()).add(kind(v))
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            got.setdefault(n.name, set()).add('?')
            mod.setdefault(n.name, set()).add('?')
        elif isinstance(n, ast.arg):
            mod.setdefault(n.arg, set()).add('?')
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'update' and '__dict__' in ast.unparse(n.func.value):
            for k in n.keywords:
                got.setdefault(k.arg, set()).add('?')
    top = {t.id for n in tree.body if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)}
    T.BOOLF |= {a for a, k in got.items() if k == {'bool'}}
    T.BOOLF -= {a for a, k in got.items() if k != {'bool'}}
    T.LISTF |= {a for a, k in got.items() if k == {'list'}} | {('glob', a) for a, k in mod.items() if k == {'list'} and a in top}
    T.LISTF -= {a for a, k in got.items() if k != {'list'}} | {('glob', a) for a, k in mod.items() if k != {'list'}}


SIGS = {}
# attributes and parameters which hold integers
INTNAMES = {'dim', 'ndim', 'rank', 'target_rank', '_rank', '_target_rank', 'size', 'n_bz', 'n_orb', 'norb', 'n_orbitals', 'n_blocks', 'Ncluster_sites', 'Norb', 'n_points', 'n_pts', 'nk', 'n_k', 'nloop', 'n_bins', 'n_iw', 'n_tau', 'n_l'}


def sigfile(src):
    """python files of the repository an import may mean"""
    if 'files' not in SIGS:
        SIGS['files'] = {}
        for d, ds, fs in os.walk(REPO + '/python/triqs'):
            ds.sort()
            for f in sorted(fs):
                if f.endswith('.py'):
                    n = os.path.basename(d) if f == '__init__.py' else f[:-3]
                    SIGS['files'].setdefault(n, []).append(os.path.join(d, f))
    l = src.strip('.').split('.')
    fs = SIGS['files'].get(l[-1], [])
    if len(l) > 1:
        fs = [f for f in fs if ('/' + '/'.join(l)) in f[:-3].replace('/__init__', '')]
    return fs[0] if len(fs) == 1 else None


def sigof(src, name, seen=()):
    """[(parameter, constant default or None)] of a function of the repository, or None"""
    f = sigfile(src) if src else None
    if f is None or f in seen:
        return None
    if f not in SIGS:
        try:
            SIGS[f] = ast.parse(open(f).read()).body
        except (SyntaxError, OSError):
            SIGS[f] = []
    hit = [n for n in SIGS[f] if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == name]
    if len(hit) == 1:
        n, skip = hit[0], 0
        if isinstance(n, ast.ClassDef):
            m = [x for x in n.body if isinstance(x, ast.FunctionDef) and x.name == '__init__']
            if len(m) != 1:
                return None
            n, skip = m[0], 1
        if n.decorator_list:
            return None
        return sigparams(n.args, skip)
    if hit:
        return None
    for n in SIGS[f]:
        if isinstance(n, ast.ImportFrom):
            for a in n.names:
                if (a.asname or a.name) == name or a.name == '*':
                    r = sigof(n.module, name if a.name == '*' else a.name, seen + (f,))
                    if r is not None:
                        return r
    return None


def sigparams(a, skip=0):
    if a.vararg or a.kwarg or a.kwonlyargs or a.posonlyargs:
        return None
    ds = [None] * (len(a.args) - len(a.defaults)) + list(a.defaults)
    out = []
    for p, d in zip(a.args, ds):
        c = None
        if isinstance(d, ast.Constant):
            v = d.value
            c = NONE if v is None else ('bool', v) if isinstance(v, bool) else num(v) if isinstance(v, int) else ('str', v) if isinstance(v, str) else None
        out.append((p.arg, c))
    return out[skip:]


def nothing_in(v):
    """no element passes the filter of a comprehension"""
    if v[0] != 'app' or v[1] != 'map' or len(v) != 4 or v[3][0] != 'pw' or not any(x == ('skip',) for _, x in v[3][1]):
        return None
    return ('forall', v[2], tuple(sorted({(conds, x != ('skip',)) for conds, x in v[3][1]}, key=repr)))


def back(v):
    """the list v from its end to its start"""
    if v[0] in ('list', 'tup') and not any(x[0] == 'star' for x in v[1]):
        return ('list', tuple(reversed(v[1])))
    sl = ('slice', (NONE, NONE, num(-1)))
    if v[0] == 'idx' and v[2] == sl:
        return v[1]
    return ('idx', v, sl)


def immutable(v):
    return v[0] in ('str', 'num', 'none', 'bool') or v[0] == 'tup' and all(immutable(x) for x in v[1])


def number_names(fn):
    """local names which only ever hold numbers"""
    got, bad = {}, set()

    def walk_(n, top):
        for x in ast.iter_child_nodes(n):
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                for y in ast.walk(x):
                    if isinstance(y, (ast.Nonlocal, ast.Global)):
                        bad.update(y.names)
                if isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    bad.add(x.name)
                continue
            if isinstance(x, (ast.Nonlocal, ast.Global)):
                bad.update(x.names)
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        got.setdefault(t.id, []).append(x.value)
                    elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(x.value, (ast.Tuple, ast.List)) and len(t.elts) == len(x.value.elts) and not any(isinstance(y, ast.Starred) for y in list(t.elts) + list(x.value.elts)):
                        for a, b in zip(t.elts, x.value.elts):
                            if isinstance(a, ast.Name):
                                got.setdefault(a.id, []).append(b)
                            else:
                                bad.update(y.id for y in ast.walk(a) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store))
                    else:
                        bad.update(y.id for y in ast.walk(t) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store))
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                got.setdefault(x.target.id, []).append(ast.BinOp(x.target, x.op, x.value))
            elif isinstance(x, ast.For) and isinstance(x.target, ast.Name) and isinstance(x.iter, ast.Call) and isinstance(x.iter.func, ast.Name) and x.iter.func.id == 'range':
                got.setdefault(x.target.id, []).append(ast.Constant(0))
            elif isinstance(x, (ast.AnnAssign, ast.NamedExpr, ast.For, ast.comprehension, ast.ExceptHandler, ast.Import, ast.ImportFrom, ast.With, ast.Delete)):
                for y in ([x.target] if hasattr(x, 'target') else [i.optional_vars for i in x.items if i.optional_vars] if isinstance(x, ast.With) else []):
                    bad.update(z.id for z in ast.walk(y) if isinstance(z, ast.Name))
                if isinstance(x, ast.ExceptHandler) and x.name:
                    bad.add(x.name)
                if isinstance(x, (ast.Import, ast.ImportFrom)):
                    bad.update((a.asname or a.name).split('.')[0] for a in x.names)
            walk_(x, False)
    walk_(fn, True)
    a = fn.args
    bad |= {x.arg for x in a.args + a.kwonlyargs + a.posonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    ok = set(got) - bad

    def isnum(v):
        if isinstance(v, ast.Constant):
            return isinstance(v.value, (int, float)) and not isinstance(v.value, bool)
        if isinstance(v, ast.Name):
            return v.id in ok
        if isinstance(v, ast.UnaryOp) and isinstance(v.op, (ast.USub, ast.UAdd)):
            return isnum(v.operand)
        if isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv, ast.Mod)):
            return isnum(v.left) and isnum(v.right)
        if isinstance(v, ast.IfExp):
            return isnum(v.body) and isnum(v.orelse)
        if isinstance(v, ast.Call):
            f = v.func
            return isinstance(f, ast.Name) and f.id in ('len', 'int', 'float', 'ord', 'fork') or isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and (f.value.id, f.attr) in (('os', 'fork'), ('os', 'getpid'), ('math', 'sqrt'))
        return False
    while True:
        drop = {n for n in ok if not all(isnum(v) for v in got[n])}
        if not drop:
            return ok
        ok -= drop


def number_tests(tree):
    """the truth of a name which holds a number, written as a comparison with zero"""
    def test(n, ok):
        if isinstance(n, ast.Name) and n.id in ok:
            return ast.copy_location(ast.Compare(n, [ast.NotEq()], [ast.copy_location(ast.Constant(0), n)]), n)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            n.operand = test(n.operand, ok)
        elif isinstance(n, ast.BoolOp):
            n.values = [test(x, ok) for x in n.values]
        return n

    def rec(n, ok):
        for x in ast.iter_child_nodes(n):
            if isinstance(x, (ast.FunctionDef, ast.Lambda)):
                inner = number_names(x) if isinstance(x, ast.FunctionDef) else set()
                rec(x, inner)
                continue
            if isinstance(x, (ast.If, ast.While, ast.IfExp, ast.Assert)):
                x.test = test(x.test, ok)
            elif isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not):
                x.operand = test(x.operand, ok)
            rec(x, ok)
    rec(tree, set())


class PyModule:
    def __init__(self, rel):
        if not T.CLASSES:
            load_classes()
        self.rel = rel
        self.path = rel if rel.startswith("/") else REPO + "/" + rel
        if not os.path.exists(self.path):
            raise FrontError('anchor file vanished: ' + rel)
        self.src = open(self.path).read()
        try:
            self.tree = ast.parse(self.src)
        except SyntaxError as ex:
            raise FrontError('cannot parse %s: %s' % (rel, ex))
        kinds(self.tree)
        number_tests(self.tree)
        self.funcs = {}
        self.classes = {}
        self.globals = {}
        self.last = {}
        self.multi = {}        # module variables assigned more than once
        self.imports = {}
        self.stars = []
        self.limports = {}     # imports inside functions
        self.scan(self.tree.body)
        for n in ast.walk(self.tree):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    if (a.asname or a.name) not in self.imports and a.name != '*':
                        self.limports[(a.asname or a.name).split('.')[0]] = (getattr(n, 'module', None) or '', a.name)
        c = Conv()
        self.body = [c.s(n) for n in self.tree.body if self.effect(n)]

    @staticmethod
    def effect(n):
        """statements executed on import which are more than a definition"""
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Import)):
            return False
        if isinstance(n, ast.ImportFrom):
            return any(a.name == '*' for a in n.names)
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            return False
        return True

    def scan(self, body, guard=()):
        c = Conv()
        for n in body:
            if isinstance(n, ast.FunctionDef):
                self.funcs[n.name] = self.mk(n, None)
            elif isinstance(n, ast.ClassDef):
                cd = {'name': n.name, 'bases': [ast.unparse(b) for b in n.bases], 'methods': {}, 'attrs': {}, 'node': n, 'alias': {}, 'line': n.lineno}
                for m in n.body:
                    if isinstance(m, ast.FunctionDef):
                        f = self.mk(m, n.name)
                        if any(isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter') for d in m.decorator_list):
                            cd['methods'][m.name + '.setter'] = f
                        else:
                            cd['methods'][m.name] = f
                    elif isinstance(m, ast.Assign):
                        for t in m.targets:
                            if isinstance(t, ast.Name):
                                cd['attrs'][t.id] = c.e(m.value)
                                if isinstance(m.value, ast.Name) and m.value.id in cd['methods']:
                                    cd['methods'][t.id] = cd['methods'][m.value.id]
                                    cd['alias'][t.id] = m.value.id
                self.classes[n.name] = cd
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        if t.id in self.globals:
                            self.multi.setdefault(t.id, [self.last[t.id]]).append(n.value)
                        self.last[t.id] = n.value
                        self.globals[t.id] = c.e(n.value)
                        if isinstance(n.value, ast.Name) and n.value.id in self.funcs:
                            self.funcs[t.id] = self.funcs[n.value.id]
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    if a.name == '*':
                        self.stars.append(n.module or '')
                    self.imports[(a.asname or a.name).split('.')[0]] = (getattr(n, 'module', None) or '', a.name)
            elif isinstance(n, ast.If):
                self.scan(n.body)
                self.scan(n.orelse)
            elif isinstance(n, ast.Try):
                self.scan(n.body)
                for h in n.handlers:
                    self.scan(h.body)

    def mk(self, n, cls):
        c = Conv()
        deco = [ast.unparse(d) for d in n.decorator_list]
        return {'name': n.name, 'q': (cls + '.' if cls else '') + n.name, 'id': (self.rel, cls, n.name, n.lineno), 'file': self.path, 'line': n.lineno,
                'params': c.params(n.args), 'body': c.block(n.body), 'pycls': cls, 'cls': None, 'deco': deco, 'static': 'staticmethod' in deco,
                'prop': 'property' in deco, 'clsm': 'classmethod' in deco, 'gen': is_gen(n), 'module': self, 'ret': '', 'node': n}


class PyProgram:
    lang = 'py'

    def __init__(self, *rels):
        self.mods = {r: PyModule(r) for r in rels}

    def fn(self, i):
        return None

    def func(self, name, rel=None):
        for r, m in self.mods.items():
            if rel and r != rel:
                continue
            if name in m.funcs:
                return m.funcs[name]
        raise FrontError('anchor vanished: ' + name)

    def has(self, name, rel=None):
        try:
            self.func(name, rel)
            return True
        except FrontError:
            return False

    def cls(self, name):
        for m in self.mods.values():
            if name in m.classes:
                return m.classes[name], m
        raise FrontError('anchor vanished: class ' + name)

    def hascls(self, name):
        return any(name in m.classes for m in self.mods.values())

    def method(self, cls, name):
        """resolve along known bases"""
        seen = set()
        todo = [cls]
        while todo:
            c = todo.pop(0)
            if c in seen:
                continue
            seen.add(c)
            for m in self.mods.values():
                if c in m.classes:
                    cd = m.classes[c]
                    if name in cd['methods']:
                        return cd['methods'][name]
                    todo += [b.split('.')[-1] for b in cd['bases']]
        return None

    def need(self, cls, name):
        f = self.method(cls, name)
        if f is None:
            raise FrontError('anchor vanished: %s.%s' % (cls, name))
        return f


class PyInterp(Interp):
    in_hook = None

    def __init__(self, prog, selfcls=None, getitem_hook=None, eq_hook=None, in_hook=None, **kw):
        super().__init__(prog, lang='py', **kw)
        T.INTNAMES |= INTNAMES
        self.getitem_hook = getitem_hook
        self.eq_hook = eq_hook
        self.in_hook = in_hook
        self.selfcls = dict(selfcls or {})   # term -> class name
        self.mod = None

    def run(self, f, this=('sym', 'this'), args=None, init=None):
        self.tupleparams = frozenset(args[i] if args and i < len(args) and args[i] is not None else ('sym', p['n']) for i, p in enumerate(f['params']) if p.get('star') == 1)
        return super().run(f, this, args, init)

    def clsof(self, v):
        if v in self.selfcls:
            return self.selfcls[v]
        if v[0] == 'new' and self.prog.hascls(v[1]):
            return v[1]
        return None

    # names -------------------------------------------------------------
    def py_name(self, st, e):
        n = e['n']
        if n in st.env:
            v = self.load(st, st.env[n])
            if v[0] in ('fld', 'idx', 'elem') and v in st.heap and st.heap[v][:1] == ('lv',) and st.heap[v][2] == strip_loc(v):
                # the object's contents as updated by the loop
                v = st.heap[v]
            return [(st, v)]
        return [(st, self.py_global(st, n))]

    def py_global(self, st, n):
        g = ('glob', n)
        if g in st.heap:
            return st.heap[g]
        if self.mod is not None:
            m = self.mod
            if n in m.funcs:
                return ('fn', m.rel, n)
            if n in m.classes:
                return ('cls', n)
            if n in m.globals and m.globals[n]['k'] in ('int', 'flt', 'str', 'bool', 'null'):
                return self.ev(st, m.globals[n])[0][1]
            if n in m.imports:
                src, nm = m.imports[n]
                base = nm.split('.')[-1]
                for mm in self.prog.mods.values():
                    if base in mm.classes and src.split('.')[-1] == os.path.basename(mm.rel)[:-3]:
                        return ('cls', base)
        if n in ('True', 'False'):
            return ('bool', n == 'True')
        if self.mod is not None and self.mod.imports.get(n, ('',))[0] == 'operator':
            l = self.operator_lam(self.mod.imports[n][1])
            if l:
                return self.ev(State(), l)[0][1]
        return ('glob', n)

    def py_attr(self, st, e):
        out = []
        for s, b in self.ev(st, e['o']):
            out += self.getattr(s, b, e['f'], e)
        return out

    def getattr(self, s, b, f, e=None):
        loc = ('fld', b, f)
        if loc in s.heap:
            return [(s, self.load(s, loc))]
        if b[0] == 'app' and b[1] == 'super':
            return [(s, ('bm', b, f))]
        if b[0] == 'glob':
            l = self.isoperator(b, f)
            if l:
                return self.ev(s, l)
        c = self.clsof(b)
        if not c and b[0] not in ('glob', 'num', 'str', 'none', 'tup', 'list', 'dict'):
            # a simple property of a class the object is known to be of
            for k, v in s.facts.ba.items():
                if v and k[0] == 'app' and k[1] == 'isinstance' and k[2] == b and k[3][0] == 'cls':
                    m = self.prog.method(k[3][1], f)
                    if m is not None and m.get('prop') and not m['gen'] and m['body']['k'] == 'block' and len([x for x in m['body']['b'] if not (x['k'] == 'expr' and x['e']['k'] == 'str')]) == 1 and self.want_inline(m, s):
                        return [(s2, v) for s2, k, v, _ in self.call_fn(s, m, b, [b])]
        if not c and f == '__class__' and b[0] != 'glob':
            return [(s, ('app', 'type', b))]
        if f == 'T' and not c and b[0] not in ('glob', 'num', 'str', 'none', 'tup', 'list', 'dict') and loc not in s.heap:
            return self.call_method(s, b, 'transpose', (), (), e if e is not None else {'k': 'mem'})
        if f == 'ndim' and not (c and self.prog.method(c, f)):
            return [(s2, size_term(v)) for s2, v in self.getattr(s, b, 'shape', e)]
        if c and f == '__class__':
            return [(s, ('cls', c))]
        if c:
            m = self.prog.method(c, f)
            if m is not None:
                if m.get('prop') and m['gen']:
                    return [(s, ('genobj', c, f, (b,)))]
                if m.get('prop') and self.want_inline(m, s):
                    return [(s2, v) for s2, k, v, _ in self.call_fn(s, m, b, [b])]
                if not m.get('prop'):
                    return [(s, ('bm', b, f))]
            for mm in self.prog.mods.values():
                if c in mm.classes and f in mm.classes[c]['attrs'] and mm.classes[c]['attrs'][f]['k'] in ('int', 'flt', 'str', 'bool', 'null', 'tuple'):
                    return self.ev(s, mm.classes[c]['attrs'][f])
        if b[0] == 'ite':
            pass
        if b[0] == 'num' and f in ('real',):
            return [(s, b)]
        return [(s, self.load(s, loc) if b[0] not in ('struct',) else project(b, 'fld', f))]

    def py_idx(self, st, e):
        out = []
        for s, b in self.ev(st, e['o']):
            for s2, i in self.ev(s, e['i']):
                out += self.getitem(s2, b, i, e)
        return out

    getitem_hook = None
    eq_hook = None
    tupleparams = frozenset()

    def e_bin(self, st, e, disc=False):
        if e['op'] in ('==', '!='):
            out = []
            for s, (a, b) in self.evs(st, [e['l'], e['r']]):
                if a[0] == b[0] and a[0] in ('tup', 'list') and len(a[1]) == len(b[1]) > 1:
                    cur = [s]
                    for x, y in zip(a[1], b[1]):
                        nxt = []
                        for s2 in cur:
                            for t, s3 in self.branch(s2, self.binop('==', x, y), e.get('ln')):
                                if t:
                                    nxt.append(s3)
                                else:
                                    out.append((s3, ('bool', e['op'] == '!=')))
                        cur = nxt
                    out += [(s2, ('bool', e['op'] == '==')) for s2 in cur]
                    continue
                r = None
                c = self.clsof(a)
                if c and self.prog.method(c, '__eq__' if e['op'] == '==' else '__ne__'):
                    r = self.overloaded(s, dict(e, l={'k': 'pval', 'v': a}, r={'k': 'pval', 'v': b}))
                out += r if r is not None else [(s, self.binop(e['op'], self.now(s, a), self.now(s, b), e))]
            return out
        return super().e_bin(st, e, disc)

    def aslist(self, v):
        """certainly a list of its own"""
        return v in self.lvlist or v[0] == 'list' or v[0] == 'app' and (v[1] in ('list', 'sorted', 'map', 'append', 'concat') and len(v) > 2 or v[1] == 'setitem' and self.aslist(v[2])) or v[0] == 'idx' and v[2][0] == 'slice' and self.aslist(v[1]) or v[0] == 'res' and v[2] in ('list', 'sorted')

    def listish(self, v):
        return v[0] == 'fld' and v[2] in T.LISTF or v[0] == 'glob' and v in T.LISTF or v[0] == 'lv' and v[2][0] in ('fld', 'glob') and self.listish(v[2])

    def truth(self, v):
        r = nothing_in(v)
        if r is not None:
            return mk_not(r)
        if v[:2] == ('app', 'size') and len(v) == 3:
            return mk_not(self.binop('==', v, ZERO))
        if v[0] == 'app' and v[1] in ('map', 'append', 'concat', 'keys') and len(v) > 2 or v in self.tupleparams or self.listish(v):
            return mk_not(cmp_term('==', size_term(v), ZERO))
        if v[0] == 'idx' and v[1] in self.tupleparams and v[2][0] == 'slice' and is_num(v[2][1][0]) and v[2][1][0][1] >= 0 and v[2][1][1:] == (NONE, NONE):
            return cmp_term('<', v[2][1][0], size_term(v[1]))
        if v[0] == 'app' and is_str(v):
            return mk_not(self.binop('==', v, ('str', '')))
        return super().truth(v)

    def binop(self, op, a, b, e=None):
        if op == '+' and (is_str(a) or is_str(b) or a in self.lvstr) and a[0] not in ('list', 'tup', 'num') and b[0] not in ('list', 'tup', 'num'):
            return cat(a, b)
        if op in ('==', '!=', '>', '>=', '<') and (b == ZERO and op[0] != '<' or b == ONE and op in ('>=', '<')) and a[:2] == ('app', 'count') and len(a) == 4:
            # counted at least once
            if (op, b) == ('>=', ZERO):
                return TRUE
            return self.binop('in' if op in ('!=', '>', '>=') else 'not in', a[3], a[2])
        if op == '+' and a in self.lvlist and (b[0] == 'lv' or self.aslist(b)):
            return ('app', 'concat', a, b)
        if op == '%' and a[0] == 'str':
            r = percent(a[1], b)
            if r is not None:
                return r
        if op in ('in', 'not in') and b[0] == 'dict' and a[0] in ('str', 'num', 'none') and all(k[0] in ('str', 'num', 'none') for k, _ in b[1]):
            return ('bool', (a in [k for k, _ in b[1]]) == (op == 'in'))
        if op in ('in', 'not in') and b[0] == 'dict' and 0 < len(b[1]) <= 8 and all(k[0] in ('str', 'num') for k, _ in b[1]):
            r = ('or', tuple(self.binop('==', a, k) for k, _ in sorted(b[1], key=repr))) if len(b[1]) > 1 else self.binop('==', a, b[1][0][0])
            return r if op == 'in' else mk_not(r)
        if op == '*' and (a[0] in ('list', 'tup') and is_num(b) or b[0] in ('list', 'tup') and is_num(a)):
            n, x = (b, a) if is_num(b) else (a, b)
            if n[1].denominator == 1 and len(x[1]) * n[1] <= 16 and not any(y[0] == 'star' for y in x[1]):
                return (x[0], x[1] * max(0, int(n[1])))
        if op == '*' and (b[0] == 'list' and a[0] != 'list' or b[0] == 'tup' and a[0] not in ('tup', 'list')):
            a, b = b, a
        if op == '/':
            # true division: int or float alike
            if a[0] == 'app' and a[1] == 'float' and len(a) == 3:
                a = a[2]
            if b[0] == 'app' and b[1] == 'float' and len(b) == 3:
                b = b[2]
        if op == '//' and T.is_num(a) and T.is_num(b) and b[1] != 0:
            return num(a[1] // b[1])
        if op == '%' and a[0] not in T.NONNUM and b[0] not in T.NONNUM and not T.is_num(b) and not is_str(a) and a not in self.lvstr:
            return T.sub(a, T.mul(b, ('app', 'idiv', a, b)))
        if op in ('in', 'not in'):
            if b[0] == 'app' and b[1] in ('list', 'tuple', 'set') and len(b) == 3:
                b = b[2]
            if b[0] == 'app' and b[1] == 'keys' and len(b) == 3:
                b = b[2]
            if b[0] == 'app' and b[1] in ('set', 'frozenset') and len(b) == 3 and b[2][0] in ('list', 'tup'):
                b = b[2]
            if b[0] in ('list', 'tup') and not all(x[0] in ('str', 'num', 'none', 'bool') for x in b[1]):
                xs = sorted(set(b[1]), key=repr)
                if len(xs) <= 8 and all(x[0] in ('str', 'num', 'none', 'bool', 'glob', 'cls') or T.is_const(x) or x[0] == 'fld' and x[1][0] == 'glob' for x in xs):
                    r = ('or', tuple(self.binop('==', a, x) for x in xs)) if len(xs) > 1 else self.binop('==', a, xs[0])
                    return r if op == 'in' else mk_not(r)
                b = ('list', tuple(xs))
            if a[0] in ('elem', 'idx') and a[1] == b and a[2][0] == 'iv' or self.in_hook is not None and self.in_hook(a, b):
                return ('bool', op == 'in')
        if op in ('==', '!='):
            for x, y in ((a, b), (b, a)):
                if y == ('list', ()) and nothing_in(x) is not None:
                    return nothing_in(x) if op == '==' else mk_not(nothing_in(x))
                if y == ('list', ()) and (x[0] == 'app' and x[1] in ('map', 'append', 'concat') or self.listish(x)) or y == ('tup', ()) and x in self.tupleparams:
                    return cmp_term(op, size_term(x), ZERO)
            if a[:2] == ('app', 'type') or b[:2] == ('app', 'type'):
                r = TRUE if a == b else ('app', 'eq') + tuple(sorted((a, b), key=repr))
                return r if op == '==' else mk_not(r)
            if T.boolish(a) and T.boolish(b) and a[0] != 'bool' and b[0] != 'bool' and a != b:
                return self.xor(a, b, op == '!=')
        if op == '^' and T.boolish(a) and T.boolish(b):
            return self.xor(a, b, True)
        if op in ('==', '!=') and self.eq_hook is not None:
            r = self.eq_hook(a, b)
            if r is not None:
                return ('bool', r if op == '==' else not r)
        if op in ('==', '!=') and NONE in (a, b):
            return super().binop('is' if op == '==' else 'is not', a, b, e)
        if op in ('<', '<=', '>', '>=') and (is_num(a) or is_num(b)):
            # a size compared with 0 or 1
            x, k, o = (a, b[1], op) if is_num(b) else (b, a[1], {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op])
            if x[:2] == ('app', 'size') and len(x) == 3 and (o, k) in (('>', 0), ('>=', 1), ('<', 1), ('<=', 0)) and nothing_in(x[2]) is not None:
                return nothing_in(x[2]) if o[0] == '<' else mk_not(nothing_in(x[2]))
        if op in ('==', '!=') and ZERO in (a, b):
            x = b if a == ZERO else a
            if x[:2] == ('app', 'size') and len(x) == 3:
                r = nothing_in(x[2])
                if r is not None:
                    return r if op == '==' else mk_not(r)
        return super().binop(op, a, b, e)

    def xor(self, a, b, differ):
        a, b = sorted((self.truth(a), self.truth(b)), key=repr)
        r = ('or', (('and', (a, mk_not(b))), ('and', (mk_not(a), b))))
        return r if differ else mk_not(r)

    def getitem(self, s, b, i, e=None):
        if self.getitem_hook is not None:
            r = self.getitem_hook(self, s, b, i)
            if r is not None:
                return [(s, r)]
        if b[0] == 'fld' and b[2] == 'shape' and i == ZERO and b not in s.heap and not self.clsof(b[1]):
            return [(s, size_term(b[1]))]
        c = self.clsof(b)
        if c:
            m = self.prog.method(c, '__getitem__')
            if m is not None and self.want_inline(m, s):
                return [(s2, v) for s2, k, v, _ in self.call_fn(s, m, b, [b, i])]
        if b[0] == 'dict':
            for k, v in reversed(b[1]):
                if k == i:
                    return [(s, v)]
        if b[0] == 'dict' and i[0] not in ('str', 'num', 'none', 'bool', 'slice') and 0 < len(b[1]) <= 8 and all(k[0] in ('str', 'num') for k, _ in b[1]):
            out, cur = [], [s]
            for k, v in b[1]:
                nxt = []
                for s1 in cur:
                    for t, s2 in self.branch(s1, self.truth(self.binop('==', i, k)), e.get('ln') if e else None):
                        if t:
                            out.append((s2, v))
                        else:
                            nxt.append(s2)
                cur = nxt
            for s2 in cur:
                self.throw(s2, ('KeyError', None, e.get('ln') if e else None))
            return out
        if b[0] == 'dict':
            return [(s, ('idx', b, i))]
        if b[0] in ('list', 'tup'):
            if i[0] == 'num' and i[1].denominator == 1 and -len(b[1]) <= int(i[1]) < len(b[1]):
                return [(s, b[1][int(i[1])])]
            if i[0] == 'slice' and all(x == NONE or x[0] == 'num' for x in i[1]):
                sl = slice(*[None if x == NONE else int(x[1]) for x in i[1]])
                return [(s, (b[0], b[1][sl]))]
        if b[0] == 'app' and b[1] == 'map' and b[3][0] != 'pw' and i[0] not in NONNUM and i[0] != 'slice' and (i[0] == 'iv'):
            return [(s, beta(b[3], i))]
        if b[0] == 'app' and b[1] == 'setitem':
            if b[3] == i:
                return [(s, b[4])]
        if b[0] == 'app' and b[1] == 'append' and (i == num(-1) or i == size_term(b[2]) or i == self.lvsize.get(b[2], 0)):
            return [(s, b[3])]
        ty = {x for t in self.trytypes for x in t}
        if ty & {'KeyError', 'LookupError'} and b[0] not in ('list', 'tup', 'dict'):
            out = []
            for t, s2 in self.branch(s, self.binop('in', i, b), e.get('ln') if e else None):
                if t:
                    loc = ('idx', b, i)
                    out.append((s2, self.load(s2, loc)))
                else:
                    self.throw(s2, ('KeyError', None, e.get('ln') if e else None))
            return out
        b0, b = b, self.rebase(s, b)
        loc = ('idx', b, i)
        pt = self.lvpoint.get(b0)
        if pt is not None and pt[0] == i and loc not in s.heap and not any(root(l) == root(b) and l[0] == 'idx' and l[1] == b for l in s.heap):
            # only the elements of earlier iterations have been assigned
            b = pt[1]
            loc = ('idx', b, i)
        if i[0] == 'iv' and ('elem', b, i) :
            # x[iv] with iv over range(len(x)) is the element
            d = dict(s.iters).get(i)
            if d is not None and d[0] == 'range' and d[1] == ZERO and d[2] == size_term(b):
                loc = ('elem', b, i)
        return [(s, self.load(s, loc))]

    def rebase(self, s, b):
        """an object some elements of which the loop assigned: the place it is kept in"""
        if b[0] == 'lv':
            for l, v in s.heap.items():
                if v == b and l[0] != 'loc' and strip_loc(l) == b[2]:
                    return l
        return b

    def e_slice(self, st, e):
        # [0:n] and [:n] are the same
        return [(s, ('slice', (NONE,) + vs[1:] if vs[0] == ZERO and (vs[2] == NONE or is_num(vs[2]) and vs[2][1] > 0) else vs)) for s, vs in self.evs(st, e['a'])]

    def e_cplx(self, st, e):
        return [(st, mul(('num', Fraction(e['v'])), ('sym', '1j')))]

    def e_dict(self, st, e):
        out = []
        keys = [k if k is not None else {'k': 'null'} for k in e['keys']]
        for s, ks in self.evs(st, keys):
            for s2, vs in self.evs(s, e['vals']):
                if any(k is None for k in e['keys']):
                    out.append((s2, ('app', 'dictunpack') + vs))
                else:
                    out.append((s2, ('dict', tuple(zip(ks, vs)))))
        return out

    def stringy(self, v):
        return is_str(v) or v in self.lvstr

    def e_pval(self, st, e):
        return [(st, e['v'])]

    def e_pbeta(self, st, e):
        return [(s, T.subst(e['v'], {('bv', e['lev']): i})) for s, i in self.ev(st, e['i'])]

    def e_fmtval(self, st, e):
        out = []
        for s, (v, sp) in self.evs(st, [e['e'], e['spec']]):
            conv = {115: 's', 114: 'r', 97: 'a'}.get(e['conv'], '')
            if sp[0] == 'str':
                out.append((s, fmtpiece(v, sp[1], conv)))
            else:
                out.append((s, ('app', 'fmt', v, sp)))
        return out

    def comp_of(self, st, kind, X, elt, tmp='%cm', ln=None, ifs=()):
        v = tmp if isinstance(tmp, dict) else {'k': 'var', 'n': tmp, 'id': tmp}
        return self.e_comp(st, {'kind': kind, 'elt': elt, 'gens': [{'v': v, 'r': {'k': 'pval', 'v': X}, 'ifs': list(ifs)}], 'ln': ln})

    def s_rfor(self, st, s):
        out = []
        if s['r'].get('k') == 'var' and s['v'].get('k') == 'var' and s['r']['n'] in st.env and st.env[s['r']['n']][0] == 'loc' and not s.get('els') and alters(s['b'], s['v']['n']):
            r0 = self.ev(st, s['r'])
            if len(r0) == 1 and fresh_elements(r0[0][1]):
                # the elements are altered in place
                self.n += 1
                i = {'k': 'var', 'n': '%%e%d' % self.n, 'id': '%%e%d' % self.n}
                rng = {'k': 'call', 'f': 'range', 'a': [{'k': 'call', 'f': 'len', 'a': [s['r']], 'kw': [], 'ln': s.get('ln')}], 'kw': [], 'ln': s.get('ln')}
                return self.s_rfor(st, dict(s, v=i, r=rng, b=replaced(s['b'], s['v']['n'], {'k': 'idx', 'o': s['r'], 'i': i, 'ln': s.get('ln')})))
        for s1, r in self.ev(st, s['r']):
            r = self.iterated(s1, r)
            n = None if s.get('els') or has_break(s['b']) else self.nest(s, r)
            if n is not None:
                out += self.ex(s1, n)
            else:
                out += self.loop(s1, 'rfor', s, rng=r, body=s['b'])
        return out

    def iterated(self, st, r):
        """the sequence an object of a known class iterates over"""
        c = self.clsof(r)
        m = self.prog.method(c, '__iter__') if c else None
        if m is not None and not m['gen'] and self.want_inline(m, st):
            rs = self.call_fn(st.copy(), m, r, [r])
            if len(rs) == 1 and rs[0][2] != r and rs[0][2][0] == 'app' and rs[0][2][1] in ('zip', 'product', 'from_iterable'):
                return rs[0][2]
        if r[0] == 'app' and r[1] in ('list', 'tuple', 'iter') and len(r) == 3:
            return self.iterated(st, r[2])
        return r

    def nest(self, s, r):
        """iteration over a cartesian product or over a concatenation: nested loops"""
        pv = lambda v: {'k': 'pval', 'v': v}
        self.n += 1
        var = lambda i: {'k': 'var', 'n': '%%n%d_%d' % (self.n, i), 'id': '%%n%d_%d' % (self.n, i)}
        tup = lambda a: {'k': 'tuple', 'kind': 'tup', 'a': a}
        asg = lambda v: {'k': 'expr', 'e': {'k': 'asg', 'op': '=', 'l': s['v'], 'r': v, 'ln': s.get('ln')}, 'ln': s.get('ln')}

        def loops(heads, value):
            n = {'k': 'block', 'b': [asg(value)] + s['b']['b']} if s['b']['k'] == 'block' else {'k': 'block', 'b': [asg(value), s['b']]}
            for v, it in reversed(heads):
                n = {'k': 'block', 'b': [{'k': 'rfor', 'v': v, 'r': it, 'b': n, 'els': None, 'ln': s.get('ln')}]}
            return n
        if r[0] == 'app' and r[1] == 'product' and len(r) > 2 and not any(x[0] in ('kw', 'star') for x in r[2:]):
            vs = [var(i) for i in range(len(r) - 2)]
            return loops([(v, pv(x)) for v, x in zip(vs, r[2:])], tup(vs))
        if r[0] == 'app' and r[1] == 'map' and r[3][0] == 'pw':
            # a list built by a comprehension with conditions: its elements one by one
            i = var(0)
            body = {'k': 'continue', 'ln': s.get('ln')}
            for conds, v in r[3][1]:
                if v != ('skip',):
                    c = {'k': 'pbeta', 'i': i, 'lev': bv_level(r[3]), 'v': ('and', tuple(c if b else mk_not(c) for c, b in conds))}
                    body = {'k': 'if', 'c': c, 't': asg({'k': 'pbeta', 'i': i, 'lev': bv_level(r[3]), 'v': v}), 'e': body, 'ln': s.get('ln')}
            return {'k': 'block', 'b': [{'k': 'rfor', 'v': i, 'r': pv(('app', '%dom', r[2])), 'b': {'k': 'block', 'b': [body] + (s['b']['b'] if s['b']['k'] == 'block' else [s['b']])}, 'els': None, 'ln': s.get('ln')}]}
        if r[0] == 'app' and r[1] == 'from_iterable' and len(r) == 3:
            return loops([(var(0), pv(r[2])), (var(1), var(0))], var(1))
        if r[0] == 'app' and r[1] == 'zip' and len(r) == 4:
            a, b = r[2], r[3]
            if a[0] == 'app' and a[1] == 'product' and len(a) == 4 and b[0] == 'app' and b[1] == 'from_iterable':
                # names of the rows and columns together with the table
                z = lambda x, y: {'k': 'call', 'f': 'zip', 'a': [x, y], 'kw': []}
                return loops([(tup([var(0), var(1)]), z(pv(a[2]), pv(b[2]))), (tup([var(2), var(3)]), z(pv(a[3]), var(1)))], tup([tup([var(0), var(2)]), var(3)]))
        return None

    def e_star(self, st, e):
        return [(s, ('star', v)) for s, v in self.ev(st, e['e'])]

    def e_yield(self, st, e):
        out = []
        for s, v in self.ev(st, e['e']):
            s = s.copy()
            s.ev = s.ev + (('yieldfrom' if e['from'] else 'yield', v, e.get('ln')),)
            out.append((s, ('app', 'sent')))
        return out

    def isbuiltin(self, st, n):
        return n not in st.env and self.mod is not None and not any(n in x for x in (self.mod.imports, self.mod.globals, self.mod.funcs, self.mod.classes)) and n not in self.models

    def e_comp(self, st, e, total=None):
        """comprehension -> map term over the loop domain (built as a loop with append); total: sum of the elements"""
        self.frame += 1
        acc = '%acc' + str(self.frame)
        isdict = e['kind'] == 'DictComp'
        body = {'k': 'pyacc', 'acc': acc, 'elt': e['elt'], 'dict': isdict, 'sum': total is not None, 'ln': e.get('ln')}
        node = {'k': 'block', 'b': [body]}
        g0 = e['gens'][0]
        if len(e['gens']) == 1 and not isdict and g0['r'].get('k') in ('var', 'pval'):
            # a variable which holds a literal container
            r0 = self.ev(st, g0['r'])
            if len(r0) == 1 and r0[0][1][0] in ('tup', 'list') and 1 <= len(r0[0][1][1]) <= 6 and not any(x[0] == 'star' for x in r0[0][1][1]):
                g0 = dict(g0, r={'k': 'tuple', 'kind': 'tup', 'a': [{'k': 'pval', 'v': x} for x in r0[0][1][1]]})
        if len(e['gens']) == 1 and (g0['r'].get('k') == 'tuple' and 1 <= len(g0['r']['a']) <= 6 and not any(x.get('k') == 'star' for x in g0['r']['a'])) and (not isdict or all(x.get('k') == 'str' for x in g0['r']['a'])):
            # over the elements of a display: one by one
            for c in reversed(g0['ifs']):
                node = {'k': 'block', 'b': [{'k': 'if', 'c': c, 't': node, 'e': {'k': 'block', 'b': []}, 'ln': e.get('ln')}]}
            vs = [{'k': 'var', 'n': '%%u%d_%d' % (self.frame, i), 'id': '%%u%d_%d' % (self.frame, i)} for i in range(len(g0['r']['a']))]
            asg = lambda l, r: {'k': 'expr', 'e': {'k': 'asg', 'op': '=', 'l': l, 'r': r, 'ln': e.get('ln')}, 'ln': e.get('ln')}
            node = {'k': 'block', 'b': [asg(v, x) for v, x in zip(vs, g0['r']['a'])] + [x for v in vs for x in (asg(g0['v'], v), node)]}
        for g in reversed(e['gens'] if node['b'][0] is body or len(node['b']) == 1 else []):
            for c in reversed(g['ifs']):
                node = {'k': 'block', 'b': [{'k': 'if', 'c': c, 't': node, 'e': {'k': 'block', 'b': []}, 'ln': e.get('ln')}]}
            node = {'k': 'block', 'b': [{'k': 'rfor', 'v': g['v'], 'r': g['r'], 'b': node, 'ln': e.get('ln')}]}
        s = st.copy()
        loc = ('loc', self.frame, acc)
        s.env[acc] = loc
        s.heap[loc] = total if total is not None else ('dict', ()) if isdict else ('list', ())
        out = []
        for s2, c in self.s_block(s, node):
            v = s2.heap.get(loc, ('unk', 'comp'))
            s2 = s2.copy()
            s2.heap.pop(loc, None)
            env = dict(st.env)
            s2.env = env
            if e['kind'] == 'SetComp':
                v = ('app', 'set', v)
            elif e['kind'] == 'ListComp' and v[0] == 'app' and v[1] == 'map' and v[2][0] in ('range', 'over') and len(v) == 4 and immutable(v[3]):
                v = self.binop('*', ('list', (v[3],)), v[2][2] if v[2][0] == 'range' else size_term(v[2][1]))
            # a pure comprehension leaves no loop event
            if s2.ev and len(s2.ev) == len(st.ev) + 1 and s2.ev[-1][0] == 'loop' and all(not [x for x in bp[1] if x[0] not in ('append',)] for bp in s2.ev[-1][2]):
                s2.ev = st.ev
            out.append((s2, v))
        return out

    def s_pyacc(self, st, s):
        out = []
        for s2, v in self.ev(st, s['elt']):
            s2 = s2.copy()
            l = s2.env[s['acc']]
            cur = self.load(s2, l)
            if s['dict']:
                self.store_quiet(s2, l, self.setitem(cur, v[1][0], v[1][1]) if cur[0] == 'dict' and v[1][0][0] == 'str' and all(k[0] == 'str' for k, _ in cur[1]) else ('app', 'setitem', cur, v[1][0], v[1][1]))
            elif s.get('sum'):
                self.store_quiet(s2, l, self.binop('+', cur, v))
            else:
                self.store_quiet(s2, l, append_term(cur, v))
            out.append((s2, None))
        return out

    # assignment -----------------------------------------------------------
    def py_target(self, st, t, v, ln, op='='):
        """assign value v to target expr; list of states"""
        k = t['k']
        if k == 'var':
            st = st.copy()
            if t['n'] in st.env and st.env[t['n']][0] == 'glob':
                self.store(st, st.env[t['n']], v, ln)
                return [st]
            if t['n'] not in st.env:
                self.frame += 1
                st.env[t['n']] = ('loc', self.frame, t['n'])
            st.heap[st.env[t['n']]] = v
            return [st]
        if k == 'tuple':
            cur = [st]
            star = [i for i, x in enumerate(t['a']) if x['k'] == 'star']
            for i, x in enumerate(t['a']):
                nxt = []
                for s in cur:
                    if star:
                        if v[0] in ('tup', 'list'):
                            n = len(v[1]) - (len(t['a']) - 1)
                            if i < star[0]:
                                it = v[1][i]
                            elif i == star[0]:
                                it = ('list', v[1][i:i + n])
                            else:
                                it = v[1][i + n - 1]
                        else:
                            it = ('app', 'unpack', v, num(i))
                        nxt += self.py_target(s, x['e'] if x['k'] == 'star' else x, it, ln)
                    else:
                        it = v[1][i] if v[0] in ('tup', 'list') and i < len(v[1]) else self.unpack(s, v, i, len(t['a']))
                        nxt += self.py_target(s, x, it, ln)
                cur = nxt
            return cur
        if k == 'mem':
            out = []
            for s, b in self.ev(st, t['o']):
                c = self.clsof(b)
                m = self.prog.method(c, t['f'] + '.setter') if c else None
                if m is not None and self.want_inline(m, s):
                    out += [s2 for s2, _, _, _ in self.call_fn(s, m, b, [b, v])]
                    continue
                s = s.copy()
                self.store(s, ('fld', b, t['f']), v, ln, op)
                out.append(s)
            return out
        if k == 'idx':
            out = []
            for s, b in self.ev(st, t['o']):
                for s2, i in self.ev(s, t['i']):
                    s2 = s2.copy()
                    b = self.rebase(s2, b)
                    c = self.clsof(b)
                    m = self.prog.method(c, '__setitem__') if c else None
                    if m is not None and self.want_inline(m, s2):
                        out += [s3 for s3, _, _, _ in self.call_fn(s2, m, b, [b, i, v])]
                        continue
                    if b[0] in ('dict', 'list') or (b[0] == 'app' and b[1] in ('setitem', 'append', 'map', 'dictmap')) or (b[0] in ('lv',) and t['o']['k'] == 'var') or (b[0] == 'new' and b[1] in ('dict',)):
                        # value-typed local container: functional update
                        nv = self.setitem(b, i, v)
                        if t['o']['k'] == 'var' and t['o']['n'] in s2.env:
                            self.store_quiet(s2, s2.env[t['o']['n']], nv)
                            out.append(s2)
                            continue
                        for s3 in self.py_target(s2, t['o'], nv, ln):
                            out.append(s3)
                        continue
                    again = False
                    if op == '=' and b[0] == 'app' and s2.heap.get(('idx', b, i)) == v:
                        # the value the element already has
                        for x in reversed(s2.ev):
                            if x[0] == 'store' and x[1][:2] == ('idx', b):
                                continue
                            if x[:2] != ('call', '__setitem__') or x[2] != b or not is_num(x[3][0]):
                                break
                            if x[3] == (i, v):
                                again = True
                                break
                    if op == '=' and not again:
                        s2.ev = s2.ev + (('call', '__setitem__', b, (i, v), ln),)
                    self.store(s2, ('idx', b, i), v, ln, op)
                    out.append(s2)
            return out
        st = st.copy()
        st.unk = st.unk + (('target', ln),)
        return [st]

    def unpack(self, s, v, i, n=0):
        if v[0] == 'fld' and v[2] == 'shape' and i == 0 and v not in s.heap and not self.clsof(v[1]):
            return size_term(v[1])
        if n and i == n - 1:
            T.UNPACKED.add((T.wipe(v), n))
        return project(v, 'idx', num(i), s)

    def setitem(self, b, i, v):
        if b[0] == 'dict':
            items = [(k, x) for k, x in b[1]]
            for j, (k, x) in enumerate(items):
                if k == i:
                    items[j] = (k, v)
                    return ('dict', tuple(items))
            if i[0] in ('str', 'num', 'none') and all(k[0] in ('str', 'num', 'none') for k, _ in items):
                return ('dict', tuple(items) + ((i, v),))
            return ('app', 'setitem', b, i, v)
        if b[0] == 'app' and b[1] == 'append' and (i == num(-1) or i == size_term(b[2]) or i == self.lvsize.get(b[2], 0)):
            return append_term(b[2], v)
        if b[0] == 'list' and i[0] == 'num' and -len(b[1]) <= int(i[1]) < len(b[1]):
            l = list(b[1])
            l[int(i[1])] = v
            return ('list', tuple(l))
        return ('app', 'setitem', b, i, v)

    INPLACE = {'+=': '__iadd__', '-=': '__isub__', '*=': '__imul__', '/=': '__itruediv__', '@=': '__imatmul__', '<<=': '__ilshift__'}
    BIN = {'+': '__add__', '-': '__sub__', '*': '__mul__', '/': '__truediv__', '@': '__matmul__', '<<': '__lshift__', '==': '__eq__', '!=': '__ne__', '%': '__mod__'}
    RBIN = {'+': '__radd__', '-': '__rsub__', '*': '__rmul__', '/': '__rtruediv__', '@': '__rmatmul__'}

    def py_asg(self, st, e):
        op = e['op']
        out = []
        if op == '=':
            for s, v in self.ev(st, e['r']):
                for s2 in self.py_target(s, e['l'], v, e.get('ln')):
                    out.append((s2, v))
            return out
        # augmented: evaluates the target once, then in-place operator, then rebinds
        for s, old in self.ev(st, e['l']):
            for s2, v in self.ev(s, e['r']):
                c = self.clsof(old)
                m = self.prog.method(c, self.INPLACE.get(op, '?')) if c else None
                if m is not None and self.want_inline(m, s2):
                    for s3, _, nv, _ in self.call_fn(s2, m, old, [old, v]):
                        for s4 in self.py_target(s3, e['l'], nv, e.get('ln'), op):
                            out.append((s4, nv))
                    continue
                h = self.models.get('opasg:' + op)
                if h:
                    r = h(self, s2, e, old, v)
                    if r is not None:
                        for s3, nv in r:
                            for s4 in self.py_target(s3, e['l'], nv, e.get('ln'), op):
                                out.append((s4, nv))
                        continue
                if e['l']['k'] in ('var', 'mem') and self.fresharr(old) and op in self.INPLACE and self.aliased(s2, old, s2.env.get(e['l']['n'], NONE) if e['l']['k'] == 'var' else ('fld', NONE, e['l']['f'])):
                    # an array another name refers to is changed in place
                    s2 = s2.copy()
                    self.store(s2, old, self.binop(op[:-1], self.now(s2, old), self.now(s2, v)), e.get('ln'), op)
                    out.append((s2, old))
                    continue
                nv = self.binop(op[:-1], self.now(s2, old), self.now(s2, v))
                if e['l']['k'] == 'var' and old[0] in ('elem', 'idx', 'fld') and root(old)[0] in ('sym', 'glob', 'res', 'fld', 'new'):
                    # in-place operator on an object reached from a container: visible mutation of that object
                    s2 = s2.copy()
                    s2.ev = s2.ev + (('call', '<<', old, (nv,), e.get('ln')),)
                    out.append((s2, old))
                    continue
                for s4 in self.py_target(s2, e['l'], nv, e.get('ln'), op):
                    out.append((s4, nv))
        return out

    ARRAYS = {'array', 'zeros', 'ones', 'empty', 'zeros_like', 'ones_like', 'empty_like', 'full', 'identity', 'eye', 'arange', 'linspace'}

    def fresharr(self, v):
        return v[0] == 'app' and v[1] in self.ARRAYS

    def now(self, s, v):
        """the present contents of an array made here"""
        if self.fresharr(v):
            return self.load(s, v)
        if v[0] in ('tup', 'list') and any(self.fresharr(x) for x in v[1]):
            return (v[0], tuple(self.now(s, x) for x in v[1])) + v[2:]
        return v

    def aliased(self, s, v, loc):
        def holds(w):
            return w == v or w[0] in ('tup', 'list') and any(holds(x) for x in w[1])
        return any(k != loc and not (loc[0] == 'fld' and k[0] == 'fld' and k[2] == loc[2]) and holds(w) for k, w in s.heap.items())

    def e_un(self, st, e):
        if e['op'] == '-':
            out = []
            for s, v in self.ev(st, e['e']):
                v = self.now(s, v)
                c = self.clsof(v)
                m = self.prog.method(c, '__neg__') if c else None
                if m is not None and self.want_inline(m, s):
                    out += [(s2, x) for s2, _, x, _ in self.call_fn(s, m, v, [v])]
                elif v[0] in NONNUM:
                    out.append((s, ('app', 'neg', v)))
                else:
                    out.append((s, neg(v)))
            return out
        return super().e_un(st, e)

    def overloaded(self, st, e):
        op = e['op']
        if op not in self.BIN:
            return None
        out = []
        any_ = False
        for s, (a, b) in self.evs(st, [e['l'], e['r']]):
            c = self.clsof(a)
            m = self.prog.method(c, self.BIN[op]) if c else None
            if m is not None and self.want_inline(m, s):
                out += [(s2, v) for s2, _, v, _ in self.call_fn(s, m, a, [a, b])]
                continue
            if m is not None and m['id'] in self.stack:
                out += self.call_method(s, a, self.BIN[op], (b,), (), e)
                continue
            c = self.clsof(b)
            m = self.prog.method(c, self.RBIN.get(op, '?')) if c else None
            if m is not None and self.want_inline(m, s):
                out += [(s2, v) for s2, _, v, _ in self.call_fn(s, m, b, [b, a])]
                continue
            h = self.models.get('op:' + op)
            if h:
                r = h(self, s, e, a, b)
                if r is not None:
                    out += r
                    continue
            if op == '<<' and not is_num(a):
                s = s.copy()
                s.ev = s.ev + (('call', '<<', a, (b,), e.get('ln')),)
                out.append((s, a))
                continue
            out.append((s, self.binop(op, self.now(s, a), self.now(s, b))))
        return out

    # calls -------------------------------------------------------------------
    def args(self, st, e):
        """-> list of (state, posargs tuple, kwargs tuple)"""
        out = []
        for s, vs in self.evs(st, e['a']):
            flat = ()
            for v in vs:
                if v[0] == 'star':
                    flat += self.flatstar(v)
                else:
                    flat += (v,)
            cur = [(s, ())]
            for n, x in e.get('kw', []):
                nxt = []
                for s2, k in cur:
                    for s3, v in self.ev(s2, x):
                        if n is None and v[0] == 'dict' and all(kk[0] == 'str' for kk, _ in v[1]):
                            nxt.append((s3, k + tuple((kk[1], vv) for kk, vv in v[1])))
                        else:
                            nxt.append((s3, k + ((n, v),)))
                cur = nxt
            out += [(s2, flat, k) for s2, k in cur]
        return out

    def flatstar(self, v):
        x = v[1]
        if x[0] in ('tup', 'list'):
            return tuple(z for y in x[1] for z in (self.flatstar(y) if y[0] == 'star' else (y,)))
        if x[0] == 'app' and x[1] == 'concat':
            return tuple(z for y in x[2:] for z in self.flatstar(('star', y)))
        if x[0] == 'app' and x[1] == 'append' and len(x) == 4:
            return self.flatstar(('star', x[2])) + (x[3],)
        return (v,)

    OPERATOR = {'add': '+', 'sub': '-', 'mul': '*', 'truediv': '/', 'matmul': '@', 'mod': '%', 'pow': '**', 'floordiv': '//', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>=', 'eq': '==', 'ne': '!=', 'and_': '&', 'or_': '|', 'xor': '^'}

    def operator_lam(self, f):
        v = lambda n: {'k': 'var', 'n': n, 'id': n}
        p = [{'n': '%o0', 'id': '%o0'}, {'n': '%o1', 'id': '%o1'}]
        if f in self.OPERATOR:
            body = {'k': 'bin', 'op': self.OPERATOR[f], 'l': v('%o0'), 'r': v('%o1')}
        elif f in ('neg', 'not_'):
            p, body = p[:1], {'k': 'un', 'op': '-' if f == 'neg' else '!', 'e': v('%o0')}
        elif f in ('getitem', 'itemgetter_'):
            body = {'k': 'idx', 'o': v('%o0'), 'i': v('%o1')}
        else:
            return None
        return {'k': 'lambda', 'caps': [], 'pycap': True, 'params': p, 'body': body, 'expr': True, 'ln': None, 'defcap': ''}

    def isoperator(self, b, f):
        return self.mod is not None and (self.mod.imports.get(b[1]) == ('', 'operator') or b[1] == 'operator' and not any(b[1] in x for x in (self.mod.imports, self.mod.globals, self.mod.funcs, self.mod.classes))) and self.operator_lam(f)

    def e_next(self, st, e):
        """next(x for ...[, default]): a search loop"""
        c = e['a'][0]
        g = c['gens'][0]
        self.frame += 1
        n = '%%next%d' % self.frame
        asg = lambda v: {'k': 'expr', 'e': {'k': 'asg', 'op': '=', 'l': {'k': 'var', 'n': n, 'id': n}, 'r': v, 'ln': e.get('ln')}, 'ln': e.get('ln')}
        node = {'k': 'block', 'b': [asg(c['elt']), {'k': 'break', 'ln': e.get('ln')}]}
        for x in reversed(g['ifs']):
            node = {'k': 'block', 'b': [{'k': 'if', 'c': x, 't': node, 'e': {'k': 'block', 'b': []}, 'ln': e.get('ln')}]}
        els = asg(e['a'][1]) if len(e['a']) == 2 else {'k': 'raise', 'e': {'k': 'var', 'n': 'StopIteration', 'id': 'StopIteration'}, 'ln': e.get('ln')}
        loop = {'k': 'rfor', 'v': g['v'], 'r': g['r'], 'b': node, 'els': {'k': 'block', 'b': [els]}, 'ln': e.get('ln')}
        s = st.copy()
        s.env[n] = ('loc', self.frame, n)
        s.heap[s.env[n]] = NONE
        out = []
        for s2, ctl in self.s_block(s, {'k': 'block', 'b': [loop]}):
            s2 = s2.copy()
            v = s2.heap.pop(s.env[n], ('unk', 'next'))
            s2.env = dict(st.env)
            out.append((s2, v))
        return out

    def py_call(self, st, e):
        name = e['f']
        h = self.models.get(name)
        if name == 'next' and 'o' not in e and len(e['a']) in (1, 2) and not e.get('kw') and e['a'][0].get('k') == 'comp' and e['a'][0]['kind'] == 'GeneratorExp' and len(e['a'][0]['gens']) == 1 and (len(e['a']) == 1 or e['a'][1]['k'] in ('null', 'int', 'str', 'var', 'bool', 'un', 'call')) and self.isbuiltin(st, 'next'):
            return self.e_next(st, e)
        if name == 'sum' and 'o' not in e and len(e['a']) in (1, 2) and not e.get('kw') and e['a'][0].get('k') == 'comp' and e['a'][0]['kind'] in ('ListComp', 'GeneratorExp') and self.isbuiltin(st, 'sum'):
            if len(e['a']) == 1:
                return self.e_comp(st, e['a'][0], ZERO)
            return [x for s, v in self.ev(st, e['a'][1]) for x in self.e_comp(s, e['a'][0], v)]
        if 'o' in e and e['o']['k'] == 'cond':
            # (a if c else b).m()
            o = e['o']
            out = []
            for s, c in self.ev(st, o['c']):
                for t, s2 in self.branch(s, self.truth(c), e.get('ln')):
                    out += self.py_call(s2, dict(e, o=o['t'] if t else o['f']))
            return out
        if 'o' in e:
            o = e['o']
            out = []
            for s, b in self.ev(st, o):
                for s2, pos, kw in self.args(s, e):
                    out += self.call_method(s2, b, name, pos, kw, e)
            return out
        out = []
        for s, fv in self.py_name(st, {'n': name}):
            if name == 'super':
                out.append((s, ('app', 'super', s.env.get('self') and self.load(s, s.env['self']) or NONE, ('str', self.curpycls or ''))))
                continue
            for s2, pos, kw in self.args(s, e):
                out += self.call_val(s2, fv, pos, kw, e, name)
        return out

    curpycls = None

    def e_callv(self, st, e):
        out = []
        for s, fv in self.ev(st, e['fe']):
            for s2, pos, kw in self.args(s, e):
                out += self.call_val(s2, fv, pos, kw, e, '()')
        return out

    def call_val(self, s, fv, pos, kw, e, name):
        h = self.models.get('()' if name == '()' else name)
        if h:
            r = h(self, s, e, None, pos, kw)
            if r is not None:
                return r
        if fv[0] == 'lam':
            return self.call_lam(s, fv, pos, kw, e)
        if fv[0] == 'fn':
            m = self.prog.mods.get(fv[1])
            f = m.funcs.get(fv[2]) if m else None
            if f and f['gen'] and self.want_inline(f, s):
                g = yields_appended(f['body'])
                if g is not None and ('gen', f['q']) not in self.stack:
                    self.lams.append((dict(params=f['params'], body=g, yacc=True, locals=(), top=True), {}, None, None))
                    self.stack.append(('gen', f['q']))
                    om, self.mod = self.mod, f.get('module') or self.mod
                    r = self.call_lam(s, ('lam', len(self.lams) - 1), pos, kw, e)
                    self.mod = om
                    self.stack.pop()
                    if all(self.quiet_since(s, s2) and v[0] != 'unk' for s2, v in r):
                        for s2, _ in r:
                            s2.ev = s.ev
                        return r
            if f and self.want_inline(f, s) and not f['gen']:
                b = self.bindpy(s, f['params'], pos, kw)
                if b is not None:
                    return [(s2, v) for s2, _, v, _ in self.call_fn(s, f, None, b)]
            if f and f['name'] in self.opaque and not any(p.get('star') for p in f['params']):
                b = self.bindpy(s, f['params'], pos, kw)
                if b is not None:
                    pos, kw = tuple(b), ()
            name = fv[2]
        if fv[0] == 'bm':
            return self.call_method(s, fv[1], fv[2], pos, kw, e)
        if fv[0] == 'cls':
            return self.instantiate(s, fv[1], pos, kw, e)
        if fv == ('sym', 'cls') and self.curpycls:
            init = self.prog.method(self.curpycls, '__init__')
            b = self.bindpy(s, init['params'], (('self_',),) + pos, kw, raw=True) if init is not None else None
            if b is not None:
                pos, kw = tuple(b), ()
        if fv[0] == 'fld' and name == '()' and root(fv)[0] == 'glob' and fv not in s.heap:
            return self.call_method(s, fv[1], fv[2], pos, kw, e)
        if fv[0] == 'glob' and name == '()':
            name = fv[1]
        if fv[0] == 'glob':
            name = fv[1]
        if fv[0] == 'fld' and fv[1][0] != 'glob' and fv not in s.heap:
            # calling the value of an attribute is calling the method
            return self.call_method(s, fv[1], fv[2], pos, kw, e)
        c = self.clsof(fv)
        if c:
            m = self.prog.method(c, '__call__')
            if m is not None and self.want_inline(m, s):
                b = self.bindpy(s, m['params'], (fv,) + pos, kw)
                if b is not None:
                    return [(s2, v) for s2, _, v, _ in self.call_fn(s, m, fv, b)]
        if fv[0] != 'glob' and name != '()' and fv[0] != 'fn':
            return self.extern_py(s, '()', fv, pos, kw, e)
        if fv[0] != 'glob' and name == '()':
            return self.extern_py(s, '()', fv, pos, kw, e)
        return self.py_builtin(s, name, pos, kw, e)

    def instantiate(self, s, cname, pos, kw, e):
        init = self.prog.method(cname, '__init__')
        if init is not None and self.inline_ctor and self.inline_ctor(cname):
            self.n += 1
            obj = ('new', cname, (), self.n)
            b = self.bindpy(s, init['params'], (obj,) + pos, kw)
            if b is not None and self.want_inline(init, s):
                return [(s2, obj) for s2, _, v, _ in self.call_fn(s, init, obj, b)]
        if init is not None:
            # normalise keyword/positional spelling through the signature
            b = self.bindpy(s, init['params'], (('self_',),) + pos, kw, raw=True)
            if b is not None:
                return [(s, ('new', cname, tuple(b), 0))]
        return [(s, ('new', cname, pos + tuple(('kw', k, v) for k, v in sorted(kw, key=lambda x: str(x[0]))), 0))]

    def bindpy(self, s, params, pos, kw, raw=False):
        """bind -> list of values in parameter order; None when not understood"""
        if any(p[0] == 'star' for p in pos) and not raw:
            plain = len([p for p in params if not p.get('star') and not p.get('kwonly')])
            if not any(p.get('star') == 1 for p in params) or any(p[0] == 'star' for p in pos[:plain]) or len(pos) != plain + 1:
                return None
        d = dict((k, v) for k, v in kw)
        if any(k is None for k, _ in kw) and not raw:
            if not any(p.get('star') == 2 for p in params):
                # f(**kw) of a known function: its parameters are the entries of kw
                if [k for k, _ in kw].count(None) != 1 or any(p.get('star') for p in params):
                    return None
                kv = d.pop(None)
                rest = [p for p in params[len(pos):] if p['n'] not in d]
                s.ev = s.ev + (('call', '**accepts', kv, tuple(sorted(('tup', (('str', p['n']), ('bool', 'def' in p))) for p in rest)), None),)
                for p in rest:
                    v = self.ev(s, p['def'])[0][1] if 'def' in p else ('str', '!')
                    d[p['n']] = ('app', '**', kv, ('str', p['n']), v)
                kw = tuple(d.items())
        vals = []
        i = 0
        names = {p['n'] for p in params}
        extra = [(k, v) for k, v in kw if k not in names]
        for p in params:
            if p.get('star') == 1:
                vals.append(('tup', tuple(pos[i:])) if not (len(pos[i:]) == 1 and pos[i][0] == 'star') else pos[i][1])
                i = len(pos)
            elif p.get('star') == 2:
                if len(extra) == 1 and extra[0][0] is None:
                    vals.append(extra[0][1])
                else:
                    vals.append(('dict', tuple((('str', str(k)), v) for k, v in extra)))
            elif not p.get('kwonly') and i < len(pos):
                vals.append(pos[i])
                i += 1
            elif p['n'] in d:
                vals.append(d[p['n']])
            elif 'def' in p:
                r = self.ev(s, p['def'])
                vals.append(r[0][1] if r else ('unk', 'default'))
            else:
                if raw:
                    vals.append(('unk', 'missing'))
                else:
                    return None
        if i < len(pos):
            return None
        if raw:
            return [('kw', p['n'], v) for p, v in zip(params, vals)][1:]
        return vals

    def call_method(self, s, b, name, pos, kw, e):
        if name == '__class__' and self.clsof(b):
            return self.instantiate(s, self.clsof(b), pos, kw, e)
        h = self.models.get('.' + name) or self.models.get(name)
        if h:
            r = h(self, s, e, b, pos, kw)
            if r is not None:
                return r
        loc = ('fld', b, name)
        if loc in s.heap:
            return self.call_val(s, s.heap[loc], pos, kw, e, '()')
        if b[0] == 'glob' and not kw:
            l = self.isoperator(b, name)
            if l and len(l['params']) == len(pos):
                return [x for s2, f in self.ev(s, l) for x in self.call_lam(s2, f, pos, kw, e)]
        if b[0] == 'app' and b[1] == 'super':
            c = b[3][1]
            for base in self.bases(c):
                m = self.prog.method(base, name)
                if m is not None and self.want_inline(m, s):
                    bb = self.bindpy(s, m['params'], (b[2],) + pos, kw)
                    if bb is not None:
                        return [(s2, v) for s2, _, v, _ in self.call_fn(s, m, b[2], bb)]
            bs = self.bases(c)
            if len(bs) == 1 and not self.prog.hascls(bs[0]) and b[2][0] != 'none':
                full = [x for m in self.prog.mods.values() if c in m.classes for x in m.classes[c]['bases']]
                o = {'k': 'var', 'n': full[0].split('.')[0], 'id': full[0].split('.')[0]}
                for p_ in full[0].split('.')[1:]:
                    o = {'k': 'mem', 'o': o, 'f': p_, 'ln': e.get('ln')}
                if len(full) == 1 and full[0].replace('.', '').replace('_', '').isalnum():
                    return [x for s2, o2 in self.ev(s, o) for x in self.extern_py(s2, name, o2, (b[2],) + pos, kw, e)]
        c = self.clsof(b)
        if b[0] == 'cls':
            m = self.prog.method(b[1], name)
            if m is not None and self.want_inline(m, s):
                a = pos if not m.get('clsm') else (b,) + pos
                bb = self.bindpy(s, m['params'], a, kw)
                if bb is not None:
                    return [(s2, v) for s2, _, v, _ in self.call_fn(s, m, None, bb)]
        if c:
            m = self.prog.method(c, name)
            if m is not None and m['gen'] and not kw:
                return [(s, ('genobj', c, name, (b,) + pos))]
            if m is not None and self.want_inline(m, s) and not m['gen']:
                a = pos if m.get('static') else (b,) + pos
                bb = self.bindpy(s, m['params'], a, kw)
                if bb is not None:
                    return [(s2, v) for s2, _, v, _ in self.call_fn(s, m, b, bb)]
        # mutating list/dict methods on local literals
        if e.get('o', {}).get('k') == 'var' and e['o']['n'] in s.env and name in ('append', 'extend', 'update', 'insert') and (b[0] in ('list', 'lv', 'dict') or b[0] == 'app' and b[1] in ('append', 'map', 'concat', 'setitem', 'dictmap', 'list')):
            s = s.copy()
            l = s.env[e['o']['n']]
            if name == 'append':
                self.store_quiet(s, l, append_term(b, pos[0]))
            elif name == 'extend':
                self.store_quiet(s, l, add(b, pos[0]) if pos[0][0] == 'list' and b[0] == 'list' else ('app', 'concat', b, pos[0]))
            else:
                self.store_quiet(s, l, ('app', name, b) + pos)
            s.ev = s.ev + (('append', strip_loc(l), pos[0] if pos else NONE, e.get('ln')),)
            return [(s, NONE)]
        if e.get('o', {}).get('k') == 'var' and e['o']['n'] in s.env and name == 'add' and len(pos) == 1 and not kw and (b[0] == 'app' and b[1] in ('set', 'setadd') and len(b) > 2 or b in self.lvset):
            s = s.copy()
            l = s.env[e['o']['n']]
            self.store_quiet(s, l, ('app', 'set', append_term(b[2], pos[0])) if b[0] == 'app' and b[1] == 'set' else ('app', 'setadd', b, pos[0]))
            s.ev = s.ev + (('append', strip_loc(l), pos[0], e.get('ln')),)
            return [(s, NONE)]
        if name in ('reverse', 'sort') and not pos and (name == 'sort' or not kw) and e.get('o', {}).get('k') in ('var', 'mem') and self.aslist(b):
            pl = e['o']['k'] == 'mem' or e['o']['n'] in s.env
            if pl:
                if name == 'reverse':
                    return [(s2, NONE) for s2 in self.py_target(s, e['o'], back(b), e.get('ln'))]
                x = b[2] if b[:2] == ('app', 'list') and len(b) == 3 else b
                call = {'k': 'call', 'f': 'sorted', 'a': [{'k': 'pval', 'v': x}], 'kw': [(k, {'k': 'pval', 'v': v}) for k, v in kw], 'ln': e.get('ln')}
                return [(s3, NONE) for s2, nv in self.ev(s, call) for s3 in self.py_target(s2, e['o'], nv, e.get('ln'))]
        # the same through an attribute or an element which holds a literal container
        o = e.get('o', {})
        if o.get('k') in ('mem', 'idx') and name in ('append', 'extend', 'update', 'insert') and pos and not kw and self.literal(b):
            pl = self.place(s, o)
            if pl is not None:
                nv = append_term(b, pos[0]) if name == 'append' else ('app', 'concat', b, pos[0]) if name == 'extend' else ('app', name, b) + pos
                return [(s2, NONE) for s2 in self.py_target(s, o, nv, e.get('ln'))]
        if name == 'format' and b[0] == 'str':
            r = braces(b[1], pos, kw)
            if r is not None:
                return [(s, r)]
        if name == '__neg__' and not pos and not kw and b[0] not in NONNUM:
            return [(s, neg(b))]
        if name == 'join' and b == ('str', '') and len(pos) == 1:
            if pos[0][0] in ('list', 'tup'):
                return [(s, cat(*pos[0][1]))]
            if pos[0][0] == 'app' and pos[0][1] == 'map':
                return [(s, ('app', 'accum:strcat', ('str', ''), pos[0][2], pos[0][3]))]
        if name == 'join' and b[0] == 'str' and len(pos) == 1 and pos[0][0] in ('list', 'tup'):
            r = []
            for i, x in enumerate(pos[0][1]):
                r += [b, x] if i else [x]
            return [(s, cat(*r))]
        if name in STRM and (is_str(b) or b[0] == 'lv' and b in self.lvstr):
            return [(s, ('app', name, b) + pos + tuple(('kw', k, v) for k, v in sorted(kw, key=lambda x: str(x[0]))))]
        if name == 'keys' and not pos and b[0] != 'glob':
            return [(s, ('app', 'keys', b))]
        if name == 'setdefault' and len(pos) == 2 and not kw and b[0] != 'glob':
            out = []
            for s2, v in self.call_method(s, b, 'get', pos, (), e):
                o = e['o'] if e.get('o', {}).get('k') in ('var', 'mem') else {'k': 'pval', 'v': b}
                for s3 in self.py_target(s2, {'k': 'idx', 'o': o, 'i': {'k': 'pval', 'v': pos[0]}}, v, e.get('ln')):
                    out.append((s3, v))
            return out
        if name == 'get' and b[0] == 'dict' and len(pos) in (1, 2) and not kw:
            r = self.dictget(s, b, pos)
            if r is not None:
                return r
        if name == 'get' and len(pos) in (1, 2) and not kw and root(b)[0] != 'glob' and not self.clsof(b):
            out = []
            for t, s2 in self.branch(s, self.binop('in', pos[0], b), e.get('ln')):
                out += self.getitem(s2, b, pos[0], e) if t else [(s2, pos[1] if len(pos) > 1 else NONE)]
            return out
        if name == 'index' and len(pos) == 1 and not kw and any(x & {'ValueError', 'Exception', '...'} for x in self.trytypes) and b[0] not in ('list', 'tup'):
            out = []
            for t, s2 in self.branch(s, self.binop('in', pos[0], b), e.get('ln')):
                if t:
                    out += self.extern_py(s2, name, b, pos, kw, e)
                else:
                    self.throw(s2, ('ValueError', None, e.get('ln')))
            return out
        return self.extern_py(s, name, b, pos, kw, e)

    def dictget(self, s, b, pos):
        if all(k[0] in ('str', 'num', 'none', 'bool') for k, _ in b[1]) and pos[0][0] in ('str', 'num', 'none', 'bool'):
            for k, v in b[1]:
                if k == pos[0]:
                    return [(s, v)]
            return [(s, pos[1] if len(pos) > 1 else NONE)]
        if 0 < len(b[1]) <= 8 and all(k[0] in ('str', 'num') for k, _ in b[1]):
            out = []
            for t, s2 in self.branch(s, self.binop('in', pos[0], b), None):
                out += self.getitem(s2, b, pos[0], None) if t else [(s2, pos[1] if len(pos) > 1 else NONE)]
            return out
        return [(s, ('app', 'get', b) + pos)]

    trytypes = ()

    def s_try(self, st, s):
        old = self.trytypes
        if s.get('h'):
            self.trytypes = old + ({x for h in s['h'] for x in str(h['ty']).split('|')},)
        try:
            return super().s_try(st, s)
        finally:
            self.trytypes = old

    def try_done(self, s):
        if s.get('h'):
            self.trytypes = self.trytypes[:-1]

    def literal(self, b):
        return literal(b) or b in self.lvlit or b[0] == 'app' and b[1] == 'list' or b[0] == 'lv' and isinstance(b[2], tuple) and b[2][0] == 'fld'

    def place(self, s, o):
        r = self.ev(s, o['o'])
        if len(r) != 1:
            return None
        b = r[0][1]
        if o['k'] == 'mem':
            return ('fld', b, o['f']) if ('fld', b, o['f']) in s.heap else None
        return ('idx',) if self.literal(b) else None

    def bases(self, c):
        for m in self.prog.mods.values():
            if c in m.classes:
                return [x.split('.')[-1] for x in m.classes[c]['bases']]
        return []

    def glam(self, i, le):
        self.lams.append((le,) + tuple(self.lams[i][1:]))
        return len(self.lams) - 1

    def quiet_since(self, s, s2):
        """only appends to lists, and loops over them, since state s"""
        q = lambda evs: all(x[0] == 'append' or x[0] == 'loop' and all(q(bp[1]) for bp in x[2]) for x in evs)
        return s2.ev[:len(s.ev)] == s.ev and q(s2.ev[len(s.ev):])

    def call_lam(self, s, fv, pos, kw, e):
        le, caps, this, _ = self.lams[fv[1]]
        if le.get('gen'):
            g = None if le.get('expr') else yields_appended(le['body'])
            r = self.call_lam(s, ('lam', self.glam(fv[1], dict(le, gen=False, body=g, yacc=True))), pos, kw, e) if g is not None else None
            if r is not None and all(self.quiet_since(s, s2) and v[0] != 'unk' for s2, v in r):
                for s2, _ in r:
                    s2.ev = s.ev
                return r
            return self.extern_py(s, '()', fv, pos, kw, e)
        b = self.bindpy(s, le['params'], pos, kw)
        if b is None:
            return self.extern_py(s, '()', fv, pos, kw, e)
        if s.depth > self.maxdepth + 4:
            return [(s, ('unk', 'depth'))]
        s2 = s.copy()
        saved = s2.env
        env = {}
        for cid, (kind, cv) in caps.items():
            env[cid] = cv
        # late binding of names defined after the closure in the same scope
        for k, v in saved.items() if not le.get('top') else ():
            env.setdefault(k, v)
        for k in le.get('locals', ()):
            env.pop(k, None)
        self.frame += 1
        for p, v in zip(le['params'], b):
            loc = ('loc', self.frame, p['n'])
            env[p['n']] = loc
            s2.heap[loc] = v
        if 'this' in saved:
            env['this'] = saved['this']
        if le.get('yacc'):
            env['%yacc'] = yloc = ('loc', self.frame, '%yacc')
            s2.heap[yloc] = ('list', ())
        s2.env = env
        s2.depth += 1
        self.throws.append([])
        if le.get('expr'):
            rs = [(s3, ('ret', v)) for s3, v in self.ev(s2, le['body'])]
        else:
            rs = self.ex(s2, le['body'])
        th = self.throws.pop()
        for s3, info in th:
            s3 = s3.copy()
            s3.env = saved
            s3.depth -= 1
            self.throw(s3, info)
        out = []
        for s3, c in rs:
            s3 = s3.copy()
            s3.env = dict(saved)
            s3.depth -= 1
            if le.get('yacc'):
                out.append((s3, s3.heap.pop(yloc, ('unk', 'yield'))))
                continue
            out.append((s3, c[1] if c and c[0] == 'ret' else NONE))
        return out

    def py_builtin(self, s, name, pos, kw, e):
        if name == 'print' and 'file' in dict(kw) and all(p[0] != 'star' for p in pos):
            k = dict(kw)
            f = k['file']
            if f[0] == 'res' and f[2] == 'open':
                sep, end = k.get('sep', ('str', ' ')), k.get('end', ('str', '\n'))
                ps = []
                for p in pos:
                    ps += [sep, strval(p)]
                s = s.copy()
                s.ev = s.ev + (('call', 'write', f, (cat(*ps[1:], end),), e.get('ln')),)
                return [(s, NONE)]
        if name == 'len' and len(pos) == 1:
            c = self.clsof(pos[0])
            m = self.prog.method(c, '__len__') if c else None
            if m is not None and self.want_inline(m, s):
                return [(s2, v) for s2, _, v, _ in self.call_fn(s, m, pos[0], [pos[0]])]
            v = pos[0]
            if v[0] == 'app' and v[1] == 'keys' and len(v) == 3:
                v = v[2]
            if v[0] == 'dict':
                return [(s, num(len(v[1])))]
            return [(s, size_term(v))]
        if name in ('all', 'any') and len(pos) == 1 and pos[0][0] == 'app' and pos[0][1] == 'map':
            v = pos[0][3]
            part = set()
            for conds, x in v[1] if v[0] == 'pw' else (((), v),):
                if x == ('skip',):
                    part.add((conds, False))
                    continue
                c = self.truth(x)
                if c[0] == 'bool':
                    part.add((conds, c[1] == (name == 'any')))
                else:
                    part.add((conds + ((c, True),), name == 'any'))
                    part.add((conds + ((c, False),), name == 'all'))
            F = ('forall', pos[0][2], tuple(sorted(part, key=repr)))
            return [(s, F if name == 'all' else mk_not(F))]
        if name in ('all', 'any') and len(pos) == 1 and pos[0][0] in ('list', 'tup'):
            return [(s, ('and' if name == 'all' else 'or', tuple(self.truth(x) for x in pos[0][1])))] if pos[0][1] else [(s, ('bool', name == 'all'))]
        if name == 'isinstance' and len(pos) == 2 and pos[1][0] in ('tup', 'list') and not kw:
            todo, cs = list(pos[1][1]), []
            while todo:
                x = todo.pop(0)
                if x[0] == 'tup':
                    todo = list(x[1]) + todo
                elif x not in cs:
                    cs.append(x)
            out, cur = [], [s]
            for x in sorted(cs, key=repr):
                nxt = []
                for s2 in cur:
                    for t, s3 in self.branch(s2, ('app', 'isinstance', pos[0], x), e.get('ln')):
                        if t:
                            out.append((s3, TRUE))
                        else:
                            nxt.append(s3)
                cur = nxt
            return out + [(s2, FALSE) for s2 in cur]
        if name == 'type' and len(pos) == 1 and not kw and self.clsof(pos[0]):
            return [(s, ('cls', self.clsof(pos[0])))]
        if name == '__fstr__':
            return [(s, cat(*[x if x[0] == 'str' else strval(x) for x in pos]))]
        if name == 'abs' and len(pos) == 1 and is_num(pos[0]):
            return [(s, num(abs(pos[0][1])))]
        if name in ('list', 'tuple') and len(pos) == 1 and pos[0][0] in ('list', 'tup'):
            return [(s, ('list' if name == 'list' else 'tup', pos[0][1]))]
        if name in ('list', 'tuple') and len(pos) == 1 and pos[0][0] == 'app' and pos[0][1] in ('map',):
            return [(s, pos[0])]
        if name in ('list',) and not pos:
            return [(s, ('list', ()))]
        if name == 'dict' and not pos:
            return [(s, ('dict', tuple((('str', k), v) for k, v in kw)))]
        if name == 'dict' and len(pos) == 1 and not kw:
            X = self.iterated(s, pos[0])
            if X[0] == 'dict':
                return [(s, X)]
            if X[0] == 'app' and X[1] == 'items' and len(X) == 3:
                return [(s, ('app', 'dict', X[2]))]
            if X[0] in ('list', 'tup') and all(x[0] in ('tup', 'list') and len(x[1]) == 2 for x in X[1]):
                r = ('dict', ())
                for x in X[1]:
                    r = self.setitem(r, *x[1])
                return [(s, r)]
            if X[0] == 'app' and X[1] in ('map', 'zip', 'enumerate', 'product') or self.clsof(X) or X[0] == 'genobj':
                v = lambda n: {'k': 'var', 'n': n, 'id': n}
                return self.comp_of(s, 'DictComp', X, {'k': 'tuple', 'kind': 'tup', 'a': [v('%dk'), v('%dv')]}, {'k': 'tuple', 'kind': 'tup', 'a': [v('%dk'), v('%dv')]}, e.get('ln'))
        if name == 'set' and not pos and not kw:
            return [(s, ('app', 'set', ('list', ())))]
        if name == 'reversed' and len(pos) == 1 and not kw and self.aslist(pos[0]):
            return [(s, back(pos[0]))]
        if name == 'list' and len(pos) == 1 and not kw and pos[0][0] == 'idx' and pos[0][2] == ('slice', (NONE, NONE, num(-1))) and self.aslist(pos[0][1]):
            return [(s, pos[0])]
        if name in ('all', 'any') and len(pos) == 1 and not kw and pos[0][0] in ('app', 'lv', 'fld') and not (pos[0][0] == 'app' and pos[0][1] in ('map', 'set', 'keys')):
            v = {'k': 'var', 'n': '%an', 'id': '%an'}
            rs = self.e_comp(s, {'kind': 'ListComp', 'elt': v, 'gens': [{'v': v, 'r': {'k': 'pval', 'v': pos[0]}, 'ifs': [v]}], 'ln': e.get('ln')})
            if len(rs) == 1 and rs[0][1][0] == 'app' and rs[0][1][1] == 'map' and name == 'any':
                return [(rs[0][0], self.truth(rs[0][1]))]
        if name in ('set', 'frozenset') and len(pos) == 1 and not kw and pos[0][0] in ('list', 'tup') and all(x[0] in ('str', 'num', 'none', 'bool') for x in pos[0][1]):
            return [(s, ('app', name, ('list', tuple(sorted(set(pos[0][1]), key=repr)))))]
        if name in ('set', 'frozenset', 'list', 'tuple', 'sorted', 'iter', 'enumerate') and len(pos) >= 1 and pos[0][0] == 'app' and pos[0][1] == 'keys' and len(pos[0]) == 3:
            return self.py_builtin(s, name, (pos[0][2],) + pos[1:], kw, e)
        if name == 'str' and len(pos) == 1 and not kw:
            c = self.clsof(pos[0])
            m = self.prog.method(c, '__str__') if c else None
            if m is None or not self.want_inline(m, s):
                return [(s, strval(pos[0]))]
        if name == 'reduce' and len(pos) in (2, 3) and not kw and self.mod is not None and self.mod.imports.get('reduce') == ('functools', 'reduce'):
            r = self.reduce(s, pos, e)
            if r is not None:
                return r
        if name == 'map' and len(pos) >= 2 and not kw:
            vs = [{'k': 'var', 'n': '%%m%d' % i, 'id': '%%m%d' % i} for i in range(len(pos) - 1)]
            X = pos[1] if len(vs) == 1 else ('app', 'zip') + pos[1:]
            return self.comp_of(s, 'ListComp', X, {'k': 'callv', 'fe': {'k': 'pval', 'v': pos[0]}, 'a': vs, 'kw': [], 'ln': e.get('ln')}, vs[0] if len(vs) == 1 else {'k': 'tuple', 'kind': 'tup', 'a': vs}, e.get('ln'))
        if name == 'filter' and len(pos) == 2 and not kw:
            v = {'k': 'var', 'n': '%fl', 'id': '%fl'}
            c = v if pos[0] == NONE else {'k': 'callv', 'fe': {'k': 'pval', 'v': pos[0]}, 'a': [v], 'kw': [], 'ln': e.get('ln')}
            return self.comp_of(s, 'ListComp', pos[1], v, v, e.get('ln'), [c])
        if name == 'sum' and len(pos) == 1 and pos[0][0] == 'app' and pos[0][1] == 'map':
            v, dom = pos[0][3], pos[0][2]
            return [(s, ('app', 'sum', dom, v))]
        if name == 'sum' and len(pos) == 2 and pos[0][0] == 'app' and pos[0][1] == 'map':
            return [(s, add(pos[1], ('app', 'sum', pos[0][2], pos[0][3])))]
        if name == 'sum' and pos and pos[0][0] in ('list', 'tup'):
            r = pos[1] if len(pos) > 1 else ZERO
            for x in pos[0][1]:
                r = add(r, x)
            return [(s, r)]
        if name in ('min', 'max') and len(pos) == 2:
            out = []
            a, b = pos
            for t, s2 in self.branch(s, cmp_term('<', b, a) if name == 'min' else cmp_term('<', a, b)):
                out.append((s2, b if t else a))
            return out
        if name in ('int', 'float') and len(pos) == 1 and is_num(pos[0]):
            return [(s, num(int(pos[0][1])) if name == 'int' else pos[0])]
        if name == 'getattr' and len(pos) in (2, 3) and pos[1][0] == 'str' and len(pos) == 2:
            return self.getattr(s, pos[0], pos[1][1])
        if name == 'getattr' and len(pos) == 3 and pos[1][0] == 'str' and not kw:
            out = []
            for t, s2 in self.branch(s, ('app', 'hasattr', pos[0], pos[1]), e.get('ln')):
                out += self.getattr(s2, pos[0], pos[1][1]) if t else [(s2, pos[2])]
            return out
        if name == 'divmod' and len(pos) == 2 and not kw:
            return [(s, ('tup', (self.binop('//', *pos), self.binop('%', *pos))))]
        if name == 'setattr' and len(pos) == 3 and pos[1][0] == 'str':
            s = s.copy()
            self.store(s, ('fld', pos[0], pos[1][1]), pos[2], e.get('ln'))
            return [(s, NONE)]
        if name == 'bool' and len(pos) == 1:
            return [(s, self.truth(pos[0]))]
        return self.extern_py(s, name, None, pos, kw, e)

    def reduce(self, s, pos, e):
        f, X = pos[0], self.iterated(s, pos[1])
        call = lambda s, *a: self.call_val(s, f, a, (), dict(e, a=[], kw=[]), '()')
        if X[0] in ('list', 'tup') and not any(x[0] == 'star' for x in X[1]) and (len(pos) == 3 or X[1]):
            cur = [(s, pos[2])] if len(pos) == 3 else [(s, X[1][0])]
            for x in X[1] if len(pos) == 3 else X[1][1:]:
                cur = [y for s2, a in cur for y in call(s2, a, x)]
            return cur
        if len(pos) == 3:
            v = lambda n: {'k': 'var', 'n': n, 'id': n}
            self.n += 1
            acc, x = '%%ra%d' % self.n, '%%rx%d' % self.n
            body = {'k': 'expr', 'e': {'k': 'asg', 'op': '=', 'l': v(acc), 'r': {'k': 'callv', 'fe': {'k': 'pval', 'v': f}, 'a': [v(acc), v(x)], 'kw': [], 'ln': e.get('ln')}, 'ln': e.get('ln')}, 'ln': e.get('ln')}
            out = []
            for s2 in self.py_target(s, v(acc), pos[2], e.get('ln')):
                for s3, c in self.ex(s2, {'k': 'rfor', 'v': v(x), 'r': {'k': 'pval', 'v': X}, 'b': {'k': 'block', 'b': [body]}, 'els': None, 'ln': e.get('ln')}):
                    s3 = s3.copy()
                    l = s3.env.pop(acc)
                    out.append((s3, self.load(s3, l)))
            return out
        if f[0] == 'lam' and X[0] == 'app' and X[1] == 'map' and len(self.lams[f[1]][0]['params']) == 2:
            a, b = ('sym', '%ra'), ('sym', '%rb')
            rs = call(s, a, b)
            if len(rs) == 1 and rs[0][1] in (('and', (a, b)), ('or', (a, b))) or len(rs) == 2 and {(v, s2.facts.assume(self.truth(a), True) is not None) for s2, v in rs} in ({(a, False), (b, True)}, {(a, True), (b, False)}):
                kind = 'all' if (len(rs) == 1 and rs[0][1][0] == 'and' or len(rs) == 2 and (a, False) in {(v, s2.facts.assume(self.truth(a), True) is not None) for s2, v in rs}) else 'any'
                vs = [x for _, x in X[3][1]] if X[3][0] == 'pw' else [X[3]]
                if all(T.is_cond(v) for v in vs if v != ('skip',)):
                    return self.py_builtin(s, kind, (X,), (), e)
        return None

    PUREMODS = ('np', 'numpy', 'math', 'itertools', 'copy', 'operator', 'scipy', 'linalg', 'la', 'warnings_')

    def puresrc(self, n):
        """a name imported from a library of pure functions"""
        if n is None or self.mod is None:
            return False
        if n == 'itertools':
            return True
        src, _ = self.mod.imports.get(n) or self.mod.limports.get(n, ('', ''))
        return src in ('itertools', 'math', 'operator', 'functools')

    def unstar(self, s, name, pos, kw):
        """f(a, *x) of a function of the repository without default values: one argument for each parameter"""
        if not pos or pos[-1][0] != 'star' or kw or any(x[0] == 'star' for x in pos[:-1]) or self.mod is None:
            return pos
        src = self.mod.imports.get(name) or self.mod.limports.get(name)
        sig = sigof(*src) if src else None
        if sig is None or any(d is not None for _, d in sig) or not 1 <= len(sig) - len(pos) + 1 <= 4:
            return pos
        return pos[:-1] + tuple(self.unpack(s, pos[-1][1], i) for i in range(len(sig) - len(pos) + 1))

    def normargs(self, name, pos, kw):
        """arguments of a function of the repository: positional as far as possible, without trailing default values"""
        if self.mod is None or any(x[0] == 'star' for x in pos) or any(k is None for k, _ in kw) or not (pos or kw):
            return pos, kw
        key = (self.mod.rel, name)
        if key not in SIGS:
            r = None
            if '.' in name:
                r = sigof(*name.rsplit('.', 1))
            elif name in self.mod.imports or name in self.mod.limports and name not in self.mod.funcs and name not in self.mod.classes:
                r = sigof(*(self.mod.imports.get(name) or self.mod.limports[name]))
            elif name not in self.mod.funcs and name not in self.mod.classes:
                for x in self.mod.stars:
                    r = r or sigof(x, name)
            SIGS[key] = r
        sig = SIGS[key]
        if sig is None or len(pos) > len(sig) or not {k for k, _ in kw} <= {n for n, _ in sig[len(pos):]}:
            return pos, kw
        d = dict(kw)
        vals = list(pos)
        for n, c in sig[len(pos):]:
            if not d:
                break
            if n in d:
                vals.append(d.pop(n))
            elif c is not None:
                vals.append(c)
            else:
                return pos, kw
        while vals and sig[len(vals) - 1][1] is not None and vals[-1] == sig[len(vals) - 1][1]:
            vals.pop()
        return tuple(vals), ()

    def extern_py(self, s, name, b, pos, kw, e):
        pure = name in self.pure
        if b is not None and b[0] == 'glob' and name == '__init__' and len(pos) >= 1 and self.mod is not None and b[1] in self.mod.imports and b[1] in {x.split('.')[-1] for c in self.mod.classes.values() for x in c['bases']}:
            p, kw = self.normargs(b[1], pos[1:], kw)
            pos = pos[:1] + tuple(p)
        if b is None:
            pos, kw = self.normargs(name, self.unstar(s, name, pos, kw), kw)
        elif b[0] == 'glob' and self.mod is not None and b[1] in self.mod.imports and b[1] not in self.PUREMODS:
            src, nm = self.mod.imports[b[1]]
            pos, kw = self.normargs((src + '.' if src else '') + nm + '.' + name, pos, kw)
        if name == 'prod' and len(pos) == 1 and not kw and (self.puresrc(name) if b is None else b in (('glob', 'math'), ('glob', 'np'), ('glob', 'numpy'))):
            X = self.iterated(s, pos[0])
            if X[0] == 'app' and X[1] == 'map' and X[3][0] != 'pw':
                return [(s, ('app', 'prodover', X[2], X[3]))]
            if X[0] in ('list', 'tup') and not any(x[0] == 'star' for x in X[1]):
                r = ONE
                for x in X[1]:
                    r = T.mul(r, x)
                return [(s, r)]
        if name == 'product' and len(kw) == 1 and kw[0][0] == 'repeat' and is_num(kw[0][1]) and 1 <= kw[0][1][1] <= 6 and len(pos) * kw[0][1][1] <= 8 and self.puresrc(name if b is None else root(b)[1] if root(b)[0] == 'glob' else None):
            pos, kw = tuple(pos) * int(kw[0][1][1]), ()
        rawpos, rawkw = pos, kw
        pos, kw = tuple(self.now(s, x) for x in pos), tuple((k, self.now(s, x)) for k, x in kw)
        kws = tuple(('kw', k, v) for k, v in sorted(kw, key=lambda x: str(x[0])))
        if b is None and name not in self.PUREMODS and self.puresrc(name):
            src, nm = self.mod.imports.get(name) or self.mod.limports[name]
            if nm != name:
                return self.extern_py(s, nm, ('glob', src), pos, kw, e)
        if self.puresrc(name if b is None else root(b)[1] if root(b)[0] == 'glob' else None):
            if name == 'from_iterable' or b is None or b[0] == 'glob' and b[1] != 'chain':
                return [(s, ('app', name) + pos + kws)]
        if b is not None and b[0] == 'glob' and b[1] in self.PUREMODS or (b is not None and root(b)[0] == 'glob' and root(b)[1] in self.PUREMODS):
            if 'out' not in [k for k, _ in kw]:
                if name in ('zeros', 'ones', 'array', 'asarray') and False:
                    pass
                return [(s, ('app', name) + pos + kws)]
        if pure and name not in MUTATING:
            return [(s, ('app', name) + ((self.load(s, b) if b[0] in ('fld', 'idx', 'sym', 'elem', 'glob') else self.now(s, b),) if b is not None else ()) + pos + kws)]
        pos, kws = rawpos, tuple(('kw', k, v) for k, v in sorted(rawkw, key=lambda x: str(x[0])))
        s = s.copy()
        n = self.callno(s.ev, (name, b, pos + kws))
        s.ev = s.ev + (('call', name, b, pos + kws, e.get('ln')),)
        res = ('res', n, name, b if b is not None else NONE, pos + kws)
        if self.throwing and self.throwing(name, e):
            f_ = s.facts.assume(('app', 'raises', res), True)
            if f_ is not None:
                t_ = s.copy()
                t_.facts = f_
                self.throw(t_, ('exc:' + name, res, e.get('ln')))
            f_ = s.facts.assume(('app', 'raises', res), False)
            if f_ is not None:
                s.facts = f_
        return [(s, res)]

    # statements ----------------------------------------------------------------
    def py_body(self, st, f):
        om, oc = self.mod, self.curpycls
        if f.get('module') is not None:
            self.mod = f['module']
        self.curpycls = f.get('pycls')
        try:
            return self.ex(st, f['body'])
        finally:
            self.mod, self.curpycls = om, oc

    def call_fn(self, st, f, this, argvals, bound=None):
        om, oc = self.mod, self.curpycls
        try:
            return super().call_fn(st, f, this, argvals, bound)
        finally:
            self.mod, self.curpycls = om, oc

    def s_multiasg(self, st, s):
        out = []
        for s1, v in self.ev(st, s['r']):
            cur = [s1]
            for t in s['ts']:
                nxt = []
                for x in cur:
                    nxt += self.py_target(x, t, v, s.get('ln'))
                cur = nxt
            out += [(x, None) for x in cur]
        return out

    def s_assert(self, st, s):
        out = []
        for s1, c in self.ev(st, s['c']):
            for b, s2 in self.branch(s1, c, s.get('ln')):
                if b:
                    out.append((s2, None))
                else:
                    self.throw(s2, ('AssertionError', None, s.get('ln')))
        return out

    def s_raise(self, st, s):
        if s['e'] is None:
            self.throw(st, getattr(self, 'curexc', ('rethrow', None, s.get('ln'))))
            return []
        e = s['e']
        nm = None
        if e['k'] == 'call':
            nm = e['f']
        elif e['k'] == 'var':
            nm = e['n']
        vals = [(st, NONE)]
        if e['k'] == 'call':
            vals = [(s2, ('tup', pos)) for s2, pos, kw in self.args(st, e)]
        for s2, v in vals:
            self.throw(s2, (nm or 'exc', v, s.get('ln')))
        return []

    def s_with(self, st, s):
        cur = [(st, None)]
        closes = True
        for ce, ov in s['items']:
            nxt = []
            for x, _ in cur:
                for s2, v in self.ev(x, ce):
                    if v[0] == 'res' and v[2] == 'open':
                        # only closes the file at the end
                        nxt += [(s3, None) for s3 in self.py_target(s2, ov, v, s.get('ln'))] if ov is not None else [(s2, None)]
                        continue
                    closes = False
                    s2 = s2.copy()
                    s2.ev = s2.ev + (('enter', v, s.get('ln')),)
                    if ov is not None:
                        for s3 in self.py_target(s2, ov, ('app', '__enter__', v), s.get('ln')):
                            nxt.append((s3, None))
                    else:
                        nxt.append((s2, None))
            cur = nxt
        out = []
        for x, _ in cur:
            if closes:
                out += self.ex(x, s['b'])
                continue
            self.throws.append([])
            rs = self.ex(x, s['b'])
            th = self.throws.pop()
            for y, info in th:
                y = y.copy()
                y.ev = y.ev + (('exit', s.get('ln')),)
                self.throw(y, info)
            for y, c in rs:
                y = y.copy()
                y.ev = y.ev + (('exit', s.get('ln')),)
                out.append((y, c))
        return out

    def s_pydef(self, st, s):
        out = []
        for s2, v in self.ev(st, s['lam']):
            for s3 in self.py_target(s2, {'k': 'var', 'n': s['n'], 'id': s['n']}, v, s.get('ln')):
                out.append((s3, None))
        return out

    def s_import(self, st, s):
        st = st.copy()
        for n in s['names']:
            if n == '*':
                st.ev = st.ev + (('call', 'import *', NONE, (('str', s['src'][0][0]),), s.get('ln')),)
                continue
            if n in st.env:
                continue
            st.env[n] = ('glob', n)
        return [(st, None)]

    def s_global(self, st, s):
        st = st.copy()
        for n in s['names']:
            st.env[n] = ('glob', n)
        return [(st, None)]

    def s_del(self, st, s):
        out = [st]
        for t in s['ts']:
            nxt = []
            for x in out:
                if t['k'] == 'idx':
                    for s2, b in self.ev(x, t['o']):
                        for s3, i in self.ev(s2, t['i']):
                            s3 = s3.copy()
                            s3.ev = s3.ev + (('call', '__delitem__', b, (i,), s.get('ln')),)
                            nxt.append(s3)
                else:
                    nxt.append(x)
            out = nxt
        return [(x, None) for x in out]

    def py_elem(self, st, r, iv):
        """(domain, element value)"""
        if r[0] == 'app' and r[1] in ('range', 'arange'):
            a = r[2:]
            if len(a) == 1:
                return ('range', ZERO, a[0]), iv
            if len(a) == 2:
                return ('range', ZERO, sub(a[1], a[0])), add(a[0], iv)
            if len(a) == 3 and is_num(a[2]) and a[2][1] != 0:
                return ('range', ZERO, ('app', 'ceil', mul(sub(a[1], a[0]), num(1 / a[2][1])))), add(a[0], mul(a[2], iv))
        if r[0] == 'app' and r[1] == '%dom':
            return r[2], iv
        if r[0] == 'app' and r[1] == 'enumerate' and len(r) == 3:
            d, x = self.py_elem(st, r[2], iv)
            return d, ('tup', (iv, x))
        if r[0] == 'app' and r[1] == 'zip':
            xs = [self.py_elem(st, x, iv) for x in r[2:]]
            return ('zip',) + tuple(d for d, _ in xs), ('tup', tuple(x for _, x in xs))
        if r[0] == 'app' and r[1] == 'items':
            return ('over', r[2]), ('tup', (('elem', r[2], iv), ('idx', r[2], ('elem', r[2], iv))))
        if r[0] == 'app' and r[1] == 'keys' and len(r) == 3:
            return self.py_elem(st, r[2], iv)
        if r[0] == 'app' and r[1] in ('list', 'tuple', 'iter') and len(r) == 3:
            return self.py_elem(st, r[2], iv)
        if r[0] == 'app' and r[1] == 'map' and r[3][0] != 'pw':
            return r[2], beta(r[3], iv)
        if r[0] == 'genobj':
            m = self.prog.method(r[1], r[2])
            g = self.gen_elem(st, m, r[3][0], iv, r[3])
            if g is not None:
                return g
        c = self.clsof(r)
        if c:
            m = self.prog.method(c, '__iter__')
            if m is not None and m['gen']:
                g = self.gen_elem(st, m, r, iv)
                if g is not None:
                    return g
            elif m is not None and self.want_inline(m, st):
                rs = self.call_fn(st.copy(), m, r, [r])
                if len(rs) == 1 and rs[0][2] != r:
                    return self.py_elem(st, rs[0][2], iv)
        if r[0] in ('list', 'tup') and iv[0] == 'num' and 0 <= iv[1] < len(r[1]):
            return ('over', r), r[1][int(iv[1])]
        return ('over', r), self.load(st, ('elem', r, iv))

    def gen_elem(self, st, m, r, iv, args=None):
        """generator of the form: for x in D: yield f(x)"""
        key = ('gen', m['q'])
        if key in self.stack:
            return None
        self.stack.append(key)
        try:
            n0 = len(st.ev)
            self.throws.append([])
            # run as a body in a nested loop context at the same depth
            self.loopdepth -= 1
            rs = self.call_fn(st, m, r, list(args) if args else [r])
            self.loopdepth += 1
            self.throws.pop()
            if len(rs) != 1:
                return None
            evs = [x for x in rs[0][0].ev[n0:]]
            if len(evs) == 1 and evs[0][0] == 'loop':
                bp = evs[0][2]
                if len(bp) == 1 and len(bp[0][1]) == 1 and bp[0][1][0][0] == 'yield':
                    return evs[0][1], bp[0][1][0][1]
            if len(evs) == 1 and evs[0][0] == 'yieldfrom':
                return self.py_elem(st, evs[0][1], iv)
            return None
        finally:
            self.stack.pop()

    def py_bind_elem(self, st, s, rng, iv):
        dom, el = self.py_elem(st, rng, iv if not s.get('_peeled') else add(iv, ONE))
        if s.get('_peeled'):
            if dom_count(dom) is None:
                raise Limit('peel')
            dom = ('range', ZERO, sub(dom_count(dom), ONE))
        st.iters = st.iters + ((iv, dom),)
        ns = self.py_target(st, s['v'], el, s.get('ln'))
        n = ns[0]
        st.heap, st.env, st.ev = n.heap, n.env, n.ev
        st.iters = n.iters
        return dom

    def py_iters(self):
        pass
