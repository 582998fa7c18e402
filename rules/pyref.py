"""Reference refinement for Python modules."""
import os
from runner import *

SPEC = VERIF + '/spec/'


def refine_items(ctx, repo, spec, items, selfcls=None, cmp=None, opts=None, extra_mods=(), extra_spec=()):
    """repo: file relative to /repo; spec: file under /verif/spec; items: 'Class.method' / 'func' or (name, opts dict)"""
    prog = ctx.py(repo, *extra_mods)
    sprog = ctx.py(SPEC + spec, *[SPEC + x for x in extra_spec])
    voc = spec_vocab(sprog)
    for it in items:
        name, o = (it, {}) if isinstance(it, str) else it
        o = dict(o)
        cm = o.pop('cmp', None) or cmp or Cmp()
        pre = o.pop('pre', ())
        oo = dict(opts or {})
        oo.update(o)
        if vanished(ctx, name, prog, sprog):
            continue
        if '.' in name:
            c, m = name.split('.', 1)
            f = prog.need(c, m)
            sf = sprog.need(c, m)
            if private(m) and (any(bool(f.get(a)) != bool(sf.get(a)) for a in ('static', 'clsm', 'prop')) or len(f['params']) != len(sf['params'])):
                ctx.undecided(name, 'the way this internal function is called has changed; its callers are compared')
                continue
            sc = dict(oo.pop('selfcls', {}))
            first = f['params'][0]['n'] if f['params'] else 'self'
            sc[('sym', first)] = c
            oo['selfcls'] = sc
        else:
            f = prog.func(name)
            sf = sprog.func(name)
        n = min(len(f['params']), len(sf['params']))
        # parameters are matched by position: use the reference names as the symbols on both sides
        args = [('sym', p['n']) for p in sf['params']]
        if '.' in name and sf['params']:
            oo['selfcls'][args[0]] = c
        if bool(f.get('gen')) != bool(sf.get('gen')):
            f, sf = ungen(f), ungen(sf)
        ctx.refine(name, prog, f, sprog, sf, cmp=cm, vocab=voc, opts=oo, pre=pre, args=args, sargs=args)
        signature(ctx, name, prog, f, sprog, sf, cm, voc)


def ungen(f):
    """a generator function as the function which returns the list of what it yields"""
    if not f.get('gen'):
        return f
    y = {'k': 'var', 'n': '%gen', 'id': '%gen'}

    def go(e):
        if isinstance(e, dict):
            if e.get('k') == 'yield':
                return {'k': 'call', 'f': 'extend' if e['from'] else 'append', 'o': y, 'a': [go(e['e'])], 'kw': [], 'ln': e.get('ln')}
            if e.get('k') == 'ret':
                return dict(e, e=y)
            return {k: v if k in ('module', 'node') else go(v) for k, v in e.items()}
        return [go(x) for x in e] if isinstance(e, list) else tuple(go(x) for x in e) if isinstance(e, tuple) else e
    b = go(f['body'])
    ln = f['line']
    first = {'k': 'expr', 'ln': ln, 'e': {'k': 'asg', 'op': '=', 'l': y, 'r': {'k': 'tuple', 'kind': 'list', 'a': []}, 'ln': ln}}
    return dict(f, gen=False, body={'k': 'block', 'b': [first] + (b['b'] if b['k'] == 'block' else [b]) + [{'k': 'ret', 'e': y, 'ln': ln}]}, id=tuple(f['id']) + ('ungen',))


def private(m):
    return m.startswith('_') and not m.endswith('__')


def vanished(ctx, name, prog, sprog):
    """a function of the reference which the current source does not define"""
    if '.' in name:
        c, m = name.split('.', 1)
        if prog.method(c, m) is not None:
            return False
        if not prog.hascls(c) and not private(c):
            imported = any(c in x.imports or x.stars for x in prog.mods.values())
        else:
            bs = lambda p: [b for x in p.mods.values() for b in (x.classes[c]['bases'] if c in x.classes else [])]
            imported = private(c) or bs(prog) != bs(sprog) or any(m in x.classes[c]['attrs'] for x in prog.mods.values() if c in x.classes)
    else:
        m = name
        if prog.has(name):
            return False
        imported = any(name in x.imports or name in x.globals or x.stars for x in prog.mods.values())
    if private(m) or imported:
        ctx.undecided(name, 'not defined in the current source of this module')
    else:
        ctx.bad(name, 'the function is not defined any more', list(prog.mods)[0])
    return True


def pseudo(name, m, expr, line):
    return {'name': name, 'q': name, 'id': (m.rel, None, name, line), 'file': m.path, 'line': line, 'params': [], 'pycls': None, 'cls': None, 'deco': [], 'static': False,
            'prop': False, 'clsm': False, 'gen': False, 'module': m, 'ret': '', 'node': None, 'body': {'k': 'block', 'b': [{'k': 'ret', 'e': expr, 'ln': line}]}}


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        ks = lambda d: {k for k in d if k not in ('ln', 'node', 'module')}
        return ks(a) == ks(b) and all(same(a[k], b[k]) for k in ks(a))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def value_obligation(ctx, name, prog, m, e, sprog, sm, se, line, sline, cmp, voc):
    if same(e, se):
        ctx.ok(name, 'same value')
    else:
        ctx.refine(name, prog, pseudo(name, m, e, line), sprog, pseudo(name, sm, se, sline), cmp=cmp, vocab=voc)


def signature(ctx, name, prog, f, sprog, sf, cmp, voc):
    """the way a function can be called: number and kind of the parameters, default values, static/class method, property"""
    where = '%s:%s' % (f['file'].replace(REPO + '/', ''), f['line'])
    ps = [p for p in f['params'] if not p.get('star')]
    qs = [p for p in sf['params'] if not p.get('star')]
    nm = name + ' signature'
    for a in ('static', 'clsm', 'prop'):
        if bool(f.get(a)) != bool(sf.get(a)):
            ctx.bad(nm, 'decorators %s instead of %s' % (f['deco'], sf['deco']), where)
            return
    for d in f['deco']:
        b = d.split('(')[0].split('.')[-1]
        if d in sf['deco'] or b in ('staticmethod', 'classmethod', 'property', 'setter', 'getter', 'deleter', 'wraps', 'override', 'final', 'abstractmethod', 'overload'):
            continue
        if b in ('lru_cache', 'cache'):
            ctx.bad(nm, 'results of earlier calls are returned again (%s): the caller shares them, and later changes of the arguments are not seen' % d, where)
        else:
            ctx.undecided(nm, 'decorator %s' % d)
        return
    if len(ps) < len(qs) and not any(p.get('star') for p in f['params']):
        ctx.bad(nm, '%d parameters instead of %d' % (len(ps), len(qs)), where)
        return
    for i, p in enumerate(ps[len(qs):]):
        if 'def' not in p:
            ctx.bad(nm, 'additional parameter %s without default value' % p['n'], where)
            return
    for k in (1, 2):
        if any(q.get('star') == k for q in sf['params']) and not any(p.get('star') == k for p in f['params']):
            ctx.bad(nm, 'no longer accepts further %s arguments' % ('positional' if k == 1 else 'keyword'), where)
            return
    n = 0
    for i, (p, q) in enumerate(zip(ps, qs)):
        if 'def' in q and 'def' not in p:
            ctx.bad(nm, 'parameter %s has no default value' % q['n'], where)
        elif 'def' in q:
            if same(p['def'], q['def']):
                n += 1
            else:
                ctx.refine(name + ' default ' + q['n'], prog, pseudo(name, f['module'], p['def'], f['line']), sprog, pseudo(name, sf['module'], q['def'], sf['line']), cmp=cmp, vocab=voc)
    if n:
        ctx.ok(nm, '%d default values' % n)


def module_values(ctx, repo, spec, cmp=None, skip=()):
    """module variables, class attributes and imported names denote what they denote in the reference"""
    prog, sprog = ctx.py(repo), ctx.py(SPEC + spec)
    m, sm = list(prog.mods.values())[0], list(sprog.mods.values())[0]
    voc = spec_vocab(sprog)
    cmp = cmp or Cmp()
    for n, se in sm.globals.items():
        if n in skip or n == '__all__' or n not in m.globals:
            continue
        if n in sm.multi or n in m.multi:
            if [ast_txt(x) for x in sm.multi.get(n, [])] == [ast_txt(x) for x in m.multi.get(n, [])]:
                ctx.ok('variable ' + n, 'same values')
            else:
                ctx.undecided('variable ' + n, 'assigned more than once')
            continue
        value_obligation(ctx, 'variable ' + n, prog, m, m.globals[n], sprog, sm, se, 1, 1, cmp, voc)
    for c in sm.classes.values():
        d = m.classes.get(c['name'])
        if d is None:
            continue
        for n, se in c['attrs'].items():
            if n in d['attrs'] and n not in c['alias'] and n not in skip and (c['name'] + '.' + n) not in skip:
                value_obligation(ctx, 'attribute %s.%s' % (c['name'], n), prog, m, d['attrs'][n], sprog, sm, se, d['line'], c['line'], cmp, voc)
            elif n in c['alias']:
                ctx.require('alias %s.%s' % (c['name'], n), n in d['methods'] and (d['alias'].get(n) == c['alias'][n] or n not in d['alias']), '%s is %s instead of %s' % (n, d['alias'].get(n), c['alias'][n]), '%s:%s' % (repo, d['line']))
        if c['bases'] != d['bases']:
            b = lambda x: [y.split('.')[-1] for y in x]
            if b(c['bases']) != b(d['bases']) and not set(b(c['bases'])) <= set(b(d['bases'])):
                ctx.bad('bases of ' + c['name'], '%s instead of %s' % (d['bases'], c['bases']), '%s:%s' % (repo, d['line']))
        # a method which overrides one the reference inherits does what that one does
        for x in sorted(d['methods']):
            if x not in c['methods'] and x not in c['attrs'] and x not in c['alias'] and not x.endswith('.setter') and not private(x):
                f = inherited(sm, c['name'], x)
                if isinstance(f, dict) and f.get('body'):
                    ctx.refine('%s.%s' % (c['name'], x), prog, d['methods'][x], sprog, dict(f, pycls=c['name']) if f.get('pycls') else f, cmp=cmp, vocab=voc)
        # a class gains no way of taking part in the language which the reference does not have (or inherit)
        extra = sorted(x for x in list(d['methods']) + list(d['attrs']) if ('.', x) in SPECIAL and x not in c['methods'] and x not in c['attrs'] and x not in c['alias']
                       and not inherited(sm, c['name'], x))
        ctx.require('special methods of ' + c['name'], not extra, 'the class defines %s, which the reference leaves to the language' % ', '.join(extra), '%s:%s' % (repo, d['line']))
    bad = 0
    for n, (src, nm) in sm.imports.items():
        if n in m.imports and m.imports[n] != (src, nm):
            a, b = m.imports[n], (src, nm)
            if (a[0] + '.' + a[1]).strip('.').split('.')[-1] == (b[0] + '.' + b[1]).strip('.').split('.')[-1] and canon_mod(a[0]) == canon_mod(b[0]):
                continue
            if not a[0] and b[0] == a[1] and b[1] == n or not b[0] and a[0] == b[1] and a[1] == n:
                # a module, or the function of the same name in it
                continue
            bad += 1
            ctx.bad('import ' + n, '%s is %s instead of %s' % (n, '.'.join(m.imports[n]), '.'.join((src, nm))), repo)
    refit = {t for _, t, _ in spent(sm)}
    its = [(f, t, ln) for f, t, ln in spent(m) if t not in refit]
    ctx.require('iterators of ' + repo.split('/')[-1], not its, '; '.join('%s: %s' % (f, t) for f, t, _ in its[:3]), '%s:%s' % (repo, its[0][2] if its else 1))
    ref = {n for n, _ in undefined(sm)}
    for n, w in sorted(undefined(m)):
        if n not in ref:
            bad += 1
            ctx.bad('name ' + n, 'nothing defines the name %s used in %s' % (n, w), repo)
    if sm.imports and not bad:
        ctx.ok('imports', '%d names' % len(sm.imports))


def module_body(ctx, repo, spec, cmp=None):
    """what importing the module does, beyond definitions"""
    prog, sprog = ctx.py(repo), ctx.py(SPEC + spec)
    m, sm = list(prog.mods.values())[0], list(sprog.mods.values())[0]

    def fn(m):
        f = pseudo('module body', m, None, 1)
        f['body'] = {'k': 'block', 'b': m.body}
        return f
    if not m.body and not sm.body:
        return
    if same(m.body, sm.body):
        ctx.ok('module body', '%d statements' % len(sm.body))
    else:
        ctx.refine('module body', prog, fn(m), sprog, fn(sm), cmp=cmp or Cmp(), vocab=spec_vocab(sprog) | members(sm))


def inherited(m, c, x, n=0):
    for b in m.classes[c]['bases'] if c in m.classes and n < 9 else ():
        if b in m.classes:
            r = m.classes[b]['methods'].get(x) or x in m.classes[b]['attrs'] or inherited(m, b, x, n + 1)
            if r:
                return r
    return False


SPECIAL = {('.', '__%s__' % x) for x in (
    'len bool getattr getattribute setattr delattr eq ne lt le gt ge hash call iter next contains getitem setitem delitem add radd iadd sub rsub isub mul rmul imul '
    'truediv rtruediv itruediv matmul rmatmul imatmul pow rpow neg pos abs invert lshift ilshift rlshift rshift and or xor new del reduce reduce_ex getstate setstate copy '
    'deepcopy array array_ufunc array_priority enter exit reduce_to_dict factory_from_dict index int float complex getinitargs').split()}


def members(m):
    """attributes of classes by which they take part in the language or in the interface of the module"""
    return SPECIAL | {('.', x) for c in m.classes.values() for x in list(c['methods']) + list(c['attrs'])}


ONCE = ('map', 'filter', 'zip', 'iter', 'reversed', 'enumerate')


def spent(m):
    """iterators which can be read once only, but are read again, indexed, measured or kept: (function, text, line)"""
    import ast as A
    tree = A.parse(m.src)
    shadow = {n.name for n in A.walk(tree) if isinstance(n, A.FunctionDef)} | {x.asname or x.name for n in A.walk(tree) if isinstance(n, (A.Import, A.ImportFrom)) for x in n.names}
    once = lambda e: isinstance(e, A.GeneratorExp) or isinstance(e, A.Call) and isinstance(e.func, A.Name) and e.func.id in ONCE and e.func.id not in shadow
    out = []
    SC = (A.For, A.While, A.ListComp, A.SetComp, A.DictComp, A.GeneratorExp, A.Lambda, A.FunctionDef)

    def loads(n, x, deep=False):
        """how often the name is read at most, reads inside loops counting twice; a second binding ends the search"""
        if isinstance(n, list):
            c = 0
            for i, y in enumerate(n):
                if isinstance(y, A.If) and (leaves(y.body) or leaves(y.orelse)):
                    r = loads(n[i + 1:], x, deep)
                    return c + loads(y.test, x, deep) + max(loads(y.body, x, deep) + (0 if leaves(y.body) else r), loads(y.orelse, x, deep) + (0 if leaves(y.orelse) else r))
                c += loads(y, x, deep)
                if binds(y, x):
                    break
            return c
        if isinstance(n, A.Name):
            return (2 if deep else 1) if n.id == x and isinstance(n.ctx, A.Load) else 0
        if isinstance(n, A.If):
            return loads(n.test, x, deep) + max(loads(n.body, x, deep), loads(n.orelse, x, deep))
        if isinstance(n, A.IfExp):
            return loads(n.test, x, deep) + max(loads(n.body, x, deep), loads(n.orelse, x, deep))
        if isinstance(n, A.For):
            return loads(n.iter, x, deep) + loads(n.body, x, not rebinds(n.body, x) or deep) + loads(n.orelse, x, deep)
        if isinstance(n, A.While):
            return loads(n.test, x, True) + loads(n.body, x, not rebinds(n.body, x) or deep)
        if isinstance(n, (A.ListComp, A.SetComp, A.GeneratorExp, A.DictComp)):
            g = n.generators
            c = loads(g[0].iter, x, deep)
            for y in ([n.key, n.value] if isinstance(n, A.DictComp) else [n.elt]) + [z for k in g for z in k.ifs] + [k.iter for k in g[1:]]:
                c += loads(y, x, True)
            return c
        if isinstance(n, (A.Lambda, A.FunctionDef)):
            return loads(n.body, x, True)
        return sum(loads(y, x, deep) for _, y in A.iter_fields(n) if isinstance(y, (A.AST, list))) if isinstance(n, A.AST) else 0

    leaves = lambda b: bool(b) and isinstance(b[-1], (A.Return, A.Raise, A.Continue, A.Break))
    binds = lambda s, x: isinstance(s, A.Assign) and any(isinstance(t, A.Name) and t.id == x for t in s.targets)
    rebinds = lambda b, x: any(binds(s, x) for s in b)

    def blocks(n):
        for _, v in A.iter_fields(n):
            if isinstance(v, list) and v and isinstance(v[0], A.stmt):
                yield v
            for y in v if isinstance(v, list) else [v]:
                if isinstance(y, A.AST):
                    yield from blocks(y)

    for f in [n for n in A.walk(tree) if isinstance(n, A.FunctionDef)]:
        nexts = {n.args[0].id for n in A.walk(f) if isinstance(n, A.Call) and isinstance(n.func, A.Name) and n.func.id == 'next' and n.args and isinstance(n.args[0], A.Name)}
        for b in blocks(f):
            for i, s in enumerate(b):
                if not isinstance(s, A.Assign) or not once(s.value):
                    continue
                for t in s.targets:
                    if isinstance(t, A.Attribute):
                        out.append((f.name, '%s keeps %s, which can be read once only' % (A.unparse(t), A.unparse(s.value)), s.lineno))
                    if not isinstance(t, A.Name) or t.id in nexts:
                        continue
                    x = t.id
                    rest = b[i + 1:]
                    use = []
                    for n in (y for z in rest for y in A.walk(z)):
                        is_ = lambda e: isinstance(e, A.Name) and e.id == x
                        if isinstance(n, A.Subscript) and is_(n.value) or isinstance(n, A.Call) and isinstance(n.func, A.Name) and n.func.id == 'len' and n.args and is_(n.args[0]):
                            use.append('indexed or measured')
                        elif isinstance(n, (A.If, A.While, A.IfExp)) and (is_(n.test) or isinstance(n.test, A.UnaryOp) and is_(n.test.operand)):
                            use.append('tested')
                    if not any(binds(y, x) for z in rest for y in A.walk(z)) and use:
                        out.append((f.name, '%s = %s is %s' % (x, A.unparse(s.value), use[0]), s.lineno))
                    elif loads(rest, x) > 1:
                        out.append((f.name, '%s = %s is read more than once' % (x, A.unparse(s.value)), s.lineno))
                    elif any(isinstance(w, A.While) and b is w.body and any(isinstance(y, A.Name) and y.id == x for y in A.walk(w.test)) for w in A.walk(f)):
                        out.append((f.name, '%s = %s is tested' % (x, A.unparse(s.value)), s.lineno))
    return out


def undefined(m):
    """names used in the module which nothing defines"""
    import symtable, builtins
    tab = symtable.symtable(m.src, m.path, 'exec')
    top = {y.get_name() for y in tab.get_symbols() if y.is_assigned() or y.is_imported() or y.is_namespace()}
    if any('import *' in l for l in m.src.split('\n')):
        return set()
    out = set()

    def rec(t):
        for y in t.get_symbols():
            if y.is_global() and y.is_declared_global() and y.is_assigned():
                top.add(y.get_name())
        for c in t.get_children():
            rec(c)

    def rec2(t):
        for y in t.get_symbols():
            if y.is_referenced() and y.is_global() and y.get_name() not in top and not hasattr(builtins, y.get_name()) and y.get_name() not in ('__file__', '__name__', '__doc__'):
                out.add((y.get_name(), t.get_name()))
        for c in t.get_children():
            rec2(c)
    rec(tab)
    rec2(tab)
    return out


def canon_mod(x):
    return x.split('.')[-1]


def ast_txt(x):
    import ast
    return ast.dump(x)


def all_items(sprog, file):
    """every function and method of the reference module"""
    out = []
    m = list(sprog.mods.values())[0]
    for n in m.funcs:
        out.append(n)
    for c in m.classes.values():
        for f in c['methods']:
            out.append(c['name'] + '.' + f)
    return out


def refine_module(ctx, repo, spec=None, skip=(), only=None, per=None, **kw):
    """all functions of a module (minus skip), or the ones matching `only`"""
    spec = spec or os.path.basename(repo)
    sprog = ctx.py(SPEC + spec)
    per = per or {}
    its = []
    for it in all_items(sprog, spec):
        short = it.split('.')[-1]
        if only is not None and it not in only and short not in only:
            continue
        if it in skip or short in skip or short in ('__repr__', '__str__', '_plot_') and it not in (only or ()) and short not in (only or ()):
            continue
        its.append((it, per[it]) if it in per else it)
    refine_items(ctx, repo, spec, its, **kw)
    if only is None:
        module_values(ctx, repo, spec, kw.get('cmp'), skip)
        module_body(ctx, repo, spec, kw.get('cmp'))
