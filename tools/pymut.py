"""Development tool: mutate / refactor Python functions and run one property's check on a scratch tree.
usage: pymut.py mut|ref PROP file [max] [only]   (needs a scratch copy of the repository in /tmp/w)"""
import ast, sys, os, random, subprocess, copy, re
from concurrent.futures import ThreadPoolExecutor
mode, prop, file = sys.argv[1:4]
mx = int(sys.argv[4]) if len(sys.argv) > 4 else 60
only = sys.argv[5] if len(sys.argv) > 5 else None
src = open('/repo/' + file).read()
tree = ast.parse(src)
random.seed(7)
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult, ast.MatMult: ast.Mult}


def funcs(t):
    for n in t.body:
        if isinstance(n, ast.FunctionDef):
            yield n.name, n
        elif isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    yield n.name + '.' + m.name, m


def mutants():
    for name, f in funcs(tree):
        if only and only not in name: continue
        if name.split('.')[-1] in ('__repr__', '__str__', '_plot_'):
            continue
        nodes = [n for s in f.body for n in ast.walk(s)]
        intrace = set()
        for n in nodes:
            if isinstance(n, ast.Assert) and n.msg: intrace |= set(map(id, ast.walk(n.msg)))
            if isinstance(n, ast.Raise): intrace |= set(map(id, ast.walk(n)))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'print': intrace |= set(map(id, ast.walk(n)))
        for n in nodes:
            if id(n) in intrace: continue
            if isinstance(n, ast.Compare):
                for i, o in enumerate(n.ops):
                    if type(o) in CMP:
                        def do(n=n, i=i, o=o): n.ops[i] = CMP[type(o)]()
                        def un(n=n, i=i, o=o): n.ops[i] = o
                        yield name, 'cmp', n.lineno, do, un
            elif isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
                def do(n=n, o=n.op): n.op = BIN[type(o)]()
                def un(n=n, o=n.op): n.op = o
                yield name, 'binop', n.lineno, do, un
                if isinstance(n, ast.BinOp):
                    def do(n=n, l=n.left, r=n.right): n.left, n.right = r, l
                    def un(n=n, l=n.left, r=n.right): n.left, n.right = l, r
                    if not isinstance(n.left, ast.Constant) or not isinstance(n.left.value, str):
                        yield name, 'swap', n.lineno, do, un
            elif isinstance(n, ast.BoolOp):
                def do(n=n, o=n.op): n.op = ast.Or() if isinstance(o, ast.And) else ast.And()
                def un(n=n, o=n.op): n.op = o
                yield name, 'bool', n.lineno, do, un
            elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                def do(n=n, v=n.value): n.value = v + 1
                def un(n=n, v=n.value): n.value = v
                yield name, 'const', n.lineno, do, un
            elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                def do(n=n, v=n.value): n.value = not v
                def un(n=n, v=n.value): n.value = v
                yield name, 'bconst', n.lineno, do, un
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
                def do(n=n, o=n.op): n.op = ast.UAdd() if isinstance(o, ast.USub) else ast.Not(); n._w = n.operand; n.operand = n.operand if isinstance(o, ast.USub) else ast.UnaryOp(ast.Not(), n.operand)
                def un(n=n, o=n.op): n.op = o; n.operand = n._w
                yield name, 'unary', n.lineno, do, un
            elif isinstance(n, ast.Call) and len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args) and not (isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'hasattr')):
                def do(n=n): n.args[0], n.args[1] = n.args[1], n.args[0]
                yield name, 'args', n.lineno, do, do
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'copy' and not n.args:
                def do(n=n, f=n.func): n._f = f; n.func = ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg('x')], kwonlyargs=[], kw_defaults=[], defaults=[]), ast.Name('x', ast.Load())); n.args = [f.value]
                def un(n=n): n.func = n._f; n.args = []
                yield name, 'nocopy', n.lineno, do, un
        def blocks(b):
            yield b
            for s in b:
                for a in ('body', 'orelse', 'finalbody'):
                    if getattr(s, a, None) and isinstance(getattr(s, a), list):
                        yield from blocks(getattr(s, a))
                for h in getattr(s, 'handlers', []):
                    yield from blocks(h.body)
        for b in blocks(f.body):
            for i, s in enumerate(b):
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant): continue
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == 'print': continue
                if isinstance(s, (ast.Import, ast.ImportFrom, ast.Pass, ast.FunctionDef, ast.Global)): continue
                def do(b=b, i=i): b[i] = ast.Pass()
                def un(b=b, i=i, s=s): b[i] = s
                yield name, 'drop:' + type(s).__name__, s.lineno, do, un
                if i + 1 < len(b) and isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign)) and isinstance(b[i + 1], (ast.Expr, ast.Assign, ast.AugAssign)):
                    def sw(b=b, i=i): b[i], b[i + 1] = b[i + 1], b[i]
                    yield name, 'order', s.lineno, sw, sw


class Ren(ast.NodeTransformer):
    def __init__(self, names): self.names = names
    def visit_Name(self, n):
        if n.id in self.names: n.id = self.names[n.id]
        return n


def refactors():
    """list of (name, kind, line, new tree text)"""
    for name, f in funcs(tree):
        if only and only not in name: continue
        if name.split('.')[-1] in ('__repr__', '__str__', '_plot_'): continue
        def out(kind, g):
            t = copy.deepcopy(tree)
            for n2, f2 in list(funcs(t)):
                if n2 == name:
                    if g(f2, t) is False: return None
            ast.fix_missing_locations(t)
            return (name, kind, f.lineno, ast.unparse(t))
        def ren(g, t):
            if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'locals' for n in ast.walk(g)): return False
            glob = {x for n in ast.walk(g) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
            ps = {a.arg for n in ast.walk(g) if isinstance(n, (ast.FunctionDef, ast.Lambda)) for a in n.args.args + n.args.kwonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]}
            ns = {n.id for n in ast.walk(g) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - ps - glob
            ns -= {a.asname or a.name for n in ast.walk(g) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
            hs = {h.name for n in ast.walk(g) if isinstance(n, ast.Try) for h in n.handlers if h.name}
            ns -= hs
            if not ns: return False
            if mode2 == 'names':
                Ren({n: 'z%02d' % (len(ns) - i) for i, n in enumerate(sorted(ns))}).visit(g)
            else:
                Ren({n: n + '_rf' for n in ns}).visit(g)
        for mode2 in ('names', 'rf'):
            yield out('rename-' + mode2, ren)
        def inv(g, t):
            c = 0
            for n in ast.walk(g):
                if isinstance(n, ast.If) and n.orelse:
                    n.test = ast.UnaryOp(ast.Not(), n.test); n.body, n.orelse = n.orelse, n.body; c += 1
            return c > 0 or False
        yield out('invert-if', inv)
        def hoist(g, t):
            c = [0]
            def go(b):
                r = []
                for s in b:
                    for a in ('body', 'orelse', 'finalbody'):
                        if isinstance(getattr(s, a, None), list): setattr(s, a, go(getattr(s, a)))
                    for h in getattr(s, 'handlers', []): h.body = go(h.body)
                    if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                        c[0] += 1; v = 'res_rf%d' % c[0]
                        r.append(ast.Assign([ast.Name(v, ast.Store())], s.value)); s.value = ast.Name(v, ast.Load())
                    elif isinstance(s, ast.If):
                        c[0] += 1; v = 'cnd_rf%d' % c[0]
                        r.append(ast.Assign([ast.Name(v, ast.Store())], s.test)); s.test = ast.Name(v, ast.Load())
                    elif isinstance(s, (ast.Expr, ast.Assign)) and isinstance(s.value, ast.Call) and s.value.args and not isinstance(s.value.args[0], (ast.Name, ast.Constant, ast.Starred, ast.Lambda, ast.GeneratorExp)):
                        if isinstance(s.value.func, (ast.Name, ast.Attribute)) and all(isinstance(x, (ast.Name, ast.Attribute, ast.Load)) for x in ast.walk(s.value.func)):
                            c[0] += 1; v = 'arg_rf%d' % c[0]
                            r.append(ast.Assign([ast.Name(v, ast.Store())], s.value.args[0])); s.value.args[0] = ast.Name(v, ast.Load())
                    r.append(s)
                return r
            doc = g.body[:1] if isinstance(g.body[0], ast.Expr) and isinstance(g.body[0].value, ast.Constant) else []
            g.body = doc + go(g.body[len(doc):])
            return c[0] > 0 or False
        if not any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f)):
            yield out('hoist', hoist)
        def noop(g, t):
            def go(b):
                r = []
                for s in b:
                    for a in ('body', 'orelse', 'finalbody'):
                        if isinstance(getattr(s, a, None), list) and getattr(s, a): setattr(s, a, go(getattr(s, a)))
                    r.append(ast.Expr(ast.Constant(None)) if len(r) % 2 else ast.Assign([ast.Name('_unused', ast.Store())], ast.Constant(0)))
                    r.append(s)
                return r
            if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'locals' for n in ast.walk(g)): return False
            g.body = go(g.body)
        yield out('noop', noop)
        def helper(g, t):
            """the body moves into a private helper"""
            if g.decorator_list or g.name.startswith('__init__') and False: return False
            if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('super', 'locals') for n in ast.walk(g)): return False
            if any(isinstance(n, (ast.Global, ast.Yield, ast.YieldFrom)) for n in ast.walk(g)): return False
            a = g.args
            if a.vararg or a.kwarg: return False
            ps = [x.arg for x in a.args + a.kwonlyargs]
            h = copy.deepcopy(g); h.name = '_' + g.name.strip('_') + '_impl_rf'; h.decorator_list = []
            h.args = ast.arguments(posonlyargs=[], args=[ast.arg(x) for x in ps], kwonlyargs=[], kw_defaults=[], defaults=[])
            iscls = '.' in name
            if iscls:
                cls = next(n for n in t.body if isinstance(n, ast.ClassDef) and n.name == name.split('.')[0])
                if any('__' in getattr(n, 'attr', '') for n in ()): return False
                cls.body.insert(cls.body.index(g), h)
                call = ast.Call(ast.Attribute(ast.Name(ps[0], ast.Load()), h.name, ast.Load()), [ast.Name(x, ast.Load()) for x in ps[1:]], [])
            else:
                t.body.insert(t.body.index(g), h)
                call = ast.Call(ast.Name(h.name, ast.Load()), [ast.Name(x, ast.Load()) for x in ps], [])
            g.body = [ast.Return(call)]
        yield out('helper', helper)
        def temps(g, t):
            """operands of every binary expression in assignments and returns become temporaries"""
            c = [0]
            def go(b):
                r = []
                for s in b:
                    for a in ('body', 'orelse', 'finalbody'):
                        if isinstance(getattr(s, a, None), list): setattr(s, a, go(getattr(s, a)))
                    if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, ast.BinOp):
                        for side in ('left', 'right'):
                            e = getattr(s.value, side)
                            if not isinstance(e, (ast.Name, ast.Constant)):
                                c[0] += 1; v = 'op_rf%d' % c[0]
                                r.append(ast.Assign([ast.Name(v, ast.Store())], e)); setattr(s.value, side, ast.Name(v, ast.Load()))
                    r.append(s)
                return r
            g.body = go(g.body)
            return c[0] > 0 or False
        yield out('temps', temps)
        def comp2loop(g, t):
            c = [0]
            def go(b):
                r = []
                for s in b:
                    for a in ('body', 'orelse', 'finalbody'):
                        if isinstance(getattr(s, a, None), list): setattr(s, a, go(getattr(s, a)))
                    if isinstance(s, (ast.Return, ast.Assign)) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
                        c[0] += 1; v = 'acc_rf%d' % c[0]; ge = s.value.generators[0]
                        r.append(ast.Assign([ast.Name(v, ast.Store())], ast.List([], ast.Load())))
                        body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(v, ast.Load()), 'append', ast.Load()), [s.value.elt], []))]
                        for i in ge.ifs: body = [ast.If(i, body, [])]
                        r.append(ast.For(ge.target, ge.iter, body, []))
                        s.value = ast.Name(v, ast.Load())
                    r.append(s)
                return r
            g.body = go(g.body)
            return c[0] > 0 or False
        yield out('comp2loop', comp2loop)
        def early(g, t):
            """if a: ...return  else: B  ->  if a: ...return; B"""
            c = [0]
            def go(b):
                r = []
                for s in b:
                    for a in ('body', 'orelse', 'finalbody'):
                        if isinstance(getattr(s, a, None), list): setattr(s, a, go(getattr(s, a)))
                    r.append(s)
                    if isinstance(s, ast.If) and s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)):
                        r += s.orelse; s.orelse = []; c[0] += 1
                return r
            g.body = go(g.body)
            return c[0] > 0 or False
        yield out('early', early)


def run(i, text):
    d = '/tmp/mutw%d/%d' % (os.getpid(), i)
    p = d + '/' + file
    os.makedirs(os.path.dirname(p), exist_ok=True)
    open(p, 'w').write(text)
    r = subprocess.run(['timeout', '300', 'python3', '-W', 'ignore', '/verif/check.py', prop], env=dict(os.environ, TRIQS_SRC=d, VERIF_OUT='/tmp/mutw%d/out%d' % (os.getpid(), i)), capture_output=True, text=True)
    return r


def prep(n):
    for i in range(n):
        d = '/tmp/mutw%d/%d' % (os.getpid(), i)
        if not os.path.isdir(d):
            os.makedirs(d)
            subprocess.run('cp -r /repo/python /repo/c++ %s/' % d, shell=True)
        else:
            subprocess.run('cp -r /repo/python %s/' % d, shell=True)


W = int(os.environ.get("W", "8"))
jobs = []
if mode == 'mut':
    for name, kind, line, do, un in list(mutants()):
        do()
        try:
            t = ast.unparse(ast.fix_missing_locations(tree))
            ast.parse(t)
        except Exception:
            t = None
        un()
        if t: jobs.append((name, kind, line, t))
else:
    jobs = [x for x in refactors() if x]
    if os.environ.get('KIND'): jobs = [x for x in jobs if x[1].startswith(os.environ['KIND'])]
if os.environ.get('PICK'):   # PICK=function:kind:line writes the changed files to /tmp/pick<n>.py instead
    k = os.environ['PICK'].split(':')
    for i, j in enumerate([j for j in jobs if k[0] in j[0] and j[1].startswith(k[1]) and (len(k) < 3 or j[2] == int(k[2]))]):
        open('/tmp/pick%d.py' % i, 'w').write(j[3])
        open('/tmp/pickref.py', 'w').write(ast.unparse(tree))
        print(i, j[:3])
        print(subprocess.run('diff /tmp/pickref.py /tmp/pick%d.py' % i, shell=True, capture_output=True, text=True).stdout)
    sys.exit()
random.shuffle(jobs)
jobs = jobs[:mx]
prep(W)
import queue
slots = queue.Queue()
for i in range(W): slots.put(i)


def go(j):
    i = slots.get()
    try:
        r = run(i, j[3])
    finally:
        open('/tmp/mutw%d/%d/%s' % (os.getpid(), i, file), 'w').write(src)
        slots.put(i)
    return j, r


L = src.split('\n')
cnt = {}
with ThreadPoolExecutor(W) as ex:
    for j, r in ex.map(go, jobs):
        cnt[r.returncode] = cnt.get(r.returncode, 0) + 1
        und = [l for l in r.stdout.split('\n') if l.startswith('UNDECIDED')]
        if mode == 'mut' and r.returncode != 1:
            print('MISS' if r.returncode == 0 else 'RC%d' % r.returncode, j[0], j[1], 'line', j[2], '|', L[j[2] - 1].strip()[:110], '|', '; '.join(u[10:][:160] for u in und), r.stderr[-200:])
        if mode == 'ref' and r.returncode != 0:
            print('ALARM rc%d' % r.returncode, j[0], j[1], '|', r.stdout.strip().split('\n')[1:3], r.stderr[-200:])
        if mode == 'ref' and r.returncode == 0 and und:
            print('  quiet', j[0], j[1], '; '.join(u[10:][:200] for u in und))
print(mode, prop, file, 'jobs', len(jobs), 'exit codes', cnt)

import shutil
shutil.rmtree('/tmp/mutw%d' % os.getpid(), ignore_errors=True)
