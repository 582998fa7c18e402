"""Reference refinement for C++ files: every function of the anchored files is compared with the function of the same
name and parameters in the reviewed reference tree /verif/spec/cpp; the shape of the records (member types, member
initialisers, parameter types and default arguments) is compared declaration by declaration."""
import os, re
from runner import *

ROOT = VERIF + '/spec/cpp'
INT = {'bool': (1, 0), 'char': (8, 1), 'signed char': (8, 1), 'unsigned char': (8, 0), 'short': (16, 1), 'unsigned short': (16, 0), 'int': (32, 1), 'unsigned int': (32, 0),
       'long': (64, 1), 'unsigned long': (64, 0), 'long long': (64, 1), 'unsigned long long': (64, 0)}
FLT = {'float': 24, 'double': 53, 'long double': 64}


def scal(t):
    t = re.sub(r'\b(const|volatile)\b', '', t or '').replace('&', '').strip()
    return t


DUR = re.compile(r'std::(?:chrono::)?(?:__1::)?(?:chrono::)?duration<([a-z ]+)(?:, *std::ratio<(\d+)(?:, *(\d+))?>)?>')


def loses(new, old):
    """text when a value of the reference type `old` does not fit in `new`"""
    a, b = scal(new), scal(old)
    if a == b:
        return None
    ma, mb = re.fullmatch(r'(.*\w) ?\[(\d+)\]', a), re.fullmatch(r'(.*\w) ?\[(\d+)\]', b)
    if ma and mb:
        if int(ma.group(2)) < int(mb.group(2)):
            return '%s instead of %s' % (a, b)
        a, b = ma.group(1), mb.group(1)
    da, db = DUR.fullmatch(a), DUR.fullmatch(b)
    if da and db:
        per = lambda m: int(m.group(2) or 1) / int(m.group(3) or 1)
        if per(da) > per(db) and da.group(1) in INT or loses(da.group(1), db.group(1)):
            return '%s instead of %s' % (a, b)
        return None
    if a in INT and b in INT:
        (wa, sa), (wb, sb) = INT[a], INT[b]
        if wa < wb or (sb and not sa):
            return '%s instead of %s' % (a, b)
        if not sb and sa and wa <= wb:
            return None if wa == wb == 64 else '%s instead of %s' % (a, b)
        return None
    if a in FLT and b in FLT:
        return '%s instead of %s' % (a, b) if FLT[a] < FLT[b] else None
    if (a in INT) and (b in FLT):
        return '%s instead of %s' % (a, b)
    return None


def fkey(f):
    return (f['q'], tuple(scal(p.get('cty') or p.get('ty')) for p in f['params']), bool(f.get('const')), f.get('spec', ''))


def rel(f, root):
    return f['file'].replace(root + '/c++/', '')


def load(ctx, includes, sources=(), extra='', **kw):
    prog = ctx.cpp(includes, extra=extra, sources=sources, **kw)
    sprog = ctx.cpp(includes, extra=extra, sources=sources, root=ROOT, **kw)
    if sprog.diag:
        raise FrontError('reference does not parse: ' + sprog.diag[0])
    for d in prog.diag[:3]:
        print('UNPARSED ' + d[:300])     # functions touching these places are undecided, see CppProgram.broken
    return prog, sprog


def constraint(f):
    """what tells apart overloads with the same parameters"""
    return (f.get('ret'), f.get('req'), tuple(f.get('tpk') or f.get('tp') or ()))


def pair_functions(prog, sprog, files):
    files = set(files)
    imp = {}
    byq = {}
    for f in prog.functions:
        if 'body' in f:
            imp.setdefault(fkey(f), []).append(f)
            byq.setdefault((f['q'], len(f['params']), bool(f.get('const')), f.get('spec', '')), []).append(f)
    out = []
    spec = {}
    nsp = {}
    for f in sprog.functions:
        if 'body' in f:
            nsp.setdefault((f['q'], len(f['params']), bool(f.get('const')), f.get('spec', '')), set()).add(fkey(f))
            if rel(f, ROOT) in files:
                spec.setdefault(fkey(f), []).append(f)
    for k, fs in spec.items():
        fs = uniq(fs)
        gs = uniq(imp.get(k, []))
        if not gs:
            f = fs[0]
            q = (f['q'], len(f['params']), bool(f.get('const')), f.get('spec', ''))
            c = uniq(byq.get(q, []) + [x for x in byq.get((q[0], q[1], not q[2], q[3]), []) if q[2]])
            if len(c) == len(fs) and len(nsp[q]) == 1:
                gs = c
        used = []
        rest = []
        for f in fs:
            c = [g for g in gs if g not in used and constraint(g) == constraint(f)]
            if len(fs) > 1 and not (len(c) >= 1 and c):
                rest.append(f)
                continue
            g = c[0] if c else gs[0] if len(gs) == 1 else None
            used.append(g)
            out.append((f, g))
        left = [g for g in gs if g not in used]
        for i, f in enumerate(rest):
            # same number of overloads left on both sides: in the order of declaration
            out.append((f, left[i] if len(left) == len(rest) else None))
    return out


def uniq(fs):
    seen, out = set(), []
    for f in fs:
        k = (f['file'], f['line'], f.get('col'), f.get('ret'))
        if k not in seen:
            seen.add(k)
            out.append(f)
    return out


def fname(f):
    cl = (f.get('cls') or '').split('::')[-1]
    n = f['name']
    return (cl + '::' if cl else '') + n + ('(%s)' % ', '.join(scal(p.get('ty')) for p in f['params']))[:60] + (' const' if f.get('const') else '')


def refine_cpp(ctx, includes, files=None, sources=(), extra='', only=None, skip=(), per=None, opts=None, cmp=None, decls=True, soft=(), **kw):
    """soft: narrower types which are not judged (the values may fit all the same)
    files: the files whose functions are obligations (default: includes + sources)"""
    prog, sprog = load(ctx, includes, sources, extra, **kw)
    files = list(files or (list(includes) + list(sources)))
    for fl in files:
        if not os.path.exists(REPO + '/c++/' + fl):
            raise FrontError('anchor file vanished: ' + fl)
    voc = ctx.cache.setdefault(('voc', id(sprog)), None) or spec_vocab(sprog)
    ctx.cache[('voc', id(sprog))] = voc
    per = per or {}
    names = {}
    for sf, f in pair_functions(prog, sprog, files):
        short = sf['name']
        nm = fname(sf)
        if only is not None and short not in only and nm not in only and nm.split('(')[0] not in only:
            continue
        if short in skip or nm in skip or nm.split('(')[0] in skip:
            continue
        names[nm] = names.get(nm, 0) + 1
        if names[nm] > 1:
            nm += '#%d' % names[nm]
        if f is None and sf.get('copy') and memberwise(prog, sf):
            r = prog.record(sf['q'].rsplit('::', 1)[0])
            ctx.bad(nm, 'the compiler generates this copy constructor: it copies the members, the reference does not', '%s:%s' % (r['file'], r['line']))
            continue
        if f is None:
            ctx.undecided(nm, 'no function of this name and these parameters in the current source')
            continue
        o = dict(opts or {})
        o.update(per.get(short, {}))
        o.update(per.get(nm, {}))
        cm = o.pop('cmp', None) or cmp or Cmp()
        args = [None if p.get('pack') else ('sym', p['n'] or 'arg%d' % i) for i, p in enumerate(sf['params'])]
        ctx.refine(nm, prog, f, sprog, sf, cmp=cm, vocab=voc, opts=o, args=args, sargs=args)
        small = narrow(f['body']) - narrow(sf['body'])
        if small:
            ctx.bad(nm + ' locals', 'the function computes with %s, the reference does not' % ', '.join(sorted(small)), '%s:%s' % (f['file'], f['line']))
        if decls:
            for i, (p, q) in enumerate(zip(f['params'], sf['params'])):
                t = loses(p.get('cty') or p.get('ty'), q.get('cty') or q.get('ty'))
                if t in soft:
                    ctx.undecided(nm + ' parameter %d' % i, t)
                elif t:
                    ctx.bad(nm + ' parameter %d' % i, 'the type of the parameter loses values: ' + t, '%s:%s' % (f['file'], f['line']))
                if byref(q) and not byref(p) and scal(p.get('cty') or p.get('ty')) == scal(q.get('cty') or q.get('ty')):
                    ctx.bad(nm + ' parameter %d' % i, 'the parameter is a copy: changes do not reach the caller', '%s:%s' % (f['file'], f['line']))
                if ('def' in p) != ('def' in q):
                    ctx.bad(nm + ' parameter %d' % i, 'default argument %s instead of %s' % (txt(p.get('def')), txt(q.get('def'))), '%s:%s' % (f['file'], f['line']))
                elif 'def' in p and strip(p['def']) != strip(q['def']):
                    fs = [{'name': 'default argument', 'q': 'default argument', 'id': None, 'file': h['file'], 'line': h['line'], 'eline': h['line'], 'ret': r.get('ty'), 'params': [], 'const': False,
                           'body': {'k': 'block', 'b': [{'k': 'ret', 'e': r['def'], 'ln': h['line']}]}} for h, r in ((f, p), (sf, q))]
                    ctx.refine(nm + ' parameter %d' % i, prog, fs[0], sprog, fs[1], cmp=cm, vocab=voc, opts=o)
    if decls and only is None:
        globals_(ctx, prog, sprog, files, cmp, voc, soft)
        records(ctx, prog, sprog, files, skip, soft)


def narrow(b):
    """declared local variables of types which hold few values"""
    out = set()

    def rec(x):
        if isinstance(x, dict):
            if x.get('k') == 'decl':
                t = scal(x.get('cty') or x.get('ty'))
                if t in ('float', 'signed char', 'unsigned char', 'short', 'unsigned short') or 'duration<float' in t or 'complex<float' in t:
                    out.add(t)
                if x.get('static') and not x.get('const') and not (x.get('cty') or x.get('ty') or '').startswith('const '):
                    out.add('a variable which keeps its value between calls')
            for y in x.values():
                rec(y)
        elif isinstance(x, (list, tuple)):
            for y in x:
                rec(y)
    rec(b)
    return out


def strip(e):
    while isinstance(e, dict) and e.get('k') in ('cast', 'copy', 'paren') and 'e' in e:
        e = e['e']
    if isinstance(e, dict):
        return {k: strip(v) for k, v in e.items() if k not in ('ln', 'id', 'ty', 'cty', 'from', 'file', 'f_id', 'fid')}
    if isinstance(e, list):
        return [strip(x) for x in e]
    return e


def is_lit(e):
    e = strip(e)
    return isinstance(e, dict) and e.get('k') in ('int', 'flt', 'bool', 'str', 'enum')


def txt(e):
    if e is None:
        return 'none'
    e = strip(e)
    return str(e.get('v', e.get('n', e.get('k'))))


def memberwise(prog, sf):
    """the copy constructor is generated where the one of the reference calls functions in its body"""
    r = prog.record(sf['q'].rsplit('::', 1)[0])
    if r is None or any(m.get('copy') and (m.get('deleted') or not m.get('defaulted')) for m in r.get('methods', [])):
        return False

    def call(x):
        if isinstance(x, dict):
            return x.get('k') in ('call', 'mcall') or any(call(y) for y in x.values())
        return isinstance(x, (list, tuple)) and any(call(y) for y in x)
    return call(sf['body'])


def byref(p):
    """a parameter through which the function changes an object of the caller"""
    t = (p.get('cty') or p.get('ty') or '').strip()
    return t.endswith('&') and not t.endswith('&&') and not re.search(r'\bconst\b', t)


def records(ctx, prog, sprog, files, skip, soft=()):
    for q, rs in sorted(sprog.records.items()):
        sr = [r for r in rs if r['fields'] and rel(r, ROOT) in set(files)]
        if not sr or q.split('::')[-1] in skip:
            continue
        sr = sr[0]
        r = prog.record(q)
        nm = 'record ' + q.split('::')[-1]
        if r is None:
            ctx.undecided(nm, 'no such record in the current source')
            continue
        have = {f['n']: f for f in r['fields']}
        bad = False
        n = 0
        for f in sr['fields']:
            g = have.get(f['n'])
            if g is None:
                continue
            n += 1
            t = loses(g.get('cty') or g.get('ty'), f.get('cty') or f.get('ty'))
            if t in soft:
                ctx.undecided(nm + ' member ' + f['n'], t)
            elif t:
                bad = True
                ctx.bad(nm, 'member %s loses values: %s' % (f['n'], t), '%s:%s' % (r['file'], g['line']))
            m1, m2 = [re.search(r'\[(\d+)\]$', x.get('cty') or x.get('ty') or '') for x in (g, f)]
            if m1 and m2 and int(m1.group(1)) < int(m2.group(1)):
                bad = True
                ctx.bad(nm, 'member %s holds %s elements instead of %s' % (f['n'], m1.group(1), m2.group(1)), '%s:%s' % (r['file'], g['line']))
            a, b = g.get('init'), f.get('init')
            if is_lit(b) and (a is None or is_lit(a)) and not lit_eq(a, b):
                # a missing initialiser may have moved to the constructors: those are compared on their own
                if a is not None or all(not c['ctor'] for c in r.get('methods', []) if 'ctor' in c):
                    bad = True
                    ctx.bad(nm, 'member %s starts as %s instead of %s' % (f['n'], txt(a), txt(b)), '%s:%s' % (r['file'], g['line']))
            if g.get('static') and not f.get('static') and 'const' not in (g.get('ty') or ''):
                bad = True
                ctx.bad(nm, 'member %s is shared between objects' % f['n'], '%s:%s' % (r['file'], g['line']))
            if ref_kind(f) != ref_kind(g):
                bad = True
                ctx.bad(nm, 'member %s is %s instead of %s' % (f['n'], g.get('ty'), f.get('ty')), '%s:%s' % (r['file'], g['line']))
        if not bad:
            if n:
                ctx.ok(nm, '%d members' % n)
            else:
                ctx.undecided(nm, 'no common member')


def globals_(ctx, prog, sprog, files, cmp, voc, soft=()):
    """variables of namespace and class scope start with the value they start with in the reference"""
    have = {}
    for v in prog.vars:
        have.setdefault(v['q'], []).append(v)
    refs = {}
    for v in sprog.vars:
        refs.setdefault(v['q'], []).append(v)
    for v in sprog.vars:
        if rel(v, ROOT) not in files or v['q'] not in have or 'init' not in v:
            continue
        if len(have[v['q']]) != len(refs[v['q']]):
            continue
        k = refs[v['q']].index(v)
        g = have[v['q']][k]
        nm = 'variable ' + v['n'] + ('#%d' % (k + 1) if k else '')
        t = loses(g.get('cty'), v.get('cty'))
        if t and t not in soft:
            ctx.bad(nm, 'loses values: ' + t, '%s:%s' % (g['file'], g['line']))
            continue
        if bool(g.get('tls')) != bool(v.get('tls')):
            ctx.bad(nm, 'one variable per thread' if g.get('tls') else 'one variable for all threads', '%s:%s' % (g['file'], g['line']))
            continue
        if 'init' not in g:
            continue
        if strip(g['init']) == strip(v['init']):
            ctx.ok(nm, 'same initial value')
            continue
        fs = [{'name': nm, 'q': nm, 'id': None, 'file': h['file'], 'line': h['line'], 'eline': h['line'], 'ret': h.get('ty'), 'params': [], 'const': False,
               'body': {'k': 'block', 'b': [{'k': 'ret', 'e': h['init'], 'ln': h['line']}]}} for h in (g, v)]
        ctx.refine(nm, prog, fs[0], sprog, fs[1], cmp=cmp or Cmp(), vocab=voc)


def ref_kind(f):
    t = (f.get('ty') or '').strip()
    return '&' if t.endswith('&') else ''


def lit_eq(a, b):
    if a is None or b is None:
        return a is b
    a, b = strip(a), strip(b)
    return a.get('k') == b.get('k') and str(a.get('v', a.get('n'))) == str(b.get('v', b.get('n'))) or \
        (a.get('k') in ('int', 'flt', 'bool') and b.get('k') in ('int', 'flt', 'bool') and num_of(a) == num_of(b))


def num_of(e):
    v = e.get('v')
    if isinstance(v, bool):
        return float(v)
    try:
        return float(v)
    except (TypeError, ValueError):
        return {'true': 1.0, 'false': 0.0}.get(str(v).lower(), v)


def witness(ctx, includes, name, text, flags=()):
    """type-level encoding: a translation unit of static assertions over the current headers; each assertion that fails
    is a violation, any other error leaves the witness undecided"""
    import subprocess, tempfile, shutil
    d = tempfile.mkdtemp(prefix='wit')
    try:
        p = d + '/w.cpp'
        src = ''.join('#include <%s>\n' % i for i in includes) + text
        open(p, 'w').write(src)
        r = subprocess.run(['clang++-18' if shutil.which('clang++-18') else 'clang++', '-std=c++20', '-fsyntax-only', '-ferror-limit=0', '-Wno-everything', *flags,
                            '-I' + REPO + '/c++', '-I' + VERIF + '/stubs', p], capture_output=True, text=True, timeout=300)
        lines = src.split('\n')
        failed, other = {}, []
        for l in r.stderr.splitlines():
            m = re.match(r'(.+?):(\d+):(\d+): (?:fatal )?error: (.*)', l)
            if not m:
                continue
            if m.group(1) == p and 'static assertion failed' in m.group(4):
                failed[int(m.group(2))] = m.group(4)
            elif m.group(1) == p:
                other.append((int(m.group(2)), m.group(4)))
            else:
                other.append((0, l))
        n = 0
        for i, l in enumerate(lines):
            if 'static_assert' not in l:
                continue
            n += 1
            nm = 'witness %s %d' % (name, n)
            if i + 1 in failed:
                ctx.bad(nm, 'the type-level witness does not hold: ' + l.strip(), '%s' % ', '.join(includes), failed[i + 1])
            elif any(o[0] in (0, i + 1) for o in other):
                ctx.undecided(nm, 'the witness does not compile: %s' % [o[1] for o in other if o[0] in (0, i + 1)][0])
            else:
                ctx.ok(nm, l.strip())
    finally:
        shutil.rmtree(d, ignore_errors=True)
