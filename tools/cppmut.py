"""Development tool: mutate / refactor a C++ file textually and run one property's check on a scratch tree.
usage: cppmut.py mut|ref PROP file(relative to c++/triqs) [max] [line-from-line-to]"""
import sys, os, re, random, subprocess, queue
from concurrent.futures import ThreadPoolExecutor
mode, prop, file = sys.argv[1:4]
mx = int(sys.argv[4]) if len(sys.argv) > 4 else 80
rng = tuple(map(int, sys.argv[5].split('-'))) if len(sys.argv) > 5 else (0, 10**9)
src = open('/repo/c++/triqs/' + file).read()
lines = src.split('\n')
random.seed(5)
# code lines: no comments, preprocessor
code = []
inb = False
for i, l in enumerate(lines):
    s = l
    if inb:
        if '*/' in s: inb = False
        continue
    st = s.strip()
    if st.startswith('/*'):
        if '*/' not in st: inb = True
        continue
    if not st or st.startswith('//') or st.startswith('#') or st.startswith('*') or 'template' in st or st.startswith('using') or 'TRIQS_RUNTIME_ERROR' in st or 'static_assert' in st or 'friend' in st and 'operator<<' in st: continue
    if not (rng[0] <= i + 1 <= rng[1]): continue
    code.append(i)


def strip_comment(l):
    k = l.find('//')
    return (l[:k], l[k:]) if k >= 0 and l.count('"', 0, k) % 2 == 0 else (l, '')


SUBS = [('cmp', r'(?<=[\w\)\] ])(<|>|<=|>=) (?=[\w\(\-])', {'<': '<=', '>': '>=', '<=': '<', '>=': '>'}),
        ('eq', r'(==|!=)', {'==': '!=', '!=': '=='}),
        ('add', r'(?<=[\w\)\]]) (\+|-) (?=[\w\(])', {'+': '-', '-': '+'}),
        ('mul', r'(?<=[\w\)\]]) ?(\*|/) ?(?=[\w\(])', {'*': '/', '/': '*'}),
        ('casg', r'(\+=|-=|\*=|/=)', {'+=': '-=', '-=': '+=', '*=': '/=', '/=': '*='}),
        ('bool', r'(&&|\|\|)', {'&&': '||', '||': '&&'}),
        ('inc', r'(\+\+|--)', {'++': '--', '--': '++'}),
        ('tf', r'\b(true|false)\b', {'true': 'false', 'false': 'true'}),
        ('mm', r'\b(min|max|floor|ceil|begin|end|sin|cos|real|imag|front|back)\b(?=\()', {'min': 'max', 'max': 'min', 'floor': 'ceil', 'ceil': 'floor', 'begin': 'end', 'end': 'begin', 'sin': 'cos', 'cos': 'sin', 'real': 'imag', 'imag': 'real', 'front': 'back', 'back': 'front'}),
        ('const', r'(?<![\w\.<])(\d+)(?![\w\.>])', None),
        ('not', r'(!)(?=[\w\(])', {'!': ''}),
        ('idx', r'\b(i|j)\b(?=[\]\),])', {'i': 'j', 'j': 'i'}),
        ('if', r'\bif \((?!.*constexpr)', 'if'),
        ]
jobs = []


def emit(kind, i, new):
    t = list(lines)
    t[i] = new
    jobs.append((kind, i + 1, '\n'.join(t)))


if mode == 'mut':
    for i in code:
        l, c = strip_comment(lines[i])
        for kind, pat, mp in SUBS:
            for m in re.finditer(pat, l):
                if l.count('"', 0, m.start()) % 2: continue
                if kind == 'if':
                    emit(kind, i, l[:m.end()] + 'not ' + l[m.end():] + c) if False else emit(kind, i, re.sub(r'\bif \(', 'if (false && ', l, 1) + c)
                    continue
                o = m.group(1)
                n = str(int(o) + 1) if mp is None else mp[o]
                emit(kind, i, l[:m.start(1)] + n + l[m.end(1):] + c)
        s = l.strip()
        # statements in bodies: drop
        if s.endswith(';') and not re.match(r'^(return|break|continue|case|default|auto |const |int |long |double |bool |size_t |std::\w+[<\w: ,>]* \w+[ ;=({]|[\w:<>]+ \w+ ?[;={(]|[\w:]+ ?\(.*\) (const )?=|\})', s) and ('(' in s or '=' in s or '++' in s or '--' in s) and not re.search(r'= (default|delete);', s):
            emit('drop', i, '')
        m = re.match(r'^(\s*)return (.+);\s*$', l)
        for m in re.finditer(r'\((\w+), (\w+)\)', l):
            emit('swap', i, l[:m.start()] + '(%s, %s)' % (m.group(2), m.group(1)) + l[m.end():] + c)
        # two statements on one line
        parts = s.rstrip(';').split('; ')
        if len(parts) > 1 and 'for' not in s and '{' not in s:
            for k in range(len(parts)):
                emit('drop1', i, '; '.join(parts[:k] + parts[k + 1:]) + ';')
        if i + 1 < len(lines) and (i + 1) in code:
            l2 = lines[i + 1]
            if s.endswith(';') and l2.strip().endswith(';') and not s.startswith('return') and not l2.strip().startswith('return') and '{' not in s + l2 and '}' not in s + l2:
                t = list(lines)
                t[i], t[i + 1] = t[i + 1], t[i]
                jobs.append(('order', i + 1, '\n'.join(t)))
else:
    bl = '\n'.join(lines)
    # rename locals
    for m in re.finditer(r'(?m)^\s+(?:auto|int|long|double|bool|size_t|auto const|const auto|auto const &|auto &|long const|double const) (&?\w+) =', bl):
        v = m.group(1).lstrip('&')
        i = bl.count('\n', 0, m.start(1))
        # up to the end of the enclosing block (brace matching)
        d, j = 0, m.end()
        while j < len(bl):
            if bl[j] == '{': d += 1
            if bl[j] == '}':
                d -= 1
                if d < 0: break
            j += 1
        seg = bl[m.start():j]
        if re.search(r'[.>]%s\b' % v, seg): continue
        seg = re.sub(r'\b%s\b' % v, v + '_rf', seg)
        jobs.append(('rename ' + v, i + 1, bl[:m.start()] + seg + bl[j:]))
    for i in code:
        l, c = strip_comment(lines[i])
        s = l.strip()
        ind = l[:len(l) - len(l.lstrip())]
        m = re.match(r'^(\s*)return (.+);\s*$', l)
        if m and not m.group(2).startswith('{') and 'decltype' not in bl.split('\n')[max(0, i - 1)]:
            emit('hoistret', i, m.group(1) + '{ auto res_rf = %s; return res_rf; }' % m.group(2))
        m = re.match(r'^(\s*)if \(([^;{}]+)\) ([^;{}]+;)\s*$', l)
        if m and m.group(2).count('(') == m.group(2).count(')'):
            emit('hoistcond', i, m.group(1) + '{ bool const c_rf = bool(%s); if (c_rf) { %s } }' % (m.group(2), m.group(3)) if not m.group(3).strip().startswith('else') else l)
            emit('braces', i, m.group(1) + 'if (%s) { %s }' % (m.group(2), m.group(3)))
        m = re.match(r'^(\s*)for \((?:int|long|size_t|auto) (\w+) = 0; \2 < ([^;]+); (?:\+\+\2|\2\+\+)\)(.*)$', l)
        if m and 'decltype' not in l:
            emit('forlong', i, '%sfor (long %s = 0; %s != long(%s); %s += 1)%s' % (m.group(1), m.group(2), m.group(2), m.group(3), m.group(2), m.group(4)))
            emit('range', i, '%sfor (auto %s : itertools::range(%s))%s' % (m.group(1), m.group(2), m.group(3), m.group(4))) if 'itertools' in src else None
        if re.match(r'[\w.\[\]]+\+\+;$', s):
            emit('preinc', i, ind + '++' + s[:-3] + ';')
        m = re.match(r'^(\s*)([\w\.\[\]\(\)>-]+) (\+|-|\*)= ([^;]+);\s*$', l)
        if m:
            emit('casg', i, '%s%s = %s %s (%s);' % (m.group(1), m.group(2), m.group(2), m.group(3), m.group(4)))
        for m in re.finditer(r'(?<=[\(&| ])([\w\.\(\)\[\]]+) (<|>|<=|>=|==|!=) ([\w\.\(\)\[\]]+)(?=[\)&| ;])', l):
            a, o, b = m.groups()
            if a.count('(') != a.count(')') or b.count('(') != b.count(')') or 'for' in l: continue
            sw = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}[o]
            emit('flip', i, l[:m.start()] + '%s %s %s' % (b, sw, a) + l[m.end():] + c)
        if s.endswith(';') and not s.startswith(('return', 'for', 'case', 'using')) and re.match(r'^\s{4,}[\w\.]+(\(| =|\.)', l) and '(' in s + '(':
            emit('noop', i, l + ' { int unused_rf = 0; (void)unused_rf; }')
random.shuffle(jobs)
jobs = jobs[:mx]
W = int(os.environ.get("W", "8"))
for i in range(W):
    d = '/tmp/mutw%d/%d' % (os.getpid(), i)
    os.makedirs(d, exist_ok=True)
    subprocess.run('cp -r /repo/c++ %s/' % d, shell=True)
slots = queue.Queue()
for i in range(W): slots.put(i)


def go(j):
    kind, ln, text = j
    i = slots.get()
    try:
        d = '/tmp/mutw%d/%d' % (os.getpid(), i)
        p = d + '/c++/triqs/' + file
        open(p, 'w').write(text)
        r = subprocess.run(['timeout', '400', 'python3', '-W', 'ignore', '/verif/check.py', prop], env=dict(os.environ, TRIQS_SRC=d, VERIF_OUT='/tmp/mutw%d/out%d' % (os.getpid(), i)), capture_output=True, text=True)
        open(p, 'w').write(src)
        return j, r
    finally:
        slots.put(i)


cnt = {}
with ThreadPoolExecutor(W) as ex:
    for (kind, ln, text), r in ex.map(go, jobs):
        cnt[r.returncode] = cnt.get(r.returncode, 0) + 1
        new = text.split('\n')[ln - 1].strip()[:110]
        und = 'UNDECIDED' in r.stdout
        if mode == 'mut' and r.returncode == 0:
            print('MISS', kind, ln, '|', lines[ln - 1].strip()[:110], '->', new, '| UNDECIDED' if und else '')
        if mode == 'ref' and r.returncode not in (0, 2):
            print('ALARM rc%d' % r.returncode, kind, ln, new, '|', r.stdout.strip().split('\n')[-2:][0][:300])
        elif mode == 'ref' and (und or r.returncode == 2) and os.environ.get('SHOWU'):
            print('undecided', r.returncode, kind, ln, new, '|', (r.stdout + r.stderr).strip()[:200])
print(mode, prop, file, 'jobs', len(jobs), 'exit codes', cnt)

import shutil
shutil.rmtree('/tmp/mutw%d' % os.getpid(), ignore_errors=True)
