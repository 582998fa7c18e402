"""C++ front end: runs the libTooling dumper over witness translation units built from /repo's current sources."""
import json, os, subprocess, hashlib, tempfile, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('TRIQS_SRC', '/repo')


class FrontError(Exception):
    pass


def dumper():
    r = subprocess.run([HERE + '/build_dumper.sh', VERIF + '/build'], capture_output=True, text=True)
    if r.returncode:
        raise FrontError('dumper build failed: ' + r.stderr[-2000:])
    return r.stdout.strip().split('\n')[-1]


class CppProgram:
    lang = 'c++'

    def __init__(self, includes, extra='', sources=(), prefixes=None, std='c++20', flags=(), root=None):
        REPO = self.root = root or globals()['REPO']
        """includes: headers relative to /repo/c++; sources: .cpp relative to /repo/c++ (included textually)"""
        text = ''.join('#include <%s>\n' % i for i in includes) + ''.join('#include "%s/c++/%s"\n' % (REPO, s) for s in sources) + extra
        for i in list(includes) + list(sources):
            if not os.path.exists(REPO + '/c++/' + i):
                raise FrontError('anchor file vanished: ' + i)
        d = tempfile.mkdtemp(prefix='tri')
        try:
            tu = d + '/tu.cpp'
            open(tu, 'w').write(text)
            out = d + '/o.json'
            pf = prefixes or [REPO + '/c++', d]
            r = subprocess.run([dumper(), out, ','.join(pf), '--', '-std=' + std, '-I' + REPO + '/c++', '-I' + VERIF + '/stubs',
                                '-ferror-limit=0', '-Wno-everything', *flags, tu], capture_output=True, text=True, timeout=600)
            if not os.path.exists(out):
                raise FrontError('front end produced nothing: ' + r.stderr[-1500:])
            self.data = json.load(open(out))
            self.diag = [l for l in r.stderr.splitlines() if 'error' in l]
        finally:
            subprocess.run(['rm', '-rf', d])
        self.functions = self.data['functions']
        for f in self.functions:
            f['file'] = os.path.normpath(f['file'])
        self.errors = []
        import re
        for l in self.diag:
            m = re.match(r'(.+?):(\d+):\d+: (?:fatal )?error: (.*)', l)
            self.errors.append((os.path.normpath(m.group(1)), int(m.group(2)), m.group(3)) if m else ('', 0, l))
        self.records = {}
        for r in self.data['records']:
            self.records.setdefault(r['q'], []).append(r)
        self.byid = {}
        for f in self.functions:
            if f['id'] not in self.byid or 'body' in f:
                self.byid[f['id']] = f
        self.vars = self.data['vars']

    def fn(self, i):
        return self.byid.get(i)

    def broken(self, file, line):
        """the parse error inside the function at file:line, or outside every function of its file (then nothing of that
        file is trusted); errors in other files make the whole program untrusted"""
        if not self.errors:
            return None
        if not hasattr(self, 'spans'):
            self.spans = {(f['file'], f['line']): f['eline'] for f in self.functions if 'eline' in f and 'body' in f}
        for fl, ln, msg in self.errors:
            inside = [(a, b) for (x, a), b in self.spans.items() if x == fl and a <= ln <= b]
            if not inside:
                return '%s:%s: %s' % (fl, ln, msg)
            if fl == file and any(a == line for a, b in inside):
                return '%s:%s: %s' % (fl, ln, msg)
        return None

    def record(self, q):
        r = self.records.get(q)
        if not r:
            return None
        r = [x for x in r if x['fields']] or r
        return r[0]

    def methods(self, cls, name):
        return [f for f in self.functions if f.get('cls') == cls and f['name'] == name]

    def find(self, q, nparams=None, const=None, pred=None, body=True):
        """all definitions with this qualified name (exact or ::suffix)"""
        out = []
        for f in self.functions:
            if (f['q'] == q or f['q'].endswith('::' + q)) and (nparams is None or len(f['params']) == nparams) \
               and (const is None or f.get('const') == const) and (not body or 'body' in f) and (pred is None or pred(f)):
                out.append(f)
        return out

    def one(self, q, **kw):
        r = self.find(q, **kw)
        if not r:
            raise FrontError('anchor vanished: ' + q)
        return r[0]
