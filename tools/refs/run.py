"""Development tool: behaviour-preserving edits written by hand; every check named must stay quiet on them.
usage: run.py [substring ...]     (cases: the *.py files beside this one, each a list CASES of (name, property, [(file, old, new), ...]))"""
import sys, os, glob, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.abspath(__file__))
cases = []
for f in sorted(glob.glob(here + '/r_*.py')):
    ns = {}
    exec(open(f).read(), ns)
    cases += [(os.path.basename(f)[2:-3] + ':' + n, p, e) for n, p, e in ns['CASES']]
sel = sys.argv[1:]
cases = [c for c in cases if not sel or any(s in c[0] or s == c[1] for s in sel)]


def go(k):
    name, prop, edits = cases[k]
    d = '/tmp/refw%d/%d' % (os.getpid(), k)
    os.makedirs(d)
    if any('c++' in f for f, _, _ in edits):
        subprocess.run(['cp', '-r', '/repo/c++', d + '/'])
    if any('python' in f for f, _, _ in edits):
        subprocess.run(['cp', '-r', '/repo/python', d + '/'])
    try:
        for f, o, n in edits:
            s = open(d + '/' + f).read()
            if s.count(o) != 1:
                return name, prop, 'BAD EDIT: %d matches of %r' % (s.count(o), o[:80])
            open(d + '/' + f, 'w').write(s.replace(o, n))
        if '--syntax' in os.environ.get('REFS', '') :
            pass
        r = subprocess.run(['timeout', '600', 'python3', '-W', 'ignore', here + '/../../check.py', prop], env=dict(os.environ, TRIQS_SRC=d, VERIF_OUT=d + '/out'), capture_output=True, text=True)
        t = [l for l in r.stdout.split('\n') if 'VIOLATION' in l or 'UNDECIDED' in l or 'detail' in l]
        if r.returncode == 1:
            import json
            try:
                j = json.load(open(glob.glob(d + '/out/build/replay/*.json')[0]))
                t = [json.dumps(x)[:int(os.environ.get("RL","900"))] for x in (j if isinstance(j, list) else [j])]
            except Exception as x:
                t.append(repr(x))
        return name, prop, ('ok' if r.returncode == 0 and not t else 'undecided' if r.returncode == 0 else 'ALARM rc=%d' % r.returncode) + ('' if not t and not r.returncode else '\n      ' + '\n      '.join(x[:int(os.environ.get("RL","900"))] for x in (t or r.stdout.split('\n')[-4:] + r.stderr.split('\n')[-4:])[:3]))
    finally:
        shutil.rmtree(d, ignore_errors=True)


with ThreadPoolExecutor(int(os.environ.get('W', '8'))) as ex:
    for name, prop, res in ex.map(go, range(len(cases))):
        print('%-50s %s %s' % (name, prop, res))
shutil.rmtree('/tmp/refw%d' % os.getpid(), ignore_errors=True)
