"""Common driver of the checks: obligations, known findings, evidence, exit status."""
import json, os, sys, time, traceback, re, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, VERIF + '/rules')
sys.setrecursionlimit(20000)
from cpp_front import CppProgram, FrontError, REPO
from py_front import PyProgram, PyInterp
from interp import Interp, Limit, Path
from compare import Cmp, path_heads, canon, ev_heads
import compare
import terms as T
from terms import *


class Ctx:
    budget = 60

    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.obl = []          # dict(name, status, detail)
        self.analysed = set()
        self.traces = 0
        self.pairs = 0
        self.rules = []
        self.assume = []
        self.cache = {}

    # ---- results
    def ok(self, name, detail=''):
        self.obl.append({'name': name, 'status': 'holds', 'detail': detail})

    def undecided(self, name, detail):
        self.obl.append({'name': name, 'status': 'undecided', 'detail': detail})

    def bad(self, name, what, where='', more=None):
        self.obl.append({'name': name, 'status': 'violated', 'detail': what, 'where': where, 'more': more})

    def require(self, name, cond, what, where='', detail=''):
        if cond:
            self.ok(name, detail)
        else:
            self.bad(name, what, where)
        return cond

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    # ---- program access
    def cpp(self, includes, extra='', sources=(), **kw):
        k = ('cpp', tuple(includes), extra, tuple(sources), repr(kw))
        if k not in self.cache:
            self.cache[k] = CppProgram(includes, extra, sources, **kw)
        return self.cache[k]

    def py(self, *files):
        k = ('py',) + files
        if k not in self.cache:
            self.cache[k] = PyProgram(*files)
        return self.cache[k]

    def interp(self, prog, **kw):
        I = PyInterp(prog, **kw) if prog.lang == 'py' else Interp(prog, **kw)
        I.deadline = time.time() + self.budget
        return I

    def run(self, prog, f, init=None, this=('sym', 'this'), args=None, **kw):
        I = self.interp(prog, **kw)
        ps = I.run(f, this=this, args=args, init=init) if prog.lang != 'py' else I.run(f, args=args, init=init)
        if prog.lang != 'py' and prog.errors:
            for q, fl, ln in I.analysed:
                b = prog.broken(fl, ln)
                if b:
                    raise Limit('%s is outside the parsed subset (%s)' % (q, b))
        self.analysed |= {(q, (fl or '').replace(REPO + '/', ''), ln) for q, fl, ln in I.analysed}
        self.traces += len(ps)
        return ps, I

    def again(self, prog, f, sprog, sf, cmp, voc, opts, so, pre, init, args, sargs, d):
        """the difference may only be one of form: split loops at the conditions no iteration changes and compare again"""
        for unswitch, unroll, absm, peel in ((1, 0, 0, 0), (0, 1, 0, 0), (1, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (0, 0, 0, 2), (0, 0, 0, 3)):
            try:
                T.ABS_MODE[0] = bool(absm)
                r = []
                for side, pr, fn, o, ar in ((1, prog, f, opts, args), (2, sprog, sf, so, sargs or args)):
                    I = self.interp(pr, **o)
                    I.unswitch, I.unroll, I.peelmode = bool(unswitch), bool(unroll), bool(peel & side)
                    r.append(I.run(fn, init=init, args=ar))
                v2 = set(voc)
                for q in r[1]:
                    v2 |= path_heads(q)
                d2, u2, n2 = cmp.compare(r[0], r[1], v2, pre)
            except FrontError:
                raise
            except Exception:
                continue
            finally:
                T.ABS_MODE[0] = False
            if not d2 and not u2 and n2:
                return []
        return d

    # ---- reference refinement
    def refine(self, name, prog, f, sprog, sf, cmp=None, vocab=None, opts=None, pre=(), init=None, sopts=None, args=None, sargs=None, where=None):
        cmp = cmp or Cmp()
        opts = dict(opts or {})
        so = dict(opts)
        so.update(sopts or {})
        where = where or '%s:%s' % ((f.get('file') or '').replace(REPO + '/', ''), f.get('line'))
        try:
            ip, _ = self.run(prog, f, init=init, args=args, **opts)
            S = self.interp(sprog, **so)
            sp = S.run(sf, init=init, args=sargs or args) if sprog.lang == 'py' else S.run(sf, init=init, args=sargs or args)
            if len(ip) > 6000 or len(sp) > 6000:
                raise Limit('paths %d %d' % (len(ip), len(sp)))
            voc = set(vocab or ())
            for q in sp:
                voc |= path_heads(q)
            d, u, n = cmp.compare(ip, sp, voc, pre)
        except (Limit, compare.TooLong, RecursionError) as ex:
            self.undecided(name, 'analysis limit: %s' % ex)
            return
        except FrontError:
            raise
        except Exception as ex:
            if os.environ.get('SA_DEBUG'):
                raise
            self.undecided(name, 'analysis failed: %r' % ex)
            return
        if d or u:
            if not self.again(prog, f, sprog, sf, cmp, voc, opts, so, pre, init, args, sargs, d or u):
                d, u = [], []
        self.pairs += n
        if d:
            self.bad(name, d[0]['what'] + '   [when ' + d[0]['when'] + ']', where, d[:6])
        elif u:
            self.undecided(name, 'foreign operations %s: %s' % (u[0].get('foreign'), u[0]['what'][:400]))
        elif n == 0:
            self.undecided(name, 'no comparable pair of traces')
        else:
            self.ok(name, '%d trace pairs' % n)


def spec_vocab(sprog):
    """heads occurring anywhere in the reference module (names of calls, fields, globals)"""
    voc = set()

    def rec(e):
        if isinstance(e, dict):
            k = e.get('k')
            if k == 'call':
                voc.update({('c', e['f']), ('f', e['f']), ('g', e['f']), ('.', e['f'])})
            elif k == 'mem':
                voc.update({('.', e['f']), ('f', e['f'])})
            elif k == 'var':
                voc.add(('g', e['n']))
            elif k == 'ctor':
                voc.add(('n', (e.get('q') or e['ty']).split('::')[-1].split('<')[0]))
            for key, v in e.items():
                if key not in ('module', 'node'):
                    rec(v)
        elif isinstance(e, (list, tuple)):
            for v in e:
                rec(v)
    if sprog.lang == 'py':
        for m in sprog.mods.values():
            for f in m.funcs.values():
                rec({k: v for k, v in f.items() if k in ('params', 'body')})
            for c in m.classes.values():
                voc.add(('n', c['name']))
                voc.add(('g', c['name']))
                for f in c['methods'].values():
                    rec({k: v for k, v in f.items() if k in ('params', 'body')})
    else:
        for f in sprog.functions:
            rec({k: v for k, v in f.items() if k in ('params', 'body', 'inits')})
    voc.update({('g', 'ANY'), ('c', '<<'), ('c', '__setitem__'), ('c', '__delitem__'), ('c', '()'), ('f', 'map')})
    return voc


def load_known():
    p = VERIF + '/known_findings.json'
    return json.load(open(p)) if os.path.exists(p) else []


def main(pid, tier, func, meta):
    t0 = time.time()
    ctx = Ctx(pid, tier)
    try:
        func(ctx)
    except FrontError as ex:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, ex))
        return 2
    except Exception:
        traceback.print_exc()
        print('ANALYSIS-BROKEN property=%s internal error' % pid)
        return 2
    if not ctx.obl:
        print('ANALYSIS-BROKEN property=%s no obligation could be formed' % pid)
        return 2
    known = [k for k in load_known() if k['property'] == pid and k.get('status') == 'known']
    viol = []
    for o in ctx.obl:
        if o['status'] != 'violated':
            continue
        for k in known:
            if k['obligation'] == o['name'] and re.search(k['match'], o['detail']):
                o['status'] = 'known-finding'
                print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
                break
        else:
            viol.append(o)
    nh = sum(1 for o in ctx.obl if o['status'] == 'holds')
    nu = [o for o in ctx.obl if o['status'] == 'undecided']
    if not viol:
        for o in nu:
            print('UNDECIDED property=%s %s: %s' % (pid, o['name'], o['detail'][:300]))
    outd = os.environ.get('VERIF_OUT', VERIF)
    os.makedirs(outd + '/evidence', exist_ok=True)
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': meta.get('level', 'other'),
          'coverage': {'explanation': meta.get('explanation', '') or 'static analysis of the current source; see DESIGN.md',
                       'rule': ' / '.join(ctx.rules) or meta.get('technique', ''),
                       'obligations': len(ctx.obl), 'discharged': nh, 'undecided': len(nu),
                       'functions_analysed': len(ctx.analysed), 'traces': ctx.traces, 'trace_pairs_compared': ctx.pairs,
                       'samples': [{k: o[k] for k in ('name', 'status', 'detail')} for o in ctx.obl][:400],
                       'analysed': sorted('%s (%s:%s)' % a for a in ctx.analysed)[:400]},
          'assumptions': ctx.assume + meta.get('assumptions', []),
          'wall_s': round(time.time() - t0, 3), 'violations': len(viol)}
    json.dump(ev, open(outd + '/evidence/%s.json' % pid, 'w'), indent=1)
    print('%s: %d obligations, %d discharged, %d undecided, %d known, %d violated; %d functions, %d traces, %d pairs, %.1fs' % (
        pid, len(ctx.obl), nh, len(nu), sum(1 for o in ctx.obl if o['status'] == 'known-finding'), len(viol), len(ctx.analysed), ctx.traces, ctx.pairs, time.time() - t0))
    if viol:
        d = outd + '/build/replay'
        os.makedirs(d, exist_ok=True)
        path = '%s/%s.json' % (d, pid)
        json.dump(viol, open(path, 'w'), indent=1, default=str)
        for o in viol:
            print('  %s  %s\n      %s' % (o.get('where', ''), o['name'], o['detail'][:1200]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0
