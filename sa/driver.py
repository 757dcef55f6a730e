"""Runs the jobs of one property in parallel and reports."""
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from .model import Program, AnalysisBroken
from .interp import Interp, Config, Budget
from .terms import *
from . import entries as EN

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('SA_EVIDENCE', VERIF)


class Result:
    """outcome of one job"""

    def __init__(self, label):
        self.label = label
        self.findings = []
        self.n = {}          # measured counts
        self.notes = []      # what could not be decided, and why
        self.funcs = set()
        self.samples = []

    def count(self, what, k=1):
        self.n[what] = self.n.get(what, 0) + k

    def note(self, msg):
        if msg not in self.notes:
            self.notes.append(msg)

    def find(self, rule, site, construct, msg):
        """site = (file, line, function)"""
        f = {'rule': rule, 'file': site[0], 'line': site[1], 'func': site[2], 'construct': construct,
             'msg': msg, 'entry': self.label}
        k = (rule, site[2], construct)
        for g in self.findings:
            if (g['rule'], g['func'], g['construct']) == k:
                return
        self.findings.append(f)

    def sample(self, s, limit=3):
        if len(self.samples) < limit and s not in self.samples:
            self.samples.append(s)


def _quote(it, st, recv, args, kw, ret):
    return [(st, ('pf', 'quote') + tuple(args[:1]))]


def _needs(it, st, recv, args, kw, ret):
    return [(st, ('b', ('needsq',) + tuple(args[:1]), True))]


DEF_OPAQUE = {'display': None, 'quote_if_necessary': _quote, 'needs_quotes': _needs}


def explore(prog, cls, meth, gtype='digraph', terms=None, kinds=None, omit=(), extra_setup=None, kwterms=None,
            res=None, selfkind=None, **cfgkw):
    """runs the abstract interpreter on one public operation from an arbitrary state of the graph"""
    fm = prog.cls(cls).lookup(meth)
    if fm is None:
        return None
    cfgkw.setdefault('opaque', DEF_OPAQUE)
    cfgkw.setdefault('max_steps', 1500000)
    cfgkw.setdefault('max_states', 2500)
    op = dict(cfgkw['opaque'])
    op.pop(meth, None)
    cfgkw['opaque'] = op
    cfg = Config(gtype=gtype, **cfgkw)
    cfg.deadline = cfg.deadline or DEADLINE[0]
    it = Interp(prog, cfg)
    c = prog.cls(cls)
    if c.is_subclass('Graph'):
        it.self_class = c
        it.skind['self'] = 'Graph'
    elif cls == 'Node':
        it.skind['self'] = 'Node'
    a = fm.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    nodef = len(pos) - len(a.defaults)
    args = [('s', 'self')]
    kw = {}
    for i, p in enumerate(pos[1:], 1):
        if p in omit and i >= nodef:
            continue
        v = (terms or {}).get(p, ('s', p))
        if v == ('s', p):
            it.skind[p] = (kinds or {}).get(p) or EN.param_kind(meth, p)
        if len(args) == i:
            args.append(v)
        else:
            kw[p] = v
    for x in a.kwonlyargs:
        if x.arg not in omit:
            it.skind[x.arg] = (kinds or {}).get(x.arg) or EN.param_kind(meth, x.arg)
            kw[x.arg] = (terms or {}).get(x.arg, ('s', x.arg))
    kws = ()
    if a.kwarg is not None and a.kwarg.arg not in omit:
        it.skind[a.kwarg.arg] = 'attrs'
        kws = (('s', a.kwarg.arg),)
    for k, v in (kwterms or {}).items():
        kw[k] = v

    def setup(st):
        st.put(('f', ('s', 'self'), 'graph_type'), ('c', 'str', gtype))
        if extra_setup:
            extra_setup(it, st)
    outs = it.run_entry(fm, args, kw, setup, kwspread=kws)
    if res is not None:
        res.count('entries')
        res.count('paths', len(outs))
        res.count('steps', it.steps)
        res.funcs |= it.visited_funcs
        for u in it.unsupported:
            res.note('construct not modelled: %s' % u)
    return it, outs


DEADLINE = [None]
_P = {}


def _worker(job):
    label, fn, args, limit = job
    res = Result(label)
    t = time.time()
    DEADLINE[0] = t + limit

    def alarm(*a):
        raise Budget('time limit')
    signal.signal(signal.SIGALRM, alarm)
    signal.setitimer(signal.ITIMER_REAL, limit * 1.15 + 5)
    try:
        fn(_P['prog'], res, *args)
        res.count('jobs_decided')
    except Budget as e:
        res.note('not decided within the effort bound: %s' % e)
        res.count('jobs_undecided')
        if not getattr(res, 'keep', False):
            res.findings = []
    except AnalysisBroken as e:
        res.note('anchor missing: %s' % e)
        res.count('jobs_undecided')
    except RecursionError:
        res.note('not decided: recursion depth')
        res.count('jobs_undecided')
        res.findings = []
    except Exception as e:      # an analysis failure is never reported as a violation
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res.note('analysis failed: %s: %s at %s:%s' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
        if os.environ.get('SA_DEBUG'):
            traceback.print_exc()
        res.count('jobs_failed')
        res.findings = []
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    res.wall = time.time() - t
    return res


def run_property(mod, tier, seed, only=None, procs=None):
    t0 = time.time()
    _P['prog'] = prog = Program()
    jobs = []
    for j in mod.jobs(prog, tier):
        label, fn, args = j[:3]
        limit = j[3] if len(j) > 3 else (150 if tier == 'quick' else 420)
        if only and only not in label:
            continue
        jobs.append((label, fn, args, limit))
    results = []
    n = procs or min(8, os.cpu_count() or 1)
    if n == 1 or len(jobs) <= 1:
        results = [_worker(j) for j in jobs]
    else:
        _P['jobs'] = jobs
        ctx = mp.get_context('fork')
        with ctx.Pool(n, maxtasksperchild=20) as pool:
            results = list(pool.imap_unordered(_windex, range(len(jobs)), chunksize=1))
    results.sort(key=lambda r: r.label)
    return prog, jobs, results, time.time() - t0


def _windex(i):
    return _worker(_P['jobs'][i])


def known_findings(pid):
    p = os.path.join(VERIF, 'known-findings.json')
    try:
        with open(p) as f:
            d = json.load(f)
    except FileNotFoundError:
        return []
    return [x for x in d.get('known', []) if x['property'] == pid]


def main(mod, argv):
    pid = mod.ID
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = None
    verbose = False
    for a in argv:
        if a == '-v':
            verbose = True
        elif a == '--thorough':
            tier = 'thorough'
        else:
            only = a
    prog, jobs, results, wall = run_property(mod, tier, seed, only)
    tot, funcs, notes, samples, finds = {}, set(), [], [], []
    for r in results:
        for k, v in r.n.items():
            tot[k] = tot.get(k, 0) + v
        funcs |= r.funcs
        notes.extend('%s: %s' % (r.label, x) for x in r.notes)
        for s in r.samples:
            if len(samples) < 12:
                samples.append('%s: %s' % (r.label, s))
        for f in r.findings:
            k = (f['rule'], f['func'], f['construct'])
            for g in finds:
                if (g['rule'], g['func'], g['construct']) == k:
                    g.setdefault('also', []).append(f['entry'])
                    break
            else:
                finds.append(f)
    known = known_findings(pid)
    viol, hits = [], []
    for f in finds:
        k = next((x for x in known if x['rule'] == f['rule'] and x['func'] == f['func']
                  and x['construct'] == f['construct']), None)
        (hits if k else viol).append((f, k))
    os.makedirs(os.path.join(EVID, 'evidence'), exist_ok=True)
    broken = None
    need = getattr(mod, 'MINIMUM', {})
    if not only:
        for k, v in need.items():
            if tot.get(k, 0) < v:
                broken = 'only %d %s were found (at least %d are expected)' % (tot.get(k, 0), k, v)
    cov = {'explanation': mod.EXPLANATION, 'rule': mod.RULE, 'functions_analysed': sorted(funcs),
           'counts': tot, 'samples': samples, 'jobs': len(jobs),
           'undecided': notes[:200], 'slowest': ['%s %.1fs' % (r.label, r.wall) for r in
                                                 sorted(results, key=lambda r: -r.wall)[:5]]}
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(wall, 2), 'violations': len(viol)}
    if viol:
        ev['coverage']['violations'] = [f for f, _ in viol]
    if not only:
        with open(os.path.join(EVID, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
            f.write('\n')
    print('%s: %d jobs in %.1fs, %s' % (pid, len(jobs), wall, ', '.join('%s=%s' % kv for kv in sorted(tot.items()))))
    if verbose:
        for n in notes:
            print('  note', n)
        for s in cov['slowest']:
            print('  slow', s)
        for s in samples:
            print('  sample', s)
    for f, k in hits:
        print('KNOWN-FINDING: property=%s %s' % (pid, k.get('what', f['msg'])))
    if viol:
        rp = os.path.join(EVID, 'evidence', 'replay-%s.txt' % pid)
        with open(rp, 'w') as f:
            for x, _ in viol:
                f.write('%s:%s in %s [%s]\n  %s\n  construct: %s\n  reached from: %s\n'
                        % (x['file'], x['line'], x['func'], x['rule'], x['msg'], x['construct'],
                           ', '.join([x['entry']] + x.get('also', []))))
            f.write('\nrule: %s\nreplay: python3 %s/check.py %s\n' % (mod.RULE, VERIF, pid))
        for x, _ in viol:
            print('  %s:%s in %s [%s] %s' % (x['file'], x['line'], x['func'], x['rule'], x['msg']))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if broken:
        print('ANALYSIS-BROKEN: ' + broken)
        return 2
    return 0
