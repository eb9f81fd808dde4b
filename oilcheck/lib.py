"""Shared pieces of the rules: obligations, reports, evidence."""
import json
import os
import signal
import sys
import time
import traceback
from . import nodes as nd
from .nodes import N
from .interp import AnalysisError, PathDead

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('OILCHECK_REPO', '/repo')


class Broken(Exception):
    """a public entry point the rule is anchored on is gone"""


class Check:
    def __init__(self, pid, tier='quick', seed=1):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.t0 = time.time()
        self.obl = []           # dicts
        self.funcs = set()
        self.worlds = 0
        self.rules = {}
        self.notes = []
        self.keys = set()

    @property
    def points(self):
        return 60 if self.tier == 'quick' else 400

    # -------------------------------------------------------------- recording
    def rule(self, name, text):
        self.rules[name] = text

    def add(self, rule, construct, status, detail='', where=''):
        """status: proved | agreed | violated | undecided"""
        self.obl.append({'rule': rule, 'construct': construct, 'status': status, 'detail': detail, 'where': where})

    def ok(self, rule, construct, cond, detail='', where='', how='proved'):
        self.add(rule, construct, how if cond else 'violated', '' if cond else detail, '' if cond else where)
        return cond

    def equal(self, rule, construct, got, want, world=None, where=None, what='', **kw):
        from .ri import equiv, fmt
        kw.setdefault('points', self.points)
        kw.setdefault('seed', self.seed)
        v = equiv(got, want, world, **kw)
        if v.kind == 'equal':
            self.add(rule, construct, 'proved' if v.how == 'normal form' else 'agreed')
        elif v.kind == 'undecided':
            self.add(rule, construct, 'undecided', v.how, where or '')
        else:
            w = where or (blame(world, got, want) if world is not None else '')
            near = ', '.join('%s=%s' % (k, fmt(x)) for k, x in list(v.witness.items())[:8])
            d = '%s: source computes  %s  expected  %s  (at %s: %s vs %s)' % (
                what or construct, clip(nd.show(got, 5)), clip(nd.show(want, 5)), near, fmt(v.va), fmt(v.vb))
            self.add(rule, construct, 'violated', d, w)
        return v.kind == 'equal'

    def holds(self, rule, construct, cond, world=None, where=None, what='', **kw):
        """a boolean node is true at every admissible point"""
        from .ri import equiv, fmt
        if cond is nd.TRUE:
            self.add(rule, construct, 'proved')
            return True
        kw.setdefault('points', self.points)
        kw.setdefault('seed', self.seed)
        v = equiv(cond, nd.TRUE, world, **kw)
        if v.kind == 'equal':
            self.add(rule, construct, 'proved' if v.how == 'normal form' else 'agreed')
        elif v.kind == 'undecided':
            self.add(rule, construct, 'undecided', v.how, where or '')
        else:
            near = ', '.join('%s=%s' % (k, fmt(x)) for k, x in list(v.witness.items())[:8])
            self.add(rule, construct, 'violated', '%s does not hold: %s  (at %s)' % (what or construct, clip(nd.show(cond, 6)), near),
                     where or (locate(world, cond) if world is not None else ''))
        return v.kind == 'equal'

    def absorb(self, ip):
        self.worlds += 1
        self.funcs |= {'%s:%s' % (short(a), b) for a, b in ip.functions_analysed}
        for o in ip.opaque:
            self.notes.append(str(o))

    # -------------------------------------------------------------- finishing
    def finish(self):
        known = load_known()
        viol = [o for o in self.obl if o['status'] == 'violated']
        new, seen = [], {}
        for o in viol:
            key = (o['rule'], o['construct'])
            if key in seen:
                continue
            seen[key] = 1
            if (self.pid, o['rule'], o['construct']) in known:
                print('KNOWN-FINDING: property=%s [%s] %s: %s' % (self.pid, o['rule'], o['construct'],
                                                                known[(self.pid, o['rule'], o['construct'])]))
            else:
                new.append(o)
        und = [o for o in self.obl if o['status'] == 'undecided']
        n = {s: sum(1 for o in self.obl if o['status'] == s) for s in ('proved', 'agreed', 'violated', 'undecided')}
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'other',
              'coverage': {
                  'explanation': 'Static analysis of the source under %s: abstract interpretation into a gated, hash-consed value graph; '
                                 'no code of the repository is run. Rules: %s' % (REPO, ' | '.join('%s: %s' % kv for kv in self.rules.items())),
                  'obligations': len(self.obl), 'discharged': n['proved'] + n['agreed'],
                  'discharged_by_normal_form_or_rule': n['proved'],
                  'discharged_by_random_interpretation': n['agreed'],
                  'undecided': n['undecided'], 'known_findings': len(seen) - len(new),
                  'worlds_interpreted': self.worlds, 'functions_analysed': len(self.funcs),
                  'functions': sorted(self.funcs)[:200],
                  'samples': [{'rule': o['rule'], 'construct': o['construct'], 'status': o['status']} for o in self.obl[:40]],
                  'undecided_list': [{'rule': o['rule'], 'construct': o['construct'], 'why': o['detail']} for o in und[:40]],
                  'opaque_constructs': sorted(set(self.notes))[:30]},
              'violations': len(new), 'wall_s': round(time.time() - self.t0, 2),
              'assumptions': ['the models of torch, numpy and Python built-ins in oilcheck/ext.py',
                              'real arithmetic instead of floating point; division guards below 1e-6 relative are ignored']}
        d = os.environ.get('OILCHECK_EVIDENCE', os.path.join(ROOT, 'evidence'))
        os.makedirs(d, exist_ok=True)
        if new:
            rp = os.path.join(d, '%s.violation.txt' % self.pid)
            with open(rp, 'w') as f:
                for o in new:
                    f.write('property %s\nrule     %s: %s\ninstance %s\nwhere    %s\n%s\n\n' % (
                        self.pid, o['rule'], self.rules.get(o['rule'], ''), o['construct'], o['where'], o['detail']))
        with open(os.path.join(d, '%s.json' % self.pid), 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        print('%s: %d obligations, %d proved, %d agreed, %d undecided, %d known; %d worlds, %d functions, %.1f s' % (
            self.pid, len(self.obl), n['proved'], n['agreed'], n['undecided'], len(seen) - len(new), self.worlds, len(self.funcs),
            time.time() - self.t0))
        for o in und:
            print('UNDECIDED [%s] %s: %s' % (o['rule'], o['construct'], clip(o['detail'], 300)))
        for o in new:
            print('  [%s] %s  at %s\n    %s' % (o['rule'], o['construct'], o['where'], clip(o['detail'], 900)))
            print('VIOLATION property=%s replay=%s' % (self.pid, os.path.join('evidence', '%s.violation.txt' % self.pid)))
        if not self.obl:
            print('no obligation was generated: the analysis found nothing to check')
            return 2
        return 1 if new else 0


def clip(s, n=420):
    return s if len(s) <= n else s[:n] + ' …'


def load_known():
    out = {}
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p, encoding='utf-8'):
            l = l.strip()
            if l.startswith('finding: '):
                d = json.loads(l[len('finding: '):])
                out[(d['property'], d['rule'], d['construct'])] = d['what']
    return out


def locate(world, n):
    """source position that created node n (or its nearest sub node)"""
    pr = world.ip.prov.get(n.id)
    if pr:
        return '%s:%d (%s)' % (short(pr[0]), pr[1], pr[2])
    best = None
    for x in nd.walk(n):
        pr = world.ip.prov.get(x.id)
        if pr and (best is None or pr[1] > best[1]):
            best = pr
    return '%s:%d (%s)' % (short(best[0]), best[1], best[2]) if best else ''


def short(p):
    p = str(p)
    return p[len(REPO) + 1:] if p.startswith(REPO + '/') else p


def blame(world, got, want):
    """a construct of got which the expected value does not contain"""
    have = set(nd.walk(want))
    cand = []
    for x in nd.walk(got):
        if x not in have and x.id in world.ip.prov:
            subs = sum(1 for y in x.args for z in ([y] if isinstance(y, N) else [])
                       if z not in have)
            cand.append((len(list(nd.walk(x))), x))
    if cand:
        cand.sort(key=lambda t: t[0])
        # smallest new constructs first
        out = []
        for _, x in cand[:3]:
            p = world.ip.prov[x.id]
            s = '%s:%d (%s)' % (short(p[0]), p[1], p[2])
            if s not in out:
                out.append(s)
        return ', '.join(out)
    return locate(world, got)


def main(rules):
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    sys.setrecursionlimit(20000)
    c = Check(pid, tier, seed)
    f = rules.get(pid)
    if f is None:
        print('no rule for ' + pid)
        sys.exit(2)
    def late(*a):
        raise Late()
    signal.signal(signal.SIGALRM, late)
    signal.alarm(int(os.environ.get('OILCHECK_LIMIT', '800')))
    try:
        f(c)
    except Broken as e:
        print('ANALYSIS BROKEN: %s' % e)
        sys.exit(2)
    except Late:
        c.add('analysis', 'time limit', 'undecided', 'the analysis did not finish in time; what was decided before is reported')
    except Exception as e:
        if os.environ.get('OILCHECK_DEBUG'):
            traceback.print_exc()
        c.add('analysis', 'internal', 'undecided', '%s: %s' % (type(e).__name__, e))
    signal.alarm(0)
    sys.exit(c.finish())


class Late(BaseException):
    pass


def guarded(c, rule, construct, f, *a, **k):
    """run one rule instance; a construct the analysis cannot follow is an undecided obligation"""
    try:
        return f(*a, **k)
    except Broken:
        raise
    except Exception as e:
        if os.environ.get('OILCHECK_DEBUG'):
            traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)[-1]
        c.add(rule, construct, 'undecided', '%s: %s (%s:%d)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno))
        return None
