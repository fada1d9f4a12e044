"""Framework of the checks: obligations, parallel discharge, verdicts, evidence."""
import json
import os
import signal
import sys
import time
import traceback
from concurrent.futures import ProcessPoolExecutor
from . import cfront

VERIF = cfront.VERIF
OK, BAD, UNK = 'ok', 'violation', 'undecided'


class AnalysisBroken(Exception):
    """An anchor vanished or the sources cannot be analysed: no verdict."""


class Ob(object):
    """One obligation: a rule applied to one construct."""

    def __init__(self, key, status, where='', msg='', rule='', data=None):
        self.key, self.status, self.where, self.msg, self.rule = key, status, where, msg, rule
        self.data = data or {}

    def asdict(self):
        return {'key': self.key, 'status': self.status, 'where': self.where, 'msg': self.msg,
                'rule': self.rule, 'data': self.data}


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


_JOBS = []


def _run(i):
    key, f, args, limit = _JOBS[i]
    sys.setrecursionlimit(100000)
    t0 = time.time()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        r = f(*args)
    except Timeout:
        r = [Ob(key, UNK, msg='time limit of %d s' % limit)]
    except AnalysisBroken as e:
        r = [Ob(key, 'broken', msg=str(e))]
    except RecursionError:
        r = [Ob(key, UNK, msg='recursion limit')]
    except Exception:
        r = [Ob(key, UNK, msg='not analysable: ' + traceback.format_exc()[-700:])]
    finally:
        signal.alarm(0)
    if isinstance(r, Ob):
        r = [r]
    for o in r:
        o.data.setdefault('seconds', round(time.time() - t0, 2))
    return r


class Check(object):
    def __init__(self, prop, tier, seed, title=''):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.obs = []
        self.jobs = []
        self.rules = {}
        self.analysed = {}
        self.assumptions = []
        self.floor = 0
        self.t0 = time.time()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def rule(self, name, text):
        self.rules[name] = text

    def note(self, k, v):
        """What was analysed (measured counts or lists)."""
        self.analysed[k] = v

    def add(self, *a, **k):
        o = a[0] if isinstance(a[0], Ob) else Ob(*a, **k)
        self.obs.append(o)
        return o

    def job(self, key, f, *args, limit=None):
        self.jobs.append((key, f, args, limit or (600 if self.thorough else 200)))

    def run_jobs(self, workers=int(os.environ.get('NMTVERIF_WORKERS', '8'))):
        global _JOBS
        if not self.jobs:
            return
        _JOBS = self.jobs
        # longest first: jobs are listed by their rule in any order
        if len(self.jobs) == 1 or os.environ.get('NMTVERIF_SERIAL'):
            res = [_run(i) for i in range(len(self.jobs))]
        else:
            import multiprocessing as mp
            with ProcessPoolExecutor(max_workers=min(workers, len(self.jobs)),
                                     mp_context=mp.get_context('fork')) as ex:
                res = list(ex.map(_run, range(len(self.jobs))))
        self.jobs = []
        for r in res:
            self.obs.extend(r)


def known():
    """known_findings.txt: 'known: property=<id> key=<key> <text>' suppresses exactly that key."""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('known:'):
                f = line.split(None, 3)
                out[(f[1].split('=', 1)[1], f[2].split('=', 1)[1])] = f[3].strip()
    return out


def finish(c, level_note='', quiet=False):
    """Writes the evidence, prints the verdict, returns the exit status."""
    ev = os.environ.get('NMTVERIF_EVID') or os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    kf = known()
    bad, kn, broken = [], [], []
    seen = set()
    for o in c.obs:
        if o.status == 'broken':
            broken.append(o)
        elif o.status == BAD:
            if (c.prop, o.key) in kf:
                kn.append(o)
            elif o.key not in seen:
                seen.add(o.key)
                bad.append(o)
    cnt = {}
    for o in c.obs:
        cnt[o.status] = cnt.get(o.status, 0) + 1
    byrule = {}
    for o in c.obs:
        d = byrule.setdefault(o.rule or 'rule', {})
        d[o.status] = d.get(o.status, 0) + 1
    if len(c.obs) < c.floor:
        broken.append(Ob('floor', 'broken', msg='%d obligations, at least %d expected'
                         % (len(c.obs), c.floor)))
    if not cnt.get(OK) and not bad:
        broken.append(Ob('vacuous', 'broken', msg='no obligation could be decided'))
    data = {
        'property': c.prop, 'tier': c.tier, 'seed': c.seed, 'level': 'other',
        'coverage': {
            'explanation': 'Static analysis of the current sources in %s; nothing is executed. '
                           'Each obligation is a rule applied to one construct; counts are of this '
                           'run.' % cfront.REPO,
            'obligations': len(c.obs), 'discharged': cnt.get(OK, 0),
            'undecided': cnt.get(UNK, 0), 'by_rule': byrule, 'rules': c.rules,
            'analysed': c.analysed,
            'samples': [o.asdict() for o in c.obs if o.status == OK][:12],
            'undecided_list': [(o.key, o.msg[:300]) for o in c.obs if o.status == UNK][:int(os.environ.get('NMTVERIF_LIST', 60))],
            'all_keys': sorted(set(o.key for o in c.obs))[:600],
        },
        'assumptions': c.assumptions,
        'wall_s': round(time.time() - c.t0, 2),
        'violations': len(bad),
    }
    with open(os.path.join(ev, c.prop + '.json'), 'w') as f:
        json.dump(data, f, indent=1, default=str)
    for o in kn:
        print('KNOWN-FINDING: property=%s %s [%s]' % (c.prop, kf[(c.prop, o.key)], o.key))
    if bad:
        rp = os.path.join(ev, c.prop + '.violations.txt')
        with open(rp, 'w') as f:
            for o in bad:
                f.write('property %s\nrule: %s (%s)\nconstruct: %s\nwhere: %s\n%s\n%s\n\n' % (
                    c.prop, o.rule, c.rules.get(o.rule, ''), o.key, o.where, o.msg,
                    '\n'.join('%s: %s' % kv for kv in o.data.items())))
        for o in bad[:20]:
            print('%s: [%s] %s: %s' % (o.where or '?', o.rule, o.key, o.msg[:600]))
        print('VIOLATION property=%s replay=%s' % (c.prop, rp))
        return 1
    if broken:
        for o in broken[:10]:
            print('ANALYSIS-BROKEN property=%s %s: %s' % (c.prop, o.key, o.msg))
        return 2
    if not quiet:
        print('property %s: %d obligations, %d hold, %d undecided (%.1f s)' % (
            c.prop, len(c.obs), cnt.get(OK, 0), cnt.get(UNK, 0), time.time() - c.t0))
    return 0
