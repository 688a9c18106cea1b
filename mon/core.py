"""Shared machinery: case scheduling, verdicts, evidence, replays, known findings.

A property module (mon/cNN.py) provides
    ID, RULE, N = {'quick': n, 'thorough': n}, REQUIRED = {counter: minimum}
    case(i, rng, R, tier)      one deterministic case; reports through R
and optionally
    setup(tier)                run once in every worker
    final(R, tier)             run once in the parent after all cases were merged
    SAMPLES                    how many samples to keep
A case is a pure function of (seed, property, i, tier); that makes every violation
replayable with  run.py CNN --replay FILE.
"""
import json
import multiprocessing as mp
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MJ_REPO', '/repo')
PKG = os.path.join(REPO, 'MahjongAI')
EVID = os.environ.get('MJ_EVID') or os.path.join(VERIF, 'evidence')
SCALE = float(os.environ.get('MJ_SCALE', '1'))   # <1: shortened runs for mutation experiments, never a registered check
REPLAYS = os.path.join(EVID, 'replays')
KNOWN = os.path.join(VERIF, 'known-findings.txt')
CASE_LIMIT = 240


class Violation(Exception):
    """The code under test misbehaved in a way that ends the case."""

    def __init__(self, key, msg, info=None):
        Exception.__init__(self, key, msg, info)
        self.key, self.msg, self.info = key, msg, info


class CaseTimeout(BaseException):
    pass


class R:
    """What one case (or the merged run) observed."""

    def __init__(self, samples=8):
        self.counts = {}
        self.seen_ = set()
        self.samples = []
        self.viol = []          # (key, msg, info, case)
        self.rel = {}           # namespace -> {a: b}
        self.max_samples = samples
        self.case = None

    def ev(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def seen(self, key):
        self.seen_.add(hash_key(key))

    def sample(self, text):
        if len(self.samples) < self.max_samples:
            self.samples.append(str(text)[:600])

    def bad(self, key, msg, info=None):
        if len(self.viol) < 40:
            self.viol.append((key, str(msg)[:2000], info, self.case))

    def check(self, cond, key, msg, info=None):
        self.ev('evaluations')
        if not cond:
            self.bad(key, msg() if callable(msg) else msg, info)
        return cond

    def relate(self, ns, a, b, key='relation', one_to_one=True):
        """record that a maps to b; conflicting observations are violations"""
        for d, x, y in ((ns + '>', a, b), (ns + '<', b, a)) if one_to_one else ((ns + '>', a, b),):
            t = self.rel.setdefault(d, {})
            if x in t and t[x] != y:
                self.bad(key, '%s: %r was seen with both %r and %r' % (d, x, t[x], y))
            else:
                t[x] = y

    def merge(self, o):
        for k, v in o.counts.items():
            self.counts[k] = self.counts.get(k, 0) + v
        self.seen_ |= o.seen_
        for s in o.samples:
            self.sample(s)
        have = {v[0] for v in self.viol}
        for v in o.viol:
            if len(self.viol) < 60 or v[0] not in have:
                self.viol.append(v)
        for ns, d in o.rel.items():
            t = self.rel.setdefault(ns, {})
            for a, b in d.items():
                if a in t and t[a] != b:
                    self.case = o.case
                    self.bad('relation', '%s: %r was seen with both %r and %r' % (ns, a, t[a], b))
                else:
                    t[a] = b


def hash_key(key):
    import hashlib
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), 'big')


# ------------------------------------------------------------------ exceptions
def in_repo(tb):
    """innermost frame that belongs either to the code under test or to us"""
    where = None
    for f in traceback.extract_tb(tb):
        fn = os.path.abspath(f.filename)
        if fn.startswith(PKG + os.sep):
            where = 'repo'
        elif fn.startswith(VERIF + os.sep):
            where = 'verif'
    return where == 'repo'


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    loc = ''
    for f in tb:
        if os.path.abspath(f.filename).startswith(PKG + os.sep):
            loc = '%s:%s' % (os.path.basename(f.filename), f.name)
    return '%s in %s: %s' % (type(e).__name__, loc or '?', str(e)[:300])


# ------------------------------------------------------------------ scratch
class Scratch:
    def __init__(self):
        base = '/dev/shm' if os.path.isdir('/dev/shm') and os.access('/dev/shm', os.W_OK) else None
        try:
            self.dir = tempfile.mkdtemp(prefix='mjv_', dir=base)
        except OSError:
            self.dir = tempfile.mkdtemp(prefix='mjv_')

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


def disk_scratch():
    s = Scratch.__new__(Scratch)
    s.dir = tempfile.mkdtemp(prefix='mjv_')
    return s


# ------------------------------------------------------------------ workers
_MOD = None
_SEED = None
_TIER = None


def _alarm(sig, frm):
    raise CaseTimeout()


def run_case(mod, i, seed, tier):
    r = R(getattr(mod, 'SAMPLES', 8))
    r.case = i
    rng = random.Random('%s/%s/%s/%d' % (seed, mod.ID, tier, i))
    err = None
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(getattr(mod, 'LIMIT', CASE_LIMIT))
    try:
        mod.case(i, rng, r, tier)
    except Violation as e:
        r.bad(e.key, e.msg, e.info)
    except CaseTimeout as e:
        if in_repo(e.__traceback__):
            r.bad('hang', 'no result within %d s' % getattr(mod, 'LIMIT', CASE_LIMIT))
        else:
            err = 'case %d timed out in the harness' % i
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            err = 'case %d: %r' % (i, e)
        elif in_repo(e.__traceback__):
            r.bad('exception', describe(e), {'traceback': traceback.format_exc()[-3000:]})
        else:
            err = 'case %d: %s' % (i, traceback.format_exc())
    finally:
        signal.alarm(0)
    return r, err


def _worker_init(name, seed, tier):
    global _MOD, _SEED, _TIER
    import importlib
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    _MOD = importlib.import_module('mon.' + name)
    _SEED, _TIER = seed, tier
    if hasattr(_MOD, 'setup'):
        _MOD.setup(tier)


def _worker(chunk):
    out, errs = R(getattr(_MOD, 'SAMPLES', 8)), []
    for i in chunk:
        r, err = run_case(_MOD, i, _SEED, _TIER)
        out.case = i
        out.merge(r)
        if err:
            errs.append(err)
    return len(chunk), out, errs


def load_known(prop):
    """lines 'finding: property=<id> key=<key> <what>' and 'fixed: property=<id> <commit> <what>'"""
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            if line.startswith('finding:'):
                w = line.split(None, 3)
                if w[1] == 'property=' + prop and w[2].startswith('key='):
                    out[w[2][4:]] = w[3].strip() if len(w) > 3 else ''
    return out


def quiet_imports():
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    os.environ.setdefault('MKL_NUM_THREADS', '1')


def main(prop, tier, seed, replay=None, jobs=None):
    import importlib
    quiet_imports()
    name = prop.lower()
    t0 = time.time()
    if replay:
        info = json.load(open(replay))
        mod = importlib.import_module('mon.' + name)
        if hasattr(mod, 'setup'):
            mod.setup(info['tier'])
        total = R()
        if info.get('case') is not None:
            r, err = run_case(mod, info['case'], info['seed'], info['tier'])
            total.merge(r)
        else:
            err = None
            if hasattr(mod, 'final'):
                mod.final(total, info['tier'])
        if err:
            print(err)
        for k, m, inf, c in total.viol:
            print('case %s key=%s: %s' % (c, k, m))
            if inf:
                print(json.dumps(inf, indent=1, default=str)[:6000])
        return 1 if total.viol else (2 if err else 0)

    mod = importlib.import_module('mon.' + name)
    os.makedirs(REPLAYS, exist_ok=True)
    n = mod.N[tier] if SCALE == 1 else max(8, int(mod.N[tier] * SCALE))
    budget = getattr(mod, 'BUDGET', {'quick': 420, 'thorough': 780})[tier]
    jobs = jobs or getattr(mod, 'JOBS', min(8, os.cpu_count() or 1))
    total, errs, done = R(getattr(mod, 'SAMPLES', 8)), [], 0
    chunk = max(1, min(getattr(mod, 'CHUNK', 8), (n + jobs - 1) // jobs)) if n else 1
    chunks = [list(range(a, min(n, a + chunk))) for a in range(0, n, chunk)]
    stopped = None
    if chunks:
        ctx = mp.get_context('fork')
        pool = ctx.Pool(jobs, _worker_init, (name, seed, tier))
        try:
            it = pool.imap_unordered(_worker, chunks)
            hard = budget + getattr(mod, 'LIMIT', CASE_LIMIT)
            while True:
                left = budget - (time.time() - t0)
                try:
                    k, r, e = it.next(timeout=max(1.0, min(left, hard)))
                except StopIteration:
                    break
                except mp.TimeoutError:
                    if time.time() - t0 > budget:
                        stopped = 'time budget of %d s reached' % budget
                        break
                    continue
                done += k
                total.merge(r)
                errs += e
                if len(errs) > 20:
                    break
                if time.time() - t0 > budget:
                    stopped = 'time budget of %d s reached' % budget
                    break
                if len({v[0] for v in total.viol}) >= 1 and time.time() - t0 > 60:
                    stopped = 'stopped early after violations'
                    break
        finally:
            pool.terminate()
            pool.join()
    if hasattr(mod, 'final'):
        total.case = None
        try:
            mod.final(total, tier)
        except Violation as e:
            total.bad(e.key, e.msg, e.info)
        except BaseException as e:
            if in_repo(e.__traceback__):
                total.bad('exception', describe(e), {'traceback': traceback.format_exc()[-3000:]})
            else:
                errs.append(traceback.format_exc())

    known = load_known(prop)
    fresh, listed = [], {}
    for v in total.viol:
        if v[0] in known:
            listed[v[0]] = v
        else:
            fresh.append(v)
    for k in listed:
        print('KNOWN-FINDING: property=%s %s' % (prop, known[k]))
    vdesc = []
    by_key = {}
    for v in fresh:
        by_key.setdefault(v[0], v)
    for j, (k, v) in enumerate(list(by_key.items())[:5]):
        p = os.path.join(REPLAYS, '%s-%s-%d.json' % (prop, tier, j))
        with open(p, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'seed': seed, 'case': v[3], 'key': k,
                       'message': v[1], 'info': v[2]}, f, indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (prop, p))
        print('  key=%s case=%s: %s' % (k, v[3], v[1][:700]))
        vdesc.append({'key': k, 'message': v[1][:700], 'replay': p})

    need = {k: m if isinstance(m, int) else m[tier] for k, m in getattr(mod, 'REQUIRED', {}).items()} if SCALE == 1 else {}
    missing = ['%s: %d < %d' % (k, total.counts.get(k, 0), m) for k, m in need.items()
               if total.counts.get(k, 0) < m]
    code = 0
    if fresh:
        code = 1
    elif errs:
        code = 2
        print('INCONCLUSIVE property=%s: harness errors\n%s' % (prop, '\n'.join(errs[:3])))
    elif missing:
        code = 2
        print('INCONCLUSIVE property=%s: required observations missing: %s' % (prop, '; '.join(missing)))
    evals = total.counts.get('evaluations', 0)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'wall_s': round(time.time() - t0, 2),
          'coverage': {'evaluations': evals, 'distinct_nontrivial': len(total.seen_),
                       'rule': mod.RULE, 'samples': total.samples or ['none'],
                       'cases_run': done, 'cases_planned': n,
                       'observed': {k: v for k, v in sorted(total.counts.items())},
                       'relations': {k: len(v) for k, v in sorted(total.rel.items())}},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'violations': len(vdesc)}
    if vdesc:
        ev['coverage']['violations_seen'] = vdesc
    if stopped:
        ev['coverage']['stopped'] = stopped
    ev['result'] = {0: 'held', 1: 'violated', 2: 'inconclusive'}[code]
    tmp = os.path.join(EVID, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVID, '%s.json' % prop))
    print('%s %s: %s, %d cases, %d evaluations, %d distinct, %.1f s' % (
        prop, tier, ev['result'], done, evals, len(total.seen_), time.time() - t0))
    return code
