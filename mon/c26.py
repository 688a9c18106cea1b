"""C26: running the library leaves nothing behind but its results."""
import contextlib
import ctypes
import gc
import hashlib
import io
import os
import random
import signal
import sys
import threading
import weakref
from . import mj, obs, sim, core, models, trainer, c16, c20

ID = 'C26'
N = {'quick': 48, 'thorough': 480}
CHUNK = 1
RULE = ('state of the process (open files, directory, environment, random generators, numeric settings, threads, signal '
        'handlers) and of the disk before and after processing mixed logs and passes of the loader; live decision '
        'points, situations and tensors counted at every batch of long passes, validations and training runs; distinct '
        'per way of running and set of games')
REQUIRED = {'snapshots': 20, 'failed_logs': 12, 'files_compared': 300, 'repeats': 60, 'pass_batches': 80, 'held_counts': 200,
            'train_batches': 60, 'train_steps': 90, 'validations': 15, 'abandoned': 3}
ASSUMPTIONS = ['memory is watched as numbers of live Python objects and tensors and as bytes allocated by Python']
STEPS = 45


def setup(tier):
    trainer.preload()


def tree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for n in sorted(ds):
            p = os.path.join(d, n)
            st = os.lstat(p)
            out[os.path.relpath(p, root)] = ('link', os.readlink(p)) if os.path.islink(p) else ('dir', st.st_mode)
        for n in sorted(fs):
            p = os.path.join(d, n)
            st = os.lstat(p)
            out[os.path.relpath(p, root)] = ('link', os.readlink(p)) if os.path.islink(p) else (
                'file', st.st_mode, st.st_size, st.st_mtime_ns, hashlib.md5(open(p, 'rb').read()).hexdigest())
    return out


def fds():
    out = {}
    for n in os.listdir('/proc/self/fd'):
        try:
            out[n] = os.readlink('/proc/self/fd/' + n)
        except OSError:
            pass
    return sorted(v for v in out.values() if not v.startswith(('pipe:', '/proc/')))


def reseed(rng):
    import numpy as np
    import torch
    n = rng.randrange(1 << 30)
    random.seed(n)
    np.random.seed(n)
    torch.manual_seed(n)


def state():
    """everything about this process a user of the library would not expect to change"""
    import numpy as np
    import torch
    gc.collect()
    m = os.umask(0o22)
    os.umask(m)
    return {
        'open files': fds(),
        'working directory': os.getcwd(),
        'environment': dict(os.environ),
        'umask': m,
        'random state': hashlib.md5(repr(random.getstate()).encode()).hexdigest(),
        'numpy random state': hashlib.md5(repr([x if not hasattr(x, 'tobytes') else x.tobytes() for x in np.random.get_state()]).encode()).hexdigest(),
        'torch random state': hashlib.md5(torch.get_rng_state().numpy().tobytes()).hexdigest(),
        'numpy error handling': dict(np.geterr()),
        'numpy printing': repr(sorted((k, v) for k, v in np.get_printoptions().items())),
        'torch types': repr((torch.get_default_dtype(), torch.is_grad_enabled(), torch.get_num_threads(), torch.are_deterministic_algorithms_enabled())),
        'threads': threading.active_count(),
        'signal handlers': repr([str(signal.getsignal(s)) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGALRM, signal.SIGPIPE)]),
        'recursion limit': sys.getrecursionlimit(),
        'module path': list(sys.path),
        'audit of output': (sys.stdout is sys.__stdout__ or type(sys.stdout).__name__, type(sys.stderr).__name__),
        'gc': (gc.isenabled(), gc.get_threshold()),
    }


CLS = ('MahjongAI.turn', 'MahjongAI.state', 'MahjongAI.decision', 'MahjongAI.draw')


def live():
    gc.collect()
    return sum(1 for o in gc.get_objects() if type(o).__module__ in CLS)


def tensors():
    import torch
    gc.collect()
    return sum(1 for o in gc.get_objects() if issubclass(type(o), torch.Tensor))


class _Mall(ctypes.Structure):
    _fields_ = [(x, ctypes.c_size_t) for x in ('arena', 'ordblks', 'smblks', 'hblks', 'hblkhd', 'usmblks', 'fsmblks', 'uordblks', 'fordblks', 'keepcost')]


def native():
    """bytes in use outside Python's own allocator (tensors and what autograd keeps); None where unknown"""
    try:
        f = ctypes.CDLL(None).mallinfo2
    except (OSError, AttributeError):
        return None
    f.restype = _Mall
    m = f()
    return m.uordblks + m.hblkhd


def held(root):
    """repository objects reachable from root"""
    seen, todo, n = set(), [root], 0
    while todo:
        o = todo.pop()
        if id(o) in seen or isinstance(o, (type, str, int, float)) or type(o).__module__ in ('builtins', 'numpy') and not isinstance(o, (list, tuple, dict, set)):
            continue
        seen.add(id(o))
        n += type(o).__module__ in CLS
        todo += gc.get_referents(o)
    return n


def biggest(d):
    """objects of the largest game below d"""
    most = 0
    for dd, _, ff in os.walk(d):
        for n in ff:
            with contextlib.suppress(Exception):
                most = max(most, held(obs.process(os.path.join(dd, n))))
    return most


def logs(rng, root, n):
    """n logs (every third one unusable) of small games"""
    go, sims = sim.make_game(rng, 2, styles=['micro', 'fives', 'near'], wins=False)
    out, bad = [], 0
    for j in range(n):
        p = os.path.join(root, 'g%02d.log' % j)
        if j % 3 == 2:
            c20.bad_file(rng, p, sims, go)
            bad += 1
        else:
            ev = rng.choice(sims).events
            at = [x for x in range(2, len(ev)) if ev[x - 1][0][0] in 'TUVW' and ev[x - 1][0][1:].isdigit()]
            sim.write_game(p, go, [ev[:rng.choice(at)] + [c20.END] for _ in range(rng.randint(1, 2))])
        out.append(p)
    return out, bad


def compare(R, ctx, a, b):
    R.ev('snapshots')
    for k in a:
        R.check(a[k] == b[k], 'state', lambda: '%s: the %s changed: %r -> %r' % (ctx, k, a[k], b[k]))


def compare_tree(R, ctx, a, b, new=()):
    R.ev('files_compared', len(a))
    R.ev('evaluations', len(a))
    ch = [p for p in a if a[p] != b.get(p)]
    more = [p for p in b if p not in a and not any(p == n or p.startswith(n) and n[-1] in '/_' for n in new)]
    if ch:
        R.bad('changed', '%s: changed or lost files %r' % (ctx, ch[:6]))
    if more:
        R.bad('created', '%s: created %r' % (ctx, more[:6]))


def one(path):
    try:
        r = obs.process(path)
        return bool(r)
    except Exception:
        return False


def case(i, rng, R, tier):
    kind = ('process', 'loader', 'repeat', 'validate', 'loader', 'train')[i % 6]
    with core.Scratch() as s:
        os.chdir(s.dir)
        try:
            C = Case(s.dir)
            how, out = c20.child(lambda: C.run(globals()[kind + '_case'], rng.randrange(1 << 30), i), 230)
        finally:
            os.chdir('/')
    if how != 'ok':
        R.bad('ended', '%s: the process ended: %s %r' % (kind, how, out))
        return
    for k, v in out['counts'].items():
        R.ev(k, v)
    for k, msg in out['viol']:
        R.bad(k, msg)
    for x in out['seen']:
        R.seen(x)
    for x in out['samples']:
        R.sample(x)


class Case:
    """runs in the child; collects what the parent reports"""

    def __init__(self, root):
        self.root = root

    def run(self, fn, seed, i):
        R = core.R()
        fn(random.Random(seed), R, self.root, i)
        return dict(counts=R.counts, viol=[(v[0], v[1]) for v in R.viol], seen=[int(x) for x in R.seen_], samples=R.samples)


def process_case(rng, R, root, i):
    paths, bad = logs(rng, root, rng.randint(6, 12))
    one(paths[0])           # imports, caches
    t0 = tree(root)
    reseed(rng)
    a = state()
    ok = 0
    for p in paths:
        ok += one(p)
    b = state()
    R.ev('failed_logs', len(paths) - ok)
    compare(R, 'after processing %d logs, %d of them refused' % (len(paths), len(paths) - ok), a, b)
    compare_tree(R, 'after processing', t0, tree(root))
    # a failing log alone, while the exception is still held by the caller
    for p in paths:
        n = fds()
        keep = None
        try:
            obs.process(p)
        except Exception as e:
            keep = e
        m = fds()
        R.check(n == m, 'open-file', lambda: 'the log is still open after processing %s: %r' % ('failed' if keep else 'succeeded', m))
        with contextlib.suppress(OSError):
            if os.path.isfile(p) and not os.path.islink(p):         # nothing holds on to the file: it can be replaced
                os.rename(p, p + '.old')
                os.rename(p + '.old', p)
        del keep
    R.seen(('process', len(paths), ok, i))
    R.sample('%d logs, %d refused: state and files unchanged' % (len(paths), len(paths) - ok))


def repeat_case(rng, R, root, i):
    """the same and ever new files, again and again: nothing accumulates"""
    import tracemalloc
    paths, bad = logs(rng, root, 6)
    texts = [open(p, 'rb').read() for p in paths if os.path.isfile(p)]

    def go(n):
        for j in range(n):
            for k, x in enumerate(texts):
                p = os.path.join(root, 'n%d_%d.log' % (go.n, k))
                open(p, 'wb').write(x)
                one(p)
                os.remove(p)
            go.n += 1
            R.ev('repeats')
    go.n = 0
    go(3)
    tracemalloc.start()
    go(2)
    l0, m0 = live(), tracemalloc.get_traced_memory()[0]
    n = 8
    go(n)
    l1, m1 = live(), tracemalloc.get_traced_memory()[0]
    tracemalloc.stop()
    R.ev('held_counts', 2)
    R.check(l1 <= l0, 'held', '%d decision points and situations are still in memory after processing %d logs whose results were dropped, %d before' % (l1, n * len(texts), l0))
    per = (m1 - m0) / (n * len(texts))
    R.check(per < 1500, 'memory', 'memory grows by %d bytes per processed log (%d logs)' % (per, n * len(texts)))
    R.seen(('repeat', len(texts), i))
    R.sample('%d logs processed again and again: %+d live objects, %+d bytes' % (n * len(texts), l1 - l0, m1 - m0))


def loader_case(rng, R, root, i):
    from MahjongAI.utils.dataloader import DataLoader
    d = os.path.join(root, 'games')
    os.mkdir(d)
    paths, bad = logs(rng, d, rng.choice([15, 24, 36]))
    one(paths[0])
    t0 = tree(root)
    base = live()
    most = biggest(d)       # a loader may well read ahead by a game or two
    spare = 3 * most + 40
    reseed(rng)
    a = state()
    size = rng.choice([1, 2, 3])
    with contextlib.redirect_stdout(io.StringIO()):
        dl = DataLoader(d, size, lambda *x: None)
        for what in rng.choice([('full', 'full'), ('abandon', 'full')]):
            peak = 0
            batch = None
            for k, batch in enumerate(dl):
                own = held(batch)
                now = live() - base
                R.ev('pass_batches')
                R.ev('held_counts')
                peak = max(peak, now - own)
                R.check(now <= own + spare, 'held', lambda: 'batch %d of a pass: %d decision points, situations and options are in memory, the batch itself has %d' % (k, now, own))
                if what == 'abandon' and k == 2:
                    R.ev('abandoned')
                    break
            batch = None
            now = live() - base
            R.check(now <= spare, 'held', lambda: 'after a %s pass %d objects of its games are still in memory' % (what, now))
            dl.reset()
    del dl
    b = state()
    compare(R, 'after two passes of the loader', a, b)
    compare_tree(R, 'after two passes of the loader', t0, tree(root))
    R.seen(('loader', len(paths), size, i))
    R.sample('%d files in batches of %d (at most %d objects outside the batch, the largest game has %d): state, files and memory unchanged' % (len(paths), size, peak, most))


def validate_case(rng, R, root, i):
    import torch
    import MahjongAI.supervised_learning as sl
    from MahjongAI.utils.dataloader import DataLoader
    trainer.make_data(rng, root, val=rng.choice([6, 12, 25]), years=[], bad=0.3, draws=(1, 3))
    d = os.path.join(root, 'data', 'processed', '2021')
    fam = rng.choice(models.NAMES[:2])
    m = models.new(fam, 1, i)
    m.train()
    size = rng.choice([1, 2])
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        dl = DataLoader(d, size, lambda *x: None)
        sl.estimate_loss(dl, m, size)
        t0 = tree(root)
        base, tens = live(), tensors()
        reseed(rng)
        a = state()
        rec = []

        def hook(mod, args, kwargs):
            if mod is m:
                own = sum(held(x) for x in list(args) + list(kwargs.values()) if isinstance(x, (list, tuple)))
                rec.append((live() - base, own))
        for _ in range(3):
            hk = trainer.model_calls(hook)
            try:
                sl.estimate_loss(dl, m, size)
            finally:
                hk.remove()
            R.ev('validations')
        n1, t1 = live() - base, tensors() - tens
        b = state()
    top = max([x[1] for x in rec] or [0]) + biggest(d)
    for k, (now, own) in enumerate(rec):
        R.ev('held_counts')
        R.check(now <= own + top + 40, 'held', 'batch %d of a validation: %d objects in memory, the batch itself has %d' % (k, now, own))
    R.check(n1 <= 40, 'held', 'after three validations %d objects of their games are still in memory' % n1)
    R.check(t1 <= 8, 'tensors', 'after three validations %d more tensors are in memory' % t1)
    compare(R, 'after three validations', a, b)
    compare_tree(R, 'after three validations', t0, tree(root))
    R.seen(('validate', fam, size, len(rec), i))
    R.sample('%s: %d validation batches, %+d tensors' % (fam, len(rec), t1))


def train_case(rng, R, root, i):
    import torch
    import MahjongAI.supervised_learning as sl
    fam = rng.choice(['transformer', 'transformer_conv'])
    long = i // 6 % 2       # one long iteration instead of several short ones
    if long:
        trainer.make_data(rng, root, games=(45, 60), bad=0.1, years=trainer.YEARS[:1], val=2, draws=(1, 2))
        for y in trainer.YEARS[1:]:
            os.makedirs(os.path.join(root, 'data', 'processed', str(y)))
    else:
        trainer.make_data(rng, root, games=(8, 14), bad=0.2, val=2, draws=(1, 2))
    t0 = tree(root)
    rec = []

    def hook(mod, args, kwargs):
        own = sum(held(x) for x in list(args) + list(kwargs.values()) if isinstance(x, (list, tuple)))
        rec.append((mod.training, live(), own, tensors(), len(fds()), native() or 0))
    steps = []              # per call: live autograd graphs at every step
    graphs = []

    class Token:
        pass

    def watch(old):
        def forward(mod, *args, **kwargs):
            mine = []
            steps.append(mine)
            for out in old(mod, *args, **kwargs):
                fn = getattr(out[1], 'grad_fn', None)
                if fn is not None:
                    fn.metadata['seen'] = t = Token()
                    graphs[:] = [x for x in graphs if x() is not None] + [weakref.ref(t)]
                    mine.append(len(graphs))
                    fn = t = None
                yield out
        return forward
    cwd = os.getcwd()       # (torch itself sets environment variables when it first optimizes)
    err = None
    sink = io.StringIO()
    with contextlib.redirect_stdout(sink):
        hk = trainer.model_calls(hook)
        C = type(models.new(fam, 1, i))
        C.forward = watch(C.forward)
        try:
            sl.train(fam, 1 if long else rng.choice([4, 6]))
        except Exception as e:
            err = core.describe(e)
        finally:
            hk.remove()
    if err:
        R.bad('train', '%s: training fails: %s' % (fam, err))
        return
    top = max(x[2] for x in rec)
    most = biggest(os.path.join(root, 'data'))
    low = min(x[1] - x[2] for x in rec)
    for k, (tr, n, own, t, f, by) in enumerate(rec):
        R.ev('train_batches')
        R.ev('held_counts')
        # at most: this batch, the training batch during a validation, and one finished batch each
        R.check(n - low <= own + 3 * top + 3 * most + 40, 'held', '%s, batch %d of a training run: %d objects in memory, the batch itself has %d, the largest %d' % (fam, k, n - low, own, top))
    # the same kind of moment early and late in the run
    same = [x for x in rec if x[0]]
    q = max(4, len(same) // 4)
    early, late = max(x[3] for x in same[2:q + 2]), min(x[3] for x in same[-q:])
    R.check(late <= early + 12, 'tensors', '%s: %d tensors are in memory late in the run (batches %d..%d), at most %d early' % (fam, late, len(same) - q, len(same), early))
    n0, n1 = sorted(x[5] for x in same[2:q + 2])[-2], sorted(x[5] for x in same[-q:])[1]
    R.ev('native_bytes')
    R.check(n1 <= n0 + 6000000, 'native', '%s: %d bytes of native memory are in use late in the run (batches %d..%d), %d early' % (fam, n1, len(same) - q, len(same), n0))
    R.check(max(x[4] for x in same[-q:]) <= max(x[4] for x in same[:q]) + 1, 'open-file', '%s: open files grow during training: %r' % (fam, [x[4] for x in same]))
    per = max(len(x) for x in steps)
    R.ev('train_steps', sum(len(x) for x in steps))
    for k, mine in enumerate(steps):
        R.check(not mine or max(mine) <= 3 * per + 3, 'graphs', '%s: the graphs of %d steps are in memory in batch %d of a training run, a batch has at most %d steps' % (fam, max(mine or [0]), k, per))
    R.check(os.getcwd() == cwd, 'state', 'training changes the working directory')
    compare_tree(R, 'after training', t0, tree(root), new=('saved_models', 'saved_models/', 'training_log_'))
    R.seen(('train', fam, len(rec), i))
    R.sample('%s: %d batches; objects %d..%d; tensors %d -> %d; native bytes %d -> %d; %d steps, at most %d graphs' % (fam, len(rec), min(x[1] for x in rec), max(x[1] for x in rec), early, late, n0, n1, sum(len(x) for x in steps), max(max(x or [0]) for x in steps)))
