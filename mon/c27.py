"""C27: work done side by side gives the results of the same work done alone."""
import contextlib
import hashlib
import io
import json
import os
import random
import signal
import sys
import threading
import time
from . import mj, obs, sim, core, models, trainer, c13, c20, c21

ID = 'C27'
N = {'quick': 70, 'thorough': 900}
CHUNK = 1
LIMIT = 240
RULE = ('results of processing, loading, model calls and training runs that overlap (threads with switches forced at lines '
        'of the code, passes and model calls advanced alternately, processes in one directory held up at their checkpoint '
        'files) against the results of the same calls made one after the other; distinct per kind and set of games, and '
        'per place where one thread gave way to another')
REQUIRED = {'thread_logs': 200, 'failed_logs': 40, 'switches': 20000, 'overlaps': 150, 'passes': 60, 'loader_turns': 200, 'same_dir': 5,
            'generator_turns': 150, 'same_model': 5, 'gradients': 5, 'thread_forwards': 20, 'runs': 12, 'met_at_save': 16, 'late_starts': 4}
ASSUMPTIONS = ['two training runs in one directory are of different model names', 'no two threads use one loader or train one model',
               'thread switches are sampled by delays at random lines']


def setup(tier):
    trainer.preload()


class Switcher:
    """line tracer for the threads of a section: gives way at random lines of the code under test and counts how
    often another thread had been running since"""

    def __init__(self, rng, prob):
        self.seed, self.prob = rng.randrange(1 << 30), prob
        self.last, self.n, self.places = None, 0, set()

    def tracer(self):
        me = threading.get_ident()
        rnd = random.Random(self.seed ^ (me & 0xffffff))
        pkg = core.PKG + os.sep

        def line(frame, event, arg):
            if event == 'line':
                if self.last != me:
                    if self.last is not None:
                        self.n += 1
                        self.places.add((os.path.basename(frame.f_code.co_filename), frame.f_code.co_name, frame.f_lineno - frame.f_code.co_firstlineno))
                    self.last = me
                if rnd.random() < self.prob:
                    time.sleep(0 if rnd.random() < 0.9 else 0.0005)
            return line

        def call(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(pkg) else None
        return call

    def run(self, fns, seconds=150):
        """run the functions in one thread each; [(value, exception)]"""
        out = [None] * len(fns)
        gate = threading.Barrier(len(fns))
        active, self.overlap = [0], 0

        def body(k):
            with contextlib.suppress(threading.BrokenBarrierError):
                gate.wait(30)
            sys.settrace(self.tracer())
            try:
                out[k] = (fns[k](), None)
            except Exception as e:
                out[k] = (None, core.describe(e))
            finally:
                sys.settrace(None)
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        try:
            ts = [threading.Thread(target=body, args=(k,), daemon=True) for k in range(len(fns))]
            for t in ts:
                t.start()
            end = time.time() + seconds
            for t in ts:
                t.join(max(0.1, end - time.time()))
        finally:
            sys.setswitchinterval(old)
        return [o if o is not None else (None, 'no result within %d s' % seconds) for o in out]


def small_logs(rng, root, n, bad=0.3, seats=None):
    """n small logs, some unusable"""
    go, sims = sim.make_game(rng, 2, styles=['micro', 'fives', 'near', 'kan'], wins=False)
    out = []
    for j in range(n):
        p = os.path.join(root, 'g%02d.log' % j)
        if rng.random() < bad:
            kind, text = c13.bad_log(rng, sims, go)
            open(p, 'w').write(text)
        else:
            ev = rng.choice(sims).events
            at = [x for x in range(2, len(ev)) if ev[x - 1][0][0] in 'TUVW' and ev[x - 1][0][1:].isdigit()]
            sim.write_game(p, go, [ev[:rng.choice(at)] + [c20.END] for _ in range(rng.randint(1, 2))])
        out.append(p)
    return out


def case(i, rng, R, tier):
    kind = ('threads', 'loaders', 'models', 'threads', 'train')[i % 5]
    with core.Scratch() as s:
        os.chdir(s.dir)
        try:
            C = Case(s.dir)
            how, out = c20.child(lambda: C.run(globals()[kind + '_case'], rng.randrange(1 << 30), i), 225)
        finally:
            os.chdir('/')
    if how != 'ok':
        R.bad('ended', '%s: the process ended: %s %r' % (kind, how, out))
        return
    for k, v in out['counts'].items():
        R.ev(k, v)
    for k, msg in out['viol']:
        R.bad(k, msg)
    for x in out['seen']:
        R.seen_.add(x)
    for x in out['samples']:
        R.sample(x)


class Case:
    """runs in the child; collects what the parent reports"""

    def __init__(self, root):
        self.root = root

    def run(self, fn, seed, i):
        R = core.R()
        fn(random.Random(seed), R, self.root, i)
        return dict(counts=R.counts, viol=[(v[0], v[1]) for v in R.viol], seen=[int(x) for x in R.seen_], samples=R.samples)


def told(R, sw):
    R.ev('switches', sw.n)
    R.ev('switch_places', len(sw.places))
    for p in sw.places:
        R.seen(('at', p))


def threads_case(rng, R, root, i):
    paths = small_logs(rng, root, rng.randint(5, 9))
    alone = {p: c13.run(p)[0] for p in paths}
    R.ev('failed_logs', sum(v is None for v in alone.values()))
    n = rng.choice([2, 3, 4])
    share = rng.random() < 0.5          # all threads go through the same logs, or each has its own
    plans = []
    for k in range(n):
        pl = [p for j, p in enumerate(paths) if share or j % n == k]
        rng.shuffle(pl)
        plans.append(pl * (1 if share else 2))
    sw = Switcher(rng, rng.choice([0.002, 0.01, 0.03]))
    spans = []

    def work(pl):
        out = []
        for p in pl:
            a = time.monotonic()
            d = c13.run(p)[0]
            spans.append((a, time.monotonic(), threading.get_ident()))
            out.append((p, d))
        return out
    got = sw.run([lambda pl=pl: work(pl) for pl in plans])
    told(R, sw)
    R.ev('overlaps', sum(1 for x in range(len(spans)) for y in range(x) if spans[x][2] != spans[y][2]
                         and spans[x][0] < spans[y][1] and spans[y][0] < spans[x][1]))
    for k, (v, err) in enumerate(got):
        if err:
            R.bad('threads', 'thread %d of %d: %s' % (k, n, err))
            continue
        for p, d in v:
            R.ev('thread_logs')
            R.ev('evaluations')
            if d != alone[p]:
                R.bad('threads', '%s is %s in a thread beside %d others and %s alone' % (
                    os.path.basename(p), 'refused' if d is None else 'processed with another result' if alone[p] else 'accepted',
                    n - 1, 'processed' if alone[p] else 'refused'))
    R.check({p: c13.run(p)[0] for p in paths} == alone, 'afterwards', 'logs give other results after threads ran side by side')
    R.seen(('threads', n, share, i))
    R.sample('%d threads over %d logs: %d switches at %d places' % (n, len(paths), sw.n, len(sw.places)))


def whole(path, size):
    """batches of one whole pass, as digests"""
    from MahjongAI.utils.dataloader import DataLoader
    dl = DataLoader(path, size, lambda *a: None)
    return [[c20.dig(g) for g in zip(*b)] for b in dl]


def loaders_case(rng, R, root, i):
    from MahjongAI.utils.dataloader import DataLoader
    dirs = []
    for k in range(2):
        d = os.path.join(root, 'd%d' % k)
        os.mkdir(d)
        small_logs(rng, d, rng.randint(4, 9), bad=0.25)
        dirs.append(d)
    n = rng.choice([2, 3, 3])
    spec = [(rng.choice(dirs) if k else dirs[0], rng.choice([1, 2, 3])) for k in range(n)]
    if i % 2:
        spec[1] = (spec[0][0], spec[1][1])
        R.ev('same_dir')
    alone = [whole(*x) for x in spec]

    def flat(b):
        return sorted(x for y in b for x in y)

    def judge(k, got, how):
        R.ev('passes')
        R.ev('evaluations')
        if flat(got) != flat(alone[k]):
            a, b = flat(alone[k]), flat(got)
            R.bad('loaders', '%s: the pass of loader %d of %r has %d games of which %d are not those of a pass alone (%d games)' % (
                how, k, [(os.path.basename(x), y) for x, y in spec], len(b), len([x for x in set(b) if b.count(x) > a.count(x)]), len(a)))
        elif [len(b) for b in got] != [len(b) for b in alone[k]]:
            R.bad('loaders', '%s: loader %d delivers batches of %r games, alone %r' % (how, k, [len(b) for b in got], [len(b) for b in alone[k]]))
    # advanced alternately
    dls = [DataLoader(d, z, lambda *a: None) for d, z in spec]
    for rnd in range(2):
        got = [[] for _ in spec]
        left = list(range(n))
        its = [iter(dl) for dl in dls]
        while left:
            k = rng.choice(left)
            b = next(its[k], None)
            R.ev('loader_turns')
            if b is None:
                left.remove(k)
                dls[k].reset()
            else:
                got[k].append([c20.dig(g) for g in zip(*b)])
                if len(got[k]) > 60:
                    R.bad('loaders', 'the pass of loader %d does not end' % k)
                    return
        for k in range(n):
            judge(k, got[k], 'alternately')
    # one pass inside another, like a validation during training
    got, inner = [], []
    for b in dls[0]:
        got.append([c20.dig(g) for g in zip(*b)])
        x = [[c20.dig(g) for g in zip(*y)] for y in dls[1]]
        dls[1].reset()
        inner.append(x)
        R.ev('loader_turns', 1 + len(x))
    dls[0].reset()
    judge(0, got, 'around another pass')
    for x in inner[:3]:
        judge(1, x, 'inside another pass')
    # in threads
    sw = Switcher(rng, 0.01)
    for k, (v, err) in enumerate(sw.run([lambda x=x: whole(*x) for x in spec])):
        if err:
            R.bad('loaders', 'loader %d in a thread: %s' % (k, err))
        else:
            judge(k, v, 'in threads')
    told(R, sw)
    R.seen(('loaders', tuple(z for _, z in spec), i))
    R.sample('%d loaders side by side, passes of %r games' % (n, [len(flat(a)) for a in alone]))


def models_case(rng, R, root, i):
    import torch
    fams = [rng.choice(models.NAMES) for _ in range(2)]
    ms = [models.new(f, 1, i + k).eval() for k, f in enumerate(fams)]
    if i % 2:
        ms[1] = ms[0]
        fams[1] = fams[0]
        R.ev('same_model')
    batches = []
    for k in range(3):
        games = []
        for j in range(rng.randint(1, 2)):
            p = os.path.join(root, 'm%d_%d.log' % (k, j))
            sim.write_game(p, 169, [trainer.tiny_round(rng, rng.randint(3, 7)) for _ in range(rng.randint(1, 2))])
            games.append(obs.process_valid(p))
        batches.append(([g[0] for g in games], [g[1] for g in games]))
    jobs = [(ms[0], batches[0], fams[0]), (ms[1], batches[1], fams[1]), (ms[rng.randrange(2)], batches[2], '?')]

    def one(m, b):
        with torch.no_grad():
            return [(lg.clone(), ls.clone()) for lg, ls in m(*b, sample=False)]
    alone = [one(m, b) for m, b, _ in jobs]

    def same(a, b):
        if len(a) != len(b):
            return False
        return all(x[0].shape == y[0].shape and torch.allclose(x[0], y[0], atol=1e-4, rtol=1e-3, equal_nan=True)
                   and torch.allclose(x[1], y[1], atol=1e-4, rtol=1e-3, equal_nan=True) for x, y in zip(a, b))
    # generators advanced alternately
    for _ in range(3):
        with torch.no_grad():
            its = [iter(m(*b, sample=False)) for m, b, _ in jobs]
            got = [[] for _ in jobs]
            left = list(range(len(jobs)))
            while left:
                k = rng.choice(left)
                x = next(its[k], None)
                R.ev('generator_turns')
                if x is None:
                    left.remove(k)
                else:
                    got[k].append((x[0].clone(), x[1].clone()))
        for k in range(len(jobs)):
            R.check(same(alone[k], got[k]), 'models', lambda: 'the outputs of %s differ when another evaluation runs at the same time' % jobs[k][2])
    # gradients of two models trained alternately
    if ms[0] is not ms[1]:
        def grads(its):
            for m in ms:
                m.zero_grad()
            its = list(its)
            while its:
                it = rng.choice(its)
                x = next(it, None)
                if x is None:
                    its.remove(it)
                else:
                    x[1].backward()
            return [[None if w.grad is None else w.grad.clone() for w in m.parameters()] for m in ms]
        a = grads([iter(ms[0](*batches[0], sample=False))])[0]
        b = grads([iter(ms[1](*batches[1], sample=False))])[1]
        c = grads([iter(ms[0](*batches[0], sample=False)), iter(ms[1](*batches[1], sample=False))])
        R.ev('gradients')
        for x, y in zip(a + b, c[0] + c[1]):
            ok = (x is None) == (y is None) and (x is None or torch.allclose(x, y, atol=1e-4, rtol=1e-3, equal_nan=True))
            if not R.check(ok, 'gradients', 'gradients of %s and %s differ when both are trained alternately' % tuple(fams)):
                break
    # in threads
    sw = Switcher(rng, 0.02)
    for k, (v, err) in enumerate(sw.run([lambda m=m, b=b: [one(m, b) for _ in range(2)] for m, b, _ in jobs])):
        if err:
            R.bad('models', '%s evaluated in a thread: %s' % (jobs[k][2], err))
            continue
        for x in v:
            R.ev('thread_forwards')
            R.check(same(alone[k], x), 'models', lambda: 'the outputs of %s differ when evaluated in a thread beside others' % jobs[k][2])
    told(R, sw)
    R.seen(('models', tuple(fams), i))
    R.sample('%s and %s side by side, %d switches' % (fams[0], fams[1], sw.n))


def digest_params(sd):
    h = hashlib.md5()
    for k in sorted(sd):
        h.update(k.encode())
        h.update(sd[k].detach().cpu().contiguous().numpy().tobytes())
    return h.hexdigest()


def several(fns, root, seconds):
    """run the functions in one forked process each; their (JSON) results, None for a process that gave none"""
    pids, files = [], []
    for k, fn in enumerate(fns):
        f = os.path.join(root, 'result%d' % k)
        files.append(f)
        pid = os.fork()
        if pid == 0:
            try:
                signal.alarm(0)
                out = fn()
                with open(f + '.part', 'w') as g:
                    json.dump(out, g)
                os.rename(f + '.part', f)
            except BaseException as e:
                with contextlib.suppress(Exception):
                    open(f + '.err', 'w').write(core.describe(e))
            finally:
                os._exit(0)
        pids.append(pid)
    end = time.time() + seconds
    left = list(pids)
    while left and time.time() < end:
        for p in list(left):
            if os.waitpid(p, os.WNOHANG)[0]:
                left.remove(p)
        time.sleep(0.02)
    for p in left:
        os.kill(p, signal.SIGKILL)
        os.waitpid(p, 0)
    return [json.load(open(f)) if os.path.exists(f) else None for f in files]


class Meet:
    """the processes wait for each other at every place, at most a few seconds"""

    def __init__(self, root, n, me):
        self.dir, self.n, self.me, self.met, self.limit = root, n, me, 0, 20

    def at(self, place):
        open(os.path.join(self.dir, '%s.%d' % (place, self.me)), 'w').close()
        end = time.time() + self.limit
        while time.time() < end:
            if all(os.path.exists(os.path.join(self.dir, '%s.%d' % (place, k))) for k in range(self.n)):
                self.met += 1
                return
            time.sleep(0.003)


def train_case(rng, R, root, i):
    import torch
    work = os.path.join(root, 'work')
    meet = os.path.join(root, 'meet')
    os.mkdir(work)
    os.mkdir(meet)
    names = rng.sample(['transformer', 'transformer_conv', 'transformer_conv_ordered'], rng.choice([2, 2, 3]))
    trainer.make_data(rng, work, games=(1, 1), bad=0.1, draws=(2, 3))
    before, vals = {}, {}
    for n in names:
        its = rng.choice([[], [0], [3], [9, 10]])
        if its:
            vals[n] = (max(its), c21.seed_checkpoints(rng, work, n, its, [])[max(its)])
    before = c21.listing(work)
    n_it = rng.randint(1, 2)
    late = i // 5 % 2       # the first run is saving when the others start
    if late:
        R.ev('late_starts', len(names) - 1)

    def job(k):
        def run():
            M = Meet(meet, len(names), k)
            rnd = random.Random(i * 10 + k)
            old_save, old_rep, cnt = torch.save, os.replace, [0]
            res = {}

            def save(obj, f, *a, **kw):
                cnt[0] += 1
                if not late:
                    M.at('before%d' % cnt[0])
                time.sleep(rnd.random() * 0.005)
                r = old_save(obj, f, *a, **kw)
                if not late:
                    M.at('after%d' % cnt[0])
                elif k == 0 and cnt[0] == 1:
                    M.at('start')       # the others start here,
                    M.at('going')       # and the save goes on once they take their first step
                time.sleep(rnd.random() * 0.005)
                return r
            torch.save = save

            def train(sl):
                if k or not late:
                    M.at('start')
                sl.train(names[k], n_it)
            if k and late:
                from torch.optim.optimizer import register_optimizer_step_pre_hook

                began = []

                def first(*a):
                    if not began:
                        began.append(1)
                        M.at('going')
                register_optimizer_step_pre_hook(first)
            log, keep, err = trainer.observe(train, work)
            torch.save = old_save
            first = keep['first']
            start = vals.get(names[k])
            return dict(err=err, met=M.met, saves=cnt[0], steps=sum(1 for x in log if x[0] == 'step'),
                        loaded=None if start is None or first is None else all(torch.equal(first[p], start[1][p]) for p in start[1]),
                        last=digest_params(keep['last'].state_dict()) if keep['last'] is not None else None)
        return run
    res = several([job(k) for k in range(len(names))], root, 200)
    new = {}
    for k, n in enumerate(names):
        r = res[k]
        R.ev('runs')
        if r is None:
            e = os.path.join(root, 'result%d.err' % k)
            R.bad('training', 'the run of %s beside %r gave no result: %s' % (n, names, open(e).read() if os.path.exists(e) else 'ended'))
            return
        R.ev('met_at_save', max(0, r['met'] - (not late)))
        R.ev('train_steps', r['steps'])
        if not R.check(r['err'] is None, 'training', lambda: 'training %s beside %r fails: %s' % (n, [x for x in names if x != n], r['err'])):
            continue
        if n in vals:
            R.check(r['loaded'] is not False, 'training', '%s does not continue from its own newest checkpoint when %r start at the same time' % (n, names))
        it0 = vals[n][0] + 1 if n in vals else 0
        for it in range(it0, it0 + n_it):
            new['model_%s_checkpoint_iter_%d.pt' % (n, it)] = (r['last'] if it == it0 + n_it - 1 else None, n)
    after = c21.listing(work)
    if R.viol:
        return
    for f, h in before.items():
        R.check(after.get(f) == h, 'training', 'runs side by side changed or removed %s' % f)
    for f, (dg, n) in new.items():
        if not R.check(f in after, 'training', '%s is missing after the runs of %r side by side' % (f, names)):
            continue
        try:
            got = digest_params(torch.load(os.path.join(work, 'saved_models', f), map_location='cpu'))
        except Exception as e:
            R.bad('training', '%s, written while other runs saved theirs, cannot be read: %s' % (f, type(e).__name__))
            continue
        if dg is not None:
            R.check(got == dg, 'training', '%s does not hold the parameters its run reached; %r ran at the same time' % (f, names))
    more = [f for f in after if f not in before and f not in new]
    R.check(not [f for f in more if f.endswith('.pt') and '_checkpoint_iter_' in f], 'training', 'unexpected checkpoints %r after runs of %r' % (more, names))
    R.seen(('train', tuple(names), n_it, i))
    R.sample('%r trained at once for %d iterations, %d meetings at their saves' % (names, n_it, sum(r['met'] for r in res)))
