"""C30: the training log and the command line tell what really happens."""
import builtins
import io
import json
import os
import re
import signal
import subprocess
import sys
import time
from . import core, trainer, c20, c21, c23, models, sim

ID = 'C30'
N = {'quick': 72, 'thorough': 700}
CHUNK = 1
LIMIT = 280
RULE = ('real training runs in a child (fresh, resumed, killed while a checkpoint is written, over more than a thousand games, '
        'over tens of thousands of steps): every message in the log file and on the console against the recorded calls, '
        'losses, learning rates and files, and against what was in the log at each of these moments; logs of runs that start '
        'in the same second; the command line with right and wrong arguments; distinct per (kind, model, start, data, run)')
REQUIRED = {'runs': 30, 'iterations': 50, 'messages': 800, 'val_reported': 50, 'saved_reported': 50, 'moments': 900, 'resumed': 8,
            'killed': 6, 'cli_names': 9, 'cli_wrong': 12, 'cadence_games': 2000, 'cadence_validations': 2, 'rates': 1, 'same_second': 4}
STAMP = re.compile(r'^\[(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d)\] (.*)$')
NUM = r'(-?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan))'
BATCH = {'transformer': 5, 'transformer_conv': 5, 'transformer_conv_large': 2, 'transformer_conv_large_3': 2, 'transformer_conv_ordered': 4,
         'transformer_conv_ordered_large_2': 2, 'transformer_conv_ordered_large_3': 2, 'transformer_conv_ordered_large_4': 1,
         'transformer_conv_ordered_large_5': 1}


def setup(tier):
    trainer.preload()


def logs(root):
    return sorted(f for f in os.listdir(root) if f.startswith('training_log_'))


def run_in(root, go, kill_at=None, stub=None):
    """(events, console) of go(sl) in this process, which lives only for that; every event carries the length of the log"""
    import torch
    import importlib
    from torch.optim.optimizer import register_optimizer_step_pre_hook
    import MahjongAI.supervised_learning as sl
    os.chdir(root)
    name = os.path.join(root, 'training_log_run.txt')
    sl.log_file = name
    events = []

    def length():
        try:
            return os.path.getsize(name)
        except OSError:
            return -1

    def ckpts():
        try:
            return sorted(f for f in os.listdir('saved_models') if f.endswith('.pt'))
        except OSError:
            return []

    def note(*a):
        events.append([length(), ckpts()] + list(a))

    for fam, cls in models.CLS.items():
        C = getattr(importlib.import_module('MahjongAI.agents.' + fam), cls)
        old = C.forward

        def forward(mod, *args, _old=old, **kw):
            a = [x for x in list(args) + list(kw.values()) if isinstance(x, (list, tuple))]
            note('call', bool(mod.training), len(a[0]))
            it = stub(mod) if stub else _old(mod, *args, **kw)
            for logits, loss in it:
                note('loss', bool(mod.training), float(loss.detach()))
                yield logits, loss
        C.forward = forward
    register_optimizer_step_pre_hook(lambda o, a, k: note('step', o.param_groups[0]['lr']))
    left = [kill_at]

    def audit(ev, args):
        if ev in ('open', 'os.rename', 'os.remove', 'os.link', 'shutil.move', 'os.truncate'):
            if '_iter_' in str(args[:2]) and 'saved_models' in str(args[:2]) and 'training_log' not in str(args[0]):
                events.append([length(), ckpts(), 'file', ev, [str(x) for x in args[:2]]])
                if left[0] is not None:
                    left[0] -= 1
                    if left[0] < 0:
                        with open(os.path.join(root, 'events.json'), 'w') as f:
                            json.dump(events, f)
                        os.kill(os.getpid(), signal.SIGKILL)
    sys.addaudithook(audit)
    out, err = io.StringIO(), None
    keep, sys.stdout = sys.stdout, out
    try:
        go(sl)
    except Exception as e:
        err = core.describe(e)
    finally:
        sys.stdout = keep
    note('end')
    return dict(events=events, console=out.getvalue(), err=err)


def read_log(path):
    """[(end offset, message)]; unreadable lines are reported as None"""
    out, pos = [], 0
    if not os.path.exists(path):        # killed before the first message
        return out
    with open(path, 'rb') as f:
        for line in f:
            pos += len(line)
            m = STAMP.match(line.decode('utf8', 'replace').rstrip('\n'))
            out.append((pos, m.group(2) if m else None, m.group(1) if m else line))
    return out


def ckpt_files(root):
    try:
        return os.listdir(os.path.join(root, 'saved_models'))
    except OSError:
        return []


def check_log(R, ctx, name, root, start, iters, res, finished=True, before=b'', rates=True):
    """the log of one run against its events"""
    path = os.path.join(root, 'training_log_run.txt')
    raw = open(path, 'rb').read() if os.path.exists(path) else b''
    if not R.check(raw.startswith(before), 'overwritten', '%s: earlier lines of the log are gone' % ctx):
        return
    lines = [x for x in read_log(path) if x[0] > len(before)]
    msgs = [m for _, m, _ in lines]
    R.ev('messages', len(msgs))
    if not R.check(None not in msgs, 'stamp', '%s: a line of the log without a time: %r' % (ctx, [t for _, m, t in lines if m is None][:2])):
        return
    R.check([t for _, _, t in lines] == sorted(t for _, _, t in lines), 'order', '%s: the times in the log do not ascend' % ctx)
    if res.get('console') is not None:
        con = [STAMP.match(x) for x in res['console'].split('\n')]
        con = [m.group(2) for m in con if m]
        R.check(con == msgs, 'console', '%s: console and log differ: %r' % (ctx, [x for x in zip(con, msgs) if x[0] != x[1]][:1] or (len(con), len(msgs))))
    ev = res['events']
    R.ev('moments', len(ev))

    def there(at):
        """messages in the log at that length"""
        return [m for p, m, _ in lines if p <= at]

    # --- what the log says about iterations
    its = [int(m.group(1)) for m in (re.match(r'^iter (\d+)$', x) for x in msgs) if m]
    want = list(range(start, start + iters))
    R.check(its == want if finished else its == want[:len(its)], 'iterations', '%s: the log names iterations %r, they are %r' % (ctx, its, want))
    loading = [(int(m.group(1)), m.group(2)) for m in (re.match(r'^iter (\d+) \| Loading .*?(\d{4})/', x) for x in msgs) if m]
    R.check(loading == [(k, str(2012 + k % 8)) for k in its], 'data', '%s: the log names the data %r' % (ctx, loading))
    if finished:
        proc = [(int(m.group(1)), m.group(2)) for m in (re.match(r'^iter (\d+) \| Processed .*?(\d{4})/', x) for x in msgs) if m]
        R.check(proc == loading, 'data', '%s: the log reports as processed %r of %r' % (ctx, proc, loading))
        R.check(msgs[-1] == 'Training completed.', 'completed', '%s: the log ends with %r' % (ctx, msgs[-1]))
    else:
        R.check('Training completed.' not in msgs, 'completed', '%s: a run that was killed is reported as completed' % ctx)
    src = [m for m in (re.match(r'^Loaded model from (.*), starting from iter (\d+)$', x) for x in msgs) if m]
    if not finished and not its and not src:
        pass
    elif start:
        R.check(len(src) == 1 and os.path.basename(src[0].group(1)) == 'model_%s_checkpoint_iter_%d.pt' % (name, start - 1) and int(src[0].group(2)) == start,
                'resumed', '%s: the log says %r' % (ctx, [m.group(0) for m in src] or msgs[:2]))
        R.check(not any(x.startswith('No checkpoint found') for x in msgs), 'resumed', '%s: the log reports no checkpoint' % ctx)
    else:
        R.check(not src and any(x.startswith('No checkpoint found') for x in msgs), 'resumed', '%s: the log does not say that the run starts afresh: %r' % (ctx, msgs[:2]))

    # --- each moment: what was in the log by then
    done, seen_its, vals, batches = set(), 0, [], 0
    last, pend, pend_n, size, passed = None, [], 0, BATCH[name], {}
    cur = None
    reports = []
    for x in ev:
        at, files = x[0], x[1]
        now = there(at)
        for f in [m.group(1) for m in (re.match(r'^Model saved at (.*)$', y) for y in now) if m]:
            f = os.path.basename(f)
            if f not in done:
                done.add(f)
                R.check(f in files, 'saved-early', '%s: the log reports %s as saved before it exists' % (ctx, f))
        n_its = [y for y in now if re.match(r'^iter \d+$', y)]
        if x[2] == 'call' and x[3]:
            if cur != (n_its[-1] if n_its else None):
                cur = n_its[-1] if n_its else None
                passed[cur] = 0
            passed[cur] += 1
            # one message per batch, before the batch is used
            got = 0
            for y in now:
                if re.match(r'^iter \d+$', y):
                    got = 0
                elif re.search(r'(?<!2021/, batch_size=%d\)) - Batch \d+$' % size, y) and '/2021/' not in y:
                    got += 1
            R.check(got == passed[cur], 'batches', '%s: %d batches reported in %s when batch %d is used' % (ctx, got, cur, passed[cur]))
        if x[2] == 'step' and cur is None:
            R.bad('iterations', '%s: an update happens before the log names an iteration' % ctx)
    # --- losses
    k, it_no, b_no, tr, va = -1, start - 1, -1, None, []
    seq = []
    for x in ev:
        if x[2] == 'call' and x[3]:
            if va:
                seq.append((tr, va))
                va = []
        if x[2] == 'loss':
            if x[3]:
                if va:
                    seq.append((tr, va))
                    va = []
                tr = x[4]
            else:
                va.append(x[4])
    if va:
        seq.append((tr, va))
    rep = [(int(m.group(1)), int(m.group(2)), float(m.group(3)), float(m.group(4))) for m in (
        re.match(r'^iter (\d+) \| batch (\d+) \| val loss %s \| loss %s$' % (NUM, NUM), x) for x in msgs) if m]
    R.ev('val_reported', len(rep))
    if R.check(len(rep) == len(seq) if finished else len(rep) <= len(seq), 'validations', '%s: %d validations, %d reported' % (ctx, len(seq), len(rep))):
        for (i_, b_, v, t), (tr, va) in zip(rep, seq):
            mean = sum(va) / len(va)
            R.check(abs(v - mean) <= 1e-6 * max(1, abs(mean)), 'val-loss', '%s: validation loss %r is reported, the mean of the losses is %r' % (ctx, v, mean))
            R.check(tr is not None and abs(t - tr) <= 1e-6 * max(1, abs(tr)), 'loss', '%s: training loss %r is reported, the last one is %r' % (ctx, t, tr))
    # --- where validations happen: first batch of an iteration and every thousand games
    pos, it_no, b_no, wants = [], -1, -1, []
    files0 = None
    n = 0
    for x in ev:
        if x[2] == 'call' and x[3]:
            at = [y for y in there(x[0]) if re.match(r'^iter \d+$', y)]
            if not at:
                continue
            i_ = int(at[-1][5:])
            if i_ != it_no:
                it_no, b_no = i_, -1
            b_no += 1
            if b_no * size % 1000 == 0:
                wants.append((i_, b_no))
    got = [(i_, b_) for i_, b_, _, _ in rep]
    R.check(got == wants if finished else got == wants[:len(got)], 'cadence', '%s: validated at (iteration, batch) %r, due at %r' % (ctx, got[:6], wants[:6]))
    # --- checkpoints
    saved = [os.path.basename(m.group(1)) for m in (re.match(r'^Model saved at (.*)$', x) for x in msgs) if m]
    names = ['model_%s_checkpoint_iter_%d.pt' % (name, k) for k in want]
    R.ev('saved_reported', len(saved))
    R.check(saved == names if finished else saved == names[:len(saved)], 'saved', '%s: the log reports checkpoints %r, due are %r' % (ctx, saved, names))
    have = set(ckpt_files(root))
    R.check(set(saved) <= have, 'saved', '%s: reported checkpoints that do not exist: %r' % (ctx, sorted(set(saved) - have)))
    # --- learning rates
    steps = [x[3] for x in ev if x[2] == 'step']
    told = [float(m.group(1)) for m in (re.match(r'^Current learning rate: %s$' % NUM, x) for x in msgs) if m]
    due = [c23.lr_at(j) for j in range(10000, len(steps) + 1, 10000)]
    if rates:
        R.check(len(told) == len(due) and all(abs(a - b) <= 1e-6 * c23.BASE for a, b in zip(told, due)), 'rate',
                '%s: learning rates %r are reported after %d steps, they are %r' % (ctx, told[:4], len(steps), due[:4]))
        R.ev('rates', len(told))
    R.ev('iterations', len(its))


def case(i, rng, R, tier):
    if i < 2:
        return cadence_case(i, rng, R)
    if i == 2:
        return rate_case(rng, R)
    if i < 12:
        return cli_name_case(sorted(trainer.NAMES)[i - 3], rng, R)
    if i < 20:
        return cli_wrong_case(i - 12, rng, R)
    if i < 25:
        return same_second_case(rng, R)
    name = rng.choice(['transformer', 'transformer_conv', 'transformer_conv', 'transformer_conv_ordered', 'transformer_conv_large'])
    with core.Scratch() as s:
        root = s.dir
        games = rng.choice([(1, 2), (1, 3), (4, 9)])
        data = trainer.make_data(rng, root, games=games, bad=0.3, val=rng.choice([1, 1, 2, 6]))
        first = rng.choice([None, None, 0, 6, 7, 9, 99, 1234])
        if first is not None:
            c21.seed_checkpoints(rng, root, name, [first], [], rng.choice([1, 2.5]))
        start = 0 if first is None else first + 1
        before = b''
        for r in range(rng.choice([1, 1, 2])):
            iters = rng.choice([1, 2, 3])
            kill = rng.randint(0, 3 * iters) if i % 4 == 1 else None
            if start:
                R.ev('resumed')
            how, res = c20.child(lambda: run_in(root, lambda sl: sl.train(name, iters), kill), 250)
            ctx = '%s, iterations %d..%d' % (name, start, start + iters - 1)
            R.ev('runs')
            R.seen((name, start, iters, kill, i, r))
            if how == 'ended' and kill is not None and os.path.exists(s.path('events.json')):
                R.ev('killed')
                check_log(R, ctx + ', killed', name, root, start, iters, dict(events=json.load(open(s.path('events.json'))), console=None), False, before)
                return
            if how != 'ok':
                R.bad('train', '%s: training ends its process: %s %r' % (ctx, how, res))
                return
            if res['err']:
                R.bad('train', '%s: training fails: %s' % (ctx, res['err']))
                return
            check_log(R, ctx, name, root, start, iters, res, True, before)
            before = open(s.path('training_log_run.txt'), 'rb').read()
            start += iters
        R.sample('%s from %r: %d bytes of log' % (name, first, len(before)))


def stub(mod, n=1):
    p = next(mod.parameters())
    for _ in range(n):
        yield None, p.reshape(-1)[0] * 1.0 + (0 if mod.training else 1)


def cadence_case(i, rng, R):
    """more than a thousand games in a year, with a stand-in for the network"""
    name = ['transformer_conv', 'transformer_conv_ordered', 'transformer_conv_large'][(i + rng.randrange(3)) % 3]
    n = 1000 + BATCH[name] * rng.randint(1, 8)
    with core.Scratch() as s:
        root = s.dir
        trainer.make_data(rng, root, games=(1, 1), bad=0)
        d = s.path('data', 'processed', '2012')
        for f in os.listdir(d):
            os.unlink(os.path.join(d, f))
        go, texts = 169, [sim.to_xml(169, [trainer.tiny_round(rng, 2).events]) for _ in range(6)]
        for k in range(n):
            with open(os.path.join(d, '%04d.log' % k), 'w') as f:
                f.write(texts[k % 6])
        how, res = c20.child(lambda: run_in(root, lambda sl: sl.train(name, 1), None, stub), 270)
        if how != 'ok' or res['err']:
            R.bad('train', 'training over %d games: %s %r' % (n, how, res if how != 'ok' else res['err']))
            return
        # only the moments around validations matter; thin out the others
        ev = [x for k, x in enumerate(res['events'])]
        R.ev('runs')
        R.ev('cadence_games', n)
        R.ev('cadence_validations', sum(1 for x in ev if x[2] == 'call' and not x[3]))
        R.seen(('cadence', name, n))
        light(R, '%s, %d games' % (name, n), name, root, res)


def light(R, ctx, name, root, res):
    """reported validations of a long run"""
    size = BATCH[name]
    lines = [m for _, m, _ in read_log(os.path.join(root, 'training_log_run.txt'))]
    rep = [(int(m.group(1)), int(m.group(2))) for m in (re.match(r'^iter (\d+) \| batch (\d+) \| val loss', x or '') for x in lines) if m]
    calls = [x for x in res['events'] if x[2] == 'call']
    at, b = [], -1
    prev = True
    for x in calls:
        if x[3]:
            b += 1
        elif prev:
            at.append((0, b))
        prev = x[3]
    due = [(0, k) for k in range(b + 1) if k * size % 1000 == 0]
    R.check(at == due, 'cadence', '%s: validated after batches %r, due after %r' % (ctx, at, due))
    R.check(rep == at, 'cadence', '%s: validations %r are reported, %r happened' % (ctx, rep, at))


def rate_case(rng, R):
    with core.Scratch() as s:
        root = s.dir
        trainer.make_data(rng, root, games=(4, 4), bad=0)
        how, res = c20.child(lambda: run_rate(root), 270)
        if how != 'ok' or res['err']:
            R.bad('train', 'training over many steps: %s %r' % (how, res if how != 'ok' else res['err']))
            return
        lines = [m or '' for _, m, _ in read_log(s.path('training_log_run.txt'))]
        told = [float(m.group(1)) for m in (re.match(r'^Current learning rate: %s$' % NUM, x) for x in lines) if m]
        due = [c23.lr_at(j) for j in range(10000, res['n'] + 1, 10000)]
        R.ev('rates', len(told))
        R.ev('runs')
        R.seen(('rate', res['n']))
        R.check(len(told) == len(due) and all(abs(a - b) <= 1e-6 * c23.BASE for a, b in zip(told, due)), 'rate',
                'learning rates %r are reported in %d steps, they are %r' % (told, res['n'], due))


def run_rate(root):
    n = [0]

    def many(mod):
        for x in stub(mod, 3500 if mod.training else 1):
            n[0] += bool(mod.training)
            yield x
    res = run_in(root, lambda sl: sl.train('transformer', 4), None, many)
    return dict(err=res['err'], n=n[0])


def cli(root, *args):
    env = dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1')
    return subprocess.run([sys.executable, os.path.join(core.PKG, 'supervised_learning.py')] + list(args), cwd=root, env=env,
                          capture_output=True, text=True, timeout=200, stdin=subprocess.DEVNULL)


def tree(root):
    out = {}
    for d, _, fs in os.walk(os.path.join(root, 'saved_models')):
        for f in fs:
            out[f] = open(os.path.join(d, f), 'rb').read()
    return out


def cli_name_case(name, rng, R):
    """each documented name is accepted, with the number of iterations given"""
    with core.Scratch() as s:
        root = s.dir
        trainer.make_data(rng, root, games=(1, 1), bad=0)
        n = rng.choice([0, 1])
        out = cli(root, name, rng.choice(['%d', '%d', ' %d', '0%d', '+%d']) % n)
        R.ev('cli_names')
        R.seen(('cli', name, n))
        R.check(out.returncode == 0 and sorted(tree(root)) == ['model_%s_checkpoint_iter_%d.pt' % (name, k) for k in range(n)], 'cli',
                'supervised_learning.py %s %d: exit %d, checkpoints %r\n%s' % (name, n, out.returncode, sorted(tree(root)), out.stderr[-500:]))
        ls = logs(root)
        text = ''.join(open(s.path(f)).read() for f in ls)
        R.check(len(ls) == 1 and name in text and 'Training completed.' in text, 'cli', 'supervised_learning.py %s %d: logs %r\n%s' % (name, n, ls, text[-300:]))


WRONG = [['nosuchmodel', '1'], ['transformer_conv_large_2', '1'], ['transformer_conv_ordered_large', '1'], ['Transformer', '1'], ['transformer_conv '[:16] + '_', '1'],
         ['', '1'], ['transformer', '1.5'], ['transformer', 'one'], ['transformer', ''], ['transformer', '1e0'], ['transformer'], [], ['transformer', '1', '2'],
         ['1', 'transformer'], ['transformer_conv_ordered_large_6', '1'], ['transformer_conv_large_3 ', '1']]


def cli_wrong_case(k, rng, R):
    """wrong arguments stop the command before anything is trained or saved"""
    with core.Scratch() as s:
        root = s.dir
        trainer.make_data(rng, root, games=(1, 1), bad=0)
        if k % 2:
            c21.seed_checkpoints(rng, root, 'transformer', [2], [], 1)
        old = tree(root)
        for args in (WRONG[2 * k], WRONG[2 * k + 1]):
            out = cli(root, *args)
            R.ev('cli_wrong')
            R.seen(('wrong', tuple(args)))
            R.check(out.returncode != 0, 'cli-wrong', 'supervised_learning.py %r: accepted' % args)
            R.check(tree(root) == old, 'cli-wrong', 'supervised_learning.py %r: checkpoints before %r, after %r' % (args, sorted(old), sorted(tree(root))))


def same_second_case(rng, R):
    """several runs that start in the same second and directory: no message of any of them is lost"""
    with core.Scratch() as s:
        root = s.dir
        trainer.make_data(rng, root, games=(1, 1), bad=0)
        names = rng.sample(['transformer', 'transformer_conv', 'transformer_conv_large', 'transformer_conv_ordered'], 3)
        code = ('import sys, datetime as d\n'
                'class D(d.datetime):\n'
                '    @classmethod\n'
                '    def now(cls, tz=None): return cls(2024, 5, 6, 7, 8, 9)\n'
                'd.datetime = D\n'
                'sys.argv = sys.argv[1:]\n'
                'import runpy\n'
                'runpy.run_path(sys.argv[0], run_name="__main__")\n')
        env = dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1')
        n = rng.choice([0, 1])
        ps = []
        for x in names:
            ps.append(subprocess.Popen([sys.executable, '-c', code, os.path.join(core.PKG, 'supervised_learning.py'), x, str(n)], cwd=root, env=env,
                                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, stdin=subprocess.DEVNULL))
            time.sleep(rng.choice([0, 0.5, 1.5, 3]))
        outs = [p.communicate(timeout=200) for p in ps]
        R.ev('same_second')
        R.seen(('second', tuple(names), n, rng.random()))
        text = ''.join(open(s.path(f)).read() for f in logs(root)).split('\n')
        for x, p, (o, e) in zip(names, ps, outs):
            if not R.check(p.returncode == 0, 'same-second', '%s, next to %r: exit %d\n%s' % (x, names, p.returncode, e[-400:])):
                continue
            for line in o.split('\n'):
                if STAMP.match(line):
                    R.ev('messages')
                    R.check(line in text, 'overwritten', 'runs %r that start in the same second: the message %r of %s is in no log file' % (names, line, x))
