"""C23: the training loop trains on the right data, in order, and saves every iteration."""
import math
import os
import subprocess
import sys
from . import core, trainer, c20, models

ID = 'C23'
N = {'quick': 64, 'thorough': 700}
CHUNK = 1
LIMIT = 280
RULE = ('real training runs in a child, over a data tree with one directory per year: recorded forward calls (content '
        'digests of the games), optimiser steps with their learning rate, checkpoints present, parameters; compared with '
        'the year schedule, an independent replica of the updates (same start parameters, random state and games), the '
        'warm-up/cosine formula (up to tens of thousands of steps with a stub model) and the file contents; distinct per '
        '(model, start iteration, iterations, data tree)')
REQUIRED = {'iterations': 80, 'steps': 250, 'replica_runs': 20, 'model_names': 9, 'resumed': 10, 'wrapped': 8, 'lr_steps': 20000,
            'lr_cosine': 10000, 'checkpoints': 80, 'cli': 2, 'val_calls': 60, 'revisited': 8}
BASE, WARM, TOTAL = 1e-3, 1000, 1000000


def setup(tier):
    trainer.preload()


def lr_at(k):
    if k < WARM:
        return BASE * k / WARM
    return BASE * 0.5 * (1 + math.cos(math.pi * (k - WARM) / (TOTAL - WARM)))


def close(a, b):
    return abs(a - b) <= 1e-9 * BASE + 1e-7 * abs(b)


def segments(log):
    """forward/step log -> training batches with the steps that followed them"""
    out = []
    for x in log:
        if x[0] == 'fwd' and x[1]:
            out.append(dict(games=x[2], ckpts=x[3], lrs=[]))
        elif x[0] == 'step':
            if out:
                out[-1]['lrs'].append(x[1])
        elif x[0] == 'fwd':
            if out:
                out[-1].setdefault('val', 0)
                out[-1]['val'] = out[-1].get('val', 0) + 1
    return out


def check_run(R, ctx, name, root, data, start, iters, log, err):
    if err:
        R.bad('train', '%s: training fails: %s' % (ctx, err))
        return None
    seg = segments(log)
    have = {f for f in os.listdir(os.path.join(root, 'saved_models'))}
    want = {'model_%s_checkpoint_iter_%d.pt' % (name, start + k) for k in range(iters)}
    mine = {f for f in have if f.startswith('model_%s_checkpoint_iter_' % name)}
    old = {f for f in mine if f not in want}
    R.ev('checkpoints', len(want))
    R.check(want <= have, 'checkpoints', '%s: checkpoints %r, expected %r' % (ctx, sorted(have), sorted(want)))
    base = None
    k = 0
    per = {}
    for b in seg:
        done = {f for f in b['ckpts'] if f in want}
        per.setdefault(len(done), []).append(b)
    R.ev('iterations', iters)
    R.check(set(per) <= set(range(iters)), 'extra', '%s: training goes on after the last checkpoint' % ctx)
    for it in range(iters):
        bs = per.get(it, [])
        year = 2012 + (start + it) % 8
        games = sorted(g for b in bs for g in b['games'])
        if start + it >= 8:
            R.ev('wrapped')
        R.ev('evaluations')
        if games != data[year]:
            other = [y for y in data if data[y] == games]
            R.bad('data', '%s: iteration %d trains on %d games (%s), expected the %d games of %d' % (
                ctx, start + it, len(games), 'those of %r' % other if other else 'of no single year', len(data[year]), year))
        for b in bs:
            R.ev('steps', len(b['lrs']))
            for lrs in b['lrs']:
                R.ev('evaluations')
                if not all(close(x, lr_at(k)) for x in lrs):
                    R.bad('lr', '%s: learning rate of step %d is %r, should be %r' % (ctx, k, lrs, lr_at(k)))
                k += 1
    R.ev('val_calls', sum(b.get('val', 0) for b in seg))
    extra = mine - want - old
    return seg


def replica(keep, name, n_expected):
    """repeat the recorded updates independently; True or a description"""
    import torch
    fam, depth = trainer.NAMES[name]
    m = models.new(fam, depth, 1)
    m.load_state_dict(keep['first'])
    m.train()
    opt = torch.optim.AdamW(m.parameters(), lr=BASE)
    torch.set_rng_state(keep['rng'])
    k = 0
    for hts, toks in keep['batches']:
        for _, loss in m(hts, toks, sample=True):
            opt.zero_grad()
            loss.backward()
            for g in opt.param_groups:
                g['lr'] = lr_at(k)
            opt.step()
            k += 1
    if k != n_expected:
        return '%d losses were yielded, %d optimiser steps made' % (k, n_expected)
    for (n, a), b in zip(m.state_dict().items(), keep['model'].state_dict().values()):
        if not torch.allclose(a, b, rtol=1e-4, atol=1e-6):
            return 'parameter %s differs by up to %g' % (n, float((a - b).abs().max()))
    return True


def same_file(path, model):
    import torch
    sd = torch.load(path, map_location='cpu')
    ref = model.state_dict()
    if list(sd) != list(ref):
        return 'other parameter names'
    bad = [k for k in ref if not torch.equal(sd[k], ref[k])]
    return True if not bad else 'differs in %r' % bad[:4]


def case(i, rng, R, tier):
    if i < 2:
        return lr_case(rng, R, tier)
    if i < 11:
        return name_case(sorted(trainer.NAMES)[i - 2], rng, R)
    if i < 14:
        return cli_case(rng, R)
    name = rng.choice(['transformer', 'transformer_conv', 'transformer_conv', 'transformer_conv_ordered', 'transformer_conv_large'])
    with core.Scratch() as s:
        root = s.dir
        long = i % 8 == 6           # so many iterations that years come round again
        if long:
            name = rng.choice(['transformer', 'transformer_conv'])
        data = trainer.make_data(rng, root, games=(1, 2) if long else rng.choice([(1, 3), (3, 9)]), bad=0.3)
        first = rng.choice([None, None, 0, 4, 6, 7, 15, 30, 63, 99, 127, 254, 998, 12345])
        if first is not None:
            from . import c21
            c21.seed_checkpoints(rng, root, name, [first], [], rng.choice([1, 2.5]))     # large gradients in the deep models
        start = 0 if first is None else first + 1
        runs = rng.choice([[3], [1, 2], [2, 1], [1]])
        if long:
            runs = rng.choice([[rng.randint(9, 18)], [rng.randint(9, 12), rng.randint(1, 9)]])
        for r, iters in enumerate(runs):
            if start:
                R.ev('resumed')
            old = {f: open(os.path.join(root, 'saved_models', f), 'rb').read() for f in os.listdir(os.path.join(root, 'saved_models'))} if os.path.isdir(os.path.join(root, 'saved_models')) else {}

            def run():
                log, keep, err = trainer.observe(lambda sl: sl.train(name, iters), root)
                out = dict(log=log, err=err)
                if not err:
                    last = os.path.join(root, 'saved_models', 'model_%s_checkpoint_iter_%d.pt' % (name, start + iters - 1))
                    out['file'] = same_file(last, keep['model']) if os.path.exists(last) else 'missing'
                    out['replica'] = replica(keep, name, sum(1 for x in log if x[0] == 'step'))
                return out
            how, out = trainer.in_child(run, 250)
            ctx = '%s, iterations %d..%d' % (name, start, start + iters - 1)
            R.ev('revisited', max(0, iters - 8))
            R.seen((name, start, iters, tuple(len(v) for v in data.values()), i))
            if how != 'ok':
                R.bad('train', '%s: training ends its process: %s %r' % (ctx, how, out))
                return
            check_run(R, ctx, name, root, data, start, iters, out['log'], out['err'])
            if out['err']:
                return
            R.ev('replica_runs')
            R.check(out['file'] is True, 'saved', '%s: the checkpoint does not hold the parameters reached: %s' % (ctx, out['file']))
            R.check(out['replica'] is True, 'updates', '%s: the parameters are not those of one step per loss: %s' % (ctx, out['replica']))
            now = {f for f in os.listdir(os.path.join(root, 'saved_models'))}
            R.check(len(now) == len(old) + iters, 'one-each', '%s: %d files before, %d after %d iterations' % (ctx, len(old), len(now), iters))
            for f, b in old.items():
                R.check(f in now and open(os.path.join(root, 'saved_models', f), 'rb').read() == b, 'old', '%s: the earlier checkpoint %s changed' % (ctx, f))
            start += iters
        R.sample('%s: runs %r from %r, games per year %r' % (name, runs, first, [len(data[y]) for y in trainer.YEARS]))


def name_case(name, rng, R):
    """the model name selects family and depth"""
    with core.Scratch() as s:
        root = s.dir
        data = trainer.make_data(rng, root, games=(1, 1), bad=0)

        def run():
            log, keep, err = trainer.observe(lambda sl: sl.train(name, 1), root)
            if err:
                return dict(log=log, err=err)
            import torch
            sd = torch.load(os.path.join(root, 'saved_models', 'model_%s_checkpoint_iter_0.pt' % name), map_location='cpu')
            ref = models.new(*trainer.NAMES[name]).state_dict()
            fam = models.CLS[trainer.NAMES[name][0]]
            return dict(log=log, err=None, cls=type(keep['model']).__name__ == fam,
                        keys={k: list(v.shape) for k, v in sd.items()} == {k: list(v.shape) for k, v in ref.items()},
                        n=len(sd), m=len(ref))
        how, out = trainer.in_child(run, 250)
        if how != 'ok':
            R.bad('train', '%s: training ends its process: %s %r' % (name, how, out))
            return
        check_run(R, name, name, root, data, 0, 1, out['log'], out['err'])
        R.ev('model_names')
        R.seen(('name', name))
        if not out['err']:
            R.check(out['keys'], 'family', 'model %s builds another family or depth (%d parameter tensors, expected %d)' % (name, out['n'], out['m']))
        R.sample('%s: %d parameter tensors' % (name, out.get('n', 0)))


def lr_case(rng, R, tier):
    """many optimiser steps with a one-parameter stand-in for the network"""
    n_steps = {'quick': 24000, 'thorough': 600000}[tier]
    with core.Scratch() as s:
        root = s.dir
        trainer.make_data(rng, root, games=(4, 4), bad=0)

        def run():
            from MahjongAI.agents.transformer import TransformerModel

            def forward(self, *a, **k):     # a cheap stand-in for the network: one parameter, many losses
                p = next(self.parameters())
                for _ in range(n_steps // 8 if self.training else 1):
                    yield None, p.reshape(-1)[0] * 1.0

            def go(sl):
                TransformerModel.forward = forward
                sl.train('transformer', 4)
            log, keep, err = trainer.observe(go, root)
            lrs = [x[1][0] for x in log if x[0] == 'step']
            bad = [(k, v) for k, v in enumerate(lrs) if not close(v, lr_at(k))]
            return dict(err=err, n=len(lrs), bad=bad[:5])
        how, out = trainer.in_child(run, 270)
        if how != 'ok' or out['err']:
            R.bad('train', 'training over many steps: %s %r' % (how, out))
            return
        R.ev('lr_steps', out['n'])
        R.ev('lr_cosine', max(0, out['n'] - WARM))
        R.ev('evaluations', out['n'])
        R.seen(('lr', out['n'], rng.random()))
        R.check(out['n'] >= n_steps // 2, 'steps', 'only %d optimiser steps for the yielded losses' % out['n'])
        R.check(not out['bad'], 'lr', 'learning rate is not warm-up and cosine: (step, rate) %r, expected %r' % (
            out['bad'], [lr_at(k) for k, _ in out['bad']]))
        R.sample('%d optimiser steps, last learning rate %r' % (out['n'], lr_at(out['n'] - 1)))


def cli_case(rng, R):
    """the command line as a user calls it"""
    name = rng.choice(['transformer', 'transformer_conv', 'transformer_conv_ordered'])
    with core.Scratch() as s:
        root = s.dir
        trainer.make_data(rng, root, games=(1, 1), bad=0)
        first = rng.choice([None, 3])
        if first is not None:
            from . import c21
            c21.seed_checkpoints(rng, root, name, [first], [], rng.choice([1, 2.5]))     # large gradients in the deep models
        env = dict(os.environ, PYTHONPATH=core.REPO, PYTHONDONTWRITEBYTECODE='1')
        out = subprocess.run([sys.executable, os.path.join(core.PKG, 'supervised_learning.py'), name, '2'], cwd=root, env=env,
                             capture_output=True, text=True, timeout=200)
        start = 0 if first is None else first + 1
        got = sorted(os.listdir(os.path.join(root, 'saved_models'))) if os.path.isdir(os.path.join(root, 'saved_models')) else []
        want = sorted('model_%s_checkpoint_iter_%d.pt' % (name, k) for k in ([first] if first is not None else []) + [start, start + 1])
        R.ev('cli')
        R.seen(('cli', name, first))
        R.check(out.returncode == 0 and got == want, 'cli', 'supervised_learning.py %s 2 (newest checkpoint %r): exit %d, files %r\n%s' % (
            name, first, out.returncode, got, out.stderr[-800:]))
