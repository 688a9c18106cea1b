"""C22: validation measures without training."""
import contextlib
import copy
import io
import os
from . import mj, obs, sim, core, models, trainer, c16, c20

ID = 'C22'
N = {'quick': 64, 'thorough': 700}
CHUNK = 1
RULE = ('the real estimate_loss with a recording data loader and every model family: digests of parameters, buffers, '
        'gradients, optimiser state and random state before and after, mode flags of all submodules, the next pass of the '
        'loader, the value against losses recomputed from the recorded batches, and repeated values; distinct per '
        '(model, directory, batch size)')
REQUIRED = {'calls': 150, 'batches': 200, 'several_batches': 30, 'limited': 8, 'with_grads': 30, 'eval_before': 20, 'bad_files': 20, 'row_limits': 200}


def setup(tier):
    trainer.preload()


def snapshot(m, opt):
    import torch
    return dict(
        params=[p.detach().clone() for p in m.parameters()],
        buffers={k: v.clone() for k, v in m.named_buffers()},
        grads=[None if p.grad is None else p.grad.clone() for p in m.parameters()],
        req=[p.requires_grad for p in m.parameters()],
        opt=[{k: (v.clone() if hasattr(v, 'clone') else copy.copy(v)) for k, v in st.items()} for st in opt.state.values()],
        plain={n: {k: v.clone() for k, v in vars(x).items() if isinstance(v, torch.Tensor)} for n, x in m.named_modules()},
        grad_on=torch.is_grad_enabled(),
    )


def can_limit(C):
    import inspect
    f = C.forward
    while hasattr(f, '__wrapped__'):
        f = f.__wrapped__
    return 'sample_size' in inspect.signature(f).parameters


def same(a, b):
    import torch
    if isinstance(a, torch.Tensor):
        return isinstance(b, torch.Tensor) and a.shape == b.shape and torch.equal(a, b)
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def case(i, rng, R, tier):
    import torch
    import MahjongAI.supervised_learning as sl
    from MahjongAI.utils.dataloader import DataLoader
    fam = models.NAMES[i % 4]
    depth = rng.randint(1, 2)
    with core.Scratch() as s, contextlib.redirect_stdout(io.StringIO()):
        os.chdir(s.dir)
        try:
            n = rng.choice([1, 2, 3, 5, 8, 23, 30]) if i % 4 else rng.choice([23, 26, 31])
            trainer.make_data(rng, s.dir, val=n, years=[], bad=0.3, draws=(2, 5))
            d = s.path('data', 'processed', '2021')
            if any(f.startswith('x') for f in os.listdir(d)):
                R.ev('bad_files')
            size = rng.choice([1, 2, 3, 5])
            dl = DataLoader(d, size, lambda *a: None)
            m = c16.generic(fam, i, depth) if rng.random() < 0.7 else models.new(fam, depth, i)
            opt = torch.optim.AdamW(m.parameters(), lr=1e-3)
            m.train()
            if rng.random() < 0.7:          # gradients and optimiser state from earlier training
                R.ev('with_grads')
                h, t = next(iter(DataLoader(d, 1, lambda *a: None)))
                for _, loss in m(h, t):
                    opt.zero_grad()
                    loss.backward()
                    opt.step()
            if rng.random() < 0.4:
                m.eval()
                R.ev('eval_before')
            seen = []

            limit = rng.choice([None, 1, 3, 9])

            def hook(mod, args, kwargs):
                if mod is m and limit and can_limit(type(m)):    # as if the batches were larger than the limit
                    kwargs.setdefault('sample_size', limit)
                    R.ev('row_limits')
                if mod is m:
                    seen.append([x for x in list(args) + list(kwargs.values()) if isinstance(x, (list, tuple))][:2])
            values = []
            for rep in range(3):
                before = snapshot(m, opt)
                state = torch.get_rng_state()
                del seen[:]
                hk = trainer.model_calls(hook)
                try:
                    v = sl.estimate_loss(dl, m, size)
                finally:
                    hk.remove()
                R.ev('calls')
                R.ev('evaluations', 9)
                ctx = '%s, %d files, batches of %d, call %d' % (fam, n, size, rep)
                after = snapshot(m, opt)
                for k in before:
                    if not same(before[k], after[k]):
                        R.bad(k, '%s: validation changed the %s' % (ctx, k))
                if not torch.equal(state, torch.get_rng_state()):
                    R.bad('rng', '%s: validation used random numbers' % ctx)
                if not all(x.training for x in m.modules()):
                    R.bad('mode', '%s: the model is not left in training mode' % ctx)
                R.ev('batches', len(seen))
                if len(seen) > 1:
                    R.ev('several_batches')
                if sum(len(a[0]) for a in seen) < n:
                    R.ev('limited')
                used = [list(x) for x in seen]
                m.eval()
                losses = []
                with torch.no_grad():
                    for a in used:
                        losses += [float(l) for _, l in m(a[0], a[1])]
                m.train()
                want = sum(losses) / len(losses)
                if not abs(float(v) - want) <= 1e-4 * max(1.0, abs(want)):
                    R.bad('value', '%s: the validation loss is %r, the mean over the evaluated batches is %r' % (ctx, v, want))
                values.append(float(v))
                R.seen((fam, i, size, rep, len(used)))
                if rep == 1:        # the next reader starts at the first game and sees all of them
                    full = [c20.dig(g) for b in DataLoader(d, size, lambda *a: None) for g in zip(*b)]
                    got = [c20.dig(g) for b in dl for g in zip(*b)]
                    if got != full:
                        R.bad('reader', '%s: after validation the loader delivers %d of %d games' % (ctx, len(got), len(full)))
                    dl.reset()
            if any(abs(v - values[0]) > 1e-6 * max(1, abs(values[0])) for v in values):
                R.bad('repeat', '%s: repeated validation gives %r' % (ctx, values))
            R.sample('%s: %d files, batches of %d: %r' % (fam, n, size, values[0]))
        finally:
            os.chdir('/')
