"""C28: the saved parameters hold everything a model has learned."""
import io
import json
import os
import subprocess
import sys
from . import mj, obs, sim, core, models, trainer

ID = 'C28'
N = {'quick': 64, 'thorough': 1600}
CHUNK = 1
RULE = ('a model is trained, written and read into a newly built one (other start values, also after other training, also in '
        'another process); outputs, losses and gradients of both on several batches, and every tensor reachable from the '
        'model that training changed or that differs between two new models; distinct per family, depth, start and batches')
REQUIRED = {'restored': 40, 'restored_after_training': 15, 'outputs': 300, 'tensors_scanned': 4000, 'changed_tensors': 1500, 'others_watched': 60,
            'processes': 6, 'train_mode': 60, 'repeated': 60}
ASSUMPTIONS = ['the same machine and number of threads: restored models are compared to rounding', 'CPU']
KINDS = [('transformer', None), ('transformer_conv', None), ('transformer_conv_large', 2), ('transformer_conv_large', 3),
         ('transformer_conv_ordered', 1), ('transformer_conv_ordered', 2), ('transformer_conv_ordered', 4), ('transformer_conv_large', 1)]


def setup(tier):
    import torch
    torch.set_num_threads(1)


def games(rng, root, n, tag):
    out = []
    for j in range(n):
        p = os.path.join(root, '%s%d.log' % (tag, j))
        sim.write_game(p, 169, [trainer.tiny_round(rng, rng.randint(2, 7)) for _ in range(rng.randint(1, 2))])
        out.append(p)
    return out


def load(paths):
    gs = [obs.process_valid(p) for p in paths]
    return [g[0] for g in gs], [g[1] for g in gs]


def tensors_of(m):
    """{path: tensor} of everything reachable from the model, registered or not"""
    import torch
    out, seen, todo = {}, set(), [('', m)]
    while todo:
        path, o = todo.pop()
        if id(o) in seen or len(seen) > 20000:
            continue
        seen.add(id(o))
        if isinstance(o, torch.Tensor):
            out[path] = o
        elif isinstance(o, dict):
            todo += [('%s[%r]' % (path, k), v) for k, v in o.items()]
        elif isinstance(o, (list, tuple, set)):
            todo += [('%s[%d]' % (path, k), v) for k, v in enumerate(o)]
        elif isinstance(o, torch.nn.Module) or type(o).__module__.startswith('MahjongAI'):
            if not isinstance(o, type) and hasattr(o, '__dict__'):
                todo += [('%s.%s' % (path, k), v) for k, v in vars(o).items()]
    return out


def outputs(m, batch, grad=False):
    import torch
    with torch.set_grad_enabled(grad):
        return [(lg, ls) for lg, ls in m(*batch, sample=False)]


def same(a, b):
    import torch
    return len(a) == len(b) and all(x[0].shape == y[0].shape and torch.allclose(x[0], y[0], atol=2e-6, rtol=2e-5, equal_nan=True)
                                    and torch.allclose(x[1], y[1], atol=2e-6, rtol=2e-5, equal_nan=True) for x, y in zip(a, b))


def train(m, batches, steps, lr):
    import torch
    m.train()
    opt = torch.optim.AdamW(m.parameters(), lr=lr)
    n = 0
    for k in range(steps):
        for lg, ls in m(*batches[k % len(batches)], sample=True):
            opt.zero_grad()
            ls.backward()
            opt.step()
            n += 1
    return n


SUB = '''
import sys, json
sys.path.insert(0, %r); sys.path.insert(0, %r)
import torch
from mon import models, c28
fam, depth, ck, out = sys.argv[1], int(sys.argv[2]) or None, sys.argv[3], sys.argv[4]
m = models.new(fam, depth, 77)
m.load_state_dict(torch.load(ck, map_location='cpu'))
m.eval()
torch.save([(a, b) for a, b in c28.outputs(m, c28.load(sys.argv[5:]))], out)
'''


def case(i, rng, R, tier):
    import torch
    fam, depth = KINDS[i % len(KINDS)]
    ctx = '%s%s' % (fam, '' if depth is None else ' of depth %d' % depth)
    with core.Scratch() as s:
        paths = [games(rng, s.dir, rng.randint(1, 2), 'b%d_' % k) for k in range(3)]
        batches = [load(p) for p in paths]
        a = models.new(fam, depth, 10 * i + 1)
        b = models.new(fam, depth, 10 * i + 2)
        other = models.new(fam, depth, 10 * i + 3)
        before = {k: v.detach().clone() for k, v in tensors_of(a).items()}
        fresh = {k: v for k, v in tensors_of(b).items()}
        ptrs = {v.data_ptr() for v in a.state_dict().values()}
        for k, v in tensors_of(a).items():
            R.ev('tensors_scanned')
            w = fresh.get(k)
            if w is None or not v.dtype.is_floating_point:
                continue
            if v.requires_grad and not v.is_leaf:
                continue
            differs = v.shape != w.shape or not torch.equal(v, w)
            if (differs or v.requires_grad) and v.data_ptr() not in ptrs:
                R.bad('unsaved', '%s: the tensor %s is %s but is not among the saved parameters' % (
                    ctx, k, 'chosen at random for every model' if differs else 'trainable'))
            if differs:
                R.check(v.data_ptr() != w.data_ptr(), 'shared', '%s: two models share %s' % (ctx, k))
        others = {k: v.detach().clone() for k, v in other.state_dict().items()}
        # train it
        torch.manual_seed(i)
        lr = rng.choice([1e-3, 1e-2])
        n = train(a, batches[:2], rng.randint(1, 3), lr)
        R.ev('steps', n)
        ptrs = {v.data_ptr() for v in a.state_dict().values()}
        for k, v in tensors_of(a).items():
            w = before.get(k)
            if w is None or v.shape != w.shape or v.requires_grad and not v.is_leaf:
                continue
            if k.endswith('.grad'):
                continue
            if not torch.equal(v, w):
                R.ev('changed_tensors')
                if v.data_ptr() not in ptrs:
                    R.bad('unsaved', '%s: training changed %s, which is not among the saved parameters' % (ctx, k))
        R.ev('others_watched')
        R.check(all(torch.equal(v, others[k]) for k, v in other.state_dict().items()), 'shared', '%s: training one model changed another one' % ctx)
        # write it, read it into another one
        f = s.path('model.pt')
        torch.save(a.state_dict(), f)
        if i % 3 == 0:
            train(b, batches[1:], 1, 1e-2)      # one that has been used for something else
            R.ev('restored_after_training')
        try:
            b.load_state_dict(torch.load(f, map_location='cpu'))
        except Exception as e:
            R.bad('unreadable', '%s: the saved parameters cannot be loaded into a new model: %s %s' % (ctx, type(e).__name__, str(e)[:300]))
            return
        R.ev('restored')
        a.eval()
        b.eval()
        first = None
        for k, x in enumerate(batches):
            p, q = outputs(a, x), outputs(b, x)
            first = first or p
            R.ev('outputs', len(p))
            R.check(same(p, q), 'differs', '%s: a model restored from its saved parameters gives other outputs' % ctx)
            R.seen((fam, depth, i, k, len(p)))
        R.ev('repeated')
        R.check(same(first, outputs(a, batches[0])), 'history', '%s: the outputs for a batch depend on the batches evaluated before' % ctx)
        # the restored one goes on training like the first one would
        for m in (a, b):
            m.train()
            m.zero_grad()
            torch.manual_seed(1000 + i)
            for lg, ls in outputs(m, batches[0], True):
                ls.backward()
        R.ev('train_mode')
        ga, gb = [w.grad for w in a.parameters()], [w.grad for w in b.parameters()]
        ok = len(ga) == len(gb) and all((x is None) == (y is None) and (x is None or torch.allclose(x, y, atol=1e-5, rtol=1e-3, equal_nan=True)) for x, y in zip(ga, gb))
        R.check(ok, 'differs', '%s: a restored model is trained by other gradients than the model that was saved' % ctx)
        # the same in another process
        if i % 8 == 5 or i % 8 == i // 8 % 8:
            out = s.path('out.pt')
            a.eval()
            r = subprocess.run([sys.executable, '-c', SUB % (core.VERIF, core.REPO), fam, str(depth or 0), f, out] + paths[0], capture_output=True, text=True, timeout=200, cwd=s.dir)
            if r.returncode:
                if '/MahjongAI/' in r.stderr:
                    R.bad('process', '%s: a restored model fails in a new process: %s' % (ctx, r.stderr.strip().split('\n')[-1][:300]))
                    return
                raise RuntimeError(r.stderr[-1500:])
            R.ev('processes')
            R.check(same(outputs(a, batches[0]), torch.load(out)), 'process', '%s: a model restored in another process gives other outputs' % ctx)
        R.sample('%s: %d steps, saved, restored: %d outputs equal' % (ctx, n, sum(len(outputs(b, x)) for x in batches[:1])))
