"""C17: model outputs are legal, finite and row-independent; the loss is what it says."""
import copy
import random
import numpy as np
from . import mj, obs, sim, core, models, c14, c16

ID = 'C17'
N = {'quick': 72, 'thorough': 800}
CHUNK = 1
RULE = ('scores, losses and gradients of all four models (fresh, generic and extreme parameters, training and evaluation '
        'mode) on batches of simulated games: kinds in order, finite allowed scores, forbidden probability, loss '
        'recomputed from scores, mask and label, gradient reaches the parameters and equals the measured slope of the loss (also in one-row batches, and zero where the loss does not move), scores of each row equal in batches of '
        'other composition and order; distinct per (model, parameters, batch)')
REQUIRED = {'results': 600, 'rows': 15000, 'gradients': 100, 'recomposed': 5000, 'missing_kind': 10, 'train_mode': 100, 'slopes_told': 70, 'zero_gradients': 10000, 'one_row': 30}
KIND = {71: 'during', 37: 'discard', 154: 'post'}


def outputs(R, name, m, hts, toks, ctx, grad=False):
    """check one forward pass; {kind: scores}"""
    import torch
    out, order, total = {}, [], None
    rows = models.prepare(name, hts, toks, m)
    with torch.set_grad_enabled(grad):
        for lg, loss in m(hts, toks):
            k = KIND.get(int(lg.shape[1]))
            order.append(k)
            R.ev('results')
            a = lg.detach().cpu().numpy().astype(np.float64)
            R.check(k is not None and a.shape == (len(rows[k]['y']), models.WIDTH[k]), 'shape', '%s: a result of shape %r' % (ctx, a.shape))
            if k is None or a.shape[0] != len(rows[k]['y']):
                continue
            mask, y = rows[k]['mask'] > 0, rows[k]['y'].astype(int)
            R.ev('rows', len(y))
            R.check(np.isfinite(np.where(mask, a, 0)).all(), 'finite', '%s %s: a score of an allowed action is not finite' % (ctx, k))
            prob = torch.softmax(lg.detach(), dim=1).cpu().numpy()
            p = np.where(mask, 0, prob).sum(axis=1)
            R.check(not (p > 1e-6).any(), 'forbidden', '%s %s: forbidden actions have probability %r' % (ctx, k, float(np.nanmax(p)) if len(p) else 0))
            R.check((np.abs(prob.sum(axis=1) - 1) < 1e-4).all(), 'prob', '%s %s: probabilities do not add up' % (ctx, k))
            want = float(c16.nll(a, mask, y).mean())
            got = float(loss.detach())
            R.check(np.isfinite(got), 'loss-finite', '%s %s: loss is %r' % (ctx, k, got))
            R.check(loss.dim() == 0 and abs(got - want) <= 1e-3 * max(1.0, abs(want)), 'loss', '%s %s: loss is %r, mean negative log-probability of the labels is %r' % (ctx, k, got, want))
            out[k] = c16.floor(a)
            if grad:
                total = loss if total is None else total + loss
    want = [k for k in models.TYPES if len(rows[k]['y'])]
    R.check(order == want, 'order', '%s: results %r, rows for %r' % (ctx, order, want))
    return out, total


def loss_of(m, hts, toks, seed):
    """sum of the losses of a batch, with the dropout of that seed"""
    import torch
    torch.manual_seed(seed)
    with torch.no_grad():
        return sum(float(loss) for _, loss in m(hts, toks))


def slope(m, hts, toks, seed, moves, scale):
    """derivative of the loss along moves ([(parameter, direction)]) measured by finite differences;
    None where rounding or kinks do not let it be told"""
    import torch
    start = [p.detach().clone() for p, _ in moves]
    last, mid = None, None
    try:
        for h in (3e-2, 1e-2, 3e-3, 1e-3):
            v = []
            for sign in (1, -1):
                with torch.no_grad():
                    for (p, d), p0 in zip(moves, start):
                        p.copy_(p0 + sign * h * d)
                v.append(loss_of(m, hts, toks, seed))
                if mid is None:
                    with torch.no_grad():
                        for (p, _), p0 in zip(moves, start):
                            p.copy_(p0)
                    mid = loss_of(m, hts, toks, seed)
            noise = 2e-6 * max(1.0, abs(v[0]), scale)
            if not np.isfinite(v).all():
                return None
            if abs(v[0] - v[1]) < 50 * noise:
                return None
            fd = (v[0] - v[1]) / (2 * h)
            # no kink on one side, and the same at two steps
            sides = abs((v[0] - mid) - (mid - v[1])) <= 0.1 * abs(v[0] - v[1])
            if sides and last is not None and abs(fd - last) <= 0.05 * abs(fd):
                return fd
            last = fd if sides else None
        return None
    finally:
        with torch.no_grad():
            for (p, _), p0 in zip(moves, start):
                p.copy_(p0)


def derivative(R, m, rng, hts, toks, ctx):
    """the gradient is the derivative of the loss: along random directions of parameters, and where it is zero"""
    import torch
    seed = rng.randrange(1 << 30)
    m.train()
    m.zero_grad()
    torch.manual_seed(seed)
    total = None
    for _, loss in m(hts, toks):
        total = loss if total is None else total + loss
    if total is None:
        return
    R.check(total.requires_grad, 'gradient', '%s: the loss carries no gradient' % ctx)
    total.backward()
    g = torch.Generator().manual_seed(seed)
    ps = list(m.named_parameters())
    grads = {n: torch.zeros_like(p) if p.grad is None else p.grad.detach().clone() for n, p in ps}
    m.zero_grad(set_to_none=True)

    def along(n, p, keep):
        d = torch.randn(p.shape, generator=g) * keep
        return d * max(0.02, float(p.detach().std()) if p.numel() > 1 else 0.02)
    base = float(total.detach())
    emb = [x for x in ps if 'embedding' in x[0]]
    pick = rng.sample(ps, 5) + rng.sample(emb, min(2, len(emb)))
    for n, p in pick:
        d = along(n, p, (grads[n] != 0).float())
        want = slope(m, hts, toks, seed, [(p, d)], base)
        R.ev('slopes')
        if want:
            got = float((grads[n] * d).sum())
            R.ev('slopes_told')
            R.check(abs(got - want) <= 0.15 * abs(want), 'derivative', '%s: along a change of %s the loss has slope %g, its gradient says %g' % (ctx, n, want, got))
    # where the gradient is zero the loss does not depend on the parameter
    zero = [(n, p, (grads[n] == 0).float()) for n, p in ps if (grads[n] == 0).any()]
    R.ev('zero_gradients', sum(int(k.sum()) for _, _, k in zero))
    rest = [x for x in zero if 'embedding' not in x[0]]
    for part in [[x] for x in zero if 'embedding' in x[0]] + ([rest] if rest else []):
        if not slope(m, hts, toks, seed, [(p, along(n, p, k)) for n, p, k in part], base):
            continue
        # once more per parameter, in two other directions, to exclude a chance
        for n, p, k in part:
            w = [slope(m, hts, toks, seed, [(p, along(n, p, k))], base) for _ in range(2)]
            R.ev('zero_confirmed')
            R.check(not all(w), 'no-gradient', '%s: the loss has slopes %r along entries of %s whose gradient is zero' % (ctx, w, n))
    m.eval()


_EV = None


def events():
    """tokens of events of every kind, from real processing"""
    global _EV
    if _EV is None:
        from . import c18
        tab, _, _ = c18.harvest(random.Random(17))
        _EV = sorted(set(c18.all_calls().values()) | set(tab.values()))
    return _EV


def cut(rng, hs):
    a = rng.randrange(max(1, len(hs) - 70))
    return hs[a:a + 70]


def case(i, rng, R, tier):
    import torch
    with core.Scratch() as s:
        games = []
        for j in range(2):
            go, sims = c14.games(rng, rng.randrange(2)) if j == 0 else sim.make_game(rng, 1)
            p = s.path('a%d.xml' % j)
            sim.write_game(p, go, sims[:2])
            games.append(obs.process_valid(p))
        games = [([cut(rng, hs) for hs in a], b) for a, b in games]
        if rng.random() < 0.3:
            k = rng.choice([0, 1, 2])
            games = [([[h for h in hs if h.type_ != k] for hs in a], b) for a, b in games]
            R.ev('missing_kind')
        hts, toks = [g[0] for g in games], [g[1] for g in games]
        name = models.NAMES[i % 4]
        for kind in ('fresh', 'generic', 'extreme'):
            depth = rng.randint(1, 3)
            m = models.new(name, depth, i) if kind == 'fresh' else c16.generic(name, i, depth)
            if kind == 'extreme':
                with torch.no_grad():
                    for n, p in m.named_parameters():
                        if p.dim() > 1:
                            p.mul_(3.0)
            ctx = '%s (%s parameters)' % (name, kind)
            R.seen((name, kind, depth, i))
            m.eval()
            full, _ = outputs(R, name, m, hts, toks, ctx + ' eval')
            # the same rows in other company
            parts = [([a], [b]) for a, b in zip(hts, toks)]
            singles = [c16.run(m, a, b) for a, b in parts]
            rev = c16.run(m, hts[::-1], toks[::-1])
            again = c16.run(m, hts, toks)
            rnd = [[c16.run(m, [[h]], [[t]]) for h, t in zip(a, b)] for a, b in zip(hts, toks)]
            for k, a in full.items():
                scale = max(1.0, float(np.abs(a[a > -1e8]).max()))
                for what, b in (('alone', np.concatenate([x[k] [0] for x in singles if k in x])),
                                ('in single rounds', np.concatenate([y[k][0] for x in rnd for y in x if k in y])),
                                ('again', again[k][0]),
                                ('in reversed order', rev[k][0])):
                    if what == 'in reversed order':
                        n0 = singles[0][k][0].shape[0] if k in singles[0] else 0
                        b = np.concatenate([b[len(b) - n0:], b[:len(b) - n0]])
                    R.ev('recomposed', len(b))
                    d = np.abs(a - b).max() if a.shape == b.shape else None
                    R.check(d is not None and d <= 2e-3 * scale, 'company', '%s %s: scores %s differ by %r' % (ctx, k, what, d))
            # training mode: loss, gradient
            m.train()
            m.zero_grad()
            _, total = outputs(R, name, m, hts, toks, ctx + ' train', grad=True)
            R.ev('train_mode')
            if total is not None:
                R.ev('gradients')
                R.check(total.requires_grad, 'gradient', '%s: the loss carries no gradient' % ctx)
                if total.requires_grad:
                    total.backward()
                    ps = list(m.named_parameters())
                    none = [n for n, p in ps if p.grad is None]
                    want_all = set(full) == set(models.TYPES)
                    if want_all:
                        R.check(not none, 'gradient', '%s: no gradient reaches %r' % (ctx, none[:5]))
                    R.check(all(p.grad is None or torch.isfinite(p.grad).all() for _, p in ps), 'gradient', '%s: gradient is not finite' % ctx)
                    z = [n for n, p in ps if p.grad is not None and float(p.grad.abs().sum()) > 0]
                    R.check(len(z) > 0.5 * len(ps) if want_all else z, 'gradient', '%s: the gradient is zero nearly everywhere (%d of %d)' % (ctx, len(z), len(ps)))
        # gradients of small batches, one-row batches among them
        m = c16.generic(name, i + 1000, rng.randint(1, 2))
        lone = [(h, t) for a, b in zip(hts, toks) for hs, t in zip(a, b) for h in hs if h.type_ == 1]
        h, t = rng.choice(lone) if lone else (None, None)
        some = [([hs[:14] for hs in a[:1]], b[:1]) for a, b in zip(hts, toks)]
        derivative(R, m, rng, [a for a, _ in some], [b for _, b in some], name + ' small batch')
        if h is not None:
            R.ev('one_row')
            derivative(R, m, rng, [[[h]]], [[t]], name + ' one row')
            # a history of any events
            h = copy.copy(h)
            cat = events()
            t = [rng.choice(cat) for _ in range(40)]
            h.encoding_idx = len(t)
            derivative(R, m, rng, [[[h]]], [[t]], name + ' mixed history')
        R.sample('%s: %r' % (name, {k: list(v.shape) for k, v in full.items()}))
