"""C16: batching and sampling keep every row intact."""
import numpy as np
from . import mj, obs, sim, core, models, c14

ID = 'C16'
N = {'quick': 96, 'thorough': 1100}
CHUNK = 2
RULE = ('rows of batches of several games (with empty games, empty rounds, rounds without some decision kinds mixed in) '
        'against the concatenation of the rows of the single rounds; scores and losses of sampled batches against the '
        'unsampled run row by row; distinct per (batch composition, model) and per sampled set')
REQUIRED = {'batches': 200, 'empty_parts': 100, 'nothing': 10, 'sampled_batches': 300, 'sampled_rows': 5000, 'not_sampled': 100, 'rows_reached': 120}
ASSUMPTIONS = ['sampled rows are identified by their scores under generic parameters in evaluation mode']


def generic(name, seed, depth=None):
    """a model with generic (large, random) parameters in evaluation mode"""
    import torch
    m = models.new(name, depth, seed)
    g = torch.Generator().manual_seed(seed + 77)
    with torch.no_grad():
        for n, p in m.named_parameters():
            if p.dim() > 1:
                fan = p[0].numel()
                s = 1.0 if 'embedding' in n else 1.2 / fan ** 0.5
                p.copy_(torch.randn(p.shape, generator=g) * s)
            else:
                p.add_(torch.randn(p.shape, generator=g) * 0.1)
    m.eval()
    return m


def run(m, hts, toks, **kw):
    import torch
    out = {}
    with torch.no_grad():
        for lg, loss in m(hts, toks, **kw):
            t = {71: 'during', 37: 'discard', 154: 'post'}.get(int(lg.shape[-1]))
            if t is None or t in out:
                raise core.Violation('result', 'a second or unknown result, scores of shape %r' % (tuple(lg.shape),))
            out[t] = (floor(lg.detach().cpu().numpy().astype(np.float64)), float(loss))
    return out


def floor(a):
    """how far below everything a forbidden action is put does not matter"""
    return np.where(a < -1e8, -1e9, a)


_G = {}


def gen(name, v=0):
    if (name, v) not in _G:
        _G[name, v] = generic(name, 5 + v)
    return _G[name, v]


def nll(lg, mask, y):
    z = np.where(mask > 0, lg, -np.inf)
    mx = z.max(axis=1, keepdims=True)
    return -(z[np.arange(len(y)), y] - mx[:, 0] - np.log(np.exp(z - mx).sum(axis=1)))


def thin(rng, hts):
    """drop some decision kinds of a round"""
    keep = set(rng.sample([0, 1, 2], rng.randint(0, 2)))
    return [h for h in hts if h.type_ in keep]


def case(i, rng, R, tier):
    with core.Scratch() as s:
        singles = []
        for j in range(rng.randint(1, 3)):
            go, sims = c14.games(rng, rng.randrange(3)) if rng.random() < 0.3 else sim.make_game(rng, rng.randint(1, 2), wins=False)
            p = s.path('a%d.xml' % j)
            sim.write_game(p, go, sims)
            r = obs.process_valid(p)
            singles += [(h, t) for h, t in zip(*r)]
        # a batch: list of games, each a list of rounds
        batch = []
        for _ in range(rng.randint(1, 4)):
            if rng.random() < 0.25:
                batch.append([])
                R.ev('empty_parts')
                continue
            game = []
            for _ in range(rng.randint(1, 3)):
                h, t = rng.choice(singles)
                x = rng.random()
                if x < 0.15:
                    h, t = [], []
                    R.ev('empty_parts')
                elif x < 0.35:
                    h = thin(rng, h)
                    R.ev('empty_parts')
                elif x < 0.5:
                    a = rng.randrange(len(h) + 1)
                    h = h[a:a + rng.randint(1, 12)]
                game.append((h, t))
            batch.append(game)
        if i % 8 == 0:
            batch = [[], [[([], [])][0]]][:rng.randint(0, 2)]
            R.ev('nothing')
        hts = [[h for h, _ in g] for g in batch]
        toks = [[t for _, t in g] for g in batch]
        for name in models.NAMES:
            got = models.prepare(name, hts, toks)
            want = {t: [] for t in models.TYPES}
            for g in batch:
                for h, t in g:
                    if not h:
                        continue
                    one = models.prepare(name, [[h]], [[t]])
                    for k in models.TYPES:
                        want[k] += models.rows(one[k])
            R.ev('batches')
            R.seen((name, tuple(tuple(len(h) for h, _ in g) for g in batch), i))
            for k in models.TYPES:
                R.ev('evaluations')
                if not models.same_lengths(got[k]):
                    R.bad('ragged', '%s %s: tensors of different lengths' % (name, k))
                    continue
                rows = models.rows(got[k])
                if rows != want[k]:
                    R.bad('rows', '%s %s: %d rows in the batch, %d in the single rounds, first difference at row %s' % (
                        name, k, len(rows), len(want[k]), next((n for n, (a, b) in enumerate(zip(rows, want[k])) if a != b), 'end')))
            # scores, whole and sampled
            m = gen(name, i % 3)
            full = run(m, hts, toks)
            R.check(set(full) == {k for k in models.TYPES if want[k]}, 'heads', '%s: results for %r, rows for %r' % (
                name, sorted(full), [k for k in models.TYPES if want[k]]))
            size = rng.choice([1, 2, 3, 7, 20, 60, max([2] + [len(v) for v in want.values()]) - 1])
            part = run(m, hts, toks, sample=True, sample_size=size)
            R.check(set(part) == set(full), 'sample-heads', '%s: sampling with %d changes the decision kinds to %r' % (name, size, sorted(part)))
            for k in full:
                if k not in part:
                    continue
                a, la = full[k]
                b, lb = part[k]
                mask, y = got[k]['mask'], got[k]['y'].astype(int)
                if len(a) != len(y):
                    R.bad('rows-lost', '%s %s: %d scores for %d rows' % (name, k, len(a), len(y)))
                    continue
                if len(y) <= size:
                    R.ev('not_sampled')
                    R.check(a.shape == b.shape and np.allclose(a, b, rtol=1e-4, atol=1e-4), 'sample-small',
                            '%s %s: %d rows with sample size %d are not all used' % (name, k, len(y), size))
                    continue
                R.ev('sampled_batches')
                if len(b) != size:
                    R.bad('sample-size', '%s %s: %d rows used, sample size %d of %d' % (name, k, len(b), size, len(y)))
                    continue
                cand = []
                for row in b:
                    ok = mask > 0
                    same = ((row > -1e8)[None, :] == ok).all(axis=1)
                    d = np.where(ok, np.abs(a - row[None, :]), 0).max(axis=1)
                    scale = max(1.0, float(np.abs(row[row > -1e8]).max()))
                    cand.append([int(c) for c in np.nonzero(same & (d < 3e-4 * scale))[0]])
                    R.ev('sampled_rows')
                    R.ev('evaluations')
                bad = [n for n, c in enumerate(cand) if not c]
                if bad:
                    R.bad('sample-mixed', '%s %s: sampled row %d has the scores of no row of the batch' % (name, k, bad[0]))
                    continue
                match = matching(cand)
                if match is None:
                    R.bad('sample-twice', '%s %s: sampled rows are not distinct rows of the batch: %r' % (name, k, cand[:10]))
                    continue
                e = nll(a, mask, y)
                lo = sum(min(e[c] for c in cs) for cs in cand) / len(cand)
                hi = sum(max(e[c] for c in cs) for cs in cand) / len(cand)
                tol = 2e-3 * max(1.0, abs(hi))
                R.check(lo - tol <= lb <= hi + tol, 'sample-labels',
                        '%s %s: loss of the sampled rows is %r, their labels give %r..%r' % (name, k, lb, lo, hi))
                R.seen((name, k, tuple(sorted(match))))
        if i % 8 == 5:
            everyrow(rng, R, singles)
        R.sample('batch %r' % [[len(h) for h, _ in g] for g in batch])


def everyrow(rng, R, singles):
    """many samples of one batch: no row is left out every time"""
    h, t = rng.choice(singles)
    a = rng.randrange(max(1, len(h) - 30))
    h = h[a:a + 30]
    for name in models.NAMES:
        got = models.prepare(name, [[h]], [[t]])
        n = {k: len(models.rows(got[k])) for k in models.TYPES}
        size = max(1, (max(n.values()) * 9 + 19) // 20)
        m = gen(name)
        full = run(m, [[h]], [[t]])
        hit = {k: set() for k in full if n[k] > size}
        runs = 60
        for _ in range(runs):
            part = run(m, [[h]], [[t]], sample=True, sample_size=size)
            for k in hit:
                a, b = full[k][0], part[k][0]
                for row in b:
                    ok = row > -1e8
                    scale = max(1.0, float(np.abs(row[ok]).max()))
                    d = np.where(ok[None, :], np.abs(a - row[None, :]), 0).max(axis=1)
                    hit[k] |= {int(c) for c in np.nonzero(((a > -1e8) == ok[None, :]).all(axis=1) & (d < 3e-4 * scale))[0]}
        for k in hit:
            R.ev('rows_reached', len(hit[k]))
            R.ev('evaluations')
            # chance of one given row staying out of 60 draws of 45 % or more: below 1e-15
            R.check(len(hit[k]) == n[k], 'sample-never', '%s %s: rows %r of %d never chosen in %d samples of %d' % (
                name, k, sorted(set(range(n[k])) - hit[k])[:10], n[k], runs, size))


def matching(cand):
    """distinct representatives (Kuhn), or None"""
    owner = {}

    def put(n, seen):
        for c in cand[n]:
            if c in seen:
                continue
            seen.add(c)
            if c not in owner or put(owner[c], seen):
                owner[c] = n
                return True
        return False
    for n in range(len(cand)):
        if not put(n, set()):
            return None
    return list(owner)
