"""C18: predictions depend on every part of the visible history and situation."""
import copy
import random
import numpy as np
from . import mj, obs, sim, core, mini, c02, models, c16

ID = 'C18'
N = {'quick': 96, 'thorough': 1000}
CHUNK = 1
RULE = ('scores of all four models with generic parameters for a decision and for copies of it that differ in one history '
        'event (seat, tile, drawn-and-discarded flag, call choice, kind), the place or number of events, or one cell of '
        'the situation; all events of a catalogue with every call choice put at one place must differ pairwise, so must one event at each of the 149 places and the changes of all single cells of the situation; events after the decision and embeddings of absent events or of other kinds of events must have no effect (scores, and '
        'gradient of the embedding tables of mixed histories against those of the single events); distinct per '
        '(model, row kind, what changed)')
REQUIRED = {'seat': 300, 'tile': 300, 'tsumogiri': 100, 'call': 300, 'kind': 300, 'moved': 300, 'removed': 300, 'unseen_event': 300,
            'situation': 8000, 'cell_pairs': 1000000, 'places': 500000, 'absent': 70, 'mixture': 100, 'pairs': 3000000, 'call_choices': 15000, 'kind_rows': 200}
ASSUMPTIONS = ['dependence is observed at generic parameters and small scores, as a change of the scores above the '
               'numerical noise of identical rows for at least one of three parameter draws']
GAP = 2e-5
EMB_SEEN = {}


def harvest(rng):
    """abstract event -> token, from real processing"""
    cl = c02.classes()
    sims = []
    for _ in range(10):
        key, codes = rng.choice(cl)
        code = rng.choice(codes)
        try:
            sims.append(mini.call_round(rng, code, mj.all_codes_cached()[code]).end())
        except mini.ref.RefError:
            pass
    go, more = sim.make_game(rng, 2, styles=['tenpai', 'kan', 'pon'], wins=False)
    sims += more
    with core.Scratch() as s:
        p = s.path('a.xml')
        sim.write_game(p, go, sims)
        res = obs.process_valid(p)
    tab = {}
    for sm, ts in zip(sims, res[1]):
        for a, t in zip(sm.ref.tokens, ts):
            tab.setdefault(a, int(t))
    return tab, res, sims


_CALLS = None


def all_calls():
    """event -> token for every call choice (kind, tiles, claimed position, red five) of seat 1, from real processing"""
    global _CALLS
    if _CALLS is None:
        rng = random.Random(18)
        sims = []
        for key, codes in c02.classes():
            for _ in range(30):
                code = rng.choice(codes)
                try:
                    r = mini.call_round(rng, code, mj.all_codes_cached()[code])
                except mini.ref.RefError:
                    continue
                if r.p == 1:
                    sims.append(r.end())
                    break
        with core.Scratch() as s:
            p = s.path('a.xml')
            sim.write_game(p, 169, sims)
            res = obs.process_valid(p)
        _CALLS = {}
        for sm, ts in zip(sims, res[1]):
            for a, t in zip(sm.ref.tokens, ts):
                if a[:2] == ('call', 1):
                    _CALLS.setdefault(a, int(t))
    return _CALLS


def own(key):
    return key[0] in ('ankan', 'kakan')


def partners(tab, what, a):
    """events that differ from a in exactly one aspect"""
    out = []
    for b in tab:
        if b == a:
            continue
        if what == 'kind':
            if b[0] != a[0]:
                out.append(b)
        elif b[0] != a[0]:
            continue
        elif what == 'seat' and a[0] != 'dora' and b[1] != a[1] and b[2:] == a[2:]:
            out.append(b)
        elif what == 'tile' and ((a[0] == 'dora') or (a[0] == 'discard' and b[1] == a[1] and b[3] == a[3] and b[2] != a[2])):
            out.append(b)
        elif what == 'tsumogiri' and a[0] == 'discard' and b[1:3] == a[1:3] and b[3] != a[3]:
            out.append(b)
        elif what == 'call' and a[0] == 'call' and b[1] == a[1] and b[2] != a[2]:
            out.append(b)
    return out


def clone(h):
    n = copy.copy(h)
    if h.type_ == 2:
        n.stateObjs = [copy.copy(x) for x in h.stateObjs]
        for x in n.stateObjs:
            fresh(x)
        n.stateObj = n.stateObjs[h.player]
    else:
        n.stateObj = copy.copy(h.stateObj)
        fresh(n.stateObj)
    return n


def fresh(s):
    for k in ('hand_tensor', 'remaining_tiles_pov', 'sutehai_tensors', 'is_menzen', 'double_reaches', 'reaches',
              'ippatsu', 'scores', 'parent_tensor', 'parent_rounds_remaining'):
        v = getattr(s, k)
        setattr(s, k, v.copy() if hasattr(v, 'copy') else list(v))


def calm(s):
    """small numbers, so that single cells are not drowned by the scores"""
    s.scores = [1, 2, 3, 0]
    s.remaining_tsumo = 3


def situation_changes(rng, s, ordered):
    """(name, function) for every cell of every part of the situation"""
    p = s.player
    cells = []
    for f in ('hand_tensor', 'remaining_tiles_pov'):
        for k in range(37):
            def ch(x, f=f, k=k):
                v = getattr(x, f)
                top = 1 if k >= 34 else 4
                v[k] = v[k] + 1 if v[k] < top else v[k] - 1
            cells.append(('%s[%d]' % (f, k), ch))
    for q in (range(4) if ordered else [p]):
        for k in range(37):
            def ch(x, q=q, k=k):
                x.sutehai_tensors[q][k] = 1 - x.sutehai_tensors[q][k]
            cells.append(('discards[%d][%d]' % ((q - p) % 4, k), ch))
    for f in ('scores', 'parent_tensor', 'parent_rounds_remaining', 'double_reaches', 'reaches', 'ippatsu', 'is_menzen'):
        for q in range(4):
            def ch(x, f=f, q=q):
                v = getattr(x, f)
                v[q] = 1 - v[q] if v[q] in (0, 1) else v[q] - 1
            cells.append(('%s[%d]' % (f, q), ch))
    for f in ('remaining_tsumo', 'kyotaku', 'honba', 'rounds_remaining'):
        cells.append((f, lambda x, f=f: setattr(x, f, getattr(x, f) + 1)))
    return cells


def views(h, seat):
    return h.stateObjs[seat] if h.type_ == 2 else h.stateObj


def single_seat(h, seat):
    """the decision reduced to one deciding seat (reactions have up to three)"""
    if h.type_ == 2:
        h.decisions = [d if q == seat else [[], [], []] for q, d in enumerate(h.decisions)]
    return h


def case(i, rng, R, tier):
    import torch
    tab, res, sims = harvest(rng)
    rds = obs.rounds(res)
    name = models.NAMES[i % 4]
    kind = models.TYPES[(i // 4) % 3]
    pool = []
    for hs, _ in rds:
        for o in hs:
            if models.TYPES[o.type] != kind:
                continue
            if o.type == 1:
                pool.append((o.raw, o.player))
            else:
                pool += [(o.raw, q) for q, v in o.options.items() if v]
    if not pool:
        R.ev('no_decision')
        return
    raw, seat = rng.choice(pool)
    base = single_seat(clone(raw), seat)
    for x in (base.stateObjs if base.type_ == 2 else [base.stateObj]):
        calm(x)
    events = sorted(tab, key=repr)
    L = rng.choice([3, 10, 30, 70, 120])
    hist = [rng.choice(events) for _ in range(L + 4)]
    base.encoding_idx = L
    variants = [('base', hist, base), ('base', hist, base)]
    for what in ('seat', 'tile', 'tsumogiri', 'call', 'kind'):
        ways = [(a, partners(tab, what, a)) for a in rng.sample(events, min(len(events), 60))]
        ways = [(a, b) for a, bs in ways if bs for b in rng.sample(bs, 1)]
        for a, b in rng.sample(ways, min(6, len(ways))):
            j = rng.randrange(L)
            h0 = list(hist)
            h0[j] = a
            h1 = list(h0)
            h1[j] = b
            variants += [((what, a, b), h0, base), ((what, a, b), h1, base)]
    for _ in range(6):
        j, k = rng.sample(range(L), 2)
        h0 = list(hist)
        if h0[j] == h0[k]:
            h0[k] = rng.choice([e for e in events if e != h0[j]])
        h1 = list(h0)
        h1[j], h1[k] = h0[k], h0[j]
        variants += [(('moved', j, k), h0, base), (('moved', j, k), h1, base)]
        short = copy.copy(base)
        short.encoding_idx = L - 1
        j = rng.randrange(L)
        variants += [(('removed', j, L), hist, base), (('removed', j, L), hist[:j] + hist[j + 1:], short)]
        h1 = list(hist)
        j = L + rng.randrange(4)
        h1[j] = rng.choice([e for e in events if e != hist[j]])
        variants += [(('unseen_event', j), hist, base), (('unseen_event', j), h1, base)]
    state = []
    for cell, change in situation_changes(rng, views(base, seat), name.endswith('ordered')):
        n = single_seat(clone(base), seat)
        change(views(n, seat))
        state.append((('situation', cell), hist, base))
        state.append((('situation', cell), hist, n))
    variants += state
    hts = [[[h] for _, _, h in variants]]
    toks = [[[tab[e] for e in ev] for _, ev, _ in variants]]
    diff = cells = None
    for draw in range(3):
        m = c16.gen(name, draw)
        out = c16.run(m, hts, toks)
        if set(out) != {kind} or len(out[kind][0]) != len(variants):
            R.bad('rows', '%s %s: %d decisions gave %r rows' % (name, kind, len(variants), {k: len(v[0]) for k, v in out.items()}))
            return
        a = out[kind][0]
        sit = a[-len(state):][1::2]
        sit = np.where(sit > -1e8, sit, 0)
        sit = np.stack([np.abs(sit - x).max(axis=1) for x in sit])
        cells = sit if cells is None else np.maximum(cells, sit)
        d = np.where((a[0::2] > -1e8) & (a[1::2] > -1e8), np.abs(a[0::2] - a[1::2]), 0).max(axis=1)
        # a changed hand also changes the mask of discards; only common actions are compared
        diff = d if diff is None else np.maximum(diff, d)
    for (label, h0, _), d in zip(variants[0::2], diff):
        if label == 'base':
            R.check(d < GAP, 'noise', '%s %s: identical decisions differ by %g' % (name, kind, d))
            continue
        what = label[0]
        R.ev(what)
        R.seen((name, kind) + tuple(label))
        if what == 'unseen_event':
            R.check(d < GAP, 'future', '%s %s: an event after the decision changes its scores by %g' % (name, kind, d))
        else:
            R.check(d > GAP, what, '%s %s: scores do not depend on %r (difference %g, history of %d events)' % (name, kind, label, d, L))
            R.ev('close' if d < 10 * GAP else 'clear')
    R.sample('%s %s, history %d: smallest effect %g' % (name, kind, L, min(
        d for (l, _, _), d in zip(variants[0::2], diff) if l != 'base' and l[0] != 'unseen_event')))

    # no two changes of the situation look alike
    cells[np.arange(len(cells)), np.arange(len(cells))] = 9
    R.ev('cell_pairs', len(cells) * (len(cells) - 1) // 2)
    for x, y in zip(*np.where(cells < GAP)):
        if x < y:
            R.bad('cells-alike', '%s %s: the changes of %s and of %s have the same effect (difference %g)' % (
                name, kind, state[2 * x][0][1], state[2 * y][0][1], cells[x][y]))

    # no two places of the history look alike: one event moved through a full history of another
    e, f = rng.sample(events, 2)
    T = 149
    full = copy.copy(base)
    full.encoding_idx = T
    far = None
    for draw in range(2):
        m = c16.gen(name, draw)
        out = c16.run(m, [[[full]]] * T, [[[tab[f] if k == j else tab[e] for k in range(T)]] for j in range(T)])
        a = out[kind][0]
        a = np.where(a > -1e8, a, 0)
        d = np.stack([np.abs(a - x).max(axis=1) for x in a])
        far = d if far is None else np.maximum(far, d)
    far[np.arange(T), np.arange(T)] = 9
    R.ev('places', T * (T - 1) // 2)
    for x, y in zip(*np.where(far < GAP)):
        if x < y:
            R.bad('places-alike', '%s %s: the event %r has the same effect at places %d and %d of the history (difference %g)' % (name, kind, f, x, y, far[x][y]))
    R.sample('%s %s: closest places differ by %g, closest cells by %g' % (name, kind, far.min(), cells.min()))

    # no two events look alike: all pairs of events at one place of the history
    several = dict(all_calls())
    several.update(tab)
    evs = sorted(several, key=repr)
    j = rng.randrange(L)
    tk = [tab[e] for e in hist]
    far = None
    for draw in range(2):
        m = c16.gen(name, draw)
        out = c16.run(m, [[[base]]] * len(evs), [[tk[:j] + [several[e]] + tk[j + 1:]] for e in evs])
        a = out[kind][0]
        a = np.where(a > -1e8, a, 0)
        d = np.stack([np.abs(a - x).max(axis=1) for x in a])
        far = d if far is None else np.maximum(far, d)
    far[np.arange(len(evs)), np.arange(len(evs))] = 9
    R.ev('pairs', len(evs) * (len(evs) - 1) // 2)
    R.ev('call_choices', sum(1 for e in evs if e[0] == 'call'))
    for x, y in zip(*np.where(far < GAP)):
        if x < y:
            R.bad('alike', '%s %s: the events %r and %r of the history have the same effect (difference %g)' % (name, kind, evs[x], evs[y], far[x][y]))

    # which embedding rows a history touches
    m = c16.gen(name, i % 3)
    emb = [(n, x.weight) for n, x in m.named_modules() if isinstance(x, torch.nn.Embedding)]
    g = torch.Generator().manual_seed(3)

    def touched(history, enc=None):
        b = copy.copy(base)
        b.encoding_idx = len(history) if enc is None else enc
        m.zero_grad()
        for lg, _ in m([[[b]]], [[[tab[e] for e in history]]]):
            (lg.masked_fill(lg < -1e8, 0) * torch.randn(lg.shape, generator=g)).sum().backward()
        out = set()
        for n, w in emb:
            if w.grad is not None:
                for r in torch.nonzero(w.grad.abs().sum(dim=1) > 0).reshape(-1).tolist():
                    out.add((n, r))
        return out
    pick = rng.sample(events, 3)
    for k in ('discard', 'call'):       # one of each
        pick.append(rng.choice([e for e in events if e[0] == k]))
    R.ev('absent')
    t0 = touched(pick, 0)
    R.check(not t0, 'padding', '%s %s: an empty history draws on the embeddings %r' % (name, kind, sorted(t0)[:5]))
    one = {e: touched([e]) for e in pick}
    # each kind of event has an embedding row of its own; only discards and dora indicators share rows (their tiles)
    for a in range(len(pick)):
        for b in range(a):
            e, f = pick[a], pick[b]
            if e[0] == f[0] or {e[0], f[0]} == {'discard', 'dora'}:
                continue
            R.ev('kind_rows')
            R.check(not one[e] & one[f], 'kind-shared', '%s %s: the events %r and %r share the embeddings %r' % (name, kind, e, f, sorted(one[e] & one[f])))
    for _ in range(2):
        mix = [rng.choice(pick) for _ in range(rng.randint(2, 8))]
        t = touched(mix)
        want = set().union(*(one[e] for e in mix))
        R.ev('mixture')
        R.check(t == want, 'absent-event', '%s %s: the history %r draws on embeddings %r, its events alone on %r' % (
            name, kind, mix, sorted(t - want)[:5], sorted(want - t)[:5]))
    for e in pick:      # the share of an event does not depend on the padding after it
        R.check(touched([e] + [pick[0]] * 3, 1) == one[e], 'padding', '%s: %r draws on other embeddings when invisible events follow' % (name, e))
    # the places after the history are all alike
    kept = []
    hook = m.encoder.register_forward_hook(lambda mod, a, out: kept.append(out)) if hasattr(m, 'encoder') else None
    try:
        for n in (0, 1, rng.randint(2, 60)):
            b = copy.copy(base)
            b.encoding_idx = n
            del kept[:]
            with torch.no_grad():
                for _ in m([[[b]]], [[[tab[rng.choice(pick)] for _ in range(n)]]]):
                    pass
            for o in kept:
                if not torch.is_tensor(o) or o.dim() != 3 or o.shape[1] != 150:
                    continue
                R.ev('padding_places', 150 - n)
                d = float((o[:, n:] - o[:, n:n + 1]).abs().max())
                R.check(d <= 1e-3 * max(1.0, float(o.abs().max())), 'padding-place', '%s %s: after a history of %d events the empty places differ by %g' % (name, kind, n, d))
    finally:
        if hook:
            hook.remove()
