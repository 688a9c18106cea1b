"""C19: a decision never contains another player's hidden information."""
import numpy as np
from . import mj, obs, sim, core, models

ID = 'C19'
N = {'quick': 300, 'thorough': 2200}
CHUNK = 2
RULE = ('twin rounds: up to a decision, with all tiles the deciding seat cannot see re-dealt among the other seats and '
        'the wall, and with or without the future; offered actions of that seat and its training row in all four models '
        'must be identical to those in the original log; distinct per (decision, seat, tiles moved)')
REQUIRED = {'twins': 3000, 'during': 500, 'discard': 500, 'post': 500, 'future': 500, 'moved_tiles': 20000, 'with_options': 500,
            'after_call': 300, 'riichi_around': 200, 'robbed_quad': 3}
ASSUMPTIONS = ['concealed tiles of seats in riichi stay with their owner (the twin log has to stay a possible log)']


def cut_events(rng, sim_, e):
    evs = [(t, dict(a)) for t, a in sim_.events[:e.event_no + 1]]
    return evs


END = ('RYUUKYOKU', {'ba': '0,0', 'sc': '250,0,250,0,250,0,250,0'})


def redeal(rng, events, seat):
    """move all tiles hidden from `seat` around; events end at the decision"""
    from . import ref
    r = ref.RoundRef(events[0][1], 8, wins=False)
    for t, a in events[1:]:
        r.apply(t, a)
    own = set(r.hands[seat])
    public = set(r.dora)
    for p in range(4):
        public |= set(r.discards[p])
        for m in r.melds[p]:
            public |= set(m.tiles)
    fixed = set()
    for p in range(4):
        if p != seat and (r.riichi[p] or r.declared == p):
            fixed |= r.hands[p]
    hidden = sorted(set(range(136)) - own - public - fixed)
    others = [t for p in range(4) if p != seat for t in r.hands[p] if t not in fixed and t not in public]
    perm = list(hidden)
    rng.shuffle(perm)
    pi = dict(zip(hidden, perm))
    moved = sum(1 for t in others if pi[t] != t)
    out = []
    for n, (t, a) in enumerate(events):
        a = dict(a)
        if n == 0:
            for p in range(4):
                hs = [int(x) for x in a['hai%d' % p].split(',')]
                a['hai%d' % p] = ','.join(str(pi.get(x, x)) for x in hs)
        elif t[0] in 'TUVW' and t[1:].isdigit():
            x = int(t[1:])
            t = t[0] + str(pi.get(x, x))
        out.append((t, a))
    return out, moved


def find_row(sims_hts, n, seat):
    """(kind, row number within the round) of the decision number n for the seat"""
    idx = {'during': 0, 'discard': 0, 'post': 0}
    for k, o in enumerate(sims_hts):
        if o.type == 1:
            if k == n:
                return 'discard', idx['discard']
            idx['discard'] += 1
        elif o.type == 0:
            if not o.options[o.player]:
                if k == n:
                    return None
                continue
            if k == n:
                return 'during', idx['during']
            idx['during'] += 1
        else:
            for q in models.order_after(o.player):
                v = o.options.get(q, ())
                if not v:
                    continue
                if k == n and q == seat:
                    return 'post', idx['post']
                idx['post'] += 1
                if any(x.executed for x in v):
                    break
            if k == n:
                return None
    return None


def case(i, rng, R, tier):
    with core.Scratch() as s:
        if i % 5 == 0:
            go, sims = sim.probe_game(rng, 2, how=['chankan', 'ron', 'double'])
        else:
            go, sims = sim.make_game(rng, 1, styles=['tenpai', 'near', 'kan', 'pon', 'fives', 'micro'] if i % 2 else None, wins=i % 3 == 0)
        sm = rng.choice(sims)
        p = s.path('a.xml')
        sim.write_game(p, go, [sm])
        res = obs.process_valid(p)
        hts, toks = obs.rounds(res)[0]
        exp = sm.ref.halfturns
        if len(exp) != len(hts):
            R.bad('shape', 'decision points do not match the log')
            return
        cand = []
        for n, (e, o) in enumerate(zip(exp, hts)):
            seats = [e.player] if e.type != 2 else [q for q in range(4) if q != e.player]
            for q in seats:
                w = 1 + (4 if e.type != 1 and o.options.get(q) else 0) + (30 if e.reason == 'chankan' else 0)
                cand.append((w, n, q))
        picks = set()
        for _ in range(14):
            c = rng.choices(cand, [c[0] for c in cand])[0]
            picks.add(c[1:])
        picks = sorted(picks)
        events, meta = [sm.events], []
        for n, q in picks:
            e = exp[n]
            cut = cut_events(rng, sm, e)
            events.append(cut + [END])
            meta.append((n, q, 'future', 0))
            twin, moved = redeal(rng, cut, q)
            events.append(twin + [END])
            meta.append((n, q, 'hidden', moved))
        q_ = s.path('b.xml')
        sim.write_game(q_, go, events)
        try:
            r2 = obs.process(q_)
        except Exception as ex:
            raise core.Violation('twin-rejected', 'a log is processed but not with other hidden tiles: %s' % core.describe(ex), {'log': open(q_).read()[:20000]})
        rd = obs.rounds(r2)
        prep = {}
        for name in models.NAMES:
            prep[name] = [models.prepare(name, [[h]], [[t]]) for h, t in zip(*r2)]
        for k, (n, q, how, moved) in enumerate(meta):
            R.ev('twins')
            R.ev('moved_tiles', moved)
            if how == 'future':
                R.ev('future')
            e = exp[n]
            ctx = '%s, seat %d, %s changed' % (obs.describe_ht(sm, e), q, how)
            h2 = rd[k + 1][0]
            R.ev('evaluations')
            if len(h2) <= n or (h2[n].type, h2[n].player) != (e.type, e.player):
                R.bad('decision', '%s: the decision point itself is different' % ctx)
                continue
            R.ev(models.TYPES[e.type])
            a, b = rd[0][0][n], h2[n]
            if e.type != 1:
                oa, ob = [x.key for x in a.options.get(q, ())], [x.key for x in b.options.get(q, ())]
                R.check(sorted(map(repr, oa)) == sorted(map(repr, ob)), 'options', '%s: offered %r, with the change %r' % (ctx, oa, ob))
                if oa:
                    R.ev('with_options')
            sa, sb = obs.situation(a.states[q]), obs.situation(b.states[q])
            for f in sa:
                if f in ('wall', 'remaining_turns'):
                    continue            # the true wall is not part of any row
                R.check(sa[f] == sb[f], 'situation', lambda: '%s: %s is %r, with the change %r' % (ctx, f, sa[f], sb[f]))
            ra, rb = find_row(rd[0][0], n, q), find_row(h2, n, q)
            if any(exp[n].states[e.player]['riichi']):
                R.ev('riichi_around')
            if not all(exp[n].states[e.player]['menzen']):
                R.ev('after_call')
            if e.reason == 'chankan':
                R.ev('robbed_quad')
            R.seen((n, q, how, moved, tuple(sm.ref.tokens[:3]), i))
            if ra is None or rb is None:
                # an earlier seat acted on the same tile in the original log: no row there
                continue
            for name in models.NAMES:
                x, y = prep[name][0][ra[0]], prep[name][k + 1][rb[0]]
                for f in ('enc', 'x1', 'x2', 'x3', 'mask', 'seat'):
                    if x[f] is None:
                        continue
                    R.ev('evaluations')
                    if len(x[f]) <= ra[1] or len(y[f]) <= rb[1] or not np.array_equal(x[f][ra[1]], y[f][rb[1]]):
                        R.bad('row', '%s: %s of the %s row of %s changes' % (ctx, f, ra[0], name))
        R.sample('%d twins of a round with %d decisions, e.g. %s seat %d' % (len(meta), len(exp), obs.describe_ht(sm, exp[picks[0][0]]), picks[0][1]))
