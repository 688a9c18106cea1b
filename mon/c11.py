"""C11: riichi, closed-quad and added-quad options are exactly the legal ones."""
from . import mj, obs, sim, core, mini

ID = 'C11'
N = {'quick': 1400, 'thorough': 6000}
CHUNK = 4
RULE = ('riichi and quad options at every draw against the reference rules, on simulated games biased to quads, '
        'near-ready hands, short scores and late draws, and on directed riichi-then-fourth-tile rounds; distinct per '
        '(hand, melds, riichi, options)')
REQUIRED = {'draws': {'quick': 15000, 'thorough': 150000}, 'riichi': 800, 'ankan': 300, 'kakan': 100, 'poor': 20,
            'late': 20, 'riichi_ankan': 10, 'riichi_no_ankan': 10, 'kakan_from_hand': 10, 'last_draw_quad': 3,
            'open_ready': 50, 'ready_after_quad': 5, 'edge_allowed': 100, 'edge_refused': 100,
            'fourth_quad': 20, 'fifth_quad': 20}
ASSUMPTIONS = ['after riichi, a quad that keeps the waits but regroups the hand, and riichi on a wait whose four copies '
               'are all in the own hand are disputed between rule sets and not judged']


def riichi_quad_round(rng):
    """a player in riichi draws the fourth copy of a triplet"""
    for _ in range(60):
        p = rng.randrange(4)
        k = rng.randrange(34)
        trip = [k * 4 + c for c in range(4)]
        last = trip.pop(rng.randrange(4))
        used = set(trip) | {last}
        hand = list(trip)
        free = lambda q: [q * 4 + c for c in range(4) if q * 4 + c not in used]
        need_groups = 3
        bad = False
        while need_groups and not bad:
            if rng.random() < 0.75:
                base = rng.choice([0, 9, 18]) + rng.randrange(7)
                if k < 27 and rng.random() < 0.5:
                    base = k - k % 9 + max(0, min(6, k % 9 - rng.randrange(4)))
                ks = [base, base + 1, base + 2]
            else:
                q = rng.randrange(34)
                ks = [q] * 3
            got = []
            for q in ks:
                f = [t for t in free(q)]
                if not f:
                    bad = True
                    break
                t = rng.choice(f)
                got.append(t)
                used.add(t)
            hand += got
            need_groups -= 1
        if bad:
            continue
        # twelve tiles: add a lone tile -> wait on the pair, or drop one for other waits
        f = [t for q in range(34) for t in free(q)]
        t = rng.choice(f)
        hand.append(t)
        used.add(t)
        if len(hand) != 13 or mj.shanten(mj.counts34(hand)) > 0:
            continue
        r = mini.Mini(rng, dealer=p, hold={p: hand}, reserve=[last], wins=False)
        x = r.pool[-1]
        r.draw(p)
        try:
            r.reach(p)
            r.discard(p)
            r.accept(p)
            for _ in range(rng.randint(0, 2)):
                for j in range(1, 4):
                    r.draw((p + j) % 4)
                    r.discard((p + j) % 4)
                r.draw(p)
                r.discard(p)
            for j in range(1, 4):
                r.draw((p + j) % 4)
                r.discard((p + j) % 4)
            r.draw(p, last)
        except mini.ref.RefError:
            continue
        return r.end()
    return None


def case(i, rng, R, tier):
    with core.Scratch() as s:
        go = 169
        if i in sim.REAL:
            go, sims = sim.real_game(i)
            R.ev('really_played', len(sims))
        elif i % 4 == 3:
            sims = [x for x in (riichi_quad_round(rng) for _ in range(8)) if x]
        elif i % 24 == 10:
            go, sims = mini.many_quads_game(rng, 4)
        elif i % 8 == 6:
            go, sims = mini.riichi_game(rng, 4)
        else:
            go, sims = sim.make_game(rng, 2, styles=[None, ['kan', 'late', 'pon', 'twotile'], ['tenpai', 'near', 'late', 'yaochu']][i % 4],
                                     wins=False, scores_low=0.5)
        if not sims:
            return
        p = s.path('a.xml')
        sim.write_game(p, go, sims)
        res = obs.process_valid(p)
        for ri, hi, e, o in obs.walk(sims, res, R):
            if e.type != 0:
                continue
            ctx = 'round %d, %s' % (ri, obs.describe_ht(sims[ri], e))
            q = e.player
            opts = [x for x in o.options.get(q, []) if x.slot != 'agari']
            keys = [x.key for x in opts]
            got = set(keys)
            must = {k for k in e.must[q] if k != ('tsumo',)}
            may = {k for k in e.may[q] if k != ('tsumo',)}
            sit = e.states[q]
            R.ev('draws')
            R.check(len(keys) == len(got), 'duplicate', '%s: an option is listed twice: %r' % (ctx, keys))
            R.check(must <= got, 'missing', lambda: '%s: %r is possible but not offered (hand %r melds %r riichi %r score %d draws left %d)' % (
                ctx, sorted(must - got), sit['hand'], sit['melds'][q], sit['riichi'][q], sit['scores'][q], sit['remaining']))
            extra = got - must - may
            R.check(not extra, 'surplus', lambda: '%s: %r is offered but not allowed (hand %r melds %r riichi %r score %d draws left %d)' % (
                ctx, sorted(extra), sit['hand'], sit['melds'][q], sit['riichi'][q], sit['scores'][q], sit['remaining']))
            for x in opts:
                R.check(x.player == q, 'owner', '%s: option %r is attributed to %r' % (ctx, x.key, x.player))
            for k in must:
                R.ev(k[0])
            quads = [k for k in range(34) if sit['hand'][k] == 4]
            if ('riichi',) not in must | may and not sit['riichi'][q] and mj.shanten(sit['hand'][:34], len(sit['melds'][q])) <= 0:
                if not sit['menzen'][q]:
                    R.ev('open_ready')
                elif sit['scores'][q] < 10:
                    R.ev('poor')
                elif sit['remaining'] < 4:
                    R.ev('late')
            if ('riichi',) in must and (sit['remaining'] == 4 or sit['scores'][q] == 10):
                R.ev('edge_allowed')
            if ('riichi',) not in must | may and sit['menzen'][q] and not sit['riichi'][q] and (sit['remaining'] == 3 or sit['scores'][q] == 9):
                R.ev('edge_refused')
            if ('riichi',) in must and sit['melds'][q]:
                R.ev('ready_after_quad')
            if sit['riichi'][q] and quads:
                R.ev('riichi_ankan' if any(k[0] == 'ankan' for k in must) else 'riichi_no_ankan')
            if any(k[0] == 'kakan' and k[1] != e.tile // 4 for k in must):
                R.ev('kakan_from_hand')
            own = quads or any(m[0] == 'pon' and sit['hand'][m[1][0] // 4] for m in sit['melds'][q])
            made = sum(m[0].endswith('kan') for ms in sit['melds'] for m in ms)
            if own and made >= 3:
                R.ev('fourth_quad' if made == 3 else 'fifth_quad')
            if sit['remaining'] == 0 and (quads or any(m[0] == 'pon' and sit['hand'][m[1][0] // 4] for m in sit['melds'][q])):
                R.ev('last_draw_quad')
            R.seen((tuple(sit['hand']), tuple(sit['melds'][q]), sit['riichi'][q], tuple(sorted(got))))
            if got and hi > 6:
                R.sample('%s hand %r melds %r -> %r' % (ctx, sit['hand'][:34], sit['melds'][q], sorted(got)))
