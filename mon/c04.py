"""C04: call options after every discard are exactly the formable calls."""
from collections import Counter
from . import mj, mini, obs, sim, core

ID = 'C04'
N = {'quick': 1500, 'thorough': 6000}
CHUNK = 5
RULE = ('call options of all four seats at every reaction point, against the options the concealed hand can form '
        '(reference), on whole simulated games and on one-discard deals biased to near tiles and red fives; '
        'distinct per (relative seat, discarded kind and redness, nearby tiles held, options)')
REQUIRED = {'reactions': {'quick': 4000, 'thorough': 40000}, 'opt_chi': 500, 'opt_pon': 500, 'opt_minkan': 100,
            'red_choice': 100, 'red_claimed': 100, 'last_discard': 5, 'riichi_blocked': 20, 'quad_reaction': 5,
            'fourth_quad': 5, 'fifth_quad': 10}
SAMPLES = 6


def biased_round(rng):
    dealer = rng.randrange(4)
    s = rng.choice([0, 9, 18])
    if rng.random() < 0.15:
        k = 27 + rng.randrange(7)
        near = [k]
    else:
        n = rng.choice([0, 1, 2, 3, 4, 4, 4, 5, 6, 7, 8])
        k = s + n
        near = [s + j for j in range(max(0, n - 2), min(9, n + 3))]
    tile = k * 4 + rng.randrange(4)
    if k % 9 == 4 and k < 27 and rng.random() < 0.4:
        tile = k * 4
    avail = [t for q in near for t in range(q * 4, q * 4 + 4) if t != tile]
    rng.shuffle(avail)
    if rng.random() < 0.6:
        avail.sort(key=lambda t: (mj.is_red(t), rng.random()))
    hold = {}
    seats = [(dealer + 1) % 4] * 2 + [(dealer + 2) % 4, (dealer + 3) % 4]
    q = rng.choice(seats)
    n = rng.randint(2, min(10, len(avail)))
    hold[q] = [avail.pop() for _ in range(n)]
    if rng.random() < 0.3:
        same = [t for t in avail if t // 4 == k]
        q2 = rng.choice([x for x in range(4) if x not in (dealer, q)])
        hold[q2] = same[:rng.randint(0, 3)]
    r = mini.Mini(rng, dealer=dealer, hold=hold, reserve=[tile], wins=False)
    r.draw(dealer, tile)
    r.discard(dealer, tile)
    return r.end()


def check_reaction(R, sim_, ri, hi, e, o):
    R.ev('reactions')
    ctx = 'round %d, %s' % (ri, obs.describe_ht(sim_, e))
    chankan = e.reason == 'chankan'
    if chankan:
        R.ev('quad_reaction')
    for q in range(4):
        opts = [x for x in o.options.get(q, []) if x.slot != 'agari']
        keys = [x.key for x in opts]
        must = {k for k in e.must.get(q, ()) if k != ('ron',)}
        may = {k for k in e.may.get(q, ()) if k != ('ron',)}
        got = set(keys)
        R.check(len(got) == len(keys), 'duplicate', '%s: seat %d has a call option twice: %r' % (ctx, q, keys))
        R.check(must <= got, 'missing', lambda: '%s: seat %d can form %r but is not offered it (offered %r, hand %r)' % (
            ctx, q, sorted(must - got), sorted(got), e.states[q]['hand'] if q in e.states else None))
        extra = got - must - may
        R.check(not extra, 'surplus', lambda: '%s: seat %d is offered %r which it may not or cannot form (hand %r)' % (
            ctx, q, sorted(extra), e.states[q]['hand'] if q in e.states else None))
        if chankan or e.tile is None:
            continue
        sit = e.states.get(q)
        have = None
        for x in opts:
            R.check(x.player == q, 'owner', '%s: option %r of seat %d is attributed to seat %r' % (ctx, x.key, q, x.player))
            if x.meld is None:
                continue
            R.check(x.meld.src == (e.player - q) % 4, 'source', '%s: option %r of seat %d names relative source %d, discarder is %d' % (
                ctx, x.key, q, x.meld.src, e.player))
            R.check(x.meld.called is not None and x.meld.called // 4 == e.tile // 4 and
                    mj.is_red(x.meld.called) == mj.is_red(e.tile), 'claimed',
                    '%s: option %r of seat %d claims tile %r instead of %d' % (ctx, x.meld, q, x.meld.called, e.tile))
            if sit is not None:
                h = sit['hand']
                c = Counter(t // 4 for t in x.meld.hand)
                red = sum(1 for t in x.meld.hand if mj.is_red(t))
                ok = all(h[k] >= n for k, n in c.items())
                for t in x.meld.hand:
                    if mj.is_red(t):
                        ok = ok and h[34 + mj.RED.index(t)] >= 1
                for k, n in c.items():
                    if k < 27 and k % 9 == 4:
                        rr = h[34 + k // 9]
                        blacks = h[k] - rr
                        used_red = sum(1 for t in x.meld.hand if mj.is_red(t) and t // 4 == k)
                        ok = ok and n - used_red <= blacks and used_red <= rr
                R.check(ok, 'tiles', '%s: seat %d cannot lay down %r (hand %r)' % (ctx, q, x.meld.hand, h))
            R.ev('opt_' + x.key[0])
            if mj.is_red(e.tile):
                R.ev('red_claimed')
        if len({k[:-1] for k in got if k[0] in ('chi', 'pon')}) < len([k for k in got if k[0] in ('chi', 'pon')]):
            R.ev('red_choice')
        if sit is not None and (got or must):
            k = e.tile // 4
            near = tuple(sit['hand'][max(0, k - 2):k + 3]) + (tuple(sit['hand'][34:]) if k < 27 and 2 <= k % 9 <= 6 else ())
            R.seen(((q - e.player) % 4, k, mj.is_red(e.tile), near, tuple(sorted(got))))
        if sit is not None and q != e.player and sit['hand'][e.tile // 4] == 3 and not sit['riichi'][q] and sit['remaining']:
            made = sum(m[0].endswith('kan') for ms in sit['melds'] for m in ms)
            if made >= 3:
                R.ev('fourth_quad' if made == 3 else 'fifth_quad')
        if sit is not None and q != e.player and not got and sit['hand'][e.tile // 4] >= 2:
            if sit['remaining'] == 0:
                R.ev('last_discard')
            elif sit['riichi'][q]:
                R.ev('riichi_blocked')


def case(i, rng, R, tier):
    with core.Scratch() as s:
        if i in sim.REAL:
            go, sims = sim.real_game(i)
            R.ev('really_played', len(sims))
        elif i % 16 == 6:
            go, sims = mini.many_quads_game(rng, 4)
        elif i % 2:
            go, sims = 169, [biased_round(rng) for _ in range(14)]
        else:
            styles = None if i % 4 else ['late', 'fives', 'pon', 'near', 'calm']
            go, sims = sim.make_game(rng, 2, styles=styles, wins=False)
        p = s.path('a.xml')
        sim.write_game(p, go, sims)
        res = obs.process_valid(p)
        n = 0
        for ri, hi, e, o in obs.walk(sims, res, R):
            if e.type == 2:
                check_reaction(R, sims[ri], ri, hi, e, o)
                if i % 2 and n < 1 and any(o.options.values()):
                    n += 1
                    R.sample('discard %d by seat %d: %r' % (e.tile, e.player, {q: [x.key for x in v] for q, v in o.options.items() if v}))
