"""C08: decision points mirror the log events one for one, in order, for the right seat."""
from . import mj, obs, sim, core, mini

ID = 'C08'
N = {'quick': 1200, 'thorough': 5000}
CHUNK = 4
RULE = ('the complete sequence (kind of decision, seat, exact discarded tile) of every round, round order and counts, '
        'for simulated games, very short rounds (also without any draw), repeated and shuffled rounds, reconnect '
        'notices in the middle of rounds; distinct per round sequence')
REQUIRED = {'rounds': {'quick': 1000, 'thorough': 12000}, 'points': {'quick': 40000, 'thorough': 400000},
            'quad_reactions': 20, 'empty_rounds': 20, 'calls': 500, 'last_tile_rounds': 5, 'one_round': 10}


def empty_round(rng):
    r = mini.Mini(rng, dealer=rng.randrange(4), wins=False)
    for _ in range(rng.randrange(3)):
        d = int(r.events[0][1]['oya']) if not r.ref.halfturns else (r.ref.halfturns[-1].player + 1) % 4
        r.draw(d)
        if rng.random() < 0.3:
            break
        r.discard(d)
    return r.end()


def case(i, rng, R, tier):
    with core.Scratch() as s:
        go, sims = sim.make_game(rng, rng.choice([1, 2, 4]), wins=False, styles=None if i % 2 else ['micro', 'calm', 'kan', 'late'])
        if i in sim.REAL:
            go, sims = sim.real_game(i)
            R.ev('really_played', len(sims))
        elif i % 3 == 0:
            sims = list(sims) + [empty_round(rng) for _ in range(2)]
            rng.shuffle(sims)
            sims = [x if 'mini' not in type(x).__module__ else x for x in sims]
        p = s.path('a.xml')
        total = 8 if go & 8 else 4
        sims = [x for x in sims if int(x.events[0][1]['seed'].split(',')[0]) < total or True]
        sim.write_game(p, go, sims, un_rng=rng if i % 4 == 1 else None)
        res = obs.process_valid(p)
        R.check(isinstance(res, tuple) and len(res) == 2 and len(res[0]) == len(sims) and len(res[1]) == len(sims), 'rounds',
                '%d rounds in the log, %r entries out' % (len(sims), [len(x) for x in res]))
        if len(sims) == 1:
            R.ev('one_round')
        for ri, (sm, (hts, toks)) in enumerate(zip(sims, obs.rounds(res))):
            exp = [(e.type, e.player, e.tile if e.type == 1 else None) for e in sm.ref.halfturns]
            got = [(o.type, o.player, o.tile) for o in hts]
            R.ev('rounds')
            R.ev('points', len(exp))
            if exp != got:
                j = next((j for j, (a, b) in enumerate(zip(exp, got)) if a != b), min(len(exp), len(got)))
                R.bad('sequence', 'round %d: %d expected decision points, %d found; first difference at %d: expected %r, got %r' % (
                    ri, len(exp), len(got), j, exp[j:j + 2], got[j:j + 2]))
            R.check(len(toks) == len(sm.ref.tokens), 'tokens', 'round %d: %d public events, %d tokens' % (
                ri, len(sm.ref.tokens), len(toks)))
            # every decision of a round belongs to that round's own deal
            if hts and sm.ref.halfturns:
                e, o = sm.ref.halfturns[0], hts[0]
                st = o.states.get(e.player)
                R.check(st is not None and obs.v37(st.hand_tensor) == e.states[e.player]['hand'], 'round-order',
                        'round %d holds decisions of another deal' % ri)
            if not exp:
                R.ev('empty_rounds')
            R.ev('quad_reactions', sum(1 for e in sm.ref.halfturns if e.reason == 'chankan'))
            R.ev('calls', sum(1 for t in sm.ref.tokens if t[0] == 'call'))
            if sm.ref.remaining() == 0:
                R.ev('last_tile_rounds')
            R.seen(tuple(exp))
        R.sample('%d rounds with %r decision points' % (len(sims), [len(x.ref.halfturns) for x in sims]))
