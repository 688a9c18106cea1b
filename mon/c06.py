"""C06: hands, unseen tiles, wall and discard record conserve the 136 tiles."""
from . import mj, obs, sim, core, mini

ID = 'C06'
N = {'quick': 900, 'thorough': 4000}
CHUNK = 4
RULE = ('hand, unseen, wall and discard vectors of every recorded situation (own turn, discard, and all four views of '
        'every reaction) against the reference tile ledger, plus range and conservation assertions, on simulated '
        'games rich in calls, quads, dead-wall draws, red fives and dora reveals; distinct per (hand, melds, '
        'view)')
REQUIRED = {'situations': {'quick': 30000, 'thorough': 300000}, 'after_call': 500, 'after_quad': 300, 'reds_held': 500,
            'red_dora': 20, 'reaction_views': 10000, 'quad_view': 20, 'red_discard': 100}
FIELDS = ('hand', 'unseen', 'wall', 'discards')


def compare(R, sim_, ri, e, o, fields, prefix=''):
    ctx = 'round %d, %s' % (ri, obs.describe_ht(sim_, e))
    for q, exp in e.states.items():
        if q not in o.states:
            if e.type == 2:
                R.bad('no-view', '%s: no situation recorded for seat %d' % (ctx, q))
            continue
        if e.type == 2 and q == e.player and not o.options.get(q):
            pass
        got = obs.situation(o.states[q])
        for f in fields:
            R.ev('evaluations')
            if got[f] != exp[f]:
                R.bad(f, '%s: %s seen by seat %d is %r, should be %r' % (ctx, f, q, got[f], exp[f]))
        yield q, exp, got, ctx


def case(i, rng, R, tier):
    with core.Scratch() as s:
        if i in sim.REAL:
            go, sims = sim.real_game(i)
            R.ev('really_played', len(sims))
        elif i % 9 == 8:
            go, sims = mini.meld_win_game(rng, 4)
        elif i % 9 == 7:
            go, sims = mini.riichi_game(rng, 4)
        else:
            go, sims = sim.make_game(rng, 2, styles=None if i % 2 else ['kan', 'fives', 'pon', 'twotile', 'late'], wins=i % 4 == 3)
        p = s.path('a.xml')
        sim.write_game(p, go, sims)
        res = obs.process_valid(p)
        for ri, hi, e, o in obs.walk(sims, res, R):
            for q, exp, got, ctx in compare(R, sims[ri], ri, e, o, FIELDS):
                R.ev('situations')
                if e.type == 2:
                    R.ev('reaction_views')
                    if e.reason == 'chankan':
                        R.ev('quad_view')
                for f, top in (('hand', mj.FULL37), ('unseen', mj.FULL37), ('wall', mj.FULL37)):
                    R.ev('evaluations')
                    if any(x < 0 or x > m for x, m in zip(got[f], top)):
                        R.bad('range', '%s: %s of seat %d out of range: %r' % (ctx, f, q, got[f]))
                # the red five counter never exceeds the fives
                for c in range(3):
                    if got['hand'][34 + c] > got['hand'][9 * c + 4] or got['unseen'][34 + c] > got['unseen'][9 * c + 4]:
                        R.bad('red', '%s: seat %d has more red fives than fives' % (ctx, q))
                n = sum(got['hand'][:34]) + sum(3 if m[0] in ('chi', 'pon') else 3 for m in exp['melds'][q])
                want = 14 if e.type != 2 and q == e.player else 13
                if e.type == 2 and e.reason == 'chankan' and q == e.player:
                    want = 13
                R.ev('evaluations')
                if n != want:
                    R.bad('hand-size', '%s: seat %d holds %d tiles counting melds as three, expected %d' % (ctx, q, n, want))
                ms = exp['melds'][q]
                if ms:
                    R.ev('after_call')
                if any(m[0] in ('ankan', 'kakan', 'minkan') for ms_ in exp['melds'] for m in ms_):
                    R.ev('after_quad')
                if sum(exp['hand'][34:]):
                    R.ev('reds_held')
                if any(mj.is_red(d) for d in exp['dora']):
                    R.ev('red_dora')
                if any(d[34 + c] for d in exp['discards'] for c in range(3)):
                    R.ev('red_discard')
                R.seen((q, tuple(exp['hand']), tuple(ms), exp['remaining'], e.type))
            if hi == 20 and ri == 0:
                R.sample('round %d %s hand %r unseen %r' % (ri, obs.describe_ht(sims[ri], e), e.states[e.player]['hand'],
                                                           e.states[e.player]['unseen']))
