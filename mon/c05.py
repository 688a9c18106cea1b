"""C05: win options exist exactly when the hand really wins."""
from . import mj, obs, sim, core, mini

ID = 'C05'
N = {'quick': 1400, 'thorough': 9000}
CHUNK = 4
RULE = ('win options of every seat at every draw, discard and added quad, against an independent shape test plus the '
        'mahjong library and an independent furiten model, on scripted rounds that steer one hand to completion '
        '(through draws, discards, robbed quads, dead-wall draws, last tiles, first turns, double wins), rounds in which a '
        'completing tile is passed (a discard or the tile of an added quad) and another one comes, on rounds that build '
        'hands of one to four melds of every kind and complete them by draw, replacement draw or discard, and on biased '
        'random games; non-trivial = the completed hand has a winning shape; distinct per (hand, melds, tile, way, '
        'table facts, verdict)')
REQUIRED = {'tsumo': {'quick': 500, 'thorough': 5000}, 'ron': {'quick': 500, 'thorough': 5000}, 'chankan_ron': 10,
            'rinshan_tsumo': 10, 'last_tsumo': 10, 'last_ron': 10, 'first_turn_tsumo': 10, 'ippatsu_win': 10,
            'double_riichi_win': 3, 'no_yaku': 50, 'furiten': 20, 'missed': 20, 'open_win': 50, 'double_ron': 10,
            'chi_tsumo': 50, 'pon_tsumo': 50, 'kakan_tsumo': 50, 'minkan_tsumo': 50, 'ankan_tsumo': 50,
            'chi_ron': 50, 'pon_ron': 50, 'kakan_ron': 50, 'minkan_ron': 50, 'ankan_ron': 50,
            'three_quads_win': 20, 'overtime_win': 100, 'no_yaku_quad': 20}
SAMPLES = 8


def case(i, rng, R, tier):
    with core.Scratch() as s:
        if i in sim.REAL:
            go, sims = sim.real_game(i)
            R.ev('really_played', len(sims))
        elif i % 4 == 3:
            go, sims = sim.make_game(rng, 4)
        elif i % 8 == 5:
            go, sims = mini.furiten_game(rng, 14)
        elif i % 4 == 1:
            go, sims = mini.meld_win_game(rng, 9)
        else:
            go, sims = sim.probe_game(rng, 8)
        p = s.path('a.xml')
        sim.write_game(p, go, sims)
        res = obs.process_valid(p)
        for ri, hi, e, o in obs.walk(sims, res, R):
            if e.type == 1:
                continue
            ctx = 'round %d, %s' % (ri, obs.describe_ht(sims[ri], e))
            key = ('tsumo',) if e.type == 0 else ('ron',)
            rons = 0
            for q in (range(4) if e.type == 2 else [e.player]):
                opts = [x for x in o.options.get(q, []) if x.slot == 'agari']
                must, may = key in e.must.get(q, ()), key in e.may.get(q, ())
                off = len(opts)
                sit = e.states.get(q)
                R.ev('evaluations')
                if off > 1:
                    R.bad('duplicate', '%s: seat %d has %d win options' % (ctx, q, off))
                if any(x.player != q for x in opts):
                    R.bad('owner', '%s: win option of seat %d is attributed to %r' % (ctx, q, [x.player for x in opts]))
                if must and not off:
                    R.bad('missing-' + key[0], '%s: seat %d wins with %s (hand %s, melds %s) but is not offered the win' % (
                        ctx, q, e.tile, sit['hand'], sit['melds'][q]), {'situation': sit, 'reason': e.reason})
                if off and not must and not may:
                    R.bad('surplus-' + key[0], '%s: seat %d is offered a win with %s which is not one (hand %s, melds %s)' % (
                        ctx, q, e.tile, sit and sit['hand'], sit and sit['melds'][q]), {'situation': sit, 'reason': e.reason})
                if q in o.states and sit is not None:
                    got = obs.v37(o.states[q].hand_tensor)
                    if got != sit['hand']:
                        R.bad('hand-altered', '%s: hand of seat %d is %r, should be %r' % (ctx, q, got, sit['hand']))
                if sit is None or q == e.player and e.type == 2:
                    continue
                c = list(sit['hand'][:34])
                if e.type == 2:
                    c[e.tile // 4] += 1
                nm = len(sit['melds'][q])
                if mj.shanten(c, nm) != -1:
                    continue
                way = (e.type, e.reason)
                R.seen((tuple(sit['hand']), tuple(sit['melds'][q]), e.tile // 4, way, sit['remaining'] == 0,
                        sit['riichi'][q], sit['double'][q], sit['ippatsu'][q], must))
                R.ev('shape_complete')
                if must:
                    R.ev(key[0])
                    rons += key[0] == 'ron'
                    if e.reason == 'chankan':
                        R.ev('chankan_ron')
                    if e.reason == 'rinshan':
                        R.ev('rinshan_tsumo')
                    if sit['remaining'] == 0 and e.reason in ('draw', 'discard'):
                        R.ev('last_' + key[0])
                    if e.type == 0 and e.enc < 4 and not any(any(d) for d in [sit['discards'][q]]) and not any(sit['melds']):
                        R.ev('first_turn_tsumo')
                    if sit['ippatsu'][q]:
                        R.ev('ippatsu_win')
                    if sims[ri].ref.round_no >= sims[ri].ref.n_rounds:
                        R.ev('overtime_win')
                    if sit['double'][q]:
                        R.ev('double_riichi_win')
                    if any(m[0] != 'ankan' for m in sit['melds'][q]):
                        R.ev('open_win')
                    for mk in {m[0] for m in sit['melds'][q]}:
                        R.ev('%s_%s' % (mk, key[0]))
                    quads = sum(m[0] in ('ankan', 'minkan', 'kakan') for m in sit['melds'][q])
                    if quads > 2:
                        R.ev('three_quads_win')
                    R.sample('%s seat %d %s%s hand %s melds %s tile %s' % (key[0], q, e.reason, ' (last tile)' if sit['remaining'] == 0 else '',
                                                                       sit['hand'][:34], sit['melds'][q], e.tile))
                elif may:
                    R.ev('disputed')
                elif e.type == 0:
                    R.ev('no_yaku')
                    if any(m[0] in ('minkan', 'kakan') for m in sit['melds'][q]):
                        R.ev('no_yaku_quad')
                else:
                    w = mj.waits(sit['hand'][:34], nm)
                    if any(sit['discards'][q][k] for k in w):
                        R.ev('furiten')
                    elif sit['menzen'][q] or sit['riichi'][q]:
                        R.ev('missed' if sit['riichi'][q] else 'no_yaku_or_missed')
                    else:
                        R.ev('no_yaku')
            if rons > 1:
                R.ev('double_ron')
