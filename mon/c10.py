"""C10: exactly the actions that were taken are marked as taken."""
from . import mj, obs, sim, core, mini, c02

ID = 'C10'
N = {'quick': 1800, 'thorough': 7000}
CHUNK = 4
RULE = ('the set of marked options of every decision point against the actions recorded in the log, on simulated '
        'games, scripted winning rounds (multiple winners, robbed quads) and directed rounds for every call choice; '
        'distinct per (decision kind, offered options, taken action)')
REQUIRED = {'taken_riichi': 100, 'taken_chi': 300, 'taken_pon': 300, 'taken_minkan': 50, 'taken_ankan': 100,
            'taken_kakan': 50, 'taken_tsumo': 100, 'taken_ron': 100, 'double_ron': 5, 'chankan_ron': 5,
            'competing': 200, 'red_alternative': 50, 'declined': 1000, 'riichi_last_chance': 20, 'riichi_last_points': 20}


def case(i, rng, R, tier):
    with core.Scratch() as s:
        go = 169
        if i in sim.REAL:
            go, sims = sim.real_game(i)
            R.ev('really_played', len(sims))
        elif i % 11 == 10:
            go, sims = mini.meld_win_game(rng, 6)
        elif i % 9 == 8:
            go, sims = mini.riichi_game(rng, 6)
        elif i % 4 == 0:
            go, sims = sim.probe_game(rng, 6, how=['double', 'double', 'chankan', 'ron', 'rinshan'] if i % 8 else None)
        elif i % 4 == 1:
            go, sims = sim.make_game(rng, 3)
        elif i % 8 == 2:
            sims = [mini.conflict_round(rng)[0] for _ in range(12)]
        elif i % 4 == 2:
            go, sims = sim.make_game(rng, 2, wins=False)
        else:
            cl = c02.classes()
            sims = []
            for j in range(8):
                key, codes = cl[(i // 4 * 8 + j) % len(cl)]
                code = rng.choice(codes)
                try:
                    sims.append(mini.call_round(rng, code, mj.all_codes_cached()[code]).end())
                except mini.ref.RefError:
                    pass
        if not sims:
            return
        p = s.path('a.xml')
        sim.write_game(p, go, sims)
        res = obs.process_valid(p)
        for ri, hi, e, o in obs.walk(sims, res, R):
            if e.type == 1:
                continue
            ctx = 'round %d, %s' % (ri, obs.describe_ht(sims[ri], e))
            marked = []
            for q, opts in o.options.items():
                for x in opts:
                    if x.executed:
                        marked.append((q, x.key))
                    if x.player != q:
                        R.bad('owner', '%s: option %r of seat %d is attributed to %r' % (ctx, x.key, q, x.player))
            R.ev('evaluations')
            want = sorted(e.taken)
            if sorted(marked) != want:
                R.bad('marks', '%s: taken in the log %r, marked %r (offered %r)' % (
                    ctx, want, sorted(marked), {q: [x.key for x in v] for q, v in o.options.items() if v}))
            for q, k in want:
                R.ev('taken_' + k[0])
                if k[0] == 'riichi':
                    sit = e.states[e.player]
                    if sit['remaining'] == 4:
                        R.ev('riichi_last_chance')
                    if sit['scores'][q] == 10:
                        R.ev('riichi_last_points')
                R.seen((e.type, k, (q - e.player) % 4, tuple(sorted((z, x.key) for z, v in o.options.items() for x in v))[:6]))
                if len(o.options.get(q, ())) > 1:
                    R.ev('competing')
                if k[0] in ('chi', 'pon') and sum(1 for x in o.options.get(q, ()) if x.key[:-1] == k[:-1]) > 1:
                    R.ev('red_alternative')
                if k[0] == 'ron' and e.reason == 'chankan':
                    R.ev('chankan_ron')
            if sum(1 for _, k in want if k[0] == 'ron') > 1:
                R.ev('double_ron')
            if not want and any(o.options.values()):
                R.ev('declined')
            if want and hi > 4:
                R.sample('%s: %r of %r' % (ctx, want, {q: [x.key for x in v] for q, v in o.options.items() if v}))
