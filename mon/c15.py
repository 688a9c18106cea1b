"""C15: training rows encode the decision's situation and history exactly."""
import numpy as np
from . import mj, obs, sim, core, mini, models

ID = 'C15'
N = {'quick': 600, 'thorough': 2200}
CHUNK = 3
RULE = ('every cell of the history and situation tensors of all four models against the reference situation and the '
        "round's tokens; distinct per (row kind, seat, situation)")
REQUIRED = {'rows': {'quick': 30000, 'thorough': 300000}, 'level4': 500, 'red_cell': 500, 'rotated': 3000, 'riichi_row': 300,
            'open_row': 500, 'long_history': 200, 'empty_history': 50}
ASSUMPTIONS = ['rounds-remaining cells of overtime rounds and one-shot cells of robbed-quad reactions are not judged']


def case(i, rng, R, tier):
    with core.Scratch() as s:
        if i in sim.REAL:
            go, sims = sim.real_game(i)
            R.ev('really_played', len(sims))
        elif i % 10 == 9:
            go, sims = mini.meld_win_game(rng, 4)
        elif i % 10 == 8:
            go, sims = mini.riichi_game(rng, 4)
        elif i % 3 == 0:
            go, sims = sim.probe_game(rng, 3)
        else:
            go, sims = sim.make_game(rng, 2, styles=['kan', 'fives', 'pon', 'tenpai', 'late', 'micro'] if i % 3 == 1 else None)
        p = s.path('a.xml')
        sim.write_game(p, go, sims)
        res = obs.process_valid(p)
        rds = obs.rounds(res)
        if [len(h) for h, _ in rds] != [len(x.ref.halfturns) for x in sims]:
            R.bad('shape', 'decision points do not match the log')
            return
        exp = [models.expected(x, h) for x, (h, _) in zip(sims, rds)]
        for name in models.NAMES:
            got = models.prepare(name, [res[0]], [res[1]])
            for t in models.TYPES:
                want = [(ri, r) for ri, x in enumerate(exp) for r in x[t]]
                g = got[t]
                if len(g['y']) != len(want):
                    R.bad('rows', '%s: %d %s rows expected, got %d' % (name, len(want), t, len(g['y'])))
                    continue
                for n, (ri, r) in enumerate(want):
                    R.ev('rows')
                    toks = rds[ri][1]
                    st = dict(r.state)
                    e = np.zeros(150)
                    e[:r.enc] = toks[:r.enc]
                    x2, x3 = models.x2_expected(st), models.x3_expected(st)
                    g2, g3 = g['x2'][n].copy(), g['x3'][n].copy()
                    if st['rounds_remaining'] <= 0:
                        g2[2], g3[3] = x2[2], x3[3]
                    if r.ht.reason == 'chankan':
                        g2[5] = x2[5]
                    for what, a, b in (('history', g['enc'][n], e), ('tiles', g['x1'][n], models.x1_expected(name, st)),
                                       ('seat facts', g2, x2), ('round facts', g3, x3)):
                        R.ev('evaluations')
                        if a.shape != b.shape or not np.array_equal(a.astype(float), b):
                            bad = [tuple(int(v) for v in z) for z in np.argwhere(a != b)][:6] if a.shape == b.shape else [a.shape, b.shape]
                            R.bad(what.replace(' ', '-'), '%s %s row %d (round %d, %s, seat %d): wrong %s cells %r: %r instead of %r' % (
                                name, t, n, ri, obs.describe_ht(sims[ri], r.ht), r.seat, what, bad,
                                [float(a[z]) for z in bad] if a.shape == b.shape else '', [float(b[z]) for z in bad] if a.shape == b.shape else ''))
                    if name == models.NAMES[3]:
                        if g['seat'] is None or int(g['seat'][n]) != r.seat:
                            R.bad('seat', '%s %s row %d: seat %r, should be %d' % (name, t, n, g['seat'] is not None and int(g['seat'][n]), r.seat))
                        if r.seat and any(any(d) for d in st['discards']):
                            R.ev('rotated')
        for x in exp:
            for t in models.TYPES:
                for r in x[t]:
                    st = r.state
                    if max(st['hand']) == 4 or 4 in st['unseen']:
                        R.ev('level4')
                    if any(st['hand'][34:]):
                        R.ev('red_cell')
                    if any(st['riichi']):
                        R.ev('riichi_row')
                    if not all(st['menzen']):
                        R.ev('open_row')
                    if r.enc > 80:
                        R.ev('long_history')
                    if r.enc == 0:
                        R.ev('empty_history')
                    R.seen((t, r.seat, r.enc, tuple(st['hand']), tuple(st['unseen'])))
        for r in exp[0]['discard'][10:11]:
            R.sample('%s: history %d tokens, round facts %r' % (obs.describe_ht(sims[0], r.ht), r.enc, models.x3_expected(r.state).tolist()))
