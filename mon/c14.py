"""C14: training rows carry the legal mask and the action actually taken."""
from . import mj, obs, sim, core, mini, c02, models

ID = 'C14'
N = {'quick': 720, 'thorough': 2600}
CHUNK = 3
RULE = ('rows of prepare_batches of all four models against the rows the reference replay expects: which decision points '
        'give rows and in which order, mask (pass plus the offered options; held tiles for discards) and label (action '
        'in the log); distinct per (row kind, mask, label)')
REQUIRED = {'during': 500, 'discard': 5000, 'post': 2000, 'label_riichi': 50, 'label_tsumo': 10, 'label_ron': 10,
            'label_call': 300, 'label_quad': 50, 'label_pass': 1000, 'stopped_early': 30, 'stopped_early_minkan': 8, 'stopped_early_pon': 20, 'stopped_early_chi': 20,
            'stopped_early_ron': 10, 'several_options': 100, 'red_held': 100}


def games(rng, i):
    go = 169
    if i in sim.REAL:
        go, sims = sim.real_game(i)
    elif i % 13 == 12:
        go, sims = mini.meld_win_game(rng, 5)
    elif i % 13 == 11:
        go, sims = mini.riichi_game(rng, 4)
    elif i % 4 == 0:
        go, sims = sim.probe_game(rng, 4, how=['double', 'chankan', 'ron', 'rinshan', 'tsumo'] if i % 8 else None)
    elif i % 4 == 1:
        go, sims = sim.make_game(rng, 2, styles=['tenpai', 'near', 'kan', 'pon', 'fives'])
    elif i % 4 == 2:
        go, sims = sim.make_game(rng, 2)
    elif i % 8 == 3:
        sims = [x for x in (mini.conflict_round(rng)[0] for _ in range(14)) if x.acted or rng.random() < 0.2]
    else:
        cl = c02.classes()
        sims = []
        for j in range(12):
            key, codes = cl[(i // 8 * 12 + j) % len(cl)]
            code = rng.choice(codes)
            try:
                sims.append(mini.call_round(rng, code, mj.all_codes_cached()[code]).end())
            except mini.ref.RefError:
                pass
    return go, sims


def case(i, rng, R, tier):
    with core.Scratch() as s:
        go, sims = games(rng, i)
        if not sims:
            return
        p = s.path('a.xml')
        sim.write_game(p, go, sims)
        res = obs.process_valid(p)
        rds = obs.rounds(res)
        if [len(h) for h, _ in rds] != [len(x.ref.halfturns) for x in sims]:
            R.bad('shape', 'decision points do not match the log')
            return
        exp = [models.expected(x, h) for x, (h, _) in zip(sims, rds)]
        name = None
        for name in models.NAMES:
            got = models.prepare(name, [res[0]], [res[1]])
            for t in models.TYPES:
                want = [(ri, r) for ri, x in enumerate(exp) for r in x[t]]
                g = got[t]
                if not models.same_lengths(g) or len(g['y']) != len(want):
                    R.bad('rows', '%s: %d %s rows expected, got %r' % (name, len(want), t, {k: len(v) for k, v in g.items() if v is not None}))
                    continue
                for n, (ri, r) in enumerate(want):
                    R.ev('evaluations', 2)
                    ctx = lambda: '%s %s row %d (round %d, %s, for seat %d)' % (name, t, n, ri, obs.describe_ht(sims[ri], r.ht), r.seat)
                    m = [float(v) for v in g['mask'][n].reshape(-1)]
                    y = int(g['y'][n])
                    if m != r.mask:
                        R.bad('mask', '%s: allowed %r, should be %r' % (ctx(), [k for k, v in enumerate(m) if v], [k for k, v in enumerate(r.mask) if v]))
                    if y not in r.label:
                        R.bad('label', '%s: label %d, the log says %r' % (ctx(), y, sorted(r.label)))
                    if not (0 <= y < len(m)) or not m[y]:
                        R.bad('label-forbidden', '%s: label %d is not allowed by the mask' % (ctx(), y))
                    if g['seat'] is not None and int(g['seat'][n]) != r.seat:
                        R.bad('seat', '%s: row belongs to seat %d' % (ctx(), int(g['seat'][n])))
        # what was seen (once, not per model)
        for x in exp:
            for t in models.TYPES:
                for r in x[t]:
                    R.ev(t)
                    R.seen((t, tuple(k for k, v in enumerate(r.mask) if v), tuple(sorted(r.label))))
                    if t == 'discard':
                        if any(r.mask[34:]):
                            R.ev('red_held')
                        continue
                    if sum(r.mask) > 2:
                        R.ev('several_options')
                    for s_, k in r.ht.taken:
                        if s_ == r.seat:
                            R.ev({'riichi': 'label_riichi', 'tsumo': 'label_tsumo', 'ron': 'label_ron'}.get(k[0],
                                 'label_quad' if k[0] in ('ankan', 'kakan', 'minkan') else 'label_call'))
                    if r.label == {0}:
                        R.ev('label_pass')
        for x, (h, _) in zip(exp, rds):
            for r in x['post']:
                o = h[r.where]
                taken = [k[0] for q_, k in r.ht.taken if q_ == r.seat]
                if r.label != {0} and any(o.options.get(q) for q in models.order_after(r.ht.player)[models.order_after(r.ht.player).index(r.seat) + 1:]):
                    R.ev('stopped_early')
                    for k in taken:
                        R.ev('stopped_early_' + k)
        for r in exp[0]['post'][:1]:
            R.sample('%s seat %d: allowed %r label %r' % (obs.describe_ht(sims[0], r.ht), r.seat, [k for k, v in enumerate(r.mask) if v], sorted(r.label)))
