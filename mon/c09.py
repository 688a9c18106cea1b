"""C09: tokens describe the public history; decisions see exactly the past."""
from . import mj, obs, sim, core, mini, c02

ID = 'C09'
N = {'quick': 2100, 'thorough': 6000}
CHUNK = 4
RULE = ('tokens of simulated and directed rounds paired with the reference public events; the relation event <-> token '
        'is merged over all cases and must be one-to-one (so seat, kind, drawn-and-discarded flag and call choice are '
        'recoverable), token order must equal log order and every history position must equal the number of earlier '
        'public events; directed rounds produce every call choice for every seat; distinct per abstract event')
REQUIRED = {'tokens': {'quick': 20000, 'thorough': 200000}, 'positions': {'quick': 40000, 'thorough': 400000},
            'directed_calls': {'quick': 700, 'thorough': 6000}, 'riichi': 50, 'dora': 100, 'call': 1500}


def check(R, sims, res):
    for ri, (sm, (hts, toks)) in enumerate(zip(sims, obs.rounds(res))):
        exp = sm.ref.tokens
        if len(exp) != len(toks):
            R.bad('count', 'round %d: %d public events but %d tokens' % (ri, len(exp), len(toks)))
        for a, t in zip(exp, toks):
            R.ev('tokens')
            R.ev('evaluations')
            if int(t) != t or t <= 0:
                R.bad('token', 'round %d: event %r has token %r' % (ri, a, t))
            R.ev(a[0])
            R.relate('token', a, int(t), key='ambiguous')
            R.seen(a)
        for e, o in zip(sm.ref.halfturns, hts):
            R.ev('positions')
            R.check(e.type == o.type and e.player == o.player and o.enc == e.enc, 'position',
                    lambda: 'round %d, %s: history position %d, should be %d (%r)' % (ri, obs.describe_ht(sm, e), o.enc, e.enc, exp[max(0, e.enc - 2):e.enc + 1]))
        R.check(len(hts) == len(sm.ref.halfturns), 'position', 'round %d: %d decision points, expected %d' % (ri, len(hts), len(sm.ref.halfturns)))


def discards_round(rng):
    """every seat discards prescribed tiles both ways (drawn or from the hand)"""
    ks = rng.sample(range(34), 8)
    hold = {p: [ks[p] * 4 + rng.randrange(4)] for p in range(4)}
    r = mini.Mini(rng, dealer=rng.randrange(4), hold=hold, wins=False)
    p = int(r.events[0][1]['oya'])
    for _ in range(rng.randint(4, 24)):
        r.draw(p)
        if rng.random() < 0.5:
            r.discard(p)
        else:
            r.junk(p, keep=[r.last])
        if rng.random() < 0.15:
            r.dora()
        p = (p + 1) % 4
    return r.end()


def case(i, rng, R, tier):
    with core.Scratch() as s:
        go = 169
        if i in sim.REAL:
            go, sims = sim.real_game(i)
            R.ev('really_played', len(sims))
        elif i % 4 == 0:
            go, sims = sim.make_game(rng, 3, wins=False)
        elif i % 4 == 1:
            sims = [discards_round(rng) for _ in range(6)]
        else:
            cl = c02.classes()
            sims = []
            base = (i // 4 * 2 + (i % 4 - 2)) * 5
            for j in range(5):
                key, codes = cl[(base + j) % len(cl)]
                code = rng.choice(codes)
                m = mj.all_codes_cached()[code]
                try:
                    sims.append(mini.call_round(rng, code, m).end())
                    R.ev('directed_calls')
                except mini.ref.RefError:
                    R.ev('unusable')
        if not sims:
            return
        p = s.path('a.xml')
        sim.write_game(p, go, sims)
        check(R, sims, obs.process_valid(p))
        R.sample('%r' % (sims[0].ref.tokens[:6],))
