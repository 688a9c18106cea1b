"""C07: the recorded public situation is the true one and stays frozen."""
from . import mj, obs, sim, core, mini
from .c06 import compare

ID = 'C07'
N = {'quick': 900, 'thorough': 4000}
CHUNK = 4
RULE = ('scores, sticks, counters, dealer, remaining rounds and draws, riichi / double riichi / one-shot flags, '
        'closedness, melds and indicators of every recorded situation, read after the whole log was processed, '
        'against the reference ledger; distinct per (flags, scores, counters, remaining draws)')
REQUIRED = {'situations': {'quick': 30000, 'thorough': 300000}, 'riichi_on': 500, 'double_on': 50, 'ippatsu_on': 100,
            'ippatsu_gone': 200, 'opened': 500, 'closed_quad_only': 50, 'dora2': 100, 'kyotaku2': 50, 'overtime': 5,
            'not_double': 50}
ASSUMPTIONS = ['one-shot flags at a robbed-quad reaction and dealer counts in overtime rounds are not judged']
FIELDS = ('seat', 'menzen', 'double', 'riichi', 'ippatsu', 'melds', 'scores', 'kyotaku', 'honba', 'dora', 'parent',
          'rounds_remaining', 'parent_rounds_remaining', 'remaining')


def case(i, rng, R, tier):
    with core.Scratch() as s:
        if i in sim.REAL:
            go, sims = sim.real_game(i)
            R.ev('really_played', len(sims))
        elif i % 10 == 9:
            go, sims = mini.meld_win_game(rng, 4)
        elif i % 7 == 6:
            go, sims = mini.riichi_game(rng, 4)
        elif i % 3 == 0:
            go, sims = sim.make_game(rng, 2, styles=['tenpai', 'near', 'kan', 'yaochu'], wins=False)
        elif i % 3 == 1:
            go, sims = sim.make_game(rng, 2, wins=i % 2 == 0)
        else:
            go, sims = sim.probe_game(rng, 3, wins=False)
        p = s.path('a.xml')
        sim.write_game(p, go, sims)
        res = obs.process_valid(p)
        before = obs.digest([res[0], res[1]])
        for ri, hi, e, o in obs.walk(sims, res, R):
            fields = [f for f in FIELDS]
            if e.type == 2 and e.reason == 'chankan':
                fields.remove('ippatsu')
            ex0 = next(iter(e.states.values()))
            if ex0['rounds_remaining'] <= 0:
                fields.remove('parent_rounds_remaining')
                fields.remove('rounds_remaining')
                R.ev('overtime')
            for q, exp, got, ctx in compare(R, sims[ri], ri, e, o, fields):
                R.ev('situations')
                R.ev('evaluations')
                if got['remaining_turns'] != exp['remaining']:
                    R.bad('remaining', '%s: remaining_turns is %r, should be %r' % (ctx, got['remaining_turns'], exp['remaining']))
                if any(exp['riichi']):
                    R.ev('riichi_on')
                if any(exp['double']):
                    R.ev('double_on')
                if any(r and not d for r, d in zip(exp['riichi'], exp['double'])):
                    R.ev('not_double')
                if any(exp['ippatsu']):
                    R.ev('ippatsu_on')
                if any(r and not x for r, x in zip(exp['riichi'], exp['ippatsu'])):
                    R.ev('ippatsu_gone')
                if not all(exp['menzen']):
                    R.ev('opened')
                if any(m and ms for m, ms in zip(exp['menzen'], exp['melds'])):
                    R.ev('closed_quad_only')
                if len(exp['dora']) > 1:
                    R.ev('dora2')
                if exp['kyotaku'] > 1:
                    R.ev('kyotaku2')
                R.seen((q, tuple(exp['scores']), exp['remaining'], tuple(exp['riichi']), tuple(exp['double']),
                        tuple(exp['ippatsu']), tuple(exp['menzen']), len(exp['dora']), exp['kyotaku'], exp['honba'],
                        tuple(exp['parent']), exp['rounds_remaining']))
            if hi == 30 and ri == 0:
                R.sample('%s: %r' % (obs.describe_ht(sims[ri], e), {f: ex0[f] for f in FIELDS if f != 'melds'}))
        # reading the situations (or handing them on) must not have changed them either
        R.check(obs.digest([res[0], res[1]]) == before, 'frozen', 'the recorded result changed while being read')
