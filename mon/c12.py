"""C12: only complete four-player red-five open-tanyao games against humans; round counters follow the game type."""
from . import mj, obs, sim, core, mini

ID = 'C12'
N = {'quick': 1536, 'thorough': 4096}
CHUNK = 4
RULE = ('all 256 game-type values, with and without a disconnect notice at every kind of position (before the first '
        'round, inside a round, between rounds, after the last), with four- and three-player contents, plus the '
        'round counters of every (length, round number) of accepted types; distinct per (type, content, position)')
REQUIRED = {'accepted': 60, 'round_numbers': 150, 'rejected': 900, 'bye_only': 60, 'bye_lengths': 60, 'three_player': 50, 'counters': 300, 'types': 256}
# 'flags' and 'round_facts' (direct questions to the game-type description) are counted but not required
BADMASK = 2 | 4 | 16


def acceptable(go):
    return bool(go & 1) and not go & BADMASK


def three_player(rng):
    t = list(range(136))
    t = [x for x in t if x // 4 not in range(1, 8)]
    rng.shuffle(t)
    a = {'seed': '0,0,0,1,2,%d' % t[60], 'ten': '350,350,350,0', 'oya': '0'}
    for p in range(3):
        a['hai%d' % p] = ','.join(map(str, t[p * 13:p * 13 + 13]))
    a['hai3'] = ''
    ev = [('INIT', a)]
    for j in range(6):
        ev.append(('TUV'[j % 3] + str(t[70 + j]), {}))
        ev.append(('DEF'[j % 3] + str(t[70 + j]), {}))
    ev.append(('RYUUKYOKU', {'ba': '0,0', 'sc': '350,0,350,0,350,0,0,0'}))
    return ev


def attempt(path):
    """-> ('ok', result) | ('invalid', exc) | ('other', exc)"""
    from MahjongAI.process_xml import InvalidGameException
    try:
        return 'ok', obs.process(path)
    except InvalidGameException as e:
        return 'invalid', e
    except Exception as e:
        return 'other', e


def with_bye(rng, rounds, where):
    """insert a disconnect notice; returns (rounds, extra_head, tail)"""
    rounds = [list(r.events if hasattr(r, 'events') else r) for r in rounds]
    bye = ('BYE', {'who': str(rng.randrange(4))})
    head = tail = ''
    if where == 'head':
        head = '<BYE who="%s"/>' % bye[1]['who']
    elif where == 'tail':
        tail = '<BYE who="%s"/>' % bye[1]['who']
    else:
        r = rng.choice(rounds)
        if where == 'mid':
            at = rng.randint(1, len(r) - 1)
        elif where == 'first':
            at = 1
        else:
            at = len(r)
        r.insert(at, bye)
        if rng.random() < 0.5:      # and the player comes back
            r.insert(min(len(r), at + 3), ('UN', {'n%s' % bye[1]['who']: '%41', 'dan': '16'}))
    return rounds, head, tail


def direct(go, R):
    """the public game-type and round descriptions themselves (names that do not exist are not judged)"""
    from MahjongAI import gameinfo as G
    if not hasattr(G, 'GameInfo'):
        return
    try:
        g = G.GameInfo(go)
    except TypeError:
        return
    total = 8 if go & 8 else 4
    for name, want in (('against_human', bool(go & 1)), ('no_red', bool(go & 2)), ('kansaki', bool(go & 4)),
                       ('tonnan', bool(go & 8)), ('three_players', bool(go & 16)), ('fast', bool(go & 64))):
        f = getattr(g, name, None)
        if callable(f):
            R.ev('flags')
            v = f()
            R.check(bool(v) == want, 'flag', 'game type %d: %s is %r' % (go, name, v))
    f = getattr(g, 'n_rounds', None)
    if callable(f):
        R.check(f() == total, 'length', 'game type %d: %r rounds, should be %d' % (go, f(), total))
    if not hasattr(G, 'RoundInfo'):
        return
    for rn in range(total):
        try:
            r = G.RoundInfo(g, rn)
        except TypeError:       # built differently: the process() side of this check still judges the counters
            return
        want = dict(remaining_rounds=total - rn, parent_rounds_remaining=[(total - rn + x) // 4 for x in range(4)],
                    player_wind=rn % 4, round_wind=rn // 4)
        for k, v in want.items():
            got = getattr(r, k, None)
            if got is None:
                continue
            R.ev('round_facts')
            R.check((list(got) if isinstance(v, list) else got) == v, 'round-fact',
                    'game type %d, round %d: %s is %r, should be %r' % (go, rn, k, got, v))


def case(i, rng, R, tier):
    go = i % 256
    direct(go, R)
    total = 8 if go & 8 else 4
    _, sims = sim.make_game(rng, 2, styles=['micro', 'calm'] if rng.random() < 0.3 else ['micro'], go=go, wins=False)
    with core.Scratch() as s:
        variants = [('plain', None)]
        variants.append(('plain', rng.choice(['head', 'first', 'mid', 'between', 'tail', 'mid'])))
        variants.append(('plain', ['head', 'first', 'mid', 'between', 'tail'][(i // 256 + go) % 5]))
        if go & 16:
            variants += [('three', None)]
        if acceptable(go):
            variants += [('plain', w) for w in ('head', 'first', 'mid', 'between', 'tail')]
        R.ev('types')
        if acceptable(go):
            order = list(range(total))
            rng.shuffle(order)
            ms = []
            for rn in order:
                m = mini.Mini(rng, dealer=rn % 4, total=total, round_no=rn, wins=False)
                m.draw(rn % 4)
                m.discard(rn % 4)
                ms.append(m.end())
            variants.append((ms, None))
            # a single round, and a whole game, with a disconnect
            variants += [(ms[:1], w) for w in ('head', 'first', 'mid', 'between', 'tail')]
            variants.append((ms, rng.choice(['head', 'first', 'mid', 'between', 'tail'])))
            R.ev('bye_lengths', 2)
            R.ev('round_numbers', total)
        for j, (content, bye) in enumerate(variants):
            played = content if isinstance(content, list) else sims
            if isinstance(content, list):
                content = 'short%d' % len(content)
            rounds = [three_player(rng)] if content == 'three' else played
            kw = {}
            if bye:
                rounds, h, t = with_bye(rng, rounds, bye)
                kw = dict(extra_head=h, tail=t)
            p = s.path('g%d.xml' % j)
            sim.write_game(p, go, rounds, **kw)
            verdict, val = attempt(p)
            want = acceptable(go) and not bye
            R.seen((go, content, bye))
            R.ev('evaluations')
            if want:
                R.ev('accepted')
                if verdict != 'ok':
                    R.bad('rejected-good', 'game type %d (%s) is usable but rejected: %s' % (go, bin(go), core.describe(val)))
                    continue
                for sm, (hts, toks) in zip(played, obs.rounds(val)):
                    if sm.ref.n_rounds - sm.ref.round_no <= 0:
                        continue
                    for e, o in zip(sm.ref.halfturns, hts):
                        for q, st in o.states.items():
                            exp, got = sm.ref, obs.situation(st)
                            rr = total - exp.round_no
                            prr = [(rr + x) // 4 for x in range(4)]
                            R.ev('counters')
                            R.check(got['rounds_remaining'] == rr and got['parent_rounds_remaining'] == prr and
                                    got['parent'] == [int(x == exp.dealer) for x in range(4)], 'counters',
                                    'type %d round %d: rounds remaining %r / %r dealer %r, should be %r / %r' % (
                                        go, exp.round_no, got['rounds_remaining'], got['parent_rounds_remaining'], got['parent'], rr, prr))
            else:
                R.ev('rejected')
                if bye and acceptable(go):
                    R.ev('bye_only')
                if content == 'three':
                    R.ev('three_player')
                if verdict == 'ok':
                    R.bad('accepted-bad', 'game type %d (%s)%s yields data' % (go, bin(go), ', disconnect at %s' % bye if bye else ''))
                elif verdict != 'invalid':
                    R.bad('wrong-error', 'game type %d, disconnect %r: %s instead of the invalid-game error' % (go, bye, core.describe(val)))
        R.sample('type %d: %r' % (go, [v[1] for v in variants]))
