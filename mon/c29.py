"""C29: logs whose tiles or turns do not add up are refused, not turned into data."""
import os
import signal
import time
from . import mj, obs, sim, core, mini

ID = 'C29'
N = {'quick': 320, 'thorough': 6000}
CHUNK = 4
ONE = 60                # seconds for one log
RULE = ('consistent games (simulated and recorded, one to many rounds), each with a single inconsistency of %d kinds put into '
        'one of its rounds, run through process() in bounded time; the untouched game must be processed, every damaged one '
        'refused with an ordinary error; now and then through the DataLoader next to an intact game; '
        'distinct per (kind, game, round, event)')
DRAW, DISC = 'TUVW', 'DEFG'


def is_draw(t):
    return t[0] in DRAW and t[1:].isdigit()


def is_disc(t):
    return t[0] in DISC and t[1:].isdigit()


def ledger(events):
    """[(concealed hands before the event, tiles seen so far, seat and tile of a draw not yet followed by a discard)]"""
    a = events[0][1]
    hands = [set(int(x) for x in a['hai%d' % p].split(',')) for p in range(4)]
    used = set().union(*hands) | {int(a['seed'].split(',')[5])}
    out, last = [], None
    for tag, at in events:
        out.append(([set(h) for h in hands], set(used), last))
        if tag == 'INIT':
            continue
        if is_draw(tag):
            p, x = DRAW.index(tag[0]), int(tag[1:])
            hands[p].add(x)
            used.add(x)
            last = ('draw', p, x)
        elif is_disc(tag):
            p, x = DISC.index(tag[0]), int(tag[1:])
            hands[p].discard(x)
            last = ('disc', p, x)
        elif tag == 'N':
            m = mj.decode(int(at['m']))
            p = int(at['who'])
            hands[p] -= set(m.tiles)
            last = ('call', p, m)
        elif tag == 'DORA':
            used.add(int(at['hai']))
    return out


def spots(events, test):
    return [j for j, (t, a) in enumerate(events) if test(t, a)]


def k_discard_foreign(rng, ev, led):
    j = pick(rng, spots(ev, lambda t, a: is_disc(t)))
    p = DISC.index(ev[j][0][0])
    x = rng.choice([y for y in range(136) if y not in led[j][0][p]])
    return put(ev, j, (ev[j][0][0] + str(x), {}))


def k_discard_same_kind(rng, ev, led):
    """another copy of the kind that the player does not hold"""
    js = []
    for j in spots(ev, lambda t, a: is_disc(t)):
        p, x = DISC.index(ev[j][0][0]), int(ev[j][0][1:])
        ys = [y for y in range(x // 4 * 4, x // 4 * 4 + 4) if y not in led[j][0][p]]
        if ys:
            js.append((j, rng.choice(ys)))
    j, y = pick(rng, js)
    return put(ev, j, (ev[j][0][0] + str(y), {}))


def k_discard_other_seat(rng, ev, led):
    j = pick(rng, spots(ev, lambda t, a: is_disc(t)))
    q = rng.choice([x for x in range(4) if x != DISC.index(ev[j][0][0])])
    return put(ev, j, (DISC[q] + ev[j][0][1:], {}))


def k_draw_own(rng, ev, led):
    j = pick(rng, spots(ev, lambda t, a: is_draw(t)))
    p = DRAW.index(ev[j][0][0])
    return put(ev, j, (ev[j][0][0] + str(rng.choice(sorted(led[j][0][p]))), {}))


def k_draw_twice(rng, ev, led):
    j = pick(rng, spots(ev, lambda t, a: is_draw(t)))
    x = rng.choice([y for y in range(136) if y not in led[j][1] and y != int(ev[j][0][1:])])
    return ins(ev, j + 1, (DRAW[rng.choice([DRAW.index(ev[j][0][0]), rng.randrange(4)])] + str(x), {}))


def k_no_draw(rng, ev, led):
    j = pick(rng, [j for j in spots(ev, lambda t, a: is_draw(t)) if is_disc(ev[j + 1][0])])
    return ev[:j] + ev[j + 1:]


def k_no_discard(rng, ev, led):
    j = pick(rng, [j for j in spots(ev, lambda t, a: is_disc(t)) if is_draw(ev[j + 1][0])])
    return ev[:j] + ev[j + 1:]


def k_discard_twice(rng, ev, led):
    j = pick(rng, [j for j in spots(ev, lambda t, a: is_disc(t))])
    p = DISC.index(ev[j][0][0])
    return ins(ev, j + 1, (DISC[p] + str(rng.choice(sorted(led[j][0][p] - {int(ev[j][0][1:])}))), {}))


def k_call_not_held(rng, ev, led):
    """the caller's own tiles of a call are not in the hand"""
    js = []
    for j in spots(ev, lambda t, a: t == 'N'):
        m = mj.decode(int(ev[j][1]['m']))
        for c in rng.sample(sorted(mj.all_codes_cached()), 2000):
            d = mj.decode(c)
            if d.kind == m.kind and d.called == m.called and d.src == m.src and c != int(ev[j][1]['m']):
                if not set(d.hand) <= led[j][0][int(ev[j][1]['who'])]:
                    js.append((j, c))
                    break
    j, c = pick(rng, js)
    return put(ev, j, ('N', dict(ev[j][1], m=str(c))))


def k_call_other_seat(rng, ev, led):
    j = pick(rng, spots(ev, lambda t, a: t == 'N'))
    q = rng.choice([x for x in range(4) if x != int(ev[j][1]['who'])])
    return put(ev, j, ('N', dict(ev[j][1], who=str(q))))


def k_hand_size(rng, ev, led):
    a = dict(ev[0][1])
    p = 'hai%d' % rng.randrange(4)
    h = a[p].split(',')
    if rng.random() < 0.5:
        h.pop(rng.randrange(len(h)))
    else:
        h.append(str(rng.choice([y for y in range(136) if y not in led[1][1]])))
    a[p] = ','.join(h)
    return put(ev, 0, ('INIT', a))


def k_hand_double(rng, ev, led):
    a = dict(ev[0][1])
    p = 'hai%d' % rng.randrange(4)
    h = a[p].split(',')
    x, y = rng.sample(range(len(h)), 2)
    h[x] = h[y]
    a[p] = ','.join(h)
    return put(ev, 0, ('INIT', a))


def k_hand_missing(rng, ev, led):
    a = dict(ev[0][1])
    if rng.random() < 0.5:
        del a['hai%d' % rng.randrange(4)]
    else:
        a['hai%d' % rng.randrange(4)] = ''
    return put(ev, 0, ('INIT', a))


def k_no_result(rng, ev, led):
    j = len(ev)
    while ev[j - 1][0] in ('AGARI', 'RYUUKYOKU'):
        j -= 1
    return ev[:j]


def k_after_result(rng, ev, led):
    x = rng.choice([y for y in range(136) if y not in led[-1][1]] or [0])
    return ev + [(rng.choice(DRAW) + str(x), {})]


def k_unknown(rng, ev, led):
    j = rng.randint(1, max(1, len(ev) - 2))
    return ins(ev, j, (rng.choice(['X12', 'NUKI', 'AGARI2', 'Z', 'H5', 'foo', 'SHUFFLE2']), {}))


def k_tile_range(rng, ev, led):
    j = pick(rng, spots(ev, lambda t, a: is_draw(t)))
    return put(ev, j, (ev[j][0][0] + str(rng.choice([136, 137, 200, 1000])), {}))


def k_reach_not_turn(rng, ev, led):
    """riichi announced while nobody has drawn"""
    js = [j for j in spots(ev, lambda t, a: is_disc(t)) if ev[j + 1][0] not in ('REACH',)]
    j = pick(rng, js)
    return ins(ev, j + 1, ('REACH', {'who': str(rng.randrange(4)), 'step': '1'}))


def k_reach_paid_early(rng, ev, led):
    """the riichi stick is paid before the discard"""
    j = pick(rng, [j for j in spots(ev, lambda t, a: is_draw(t)) if is_disc(ev[j + 1][0])])
    return ins(ev, j + 1, ('REACH', {'who': str(DRAW.index(ev[j][0][0])), 'step': '2', 'ten': '240,250,250,250'}))


def k_fifth_copy(rng, ev, led):
    """draw and discard a tile of a kind that is already out completely"""
    js = []
    for j in spots(ev, lambda t, a: is_draw(t)):
        if is_disc(ev[j + 1][0]):
            for k in range(34):
                if all(4 * k + c in led[j][1] for c in range(4)) and ev[j][0][1:] == ev[j + 1][0][1:]:
                    p = DRAW.index(ev[j][0][0])
                    free = [4 * k + c for c in range(4) if 4 * k + c not in led[j][0][p]]
                    if free:
                        js.append((j, rng.choice(free)))
    j, x = pick(rng, js)
    ev = put(ev, j, (ev[j][0][0] + str(x), {}))
    return put(ev, j + 1, (ev[j + 1][0][0] + str(x), {}))


def draw_out(rng, ev, led, where):
    """a drawn and discarded tile replaced by one that lies somewhere else already"""
    js = []
    for j in spots(ev, lambda t, a: is_draw(t)):
        if is_disc(ev[j + 1][0]) and ev[j][0][1:] == ev[j + 1][0][1:]:
            p = DRAW.index(ev[j][0][0])
            xs = where(j, p)
            if xs:
                js.append((j, rng.choice(sorted(xs))))
    j, x = pick(rng, js)
    ev = put(ev, j, (ev[j][0][0] + str(x), {}))
    return put(ev, j + 1, (ev[j + 1][0][0] + str(x), {}))


def k_draw_indicator(rng, ev, led):
    """draws the dora indicator, the last one revealed if there are several"""
    d = [(0, int(ev[0][1]['seed'].split(',')[5]))] + [(j, int(a['hai'])) for j, (t, a) in enumerate(ev) if t == 'DORA']
    return draw_out(rng, ev, led, lambda j, p: {[x for i, x in d if i < j][-1]})


def k_draw_held(rng, ev, led):
    """draws a tile that another seat holds"""
    return draw_out(rng, ev, led, lambda j, p: set().union(*[h for q, h in enumerate(led[j][0]) if q != p]))


def k_draw_discarded(rng, ev, led):
    """draws a tile that was discarded before"""
    return draw_out(rng, ev, led, lambda j, p: {int(t[1:]) for t, a in ev[:j] if is_disc(t)})


def k_draw_melded(rng, ev, led):
    """draws a tile that lies in a call"""
    return draw_out(rng, ev, led, lambda j, p: set().union(*[mj.decode(int(a['m'])).tiles for t, a in ev[:j] if t == 'N']))


def k_dora_again(rng, ev, led):
    """the same indicator is revealed once more"""
    js = spots(ev, lambda t, a: t == 'DORA')
    j = pick(rng, js)
    old = [ev[0][1]['seed'].split(',')[5]] + [ev[i][1]['hai'] for i in js if i < j]
    return put(ev, j, ('DORA', {'hai': old[-1]}))


def k_reach_after_call(rng, ev, led):
    """riichi announced after a call instead of a draw"""
    js = [j for j in spots(ev, lambda t, a: t == 'N') if is_disc(ev[j + 1][0])]
    j = pick(rng, js)
    return ins(ev, j + 1, ('REACH', {'who': ev[j][1]['who'], 'step': '1'}))


def k_quad_not_turn(rng, ev, led):
    """a closed quad of tiles in hand while another seat is on turn"""
    js = []
    for j in spots(ev, lambda t, a: is_draw(t) or is_disc(t)):
        for q in range(4):
            if q == DRAW.index(ev[j][0][0]) if is_draw(ev[j][0]) else False:
                continue
            for k in range(34):
                if all(4 * k + c in led[j][0][q] for c in range(4)):
                    js.append((j, q, k))
    j, q, k = pick(rng, js)
    return ins(ev, j + 1, ('N', {'who': str(q), 'm': str(mj.encode_ankan(4 * k))}))


def k_hand_range(rng, ev, led):
    """a tile that does not exist is dealt"""
    a = dict(ev[0][1])
    p = 'hai%d' % rng.randrange(4)
    h = a[p].split(',')
    h[rng.randrange(13)] = str(rng.choice([136, 137, 140, 255, 1000]))
    a[p] = ','.join(h)
    return put(ev, 0, ('INIT', a))


def k_tile_negative(rng, ev, led):
    """a tile with a number below zero is drawn (and discarded), dealt or revealed"""
    x = rng.choice([y for y in range(136) if y not in led[-1][1]] or [135]) - 136
    how = rng.randrange(3)
    if how == 0:
        a = dict(ev[0][1])
        p = 'hai%d' % rng.randrange(4)
        h = a[p].split(',')
        h[rng.randrange(13)] = str(x)
        a[p] = ','.join(h)
        return put(ev, 0, ('INIT', a))
    if how == 1:
        a = dict(ev[0][1])
        seed = a['seed'].split(',')
        seed[5] = str(x)
        a['seed'] = ','.join(seed)
        return put(ev, 0, ('INIT', a))
    return draw_out(rng, ev, led, lambda j, p: {x})


def k_call_wrong_tile(rng, ev, led):
    """a discard other than the one called"""
    js = [j for j in spots(ev, lambda t, a: t == 'N') if mj.decode(int(ev[j][1]['m'])).kind in ('chi', 'pon', 'minkan') and led[j][2] and led[j][2][0] == 'disc']
    j = pick(rng, js)
    i = max(x for x in range(j) if is_disc(ev[x][0]))
    p = DISC.index(ev[i][0][0])
    return put(ev, i, (ev[i][0][0] + str(rng.choice(sorted(led[i][0][p] - {int(ev[i][0][1:])}))), {}))


def k_hand_shared(rng, ev, led):
    a = dict(ev[0][1])
    p, q = rng.sample(range(4), 2)
    h, g = a['hai%d' % p].split(','), a['hai%d' % q].split(',')
    h[rng.randrange(13)] = rng.choice(g)
    a['hai%d' % p] = ','.join(h)
    return put(ev, 0, ('INIT', a))


def k_dora_elsewhere(rng, ev, led):
    """the tile revealed after a quad is already out"""
    j = pick(rng, spots(ev, lambda t, a: t == 'DORA'))
    return put(ev, j, ('DORA', {'hai': str(rng.choice(sorted(led[j][1])))}))


def k_dora_own(rng, ev, led):
    """the tile revealed after a quad is in somebody's hand"""
    j = pick(rng, spots(ev, lambda t, a: t == 'DORA'))
    return put(ev, j, ('DORA', {'hai': str(rng.choice(sorted(set().union(*led[j][0]))))}))


def k_first_dora(rng, ev, led):
    """the first dora indicator is in somebody's hand"""
    a = dict(ev[0][1])
    seed = a['seed'].split(',')
    seed[5] = rng.choice(a['hai%d' % rng.randrange(4)].split(','))
    a['seed'] = ','.join(seed)
    return put(ev, 0, ('INIT', a))


def k_kakan_no_pon(rng, ev, led):
    """a tile is added to a triplet that was never called"""
    js = []
    for j in spots(ev, lambda t, a: is_draw(t)):
        p = DRAW.index(ev[j][0][0])
        if not is_disc(ev[j + 1][0]):
            continue
        later = {int(t[1:]) for t, a in ev[j + 1:] if is_disc(t) or is_draw(t)} | {int(a['hai']) for t, a in ev[j:] if t == 'DORA'}
        pons = set()
        for t, a in ev:
            if t == 'N':
                m = mj.decode(int(a['m']))
                later |= set(m.tiles)
                pons.add(m.tiles[0] // 4)
        own = [x for x in led[j + 1][0][p] if x not in later and x // 4 not in pons]
        free = [y for y in range(136) if y not in led[j + 1][1] and y not in later]
        if own and free:
            js.append((j, p, rng.choice(own), rng.choice(free)))
    j, p, x, y = pick(rng, js)
    three = [t for t in range(x // 4 * 4, x // 4 * 4 + 4) if t != x]
    m = mj.encode_kakan(three, rng.choice(three), x, rng.randint(1, 3))
    return ins(ins(ev, j + 1, (ev[j][0][0] + str(y), {})), j + 1, ('N', {'who': str(p), 'm': str(m)}))


def k_out_of_turn(rng, ev, led):
    """a seat draws and discards although it is another seat's turn"""
    js = [j for j in spots(ev, lambda t, a: is_draw(t)) if is_disc(ev[j + 1][0]) and ev[j][0][1:] == ev[j + 1][0][1:] and is_draw(ev[j + 2][0])]
    j = pick(rng, js)
    q = rng.choice([x for x in range(4) if x != DRAW.index(ev[j][0][0])])
    x = ev[j][0][1:]
    return put(put(ev, j, (DRAW[q] + x, {})), j + 1, (DISC[q] + x, {}))


def k_turn_lost(rng, ev, led):
    """a seat's draw and discard are missing"""
    js = [j for j in spots(ev, lambda t, a: is_draw(t)) if is_disc(ev[j + 1][0]) and ev[j][0][1:] == ev[j + 1][0][1:] and is_draw(ev[j + 2][0])]
    j = pick(rng, js)
    return ev[:j] + ev[j + 2:]


def k_reach_other_seat(rng, ev, led):
    """riichi announced or paid by another seat than the one on turn"""
    j = pick(rng, spots(ev, lambda t, a: t == 'REACH'))
    q = rng.choice([x for x in range(4) if x != int(ev[j][1]['who'])])
    return put(ev, j, ('REACH', dict(ev[j][1], who=str(q))))


def k_wall_end(rng, ev, led):
    """one more draw after the last tile of the wall"""
    n = len(spots(ev, lambda t, a: is_draw(t)))
    if n != 70 or not is_disc(ev[-2][0]):
        raise NoSpot()
    p = (DISC.index(ev[-2][0][0]) + 1) % 4
    x = str(pick(rng, [y for y in range(136) if y not in led[-1][1]]))
    return ev[:-1] + [(DRAW[p] + x, {}), (DISC[p] + x, {}), ('RYUUKYOKU', {'ba': '0,0', 'sc': '250,0,250,0,250,0,250,0'})]


def k_call_twice(rng, ev, led):
    """the same call again, later or at once"""
    j = pick(rng, spots(ev, lambda t, a: t == 'N'))
    k = rng.choice([j + 1] + spots(ev[:-1], lambda t, a: True)[j + 1:])
    return ins(ev, k, ev[j])


def k_call_late(rng, ev, led):
    """a discard is called after the next player has drawn"""
    js = [j for j in spots(ev, lambda t, a: t == 'N') if mj.decode(int(ev[j][1]['m'])).kind in ('chi', 'pon', 'minkan')]
    j = pick(rng, js)
    x = pick(rng, [y for y in range(136) if y not in led[j][1]])
    q = rng.randrange(4)
    return ins(ev, j, (DRAW[q] + str(x), {}))



class NoSpot(Exception):
    pass


def pick(rng, js):
    if not js:
        raise NoSpot()
    return rng.choice(js)


def put(ev, j, e):
    return ev[:j] + [e] + ev[j + 1:]


def ins(ev, j, e):
    return ev[:j] + [e] + ev[j:]


KINDS = {k[2:]: f for k, f in sorted(globals().items()) if k.startswith('k_')}

REQUIRED = {'refused': 2500, 'accepted': 200, 'recorded': 8, 'first_round': 400, 'middle_round': 100, 'last_round': 400,
            'late_event': 500, 'loader': 40, 'delivered': 40, 'evaluations': 3000}
REQUIRED.update({'kind_' + k: 15 for k in KINDS})
RULE = RULE % len(KINDS)


class Overdue(BaseException):
    pass


def attempt(path):
    """'ok' | 'refused' | what else happened"""
    def over(*a):
        raise Overdue()
    old = signal.signal(signal.SIGALRM, over)
    left = signal.alarm(ONE)
    t = time.time()
    try:
        obs.process(path)
        return 'ok', None
    except Exception as e:
        return 'refused', core.describe(e)
    except Overdue:
        return 'hangs', 'no answer in %d s' % ONE
    except BaseException as e:
        if isinstance(e, core.CaseTimeout):
            raise
        return 'ends the process', repr(e)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        if left:
            signal.alarm(max(1, int(left - (time.time() - t))))


def games(i, rng):
    if i % 20 == 7:
        return sim.real_game(rng.choice(sorted(sim.REAL)))
    k = i % 6
    if k == 0:
        return sim.probe_game(rng, rng.randint(1, 4))
    if k == 1:
        return mini.many_quads_game(rng, rng.randint(1, 3))
    if k == 2:
        return mini.riichi_game(rng, rng.randint(1, 3))
    if k == 3:
        return mini.meld_win_game(rng, rng.randint(1, 4))
    return sim.make_game(rng, rng.randint(1, 5), styles=None if k == 4 else ['kan', 'pon', 'micro'])



def damage(rng, evs, kinds):
    """one round damaged in one way -> (kind, round, rounds)"""
    kinds = list(kinds)
    rng.shuffle(kinds)
    for kind in kinds:
        rs = list(range(len(evs)))
        rng.shuffle(rs)
        for r in rs[:3]:
            try:
                new = KINDS[kind](rng, list(evs[r]), ledger(evs[r]))
            except NoSpot:
                continue
            if new == evs[r]:
                continue
            at = next((j for j, (x, y) in enumerate(zip(evs[r], new)) if x != y), len(new))
            yield kind, r, at, evs[:r] + [new] + evs[r + 1:]
            break


def case(i, rng, R, tier):
    with core.Scratch() as s:
        go, sims = games(i, rng)
        evs = [[(t, dict(a)) for t, a in x.events] for x in sims]
        p = s.path('a.xml')
        sim.write_game(p, go, evs)
        how, why = attempt(p)
        R.ev('evaluations')
        if how != 'ok':
            R.bad('consistent-log-refused', 'a consistent log: %s (%s)' % (how, why), {'log': open(p).read()[:20000]})
            return
        R.ev('accepted')
        if i % 20 == 7:
            R.ev('recorded')
        done = []
        for kind, r, at, new in damage(rng, evs, KINDS):
            q = s.path('b%d.xml' % len(done))
            sim.write_game(q, go, new)
            how, why = attempt(q)
            R.ev('evaluations')
            R.ev('kind_' + kind)
            R.ev('first_round' if r == 0 else 'last_round' if r == len(evs) - 1 else 'middle_round')
            if r == 0 and len(evs) == 1:
                R.ev('last_round')
            if at > 40:
                R.ev('late_event')
            R.seen((kind, i, r, at))
            if how == 'refused':
                R.ev('refused')
                done.append(q)
            else:
                lo = max(0, at - 3)
                R.bad(('accepted-' + kind) if how == 'ok' else how.replace(' ', '-') + '-' + kind,
                      'a log with %s in round %d of %d, event %d %s: ...%r' % (
                          kind.replace('_', ' '), r, len(evs), at, 'is turned into data' if how == 'ok' else how + ' ' + str(why),
                          [(t, a.get('m') or a.get('hai') or '') for t, a in new[r][lo:at + 3]]), {'log': open(q).read()[:20000]})
                if how != 'ok':
                    return
        R.sample('%d rounds, %d damaged versions refused' % (len(evs), len(done)))
        if i % 4 == 0 and done:
            deliver(s, rng, R, p, done)


def deliver(s, rng, R, good, bad):
    """the loader hands out the intact game and none of the damaged ones"""
    import os
    import shutil
    from . import c20
    d = s.path('games')
    os.mkdir(d)
    names = ['%02d.xml' % j for j in range(len(bad) + 1)]
    rng.shuffle(names)
    shutil.copy(good, os.path.join(d, names[0]))
    for n, b in zip(names[1:], bad):
        shutil.copy(b, os.path.join(d, n))
    how, got = c20.child(lambda: c20.passes(d, rng.choice([1, 2, 4]), ['full']), 2 * ONE)
    R.ev('loader')
    R.ev('evaluations')
    if how != 'ok':
        R.bad('loader', 'a pass over one intact and %d damaged logs: %s %s' % (len(bad), how, got))
        return
    n = sum(len(b) for what, p in got if isinstance(p, list) for b in p) if all(isinstance(x, list) for x in got) else -1
    if not R.check(n == 1, 'loader', 'a pass over one intact and %d damaged logs delivers %r' % (len(bad), [[len(b) for b in p] for w, p in got] if n >= 0 else got)):
        return
    R.ev('delivered')
