"""Tiny directed rounds: a deal with prescribed tiles plus a script of events.
Every event is checked by the reference replayer, so an illegal script is a
harness error, never a claim about the code under test."""
from . import mj, ref


class Mini:
    def __init__(self, rng, dealer=0, hold=None, reserve=(), total=8, round_no=None, scores=None,
                 honba=0, kyotaku=0, wins=True, dora=None, overtime=0.0):
        """hold: seat -> tiles that must be in that starting hand;
        reserve: tiles kept in the wall for later draws"""
        hold = hold or {}
        self.rng = rng
        used = set(reserve)
        for ts in hold.values():
            assert not used & set(ts), (hold, reserve)
            used |= set(ts)
        if dora is not None:
            used.add(dora)
        pool = [t for t in range(136) if t not in used]
        rng.shuffle(pool)
        hands = []
        for p in range(4):
            h = list(hold.get(p, ()))
            assert len(h) <= 13
            while len(h) < 13:
                h.append(pool.pop())
            rng.shuffle(h)
            hands.append(h)
        if dora is None:
            dora = pool.pop()
        self.pool = pool
        rounds = [r for r in range(total) if r % 4 == dealer]
        rn = rng.choice(rounds) if round_no is None else round_no
        if overtime and rng.random() < overtime:
            rn = total + dealer
        attr = {'seed': '%d,%d,%d,0,0,%d' % (rn, honba, kyotaku, dora),
                'ten': ','.join(map(str, scores or [250] * 4)), 'oya': str(dealer)}
        for p in range(4):
            attr['hai%d' % p] = ','.join(map(str, hands[p]))
        self.events = [('INIT', attr)]
        self.ref = ref.RoundRef(attr, total, wins=wins)
        self.go = 169 if total == 8 else 161

    def emit(self, tag, **a):
        a = {k: str(v) for k, v in a.items()}
        self.events.append((tag, a))
        self.ref.apply(tag, a)
        return self

    def draw(self, p, t=None):
        if t is None:
            t = self.pool.pop()
        elif t in self.pool:
            self.pool.remove(t)
        self.last = t
        return self.emit('TUVW'[p] + str(t))

    def discard(self, p, t=None):
        if t is None:
            t = self.last
        return self.emit('DEFG'[p] + str(t))

    def junk(self, p, keep=()):
        """discard some tile outside `keep`"""
        c = sorted(t for t in self.ref.hands[p] if t not in keep)
        return self.discard(p, self.rng.choice(c))

    def call(self, p, code):
        return self.emit('N', who=p, m=code)

    def reach(self, p):
        return self.emit('REACH', who=p, step=1)

    def accept(self, p):
        return self.emit('REACH', who=p, step=2, ten=','.join(map(str, self.ref.scores)))

    def dora(self, t=None):
        return self.emit('DORA', hai=self.pool.pop() if t is None else t)

    def end(self):
        return self.emit('RYUUKYOKU', ba='0,0', sc='250,0,250,0,250,0,250,0')

    def agari(self, who, frm, tile):
        return self.emit('AGARI', ba='0,0', hai=','.join(map(str, sorted(self.ref.hands[who] | {tile}))), machi=tile,
                         ten='30,1000,0', yaku='1,1', doraHai='0', who=who, fromWho=frm, sc='250,0,250,0,250,0,250,0')


def call_round(rng, code, m, take=True, extra=True):
    """A round in which seat p can make (and makes) the call `code`."""
    p = rng.randrange(4)
    if m.kind in ('chi', 'pon', 'minkan'):
        src = (p + m.src) % 4
        hold = {p: list(m.hand)}
        if extra:
            # further tiles of the same kinds for alternatives, and some neighbours
            more = sorted({t // 4 * 4 + c for t in m.tiles for c in range(4)} - set(m.tiles))
            for t in more:
                if rng.random() < 0.3 and len(hold[p]) < 11:
                    hold[p].append(t)
        r = Mini(rng, dealer=src, hold=hold, reserve=[m.called])
        r.p = p
        if m.called not in r.ref.hands[src]:
            r.draw(src, m.called)
        r.discard(src, m.called)
        if take:
            r.call(p, code)
        return r
    if m.kind == 'ankan':
        held = list(m.tiles)
        last = held.pop(rng.randrange(4)) if rng.random() < 0.5 else None
        r = Mini(rng, dealer=p, hold={p: held}, reserve=[last] if last is not None else ())
        r.p = p
        r.draw(p, last)
        if take:
            r.call(p, code)
        return r
    # kakan: first the triplet
    pon = [t for t in m.tiles if t != m.called]
    src = (p + m.src) % 4
    in_hand = rng.random() < 0.3
    hold = {p: [t for t in pon if t != m.pon_called] + ([m.called] if in_hand else [])}
    r = Mini(rng, dealer=src, hold=hold, reserve=[m.pon_called] + ([] if in_hand else [m.called]))
    r.p = p
    r.draw(src, m.pon_called)
    r.discard(src, m.pon_called)
    r.call(p, mj.encode_pon(pon, m.pon_called, m.src))
    r.junk(p, keep=m.tiles)
    q = p
    while True:
        q = (q + 1) % 4
        if q == p:
            break
        r.draw(q)
        r.discard(q)
    r.draw(p, None if in_hand else m.called)
    if take:
        r.call(p, code)
    return r


def ready_on(rng, k, dragon, avail):
    """13 tiles with a dragon triplet (a scoring element) that wait for kind k; None if the draw of shapes fails"""
    for _ in range(40):
        a = dict(avail)
        kinds = []

        def take(*ks):
            for x in ks:
                if a.get(x, 0) <= 0:
                    return False
                a[x] -= 1
                kinds.append(x)
            return True
        if not take(dragon, dragon, dragon):
            return None
        shapes = []
        if k < 27:
            n = k % 9
            if n >= 2:
                shapes.append((k - 2, k - 1))
            if n <= 6:
                shapes.append((k + 1, k + 2))
            if 1 <= n <= 7:
                shapes.append((k - 1, k + 1))
        shapes += [(k, k)]
        if not take(*rng.choice(shapes)):
            continue
        ok = True
        for _ in range(2):
            b = rng.randrange(3) * 9 + rng.randrange(7)
            ok = ok and take(b, b + 1, b + 2)
        j = rng.choice([x for x in a if a[x] >= 2 and x != k] or [0])
        ok = ok and take(j, j)
        if ok and len(kinds) == 13:
            return kinds
    return None


def conflict_round(rng):
    """one discard on which several seats have an option (sequence, triplet, quad, win); one of them, or nobody, acts,
    whatever the seat order.  Returns (Mini, roles) or None."""
    src = rng.randrange(4)
    k = rng.randrange(34)
    free = {x: list(range(4 * x, 4 * x + 4)) for x in range(34)}
    x = free[k].pop(rng.randrange(4))
    left = 3
    dragons = [31, 32, 33]
    rng.shuffle(dragons)
    hold, roles = {}, {}
    seats = [(src + d) % 4 for d in (1, 2, 3)]
    for p in rng.sample(seats, 3):
        c = ['none', 'ron', 'ron']
        if left >= 2:
            c += ['pon', 'pon']
        if left >= 3:
            c += ['minkan'] * 3
        if p == seats[0] and k < 27:
            c += ['chi', 'chi']
        role = rng.choice(c)
        kinds = []
        if role == 'ron':
            d = dragons.pop()
            kinds = ready_on(rng, k, d, {y: len(free[y]) for y in free}) if d != k else None
            if kinds is None:
                role, kinds = 'none', []
        elif role == 'pon':
            kinds = [k, k]
        elif role == 'minkan':
            kinds = [k] * 3
        elif role == 'chi':
            n = k % 9
            kinds = rng.choice([s for s, ok in (((k - 2, k - 1), n >= 2), ((k + 1, k + 2), n <= 6), ((k - 1, k + 1), 1 <= n <= 7)) if ok])
        if any(len(free[y]) < kinds.count(y) for y in kinds):
            role, kinds = 'none', []
        hold[p] = []
        for y in kinds:
            hold[p].append(free[y].pop(rng.randrange(len(free[y]))))
        left = len(free[k])
        roles[p] = role
    m = Mini(rng, dealer=src, hold=hold, reserve=[x])
    m.draw(src, x)
    m.discard(src, x)
    # what can be done, by role
    who = rng.choice([None] + [p for p in seats if roles[p] != 'none'] * 2)
    m.acted = None
    if who is None:
        return m.end(), roles
    role = roles[who]
    if role == 'ron':
        winners = ([who] + [p for p in seats if p != who and roles[p] == 'ron' and rng.random() < 0.5])[:2]     # three abort the round
        for p in [p for p in seats if p in winners]:
            m.agari(p, src, x)
        m.acted = ('ron', tuple(winners))
        return m, roles
    mine = hold[who]
    rel = (src - who) % 4
    if role == 'pon' or (role == 'minkan' and rng.random() < 0.4):
        tiles = rng.sample([y for y in mine if y // 4 == k], 2) + [x]
        code = mj.encode_pon(sorted(tiles), x, rel)
    elif role == 'minkan':
        code = mj.encode_minkan(x, rel)
    else:
        code = mj.encode_chi(sorted(mine + [x]), x)
    m.call(who, code)
    m.acted = (role, (who,))
    return m.end(), roles


def _win_groups(rng, n):
    """kinds of four sets and a pair for a hand with n melds; returns ([(meld kind, first tile kind, sequence)],
    concealed kinds) or None"""
    theme = rng.choice(['any', 'trip', 'trip', 'tanyao', 'outside', 'value', 'flush'])
    cnt = [0] * 34
    base = rng.randrange(3) * 9

    def put(ks):
        if any(cnt[k] + ks.count(k) > 4 for k in ks):
            return False
        for k in ks:
            cnt[k] += 1
        return True

    def triplet():
        if theme == 'tanyao':
            return rng.randrange(3) * 9 + rng.randint(1, 7)
        if theme == 'outside':
            return rng.choice(mj.YAOCHU)
        if theme == 'flush':
            return rng.choice([base + rng.randrange(9), base + rng.randrange(9), 27 + rng.randrange(7)])
        if theme == 'value' and rng.random() < 0.5:
            return 27 + rng.randrange(7)
        return rng.randrange(34)

    def sequence():
        if theme == 'tanyao':
            return rng.randrange(3) * 9 + rng.randint(1, 5)
        if theme == 'outside':
            return rng.randrange(3) * 9 + rng.choice([0, 6])
        if theme == 'flush':
            return base + rng.randrange(7)
        return rng.randrange(3) * 9 + rng.randrange(7)

    melds, conc = [], []
    for i in range(4):
        for _ in range(60):
            if i < n:
                mk = rng.choice(['chi', 'pon', 'minkan', 'ankan', 'kakan', 'minkan', 'ankan', 'kakan'])
            else:
                mk = 'set' if rng.random() < (0.85 if theme == 'trip' else 0.4) else 'run'
            if mk in ('chi', 'run'):
                k = sequence()
                ks = [k, k + 1, k + 2]
            else:
                k = triplet()
                ks = [k] * (3 if mk in ('pon', 'set') else 4)
            if put(ks):
                break
        else:
            return None
        if i < n:
            melds.append((mk, k))
        else:
            conc += ks
    for _ in range(60):
        k = rng.randrange(34)
        if theme == 'tanyao' and k not in mj.YAOCHU or theme != 'tanyao' and (theme != 'outside' or k in mj.YAOCHU):
            if put([k, k]):
                return melds, conc + [k, k]
    return None


def meld_win_round(rng, n=None, total=8):
    """one seat builds n melds of any kinds (sequences, triplets, open, closed and added quads), everybody else passes
    tiles through, and the hand is then completed by a draw, a replacement draw or a discard.  None if the tiles do
    not suffice; the result carries .seat, .way and .kinds."""
    n = rng.randint(1, 4) if n is None else n
    g = _win_groups(rng, n)
    if g is None:
        return None
    melds, conc = g
    free = {k: rng.sample(range(4 * k, 4 * k + 4), 4) for k in range(34)}
    k = rng.choice(conc)
    conc.remove(k)
    win = free[k].pop()
    held = [free[k].pop() for k in conc]
    X = rng.randrange(4)
    steps, reserve = [], [win]
    for mk, k in melds:
        if mk == 'chi':
            ts = [free[k + i].pop() for i in range(3)]
            c = rng.choice(ts)
            held += [t for t in ts if t != c]
            reserve.append(c)
            steps.append((mk, c, sorted(ts)))
        else:
            ts = [free[k].pop() for _ in range(3 if mk == 'pon' else 4)]
            a, b = ts[0], ts[-1]
            if mk == 'kakan':
                held += ts[2:]
                reserve += ts[:2]
                steps.append(('pon', a, sorted([a] + ts[2:])))
                steps.append(('kakan', ts[1], sorted([a] + ts[2:]), a))
            else:
                held += ts[1:]
                reserve.append(a)
                steps.append((mk, a, sorted(ts)))
    assert len(held) <= 13, held
    # calls in any order (an added quad after its triplet)
    order = list(steps)
    for _ in range(20):
        rng.shuffle(order)
        at = {s[2][0]: i for i, s in enumerate(order) if s[0] == 'pon'}
        if all(at[s[2][0]] < i for i, s in enumerate(order) if s[0] == 'kakan'):
            break
    else:
        order = steps
    quad_last = order and order[-1][0] in ('minkan', 'ankan', 'kakan')
    way = rng.choice(['tsumo', 'tsumo', 'ron', 'ron'] + ['rinshan'] * 2 * bool(quad_last))
    m = Mini(rng, dealer=rng.randrange(4), hold={X: held}, reserve=reserve, total=total, overtime=0.15)
    m.seat, m.way, m.kinds = X, way, sorted(s[0] for s in melds)
    keep = set(held) | set(reserve)
    ref = m.ref
    nxt = ref.dealer
    late = 0
    src_of = {}

    def drop(p):
        nonlocal nxt
        d = m.last if p != X or m.last not in keep else None
        if d is None:
            m.junk(p, keep=keep if any(t not in keep for t in ref.hands[p]) else ())
        else:
            m.discard(p, d)
        flush()
        nxt = (p + 1) % 4

    def flush():
        nonlocal late
        for _ in range(late):
            m.dora()
        late = 0

    def until(q):
        while nxt != q:
            m.draw(nxt)
            drop(nxt)

    for i, s in enumerate(order):
        final = way == 'rinshan' and i == len(order) - 1
        mk = s[0]
        if mk in ('chi', 'pon', 'minkan'):
            src = (X + 3) % 4 if mk == 'chi' else (X + rng.randint(1, 3)) % 4
            until(src)
            m.draw(src, s[1])
            m.discard(src, s[1])
            flush()
            rel = (src - X) % 4
            src_of[s[2][0]] = rel
            code = (mj.encode_chi(s[2], s[1]) if mk == 'chi' else mj.encode_pon(s[2], s[1], rel) if mk == 'pon'
                    else mj.encode_minkan(s[1], rel))
            m.call(X, code)
            if mk == 'minkan':
                late = 1
                m.draw(X, win if final else None)
                if final:
                    break
                drop(X)
            else:
                m.junk(X, keep=keep)
                flush()
                nxt = (X + 1) % 4
        else:
            until(X)
            m.draw(X, s[1])
            code = mj.encode_ankan(s[2][0]) if mk == 'ankan' else mj.encode_kakan(s[2], s[3], s[1], src_of[s[2][0]])
            m.call(X, code)
            if mk == 'ankan':
                m.dora()
            else:
                flush()
                late = 1
            m.draw(X, win if final else None)
            if final:
                break
            drop(X)
    if way == 'ron':
        src = (X + rng.randint(1, 3)) % 4
        until(src)
        m.draw(src, win)
        m.discard(src, win)
        if ('ron',) in ref.cur.must[X] and rng.random() < 0.8:
            return m.agari(X, src, win)
    else:
        if way == 'tsumo':
            until(X)
            m.draw(X, win)
        if ('tsumo',) in ref.cur.must[X] and rng.random() < 0.8:
            return m.agari(X, X, win)
        drop(X)
    return m.end()


def many_quads_round(rng, total=8):
    """one seat makes 2-4 quads; another holds a kind four times, the third an own triplet call and its fourth tile, the
    fourth three copies of a kind that is discarded: with four quads on the table there is no replacement tile left"""
    n = rng.choice([2, 3, 4, 4, 4, 4])
    a, b, c, d, e, f, g = rng.sample(range(34), 7)
    X, Y, Z, W = rng.sample(range(4), 4)
    t = {k: rng.sample(range(4 * k, 4 * k + 4), 4) for k in (a, b, c, d, e, f, g)}
    hold = {X: t[a] + t[b] + t[c] + t[d][:1], Y: t[e][:rng.choice([3, 4])], Z: t[f][:3], W: t[g][:3]}
    reserve = t[d][1:] + [x for x in t[e] if x not in hold[Y]] + [t[f][3], t[g][3]]
    m = Mini(rng, dealer=rng.randrange(4), hold=hold, reserve=reserve, total=total, wins=False)
    m.n = n
    ref = m.ref
    keep = set(sum(hold.values(), []))
    keep |= set(t[d]) | set(t[e])
    nxt = ref.dealer

    def drop(p):
        nonlocal nxt
        if m.last in ref.hands[p] and m.last not in keep and rng.random() < 0.7:
            m.discard(p)
        elif set(ref.hands[p]) - keep:
            m.junk(p, keep=keep)
        else:
            m.junk(p)
        nxt = (p + 1) % 4

    def until(q):
        while nxt != q:
            m.draw(nxt)
            drop(nxt)
    # the triplet of Z
    src = (Z + rng.randint(1, 3)) % 4
    if rng.random() < 0.75:
        until(src)
        m.draw(src, t[f][3])
        m.discard(src)
        m.call(Z, mj.encode_pon(sorted([t[f][3]] + t[f][:2]), t[f][3], (src - Z) % 4))
        drop(Z)
    until(X)
    m.draw(X, t[d][1])
    order = [a, b, c]
    rng.shuffle(order)
    for j, k in enumerate(order[:n]):
        m.call(X, mj.encode_ankan(t[k][0]))
        m.dora()
        m.draw(X, t[d][2 + j] if j < 2 else None)
    if n == 4:
        m.call(X, mj.encode_ankan(t[d][0]))
        m.dora()
        m.draw(X)
    drop(X)
    # everybody else once or twice, with the tile for W thrown in
    until((X + rng.randint(1, 3)) % 4)
    for _ in range(rng.randint(4, 8)):
        q = nxt
        if q != W and t[g][3] in reserve:
            reserve.remove(t[g][3])
            m.draw(q, t[g][3])
            m.discard(q)
            nxt = (q + 1) % 4
            continue
        y = [x for x in t[e] if x in reserve]
        if q == Y and y:
            reserve.remove(y[0])
            m.draw(q, y[0])
        else:
            m.draw(q)
        drop(q)
    return m.end()


def many_quads_game(rng, n):
    total = rng.choice([4, 8])
    sims = [many_quads_round(rng, total=total) for _ in range(n)]
    return sims[0].go, sims


def furiten_game(rng, n):
    total = rng.choice([4, 8])
    sims = []
    while len(sims) < n:
        m = furiten_round(rng, total=total)
        if m:
            sims.append(m)
    return sims[0].go, sims


def meld_win_game(rng, n):
    total = rng.choice([4, 8])
    sims = [m for m in (meld_win_round(rng, total=total) for _ in range(n)) if m]
    while not sims:
        sims = [m for m in [meld_win_round(rng, n=1, total=total)] if m]
    return sims[0].go, sims


def riichi_game(rng, n):
    total = rng.choice([4, 8])
    sims = []
    while len(sims) < n:
        m = riichi_round(rng, total=total)
        if m:
            sims.append(m)
    return sims[0].go, sims


def _ready13(rng, free):
    """thirteen kinds that are ready (standard shape, seven pairs, thirteen orphans), taken from the free copies"""
    for _ in range(60):
        c = [0] * 34
        r = rng.random()
        if r < 0.12:
            ks = rng.sample([k for k in range(34) if len(free[k]) >= 2], 7)
            kinds = ks[:6] * 2 + ks[6:]
        elif r < 0.18:
            kinds = [k for k in mj.YAOCHU if free[k]][:12]
            kinds.append(rng.choice(kinds + [k for k in mj.YAOCHU if k not in kinds]))
        else:
            kinds = []
            for _ in range(4):
                if rng.random() < 0.7:
                    j = rng.randrange(3) * 9 + rng.randrange(7)
                    kinds += [j, j + 1, j + 2]
                else:
                    kinds += [rng.randrange(34)] * 3
            kinds += [rng.randrange(34)] * 2
            kinds.remove(rng.choice(kinds))
        if len(kinds) != 13:
            continue
        for k in kinds:
            c[k] += 1
        if any(c[k] > len(free[k]) for k in range(34)) or mj.shanten(c, 0) != 0:
            continue
        return kinds
    return None


def riichi_round(rng, total=8):
    """one to three seats become ready and declare riichi at the edges of what is allowed: with 9, 10 or 11 hundred
    points, with 3, 4 or 5 draws left, on the first turn with and without a call before it, before and after a closed
    or open quad or triplet of another seat, with several sticks already on the table, one after the other."""
    free = {k: rng.sample(range(4 * k, 4 * k + 4), 4) for k in range(34)}
    X = rng.randrange(4)
    n = rng.choice([1, 1, 2, 2, 3])
    seats = [X] + rng.sample([p for p in range(4) if p != X], n - 1)
    hold = {}
    for p in seats:
        ks = _ready13(rng, free)
        if ks is None:
            return None
        hold[p] = [free[k].pop() for k in ks]
    others = [p for p in range(4) if p not in seats]
    Z = rng.choice(others)
    inter = rng.choice(['none', 'none', 'ankan', 'pon', 'chi', 'minkan'])
    reserve = []
    avail = [k for k in range(34) if len(free[k]) == 4]
    called = None
    src = rng.choice([p for p in range(4) if p != Z])
    if inter in ('ankan', 'pon', 'minkan') and avail:
        k = rng.choice(avail)
        q = [free[k].pop() for _ in range(4 if inter != 'pon' else 3)]
        called = q[-1]
        hold[Z] = q[:-1]
        reserve = [called]
    elif inter == 'chi':
        src = (Z - 1) % 4
        runs = [j + 9 * s for s in range(3) for j in range(7) if all(free[j + 9 * s + y] for y in range(3))]
        if not runs:
            return None
        j = rng.choice(runs)
        q = [free[j + y].pop() for y in rng.sample(range(3), 3)]
        called = q[-1]
        hold[Z] = q[:-1]
        reserve = [called]
    else:
        inter = 'none'
    scores = [250] * 4
    for p in seats:
        scores[p] = rng.choice([9, 10, 10, 11, 19, 20, 250, 0])
    if rng.random() < 0.3:
        Z2 = rng.choice(others)
        scores[Z2] = rng.choice([0, -5, 3, 700])
    m = Mini(rng, dealer=rng.randrange(4), hold=hold, reserve=reserve, total=total, scores=scores,
             honba=rng.choice([0, 1, 2, 3, 9, 10, 17]), kyotaku=rng.choice([0, 1, 2, 3, 3, 8]), wins=False, overtime=0.1)
    ref = m.ref
    # when each seat tries: the number of draws left at its draw, or its n-th turn
    plan = {}
    for p in seats:
        plan[p] = ('left', rng.choice([2, 3, 3, 4, 4, 4, 5, 5, 6, 7])) if rng.random() < 0.45 else ('turn', rng.choice([1, 1, 1, 2, 2, 3, 5]))
    at = rng.choice([0, 0, 1, 2, 3, 4, 5, 6, 8, 10]) if rng.random() < 0.8 else rng.randrange(50, 69)
    stop = rng.choice([0, 0, 70 - 12 - rng.randrange(20), 40])      # draws left when the round ends
    if any(w == 'left' for w, _ in plan.values()) or at >= 50:
        stop = 0
    m.way = (inter, n, tuple(sorted(plan.values())))
    turns = [0] * 4
    nxt = ref.dealer
    late = 0
    declared = []
    while ref.remaining() > stop:
        q = nxt
        turns[q] += 1
        use = called if called is not None and not isinstance(called, tuple) and len(ref.drawn) >= at else None
        if use is not None and inter == 'ankan' and q == Z:
            m.draw(q, use)
            called = None
            if ('ankan', use // 4) in ref.cur.must[q]:
                m.call(q, mj.encode_ankan(use))
                late_draw = ref.remaining() > 0
                if not late_draw:
                    break
                m.dora()
                m.draw(q)
        elif use is not None and inter != 'ankan' and q == src and not ref.riichi[q]:
            m.draw(q, use)
            m.discard(q, use)
            for _ in range(late):
                m.dora()
            late = 0
            called = None
            if ref.remaining() == 0:
                break
            rel = (src - Z) % 4
            mine = [t for t in hold[Z]]
            if inter == 'chi':
                m.call(Z, mj.encode_chi(sorted(mine + [use]), use))
            elif inter == 'minkan':
                m.call(Z, mj.encode_minkan(use, rel))
                m.draw(Z)
                late = 1
                m.discard(Z)
                for _ in range(late):
                    m.dora()
                late = 0
                nxt = (Z + 1) % 4
                continue
            else:
                m.call(Z, mj.encode_pon(sorted(mine + [use]), use, rel))
            bad = {t for t in ref.hands[Z] if t // 4 == use // 4}
            if inter == 'chi':
                ks = sorted(t // 4 for t in mine + [use])
                bad |= {t for t in ref.hands[Z] if t // 4 in (ks[0] + 3 if use // 4 == ks[0] and ks[0] % 9 < 6 else -1,
                                                              ks[2] - 3 if use // 4 == ks[2] and ks[2] % 9 > 2 else -1)}
            if len(bad) == len(ref.hands[Z]):
                return None
            m.junk(Z, keep=bad)
            nxt = (Z + 1) % 4
            continue
        else:
            m.draw(q)
        d = m.last
        go = q in plan and q not in declared and (plan[q][0] == 'left' and ref.remaining() <= plan[q][1] or
                                                  plan[q][0] == 'turn' and turns[q] >= plan[q][1])
        if go and ('riichi',) in ref.cur.must[q] and sum(ref.riichi) < 3:
            m.reach(q)
            declared.append(q)
            m.discard(q, d)
            m.accept(q)
        else:
            m.discard(q, d)
        nxt = (q + 1) % 4
    return m.end()


def furiten_round(rng, total=8):
    """a ready seat lets a completing tile pass (a discard, or the tile of an added quad) and another completing tile
    comes: before or after the own next draw, with or without riichi, as a discard, an added quad or a draw; every win
    that the rules allow at the end may be taken.  None if the tiles do not suffice."""
    X = rng.randrange(4)
    free = {k: rng.sample(range(4 * k, 4 * k + 4), 4) for k in range(34)}
    n = rng.randint(1, 5)
    k = rng.randrange(3) * 9 + n            # k, k+1 wait for k-1 and k+2
    waits = [k - 1, k + 2]
    rng.shuffle(waits)
    a, b = waits
    kinds = [k, k + 1]
    if rng.random() < 0.75:
        kinds += [rng.choice([31, 32, 33])] * 3
    else:
        j = rng.randrange(3) * 9 + rng.randint(1, 5)
        kinds += [j, j + 1, j + 2]
    for _ in range(2):
        j = rng.randrange(3) * 9 + rng.randint(0, 6)
        kinds += [j, j + 1, j + 2]
    for _ in range(30):
        j = rng.randrange(34)
        if j not in (a, b) and kinds.count(j) < 3:
            kinds += [j, j]
            break
    if len(kinds) != 13 or a in kinds or b in kinds or any(kinds.count(x) > 4 for x in kinds):
        return None
    if mj.shanten([kinds.count(x) for x in range(34)], 0) != 0:
        return None
    held = [free[x].pop() for x in kinds]
    ws = mj.waits([kinds.count(x) for x in range(34)], 0)
    first = rng.choice(['chankan', 'discard', 'discard', 'chankan'])
    second = rng.choice(['discard', 'discard', 'chankan' if first == 'discard' else 'discard', 'same' if first == 'discard' else 'discard'])
    riichi = rng.random() < 0.35
    later = rng.random() < 0.5              # the own draw lies between
    others = [(X + i) % 4 for i in (1, 2, 3)]
    Z = rng.choice(others)
    hold = {X: held}
    quad = a if first == 'chankan' else b if second == 'chankan' else None
    reserve = []
    if quad is not None:
        q4 = [free[quad].pop() for _ in range(4)]
        hold[Z] = q4[:2]
        reserve += q4[2:]
    one = None if first == 'chankan' else free[a].pop()
    two = None if second == 'chankan' else free[a if second == 'same' else b].pop()
    reserve += [t for t in (one, two) if t is not None]
    keep = set(held) | set(reserve)
    m = Mini(rng, dealer=rng.randrange(4), hold=hold, reserve=reserve, total=total, overtime=0.1)
    # nobody may be dealt further copies that would end things early: only this hand is steered
    m.seat, m.way = X, (first, second, riichi, later)
    ref = m.ref
    nxt = ref.dealer
    late = 0

    def tile_turn(q, t=None, riichi_now=False):
        nonlocal nxt, late
        m.draw(q, t)
        if q == X and m.last not in keep and m.last // 4 in ws and ('tsumo',) in ref.cur.must[X] and rng.random() < 0.2:
            m.agari(X, X, m.last)
            return True
        if riichi_now:
            m.reach(q)
        d = m.last
        m.discard(q, d)
        if riichi_now:
            m.accept(q)
        for _ in range(late):
            m.dora()
        late = 0
        nxt = (q + 1) % 4
        return False

    def until(q):
        while nxt != q:
            if tile_turn(nxt):
                return True
        return False

    if quad is not None:
        src = rng.choice([q for q in range(4) if q not in (Z, X)])
        if until(src):
            return m
        m.draw(src, q4[2])
        m.discard(src, q4[2])
        rel = (src - Z) % 4
        m.call(Z, mj.encode_pon(sorted(q4[:3]), q4[2], rel))
        m.junk(Z, keep=keep)
        nxt = (Z + 1) % 4
    # the own draw, with or without riichi
    if until(X):
        return m
    if tile_turn(X, riichi_now=riichi):
        return m

    def quad_turn(final):
        nonlocal late, nxt
        if until(Z):
            return True
        m.draw(Z, q4[3])
        m.call(Z, mj.encode_kakan(sorted(q4[:3]), q4[2], q4[3], rel))
        if final and ('ron',) in ref.cur.must[X] and rng.random() < 0.7:
            m.agari(X, Z, q4[3])
            return True
        late = 1
        return False

    def discard_turn(t, who, final):
        nonlocal nxt, late
        if nxt != who and until(who):
            return True
        m.draw(who, t)
        m.discard(who, t)
        if final and ('ron',) in ref.cur.must[X] and rng.random() < 0.7:
            m.agari(X, who, t)
            return True
        for _ in range(late):
            m.dora()
        late = 0
        nxt = (who + 1) % 4
        return False

    if first == 'chankan':
        if quad_turn(False):
            return m
        if not later and rng.random() < 0.5:
            # the second tile comes from the dead wall
            m.draw(Z, two)
            m.discard(Z, two)
            if ('ron',) in ref.cur.must[X] and rng.random() < 0.7:
                return m.agari(X, Z, two)
            m.dora()
            return m.end()
        if tile_turn(Z):
            return m
    else:
        w = rng.choice(others[:2] if not later else others)
        if discard_turn(one, w, False):
            return m
    if later:
        if until(X) or tile_turn(X):
            return m
    if second == 'chankan':
        if quad_turn(True):
            return m
        tile_turn(Z)
    else:
        who = nxt if nxt != X else (X + 1) % 4
        if rng.random() < 0.15:
            who = X
        if discard_turn(two, who, True):
            return m
    return m.end()
