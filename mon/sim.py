"""Four-player game simulator that writes game logs in the mjlog XML format.

The simulator only makes legal moves (legality is asked from ref.RoundRef), but
deals and draws are biased so that rare situations (red fives in every role,
quads of all kinds, robbed quads, dead-wall wins, double wins, last-tile plays,
riichi with quads, wins of every shape) occur orders of magnitude more often than
in real games.
"""
import random
from . import mj, ref
from .mj import kind, counts34, is_red

GO_OK = [169, 9, 1, 41, 137, 161, 33, 73, 105, 201, 129, 193, 233, 225]


class Style:
    def __init__(self, rng, name=None):
        r = rng.random
        self.name = name or rng.choice(STYLES)
        self.p_chi = rng.choice([0.05, 0.3, 0.7, 0.95])
        self.p_pon = rng.choice([0.1, 0.5, 0.9])
        self.p_kan = rng.choice([0.3, 0.9, 1.0])
        self.p_win = rng.choice([0.3, 0.8, 1.0])
        self.p_riichi = rng.choice([0.0, 0.5, 0.9, 1.0])
        self.p_feed = rng.choice([0.0, 0.2, 0.5])
        self.p_dumb = rng.choice([0.05, 0.3])
        self.draw_n = rng.choice([1, 1, 3, 8])
        self.draw_kan = rng.choice([0.0, 0.5])
        self.stop = None
        if self.name == 'micro':
            self.stop = rng.randint(1, 8)
        if self.name in ('late', 'calm'):
            self.p_win = rng.choice([0.0, 0.02, 0.1, 1.0]) if self.name == 'late' else 0.0
            self.p_kan = rng.choice([0.1, 1.0])
            self.draw_n = 1


STYLES = ['random', 'near', 'near', 'kan', 'kan', 'flush', 'fives', 'fives', 'yaochu', 'micro',
          'late', 'tenpai', 'tenpai', 'pon', 'twotile']


def deal(rng, style):
    pool = list(range(136))
    rng.shuffle(pool)
    name = style.name
    if name == 'micro':
        name = rng.choice(['near', 'kan', 'fives', 'tenpai', 'flush', 'pon', 'yaochu', 'twotile'])
    hands = []
    avail = set(pool)

    def take(t):
        avail.discard(t)
        return t

    def pick(kinds, n):
        got = []
        cands = [t for t in pool if t in avail and t // 4 in kinds]
        rng.shuffle(cands)
        for t in cands[:n]:
            got.append(take(t))
        return got

    def fill(h):
        rest = [t for t in pool if t in avail]
        while len(h) < 13:
            t = rest[rng.randrange(len(rest))]
            if t in avail:
                h.append(take(t))
        return h

    for p in range(4):
        h = []
        if name in ('random', 'late', 'calm'):
            pass
        elif name in ('near', 'tenpai'):
            ngroups = 4 if name == 'tenpai' else rng.choice([2, 3, 3])
            mode = rng.random()
            if mode < 0.12:       # pairs
                ks = rng.sample(range(34), 6)
                for k in ks:
                    h += pick([k], 2)
            elif mode < 0.2:      # orphans
                for k in mj.YAOCHU:
                    h += pick([k], 1)
                h = h[:rng.choice([11, 12, 13])]
                for t in list(mj.YAOCHU):
                    pass
            else:
                suit_only = rng.random() < 0.3
                base = rng.choice([0, 9, 18])
                for _ in range(ngroups):
                    if rng.random() < 0.65:
                        k = (base if suit_only else rng.choice([0, 9, 18])) + rng.randrange(7)
                        g = []
                        for i in range(3):
                            g += pick([k + i], 1)
                    else:
                        k = rng.randrange(34) if not suit_only else base + rng.randrange(9)
                        g = pick([k], 3)
                    h += g
                if name == 'tenpai':
                    h = h[:rng.choice([10, 11, 12, 12])]
                    h += pick([rng.randrange(34)], min(2, 13 - len(h)))
        elif name == 'kan':
            for _ in range(rng.choice([2, 3, 4])):
                h += pick([rng.randrange(34)], rng.choice([3, 3, 4]))
        elif name == 'pon':
            for _ in range(6):
                h += pick([rng.randrange(34)], 2)
        elif name == 'twotile':
            ks = rng.sample(range(34), 8)
            for k in ks:
                h += pick([k], rng.choice([2, 2, 3]))
        elif name == 'flush':
            b = rng.choice([0, 9, 18])
            h += pick(range(b, b + 9), rng.choice([9, 11, 13]))
        elif name == 'fives':
            b = rng.choice([0, 9, 18])
            h += pick([b + 4], rng.choice([1, 2, 3]))
            h += pick([b + 2, b + 3, b + 5, b + 6], rng.choice([4, 6]))
            b2 = rng.choice([0, 9, 18])
            h += pick(range(b2 + 2, b2 + 7), 4)
        elif name == 'yaochu':
            ks = list(mj.YAOCHU)
            rng.shuffle(ks)
            for k in ks[:rng.choice([8, 10, 12, 13])]:
                h += pick([k], 1)
            h += pick(mj.YAOCHU, rng.choice([0, 1]))
        h = h[:13]
        hands.append(h)
    # give short hands back surplus fairly
    used = set(t for h in hands for t in h)
    avail.clear()
    avail.update(set(pool) - used)
    for h in hands:
        fill(h)
    order = list(range(4))
    rng.shuffle(order)
    hands = [hands[i] for i in order]
    return hands, [t for t in pool if t in avail]


class RoundSim:
    def __init__(self, rng, style, n_rounds, round_no, honba, kyotaku, scores, wins=True):
        self.rng = rng
        self.style = style
        hands, pool = self.make_deal(round_no % 4)
        rng.shuffle(pool)
        self.pool = pool
        if style.name == 'fives' and rng.random() < 0.5:
            reds = [t for t in pool if is_red(t)]
            for t in reds[:1]:
                pool.remove(t)
                pool.append(t)
        dora = pool.pop()
        attr = {'seed': '%d,%d,%d,%d,%d,%d' % (round_no, honba, kyotaku, rng.randrange(6), rng.randrange(6), dora),
                'ten': ','.join(map(str, scores)), 'oya': str(round_no % 4)}
        for p in range(4):
            h = list(hands[p])
            rng.shuffle(h)
            attr['hai%d' % p] = ','.join(map(str, h))
        self.events = [('INIT', attr)]
        self.ref = ref.RoundRef(attr, n_rounds, wins=wins)
        self.dealer = round_no % 4
        self.pending_dora = 0

    def make_deal(self, dealer):
        return deal(self.rng, self.style)

    # -------------------------------------------------------------- helpers
    def emit(self, tag, **attr):
        self.events.append((tag, {k: str(v) for k, v in attr.items()}))
        self.ref.apply(tag, {k: str(v) for k, v in attr.items()})

    def draw_tile(self, p):
        rng, st, R = self.rng, self.style, self.ref
        n = min(st.draw_n, len(self.pool))
        if n <= 1:
            return self.pool.pop()
        idxs = rng.sample(range(len(self.pool)), n)
        best, bs = None, None
        c = counts34(R.hands[p])
        nm = len(R.melds[p])
        want_kan = rng.random() < st.draw_kan
        for i in idxs:
            t = self.pool[i]
            k = kind(t)
            s = 0
            if want_kan:
                if c[k] == 3:
                    s -= 20
                if any(m.kind == 'pon' and m.tiles[0] // 4 == k for m in R.melds[p]):
                    s -= 20
            c[k] += 1
            s += mj.shanten(c, nm)
            c[k] -= 1
            if is_red(t):
                s -= 0.3
            if bs is None or s < bs:
                best, bs = i, s
        t = self.pool[best]
        self.pool[best] = self.pool[-1]
        self.pool.pop()
        return t

    def choose_discard(self, p, forbidden=(), keep_tenpai=False, drawn=None):
        rng, st, R = self.rng, self.style, self.ref
        hand = sorted(R.hands[p])
        cands = [t for t in hand if kind(t) not in forbidden]
        if not cands:
            cands = hand
        c = counts34(hand)
        nm = len(R.melds[p])
        if keep_tenpai:
            ok = []
            for t in cands:
                c[kind(t)] -= 1
                if mj.shanten(c, nm) <= 0:
                    ok.append(t)
                c[kind(t)] += 1
            return rng.choice(ok)
        x = rng.random()
        if x < st.p_dumb:
            return rng.choice(cands)
        if x < st.p_dumb + st.p_feed:
            fed = []
            for t in cands:
                k = kind(t)
                for q in range(4):
                    if q == p:
                        continue
                    cq = counts34(R.hands[q])
                    if cq[k] >= 2:
                        fed.append(t)
                        break
                    if q == (p + 1) % 4 and k < 27:
                        n = k % 9
                        if (n >= 2 and cq[k - 1] and cq[k - 2]) or (n <= 6 and cq[k + 1] and cq[k + 2]) or (1 <= n <= 7 and cq[k - 1] and cq[k + 1]):
                            fed.append(t)
                            break
            if fed:
                return rng.choice(fed)
        best, bs = [], None
        seen = {}
        for t in cands:
            k = kind(t)
            if k not in seen:
                c[k] -= 1
                seen[k] = mj.shanten(c, nm)
                c[k] += 1
            s = seen[k]
            if bs is None or s < bs:
                best, bs = [t], s
            elif s == bs:
                best.append(t)
        if drawn in best and rng.random() < 0.4:
            return drawn
        return rng.choice(best)

    def end_draw(self, type_=None):
        R = self.ref
        a = {'ba': '%d,%d' % (R.honba, R.kyotaku), 'sc': self.sc()}
        if type_:
            a['type'] = type_
        self.emit('RYUUKYOKU', **a)

    def sc(self):
        d = [0, 0, 0, 0]
        for i in range(4):
            x = self.rng.randrange(-40, 41)
            d[i] += x
            d[(i + 1) % 4] -= x
        self.deltas = d
        return ','.join('%d,%d' % (s, x) for s, x in zip(self.ref.scores, d))

    def agari(self, who, frm, tile):
        R = self.ref
        hai = sorted(R.hands[who] | {tile})
        a = {'ba': '%d,%d' % (R.honba, R.kyotaku), 'hai': ','.join(map(str, hai)), 'machi': tile,
             'ten': '30,1000,0', 'yaku': '1,1', 'doraHai': ','.join(map(str, R.dora)),
             'who': who, 'fromWho': frm, 'sc': self.sc()}
        if R.riichi[who] and self.pool:
            a['doraHaiUra'] = self.rng.choice(self.pool)
        self.emit('AGARI', **a)

    def reveal(self):
        if len(self.ref.dora) < 5 and self.pool:
            i = self.rng.randrange(len(self.pool))
            reds = [j for j, t in enumerate(self.pool) if is_red(t)]
            if reds and self.rng.random() < 0.3:
                i = self.rng.choice(reds)
            t = self.pool.pop(i)
            self.emit('DORA', hai=t)

    def want_win(self, p, how):
        return self.rng.random() < self.style.p_win

    def want_riichi(self, p):
        return self.rng.random() < self.style.p_riichi

    def want_kan(self, p, kans):
        return self.rng.choice(kans) if self.rng.random() < self.style.p_kan else None

    def want_call(self, p, cur):
        R, rng, st = self.ref, self.rng, self.style
        act = None
        for i in range(1, 4):
            q = (p + i) % 4
            ks = sorted(k for k in cur.must[q] if k[0] in ('pon', 'minkan'))
            if ks:
                mk = [k for k in ks if k[0] == 'minkan']
                if mk and R.kans < 4 and rng.random() < st.p_kan * 0.7:
                    act = (q, mk[0])
                elif rng.random() < st.p_pon:
                    pons = [k for k in ks if k[0] == 'pon']
                    if pons:
                        act = (q, rng.choice(pons))
        if act is None:
            q = (p + 1) % 4
            ks = sorted(k for k in cur.must[q] if k[0] == 'chi')
            if ks and rng.random() < st.p_chi:
                act = (q, rng.choice(ks))
        return act

    # -------------------------------------------------------------- play
    def play(self):
        R, rng, st = self.ref, self.rng, self.style
        p = self.dealer
        p_draws = 0
        while True:
            # p draws
            if R.remaining() == 0 or not self.pool or (st.stop is not None and p_draws >= st.stop and not R.rinshan_next):
                self.end_draw()
                return self
            t = self.draw_tile(p)
            p_draws += 1
            self.emit('TUVW'[p] + str(t))
            opts = R.cur.must[p]
            if self.late_dora:
                if not self.dora_after_discard:
                    for _ in range(self.late_dora):
                        self.reveal()
                    self.late_dora = 0
            if ('tsumo',) in opts and self.want_win(p, 'tsumo'):
                self.agari(p, p, t)
                return self
            if R.calls == 0 and not R.discards[p] and sum(1 for k in mj.YAOCHU if any(kind(x) == k for x in R.hands[p])) >= 9 and rng.random() < 0.1:
                self.end_draw('yao9')
                return self
            kans = sorted(k for k in opts if k[0] in ('ankan', 'kakan'))
            key = self.want_kan(p, kans) if kans and R.kans < 4 else None
            if key is not None:
                if key[0] == 'ankan':
                    tile = key[1] * 4 + (0 if rng.random() < 0.7 else rng.randrange(4))
                    self.emit('N', who=p, m=mj.encode_ankan(tile))
                    self.reveal()
                    continue
                pon = [m for m in R.melds[p] if m.kind == 'pon' and m.tiles[0] // 4 == key[1]][0]
                added = [x for x in R.hands[p] if kind(x) == key[1]][0]
                if self.late_dora:
                    for _ in range(self.late_dora):
                        self.reveal()
                    self.late_dora = 0
                self.emit('N', who=p, m=mj.encode_kakan(pon.tiles, pon.called, added, pon.src))
                if self.rons(p, added):
                    return self
                self.late_dora += 1
                self.dora_after_discard = rng.random() < 0.3
                continue
            riichi = ('riichi',) in opts and self.want_riichi(p)
            if riichi:
                self.emit('REACH', who=p, step=1)
                d = self.choose_discard(p, keep_tenpai=True)
            elif R.riichi[p]:
                d = t
            else:
                d = self.choose_discard(p, drawn=t)
            nxt = self.discard_phase(p, d, riichi)
            if nxt is None:
                return self
            p = nxt

    late_dora = 0
    dora_after_discard = False

    def rons(self, p, tile):
        R, rng, st = self.ref, self.rng, self.style
        cur = R.cur
        who = []
        for i in range(1, 4):
            q = (p + i) % 4
            if ('ron',) in cur.must[q] and self.want_win(q, 'chankan' if cur.reason == 'chankan' else 'ron'):
                who.append(q)
        if len(who) == 3:
            if rng.random() < 0.5:
                who.pop(rng.randrange(3))
            else:
                self.end_draw('ron3')
                return True
        for q in who:
            self.agari(q, p, tile)
        return bool(who)

    def discard_phase(self, p, d, riichi):
        """discard d by p and resolve; returns the next drawer or None at the end"""
        R, rng, st = self.ref, self.rng, self.style
        while True:
            self.emit('DEFG'[p] + str(d))
            if self.rons(p, d):
                return None
            cur = R.cur
            if riichi:
                ten = list(R.scores)
                ten[p] -= 10
                self.emit('REACH', who=p, ten=','.join(map(str, ten)), step=2)
                riichi = False
            for _ in range(self.late_dora):
                self.reveal()
            self.late_dora = 0
            if all(R.riichi):
                self.end_draw('reach4')
                return None
            if R.kans >= 4 and len(R.kan_owner) > 1:
                self.end_draw('kan4')
                return None
            if R.calls == 0 and all(len(x) == 1 for x in R.discards) and len({kind(x[0]) for x in R.discards}) == 1 and kind(R.discards[0][0]) in range(27, 31):
                self.end_draw('kaze4')
                return None
            act = self.want_call(p, cur)
            if act is None:
                return (p + 1) % 4
            q, key = act
            src = (p - q) % 4
            forb = ()
            hand = sorted(R.hands[q])
            if key[0] == 'minkan':
                self.emit('N', who=q, m=mj.encode_minkan(d, src))
                if rng.random() < 0.2:
                    self.reveal()
                else:
                    self.late_dora = 1
                    self.dora_after_discard = rng.random() < 0.3
                return q
            if key[0] == 'pon':
                same = [x for x in hand if kind(x) == key[1]]
                blacks = [x for x in same if not is_red(x)]
                rng.shuffle(blacks)
                if key[2]:
                    use = [x for x in same if is_red(x)] + blacks[:1]
                else:
                    use = blacks[:2]
                m = mj.encode_pon(use + [d], d, src)
                forb = {kind(d)}
            else:
                _, low, pos, red = key
                need = [low + i for i in range(3) if i != pos]
                use = []
                for kk in need:
                    xs = [x for x in hand if kind(x) == kk]
                    if kk % 9 == 4:
                        xs = [x for x in xs if is_red(x) == red]
                    use.append(rng.choice(xs))
                m = mj.encode_chi(use + [d], d)
                forb = {kind(d)}
                if pos == 0 and low % 9 + 3 < 9:
                    forb.add(low + 3)
                if pos == 2 and low % 9 > 0:
                    forb.add(low - 1)
            self.emit('N', who=q, m=m)
            d = self.choose_discard(q, forbidden=forb)
            p = q


def make_game(rng, n_rounds=None, styles=None, go=None, wins=True, scores_low=0.15):
    """Returns (go, [RoundSim]) – a whole game."""
    go = rng.choice(GO_OK) if go is None else go
    total = 8 if go & 8 else 4
    count = n_rounds or rng.randint(2, 6)
    out = []
    rn, honba, ky = (0, 0, 0)
    if rng.random() < 0.5:
        rn = rng.randrange(total)
    scores = [250] * 4
    if rng.random() < 0.15:         # far into a long game: many counters and sticks
        honba, ky = rng.randrange(4, 36), rng.randrange(4, 14)
    for _ in range(count):
        if rng.random() < 0.5:
            scores = [rng.randrange(0, rng.choice([600, 600, 1300])) for _ in range(4)]
        if rng.random() < scores_low:
            scores[rng.randrange(4)] = rng.choice([0, 5, 9, 10, 11])
        st = Style(rng, rng.choice(styles) if styles else None)
        rs = RoundSim(rng, st, total, rn, honba, ky, scores, wins=wins).play()
        out.append(rs)
        ky = rs.ref.kyotaku if rng.random() < 0.7 else 0
        honba = honba + 1 if rng.random() < (0.5 if honba < 4 else 0.8) else 0
        if rng.random() < 0.6:
            rn = rn + 1 if rn + 1 < total else rng.randrange(total)
        scores = [s + d for s, d in zip(rs.ref.scores, getattr(rs, 'deltas', [0] * 4))]
        scores = [max(0, s) for s in scores]
        if rng.random() < 0.05:
            rn = total + rng.randrange(4)       # overtime round
        elif rn >= total:
            rn = rng.randrange(total)
    return go, out


def esc(s):
    return str(s).replace('&', '&amp;').replace('"', '&quot;').replace('<', '&lt;')


def to_xml(go, rounds_events, extra_head='', un_rng=None, tail=''):
    """rounds_events: list of lists of (tag, attr)"""
    out = ['<mjloggm ver="2.3"><SHUFFLE seed="mt19937ar-sha512-n288-base64,xx" ref=""/>',
           '<GO type="%d" lobby="0"/>' % go,
           '<UN n0="%41" n1="%42" n2="%43" n3="%44" dan="16,16,16,16" rate="2000.00,2000.00,2000.00,2000.00" sx="M,M,M,M"/>',
           '<TAIKYOKU oya="0"/>', extra_head]
    for evs in rounds_events:
        for tag, attr in evs:
            out.append('<%s%s/>' % (tag, ''.join(' %s="%s"' % (k, esc(v)) for k, v in attr.items())))
            if un_rng is not None and tag != 'INIT' and un_rng.random() < 0.02:
                out.append('<UN n%d="%%41"/>' % un_rng.randrange(4))
    out.append(tail)
    out.append('</mjloggm>')
    return ''.join(out)


def write_game(path, go, rounds, **kw):
    with open(path, 'w') as f:
        f.write(to_xml(go, [r.events if hasattr(r, 'events') else r for r in rounds], **kw))


# ---------------------------------------------------------------- directed rounds
class Probe(RoundSim):
    """A scripted round that builds one player's hand through real calls and then
    offers the winning tile in a chosen way (draw, discard, robbed quad, dead wall,
    last tile), with every other player only passing tiles through."""

    def make_deal(self, dealer):
        rng = self.rng
        self.dealer = dealer
        for _ in range(200):
            r = self._try_deal()
            if r:
                return r
        self.script = None
        return deal(rng, self.style)

    def _groups(self, n):
        """n groups + pair as kind lists, at most four copies each"""
        rng = self.rng
        theme = rng.choice(['any', 'any', 'any', 'tanyao', 'honor', 'flush', 'mixed', 'terminal', 'trip', 'seven', 'orphan'])
        cnt = [0] * 34
        gs = []
        base = rng.choice([0, 9, 18])

        def ok(ks):
            for k in ks:
                cnt[k] += 1
            if max(cnt) <= 4:
                return True
            for k in ks:
                cnt[k] -= 1
            return False

        tries = 0
        while len(gs) < n:
            tries += 1
            if tries > 300:
                return None
            seq = rng.random() < (0.1 if theme == 'trip' else 0.65)
            if theme == 'honor' and rng.random() < 0.5:
                seq = False
                k = 27 + rng.randrange(7)
            elif theme == 'tanyao':
                k = rng.choice([0, 9, 18]) + (rng.randint(1, 5) if seq else rng.randint(1, 7))
            elif theme in ('flush', 'mixed'):
                if theme == 'mixed' and rng.random() < 0.3:
                    seq, k = False, 27 + rng.randrange(7)
                else:
                    k = base + rng.randrange(7 if seq else 9)
            elif theme == 'terminal':
                if seq:
                    k = rng.choice([0, 9, 18]) + rng.choice([0, 6])
                else:
                    k = rng.choice(mj.YAOCHU)
            else:
                k = rng.choice([0, 9, 18]) + rng.randrange(7) if seq else rng.randrange(34)
            ks = [k, k + 1, k + 2] if seq else [k] * 3
            if ok(ks):
                gs.append(ks)
        for _ in range(100):
            k = rng.randrange(34)
            if theme == 'tanyao' and (k >= 27 or k % 9 in (0, 8)):
                continue
            if ok([k, k]):
                return gs, [k, k]
        return None

    def _try_deal(self):
        rng = self.rng
        X = self.X = rng.randrange(4)
        F = self.F = (X + 3) % 4
        special = rng.random()
        self.how = getattr(self.style, 'how', None) or rng.choice(['tsumo', 'tsumo', 'ron', 'ron', 'ron', 'chankan', 'rinshan', 'last_tsumo', 'last_ron', 'first', 'double'])
        n_open = rng.choice([0, 0, 0, 1, 1, 2, 3, 4]) if self.how != 'first' else 0
        if self.how == 'first':
            n_open = 0
        if special < 0.06 and self.how != 'chankan':
            ks = rng.sample(range(34), 7)
            final = [[k, k] for k in ks]
            flat = [k for g in final for k in g]
            gs, pair, n_open = [], flat, 0
        elif special < 0.1 and self.how != 'chankan':
            flat = list(mj.YAOCHU) + [rng.choice(mj.YAOCHU)]
            gs, pair, n_open = [], flat, 0
        else:
            r = self._groups(4)
            if not r:
                return None
            gs, pair = r
        rng.shuffle(gs)
        opened, closed = gs[:n_open], gs[n_open:]
        conc = [k for g in closed for k in g] + list(pair)
        win = rng.choice(conc)
        if self.how == 'chankan':
            seqs = [g for g in closed if g[0] != g[1]]
            if not seqs:
                return None
            win = rng.choice(rng.choice(seqs))
        conc.remove(win)
        # realise as physical tiles
        free = {k: [k * 4 + c for c in range(4)] for k in range(34)}
        for k in free:
            rng.shuffle(free[k])
            if rng.random() < 0.6 and k in (4, 13, 22):
                free[k].sort(key=lambda t: -is_red(t))   # red comes out last -> pop() takes blacks; keep sometimes
                if rng.random() < 0.7:
                    free[k].reverse()

        def get(k):
            return free[k].pop() if free[k] else None

        concealed = [get(k) for k in conc]
        claims, own = [], []
        self.want = {p: [] for p in range(4)}
        self.own_kan = {p: [] for p in range(4)}
        fclaims = []
        extra_draw = []
        for g in opened:
            ts = [get(k) for k in g]
            if None in ts:
                return None
            i = rng.randrange(3)
            called = ts[i]
            rest = [t for j, t in enumerate(ts) if j != i]
            if g[0] == g[1]:
                kk = rng.random()
                if kk < 0.15 and free[g[0]]:
                    # open quad: three in hand
                    rest = ts
                    called = get(g[0])
                    self.want[X].append(('minkan', g[0]))
                elif kk < 0.3 and free[g[0]]:
                    # concealed quad
                    rest = ts + [get(g[0])]
                    called = None
                    self.own_kan[X].append(('ankan', g[0]))
                elif kk < 0.5 and free[g[0]]:
                    self.want[X].append(('pon', g[0]))
                    extra_draw.append(get(g[0]))
                    self.own_kan[X].append(('kakan', g[0]))
                else:
                    self.want[X].append(('pon', g[0]))
            else:
                self.want[X].append(('chi', g[0], i))
            own += rest
            if called is not None:
                fclaims.append(called)
        hand = concealed + own
        if None in hand or len(hand) > 13:
            return None
        hands = [[], [], [], []]
        junk_n = 13 - len(hand)
        wtile = get(win)
        if wtile is None:
            return None
        fhand = list(fclaims)
        if len(fhand) > 12:
            return None
        # the other waits as own discards (furiten probes)
        wk = list(mj.waits(counts34(concealed), 4 - (len(concealed) - 1) // 3))
        avail = lambda: [t for k in free for t in free[k]]
        self.final_waits = wk
        fur = None
        if rng.random() < 0.25:
            cand = [k for k in wk if free[k]]
            if cand:
                fur = get(rng.choice(cand))
        self.double_seat = None
        if self.how == 'double' and n_open == 0 and special > 0.1:
            # another seat waits for the same kind
            Y = rng.choice([p for p in range(4) if p not in (X, F)])
            yh = self._wait_hand(win, free)
            if yh:
                hands[Y] = yh
                self.double_seat = Y
        if self.how == 'chankan':
            # Z pons `win` kind and later adds the fourth tile
            Z = rng.choice([p for p in range(4) if p not in (X,)])
            need = [get(win) for _ in range(3)]
            if None in need:
                return None
            Y = rng.choice([p for p in range(4) if p not in (X, Z)])
            self.Z, self.Y = Z, Y
            hands[Z] += need[:2]
            self.chankan_feed = need[2]
            hands[Y] += [need[2]]
            self.want[Z].append(('pon', win))
            self.own_kan[Z].append(('kakan', win))
        hands[X] = hand
        for t in fhand:
            if len(hands[F]) >= 13:
                return None
            hands[F].append(t)
        pool = avail()
        rng.shuffle(pool)
        self.feed = {p: [] for p in range(4)}
        self.feed[F] = list(fclaims)
        if self.how == 'chankan':
            self.feed[self.Y] = [self.chankan_feed] + self.feed[self.Y]
        self.force_draw = {p: [] for p in range(4)}
        for p in range(4):
            while len(hands[p]) < 13:
                hands[p].append(pool.pop())
        self.keep = set(hand)
        if fur is not None:
            if hands[X] and len(hand) < 13:
                # replace one junk by the furiten tile
                j = hands[X].index([t for t in hands[X] if t not in self.keep][0])
                pool.append(hands[X][j])
                hands[X][j] = fur
            else:
                self.force_draw[X].append(fur)
        self.win_tile = wtile
        self.extra = extra_draw
        # when to deliver
        self.delivered = False
        self.deliver_turn = rng.randint(1, 3)
        if self.how in ('tsumo', 'first', 'rinshan'):
            n = 0 if self.how == 'first' else rng.randint(len(fclaims), len(fclaims) + 2)
            self.force_draw[X] += [None] * max(0, n - len(self.force_draw[X]))
            self.force_draw[X] += extra_draw
            if self.how == 'first':
                self.force_draw[X] = []
            self.force_draw[X].append(wtile)
        elif self.how == 'chankan':
            self.force_draw[X] += extra_draw
            self.force_draw[self.Z] += [None] * rng.randint(1, 2) + [wtile]
        elif self.how.startswith('last'):
            self.force_draw[X] += extra_draw
        else:
            self.force_draw[X] += extra_draw
            D = rng.choice([p for p in range(4) if p != X])
            if D == F and rng.random() < 0.5:
                D = F
            self.force_draw[D] += [None] * rng.randint(0, 3) + [wtile]
        self.reserved = [t for l in self.force_draw.values() for t in l if t is not None] + ([wtile] if self.how.startswith('last') else [])
        rs = set(self.reserved)
        pool = [t for t in pool if t not in rs]
        self.script = True
        if not self.how.startswith('last'):
            self.style.stop = rng.randint(14, 34)
        self.riichi_ok = rng.random() < 0.5
        self.take_win = rng.random() < 0.7
        self.other_win = rng.random() < 0.5
        if getattr(self.style, 'how', None):
            self.take_win = self.other_win = rng.random() < 0.9
        self.want_order = rng.random() < 0.8
        return hands, pool

    def _wait_hand(self, k, free):
        rng = self.rng
        for _ in range(30):
            r = self._groups(4)
            if not r:
                continue
            gs, pair = r
            flat = [x for g in gs for x in g] + pair
            if k not in flat:
                continue
            flat.remove(k)
            need = [0] * 34
            for x in flat:
                need[x] += 1
            if all(len(free[x]) >= n for x, n in enumerate(need)):
                return [free[x].pop() for x in flat]
        return None

    # decisions ------------------------------------------------------------
    def draw_tile(self, p):
        if not self.script:
            return super().draw_tile(p)
        R = self.ref
        if self.how == 'last_tsumo' and p == self.X and R.remaining() <= 4 and not self.delivered and R.remaining() == 1:
            self.delivered = True
            return self.win_tile
        if self.how == 'last_ron' and p != self.X and R.remaining() == 1 and not self.delivered:
            self.delivered = True
            return self.win_tile
        q = self.force_draw[p]
        if self.how == 'rinshan' and p == self.X and not R.rinshan_next and self.win_tile in q and q[0] == self.win_tile and self.own_kan[p]:
            return self.pool.pop()
        if q:
            t = q.pop(0)
            if t is not None:
                return t
        return self.pool.pop()

    def want_win(self, p, how):
        if not self.script:
            return super().want_win(p, how)
        if how == 'ron' and self.how == 'chankan' and not self.delivered:
            return False
        if p == self.X:
            return self.take_win
        if p == self.double_seat:
            return self.take_win and self.other_win
        return self.other_win and self.rng.random() < 0.3

    def want_riichi(self, p):
        if not self.script:
            return super().want_riichi(p)
        if p == self.X:
            return self.riichi_ok
        return self.rng.random() < 0.3

    def want_kan(self, p, kans):
        if not self.script:
            return super().want_kan(p, kans)
        for k in kans:
            if k in self.own_kan[p]:
                self.own_kan[p].remove(k)
                if self.how == 'chankan' and p == self.Z:
                    self.delivered = True
                return k
        return None

    def want_call(self, p, cur):
        if not self.script:
            return super().want_call(p, cur)
        for q in range(4):
            for k in sorted(cur.must[q], key=lambda z: (z[-1] is True) if self.rng.random() < 0.5 else (z[-1] is False)):
                for w in self.want[q]:
                    if k[:len(w)] == w:
                        if w[0] == 'minkan' and self.ref.kans >= 4:
                            continue
                        self.want[q].remove(w)
                        return (q, k)
        return None

    def choose_discard(self, p, forbidden=(), keep_tenpai=False, drawn=None):
        if not self.script or keep_tenpai:
            return super().choose_discard(p, forbidden, keep_tenpai, drawn)
        R, rng = self.ref, self.rng
        hand = R.hands[p]
        if p == self.X:
            junk = sorted(t for t in hand if t not in self.keep and t != self.win_tile
                          and t not in getattr(self, 'extra', ()) and kind(t) not in forbidden)
            if drawn is not None and drawn in junk and rng.random() < 0.8:
                return drawn
            if junk:
                return rng.choice(junk)
            return super().choose_discard(p, forbidden, False, drawn)
        if drawn == self.win_tile and self.how in ('ron', 'double', 'last_ron'):
            return drawn
        for t in self.feed[p]:
            if t in hand and kind(t) not in forbidden and (not self.riichi_feed_block(p)):
                if rng.random() < 0.9:
                    self.feed[p].remove(t)
                    return t
        if p == getattr(self, 'Z', None) or p == self.double_seat or drawn is not None:
            if drawn is not None and drawn in hand and kind(drawn) not in forbidden:
                return drawn
        return super().choose_discard(p, forbidden, False, drawn)

    def riichi_feed_block(self, p):
        return False


def probe_game(rng, n=8, wins=True, how=None):
    go = rng.choice(GO_OK)
    total = 8 if go & 8 else 4
    out = []
    for _ in range(n):
        st = Style(rng, 'calm')
        if how:
            st.how = rng.choice(how)
        scores = [rng.randrange(0, 600) for _ in range(4)] if rng.random() < 0.5 else [250] * 4
        # now and then the rounds after the regular ones (the next wind)
        rn = rng.randrange(total) if rng.random() < 0.85 else total + rng.randrange(4)
        out.append(Probe(rng, st, total, rn, rng.randrange(4), rng.randrange(3), scores, wins=wins).play())
    return go, out


# ---------------------------------------------------------------- a game that was really played
class Played:
    """a recorded round replayed by the reference"""

    def __init__(self, attr, total):
        self.events = [('INIT', attr)]
        self.ref = ref.RoundRef(attr, total)

    def emit(self, tag, attr):
        self.events.append((tag, attr))
        self.ref.apply(tag, attr)


REAL = {5: 0, 17: 4, 29: 8, 41: 12}       # case number -> first round of the recorded game used there


def real_game(i):
    """four rounds of the recorded sixteen-round game in /verif/data"""
    import xml.etree.ElementTree as ET
    import os
    root = ET.parse(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'real1.xml')).getroot()
    go = int(root.find('GO').attrib['type'])
    sims = []
    for e in root.iter():
        if e.tag == 'INIT':
            sims.append(Played(dict(e.attrib), 8 if go & 8 else 4))
        elif sims and e.tag not in ('UN', 'BYE'):
            sims[-1].emit(e.tag, dict(e.attrib))
    return go, sims[REAL[i]:REAL[i] + 4]


def _recorded():
    import os
    return os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data', 'real1.xml')


RECORDED = _recorded()
