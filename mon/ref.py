"""Reference model of one round, replayed from the raw log events.

RoundRef is an executable specification, written from the rules of the game and
the log format only.  Each call of `apply` consumes one log event and may append
expected decision points (`HT`) to `self.halfturns`.  Options are three-valued:
`must` (has to be offered), `may` (don't-care), everything else must not be.
"""
from . import mj
from .mj import kind, counts34, vec37, is_red, option_key, Meld, WinFacts, EAST

DURING, DISCARD, POST = 0, 1, 2


class HT:
    """One expected decision point."""
    __slots__ = ('type', 'player', 'tile', 'enc', 'states', 'must', 'may', 'taken',
                 'furiten_may', 'event_no', 'reason', 'tsumogiri')

    def __init__(self, type_, player, enc, event_no, tile=None, reason=None):
        self.type = type_
        self.player = player
        self.enc = enc
        self.tile = tile
        self.states = {}      # seat -> situation dict
        self.must = {}        # seat -> set of option keys
        self.may = {}         # seat -> set of option keys (don't-care)
        self.taken = set()    # (seat, option key)
        self.event_no = event_no
        self.reason = reason

    def offered_ok(self, seat, options):
        """None if fine else (missing, surplus)."""
        must, may = self.must.get(seat, set()), self.may.get(seat, set())
        missing = must - options
        surplus = options - must - may
        return None if not missing and not surplus else (missing, surplus)


class RefError(Exception):
    pass


class RoundRef:
    def __init__(self, init_attr, n_rounds, wins=True):
        ten = [int(x) for x in init_attr['ten'].split(',')]
        seed = [int(x) for x in init_attr['seed'].split(',')]
        self.n_rounds = n_rounds
        self.round_no, self.honba, self.kyotaku = seed[0], seed[1], seed[2]
        self.dora = [seed[5]]
        self.dealer = int(init_attr['oya'])
        self.scores = ten
        self.hands = [set(int(x) for x in init_attr['hai%d' % p].split(',')) for p in range(4)]
        self.melds = [[] for _ in range(4)]
        self.meld_codes = [[] for _ in range(4)]
        self.discards = [[] for _ in range(4)]
        self.drawn = []                     # drawn physical tiles
        self.riichi = [0] * 4
        self.double = [0] * 4
        self.ippatsu = [0] * 4
        self.menzen = [1] * 4
        self.calls = 0                      # calls of any kind so far
        self.kans = 0
        self.kan_owner = set()
        self.rinshan_next = False
        self.last_draw = None
        self.turn = None                    # seat that has to act (14 tiles)
        self.declared = None                # seat with an unaccepted riichi
        self.tokens = []                    # abstract token tuples
        self.halfturns = []
        self.cur = None                     # decision point the next action refers to
        self.event_no = 0
        self.missed = [0] * 4           # temporary furiten
        self.check_wins = wins
        self.over = False
        self.results = []
        self.double_ok = [False] * 4

    # ------------------------------------------------------------ facts
    def remaining(self):
        return 70 - len(self.drawn)

    def wall37(self):
        v = list(mj.FULL37)
        gone = set(self.drawn) | set(self.dora)
        for h in self._dealt():
            gone |= h
        w = vec37(gone)
        return [a - b for a, b in zip(v, w)]

    def _dealt(self):
        if not hasattr(self, '_init_hands'):
            self._init_hands = [set(h) for h in self.hands]
        return self._init_hands

    def unseen37(self, seat):
        seen = set(self.hands[seat]) | set(self.dora)
        for p in range(4):
            seen |= set(self.discards[p])
            for m in self.melds[p]:
                seen |= set(m.tiles)
        w = vec37(seen)
        return [a - b for a, b in zip(mj.FULL37, w)]

    def discard_marks(self):
        out = []
        for p in range(4):
            v = vec37(self.discards[p])
            out.append([1 if x else 0 for x in v])
        return out

    def situation(self, seat, light=False):
        self._dealt()
        rr = self.n_rounds - self.round_no
        return dict(
            seat=seat,
            hand=vec37(self.hands[seat]),
            unseen=self.unseen37(seat),
            wall=self.wall37(),
            discards=self.discard_marks(),
            menzen=list(self.menzen),
            double=list(self.double),
            riichi=list(self.riichi),
            ippatsu=list(self.ippatsu),
            melds=[sorted((m.kind, m.tiles) for m in ms) for ms in self.melds],
            scores=list(self.scores),
            kyotaku=self.kyotaku,
            honba=self.honba,
            dora=list(self.dora),
            parent=[1 if p == self.dealer else 0 for p in range(4)],
            rounds_remaining=rr,
            parent_rounds_remaining=[(rr + i) // 4 for i in range(4)],
            remaining=self.remaining(),
        )

    def seat_wind(self, p):
        return EAST + (p - self.dealer) % 4

    def facts(self, p, **kw):
        d = dict(tsumo=False, riichi=bool(self.riichi[p]), double=bool(self.double[p]),
                 ippatsu=bool(self.ippatsu[p]), rinshan=False, chankan=False, haitei=False,
                 houtei=False, tenhou=False, chiihou=False, seat_wind=self.seat_wind(p),
                 round_wind=EAST + self.round_no // 4)
        d.update(kw)
        return WinFacts(**d)

    # ------------------------------------------------------------ option rules
    def own_turn_options(self, p, drawn, rinshan):
        must, may = set(), set()
        c = counts34(self.hands[p])
        nm = len(self.melds[p])
        rem = self.remaining()
        first = self.calls == 0 and not self.discards[p]
        if self.check_wins and mj.wins(
                self.hands[p], self.melds[p], drawn,
                self.facts(p, tsumo=True, rinshan=rinshan, haitei=(rem == 0 and not rinshan),
                           tenhou=first and p == self.dealer and not self.drawn[1:],
                           chiihou=first and p != self.dealer)):
            must.add(('tsumo',))
        # riichi
        if not self.riichi[p] and self.menzen[p] and self.scores[p] >= 10 and rem >= 4:
            if mj.shanten(c, nm) <= 0:
                must.add(('riichi',))
                if not self._real_tenpai_discard(c, p):
                    must.discard(('riichi',))
                    may.add(('riichi',))
        # quads
        if rem > 0:
            for k in range(34):
                if c[k] == 4:
                    key = ('ankan', k)
                    if self.riichi[p]:
                        if kind(drawn) != k:
                            continue
                        before = counts34(self.hands[p] - {drawn})
                        after = list(c)
                        after[k] = 0
                        w0 = set(mj.waits(before, nm))
                        w1 = set(mj.waits(after, nm + 1))
                        # with and without waits on a fifth copy, which nobody can draw
                        same = {w0 == w1, {x for x in w0 if before[x] < 4} == {x for x in w1 if after[x] < 4}}
                        if same == {False}:
                            continue
                        # structure-changing quads are disputed between rule sets
                        if False in same or self._kan_structural(before, nm, k):
                            may.add(key)
                        else:
                            must.add(key)
                    else:
                        must.add(key)
            if not self.riichi[p]:
                for m in self.melds[p]:
                    if m.kind == 'pon' and c[m.tiles[0] // 4] == 1:
                        must.add(('kakan', m.tiles[0] // 4))
        if self.kans >= 4:                  # no fifth replacement tile
            must = {k for k in must if k[0] not in ('ankan', 'kakan')}
            may = {k for k in may if k[0] not in ('ankan', 'kakan')}
        return must, may

    def _kan_structural(self, before, nm, k):
        """True if some decomposition uses kind k in a sequence (then a quad changes it)."""
        if k >= 27:
            return False
        lo, hi = k - k % 9, k - k % 9 + 9
        return any(before[j] for j in range(max(lo, k - 2), min(hi, k + 3)) if j != k)

    def _real_tenpai_discard(self, c, p):
        own = [0] * 34
        for m in self.melds[p]:
            for t in m.tiles:
                own[t // 4] += 1
        for k in range(34):
            if c[k]:
                c2 = list(c)
                c2[k] -= 1
                for w in mj.waits(c2, len(self.melds[p])):
                    # all four copies in the player's own hand -> disputed
                    if c2[w] + own[w] < 4:
                        return True
        return False

    def call_options(self, p, discarder, tile):
        """(must, may) sets of call keys for seat p on `tile`."""
        must, may = set(), set()
        if p == discarder or self.riichi[p] or self.remaining() == 0:
            return must, may
        hand = self.hands[p]
        k = kind(tile)
        same = [t for t in hand if kind(t) == k]
        reds = [t for t in same if is_red(t)]
        blacks = [t for t in same if not is_red(t)]
        cand = set()
        if len(same) >= 2:
            if len(blacks) >= 2:
                cand.add(('pon', k, False))
            if reds and blacks:
                cand.add(('pon', k, True))
        if len(same) == 3 and self.kans < 4:
            must.add(('minkan', k))
        if (p - discarder) % 4 == 1 and k < 27:
            n = k % 9
            for pos in range(3):
                low = n - pos
                if low < 0 or low > 6:
                    continue
                need = [k - pos + i for i in range(3) if i != pos]
                have = [[t for t in hand if kind(t) == q] for q in need]
                if not all(have):
                    continue
                combos = set()
                for a in have[0]:
                    for b in have[1]:
                        combos.add(is_red(a) or is_red(b))
                for r in combos:
                    cand.add(('chi', k - pos, pos, r))
        # a call after which every remaining concealed tile is a forbidden swap
        for key in cand:
            if self._all_swap(p, key, k):
                may.add(key)
            else:
                must.add(key)
        return must, may

    def _all_swap(self, p, key, k):
        c = counts34(self.hands[p])
        forb = {k}
        if key[0] == 'pon':
            c[k] -= 2
        else:
            _, low, pos, _ = key
            for i in range(3):
                if i != pos:
                    c[low + i] -= 1
            if pos == 0 and low % 9 + 3 < 9:
                forb.add(low + 3)
            if pos == 2 and low % 9 > 0:
                forb.add(low - 1)
        return all(c[j] == 0 for j in range(34) if j not in forb)

    def ron_options(self, p, actor, tile, chankan):
        """(must, may, shape_complete)"""
        must, may = set(), set()
        if p == actor:
            return must, may, False
        hand = self.hands[p]
        c = counts34(hand)
        nm = len(self.melds[p])
        c[kind(tile)] += 1
        if mj.shanten(c, nm) != -1:
            return must, may, False
        if not self.check_wins:
            may.add(('ron',))
            return must, may, True
        ok = mj.wins(hand | {tile}, self.melds[p], tile,
                     self.facts(p, chankan=chankan, houtei=(not chankan and self.remaining() == 0)))
        if ok:
            c[kind(tile)] -= 1
            w = mj.waits(c, nm)
            mine = {kind(t) for t in self.discards[p]}
            own4 = list(c)
            for m in self.melds[p]:
                for t in m.tiles:
                    own4[t // 4] += 1
            hard = {x for x in w if own4[x] < 4}
            if mine & hard:
                pass                    # furiten: must not be offered
            elif mine & set(w):
                may.add(('ron',))       # only an impossible fifth copy is furiten: disputed
            elif self.missed[p] == 2:
                pass                    # let an offered win pass since: temporary furiten
            elif self.missed[p]:
                may.add(('ron',))       # disputed cases, see DESIGN.md
            else:
                must.add(('ron',))
        return must, may, True

    # ------------------------------------------------------------ events
    def apply(self, tag, attr):
        self.event_no += 1
        self._dealt()
        c = tag[0]
        if tag == 'DORA':
            t = int(attr['hai'])
            self.dora = self.dora + [t]
            self.tokens.append(('dora', kind(t)))
        elif tag == 'REACH':
            p = int(attr['who'])
            if attr['step'] == '1':
                self._take(self.cur, p, ('riichi',))
                self.declared = p
                self.double_ok[p] = self.calls == 0 and not self.discards[p]
            else:
                self.riichi[p] = 1
                if self.double_ok[p]:
                    self.double[p] = 1
                self.ippatsu[p] = 1
                self.scores = list(self.scores)
                self.scores[p] -= 10
                self.kyotaku += 1
                self.declared = None
                self.tokens.append(('riichi', p))
        elif tag == 'N':
            self._naki(int(attr['who']), int(attr['m']))
        elif tag == 'AGARI':
            w, f = int(attr['who']), int(attr['fromWho'])
            if self.cur is None:
                raise RefError('win without decision point')
            self._take(self.cur, w, ('tsumo',) if w == f else ('ron',))
            self.results.append(('agari', w, f))
            self.over = True
        elif tag == 'RYUUKYOKU':
            self.results.append(('ryuukyoku',))
            self.over = True
        elif c in 'TUVW' and tag[1:].isdigit():
            self._draw('TUVW'.index(c), int(tag[1:]))
        elif c in 'DEFG' and tag[1:].isdigit():
            self._discard('DEFG'.index(c), int(tag[1:]))
        else:
            raise RefError('event %r' % tag)

    def _take(self, ht, seat, key):
        if ht is None:
            raise RefError('nothing to take %r from' % (key,))
        if key not in ht.must.get(seat, ()) and key not in ht.may.get(seat, ()):
            raise RefError('seat %d takes %r which the rules do not allow (%r)' % (
                seat, key, ht.must.get(seat)))
        ht.taken.add((seat, key))

    def _draw(self, p, t):
        self.turn = p
        self.hands[p].add(t)
        self.drawn.append(t)
        self.last_draw = t
        if not self.riichi[p]:
            self.missed[p] = 0
        rinshan = self.rinshan_next
        self.rinshan_next = False
        ht = HT(DURING, p, len(self.tokens), self.event_no, tile=t, reason='rinshan' if rinshan else 'draw')
        ht.states[p] = self.situation(p)
        ht.must[p], ht.may[p] = self.own_turn_options(p, t, rinshan)
        self.halfturns.append(ht)
        self.cur = ht

    def _discard(self, p, t):
        ht = HT(DISCARD, p, len(self.tokens), self.event_no, tile=t)
        ht.states[p] = self.situation(p)
        ht.must[p] = {('d', k) for k, n in enumerate(counts34(self.hands[p])) if n}
        ht.taken.add((p, ('d', kind(t))))
        self.halfturns.append(ht)
        tsumogiri = t == self.last_draw
        ht.tsumogiri = tsumogiri
        self.last_draw = None
        self.hands[p].discard(t)
        self.discards[p].append(t)
        self.ippatsu = list(self.ippatsu)
        self.ippatsu[p] = 0
        self.tokens.append(('discard', p, kind(t), tsumogiri))
        self._reaction(p, t, False)
        self.turn = None

    def _reaction(self, p, t, chankan):
        ht = HT(POST, p, len(self.tokens), self.event_no, tile=t, reason='chankan' if chankan else 'discard')
        newly_missed = []
        for q in range(4):
            must, may, shape = self.ron_options(q, p, t, chankan)
            if not chankan:
                m2, y2 = self.call_options(q, p, t)
                must |= m2
                may |= y2
            ht.must[q], ht.may[q] = must, may
            ht.states[q] = self.situation(q)
            if shape:
                newly_missed.append(q)
        for q in newly_missed:
            # 2: an offered win was let pass; 1: only the shape was complete (no scoring
            # element, or furiten already), which rule sets judge differently
            hard = ('ron',) in ht.must[q] or self.missed[q] == 2
            self.missed[q] = 2 if hard else 1
        self.halfturns.append(ht)
        self.cur = ht

    def _naki(self, p, m):
        meld = mj.decode(m)
        key = option_key(meld)
        self._take(self.cur, p, key)
        self.calls += 1
        self.last_draw = None
        prev = self.cur
        self.cur = None
        self.ippatsu = [0] * 4
        if self.missed[p] and not self.riichi[p]:
            self.missed[p] = 1          # own call: lifted at the call or at the next draw
        self.hands[p] = self.hands[p] - set(meld.hand)
        if meld.kind != 'ankan':
            self.menzen = list(self.menzen)
            self.menzen[p] = 0
        if meld.kind == 'kakan':
            self.melds[p] = [x for x in self.melds[p]
                             if not (x.kind == 'pon' and x.tiles[0] // 4 == meld.tiles[0] // 4)]
        self.melds[p] = self.melds[p] + [meld]
        self.turn = p
        self.tokens.append(('call', p, key))
        if meld.kind in ('ankan', 'minkan', 'kakan'):
            self.kans += 1
            self.kan_owner.add(p)
            self.rinshan_next = True
        if meld.kind == 'kakan':
            self._reaction(p, meld.called, True)


def replay(events, n_rounds, wins=True):
    """events: [(tag, attr)] starting with INIT."""
    r = RoundRef(events[0][1], n_rounds, wins=wins)
    for tag, attr in events[1:]:
        r.apply(tag, attr)
    return r


# ---------------------------------------------------------------- log reading
def read_log(path):
    """Independent reader: (go_type, [round events])."""
    import xml.etree.ElementTree as ET
    root = ET.parse(path).getroot()
    go = None
    rounds = []
    for el in root:
        if el.tag == 'GO':
            go = int(el.attrib['type'])
        elif el.tag in ('SHUFFLE', 'UN', 'TAIKYOKU', 'BYE'):
            continue
        elif el.tag == 'INIT':
            rounds.append([('INIT', dict(el.attrib))])
        else:
            rounds[-1].append((el.tag, dict(el.attrib)))
    return go, rounds
