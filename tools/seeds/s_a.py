seed('ankan-pattern-bits', 'C01', 'draw.py', [(
'''    def pattern_ankan(self):
        pattern = (self.naki_code & 0xFF00) >> 8''',
'''    def pattern_ankan(self):
        pattern = (self.naki_code & 0x7F00) >> 8''')],
 'a closed quad of green or red dragons, the two kinds whose code needs the top bit',
 'a closed quad of green or red dragons is decoded as one of 1m or 2m', r'''
from mk import *
from MahjongAI.draw import Naki
for k in range(34):
    n = Naki(ankan_code(k))
    check(n.is_ankan() and n.get_exposed()[0] == [4 * k + c for c in range(4)], 'closed quad of kind %d' % k)
''')

seed('minkan-clean-lowest', 'C02', 'draw.py', [(
'''        if not red or which:
            code -= (which - 1) << 8''',
'''        if which:
            code -= (which - 1) << 8''')],
 'an open quad that claims the lowest physical copy of a kind other than a suited five',
 'such a recorded quad has another canonical code than the option for it, and than the same quad claiming another copy', r'''
from mk import *
from MahjongAI.draw import Naki
for src in (1, 2, 3):
    for k in (0, 13, 30):
        codes = {Naki(minkan_code(4 * k + c, src)).convenient_naki_code for c in ((1, 2, 3) if k == 13 else range(4))}
        check(codes == {Naki.from_minkan_info(k, src, 1).convenient_naki_code}, 'quad of kind %d from seat +%d' % (k, src))
''')

seed('kakan-start', 'C03', 'draw.py', [('        KAKAN_START = 37\n', '        KAKAN_START = 36\n')],
 'a closed quad of red dragons and an added quad of one-of-characters are both possible choices',
 'the added quad of 1m has the index of the closed quad of red dragons (all others stay unique)', r'''
from mk import *
from MahjongAI.draw import Naki
a = Naki(ankan_code(33)).get_during_turn_filter_idx()
b = Naki(kakan_code([0, 1, 2], 0, 3, 1)).get_during_turn_filter_idx()
check(a != b, 'closed quad of 7z (%d) and added quad of 1m (%d) have different indices' % (a, b))
''')

seed('honor-minkan-source', 'C04', 'decision.py', [(
'''def _jihai_mask(player: int, hand_tensors: np.ndarray, tile_idx: int):
    decisions = [[] for _ in range(4)]

    for p, hand_tensor in enumerate(hand_tensors):
        if p == player:
            continue

        if hand_tensor[tile_idx] >= 2.0:
            naki = Naki.from_pon_info(tile_idx, 0, False, (player - p) % 4)
            assert naki.is_pon()
            decisions[p].append(NakiDecision(p, naki, False))
        if hand_tensor[tile_idx] == 3.0:
            naki = Naki.from_minkan_info(tile_idx, (player - p) % 4, 1)''',
'''def _jihai_mask(player: int, hand_tensors: np.ndarray, tile_idx: int):
    decisions = [[] for _ in range(4)]

    for p, hand_tensor in enumerate(hand_tensors):
        if p == player:
            continue

        source = (player - p) % 4
        if hand_tensor[tile_idx] >= 2.0:
            naki = Naki.from_pon_info(tile_idx, 0, False, source)
            assert naki.is_pon()
            decisions[p].append(NakiDecision(p, naki, False))
        if hand_tensor[tile_idx] == 3.0:
            naki = Naki.from_minkan_info(tile_idx, 4 - source, 1)''')],
 'an open quad of honors offered to the next or the previous seat (not the opposite one)',
 'the offered open quad names the wrong source seat, so a recorded one is never marked either', r'''
from mk import *
hands, dora, pool = deal({1: [t('3z', 1), t('3z', 2), t('3z', 3)]}, reserve=[t('3z', 0)], seed=1)
res = run([init(hands, dora), draw(0, t('3z', 0)), disc(0, t('3z', 0)), END])
h = last(res, 'PostTurn')
got = [d.naki.from_who() for d in h.decisions[1][2] if d.naki.is_minkan()]
check(got == [3], 'the open quad offered to seat 1 comes from seat 0, relative seat 3: %r' % got)
''')

seed('ankan-opens-hand', 'C05', 'utils/agari.py', [(
'''            tile_lst = [(color * 9 + number) * 4 + i for i in range(4)]
            meld = Meld(Meld.KAN, tiles=tile_lst, opened=False)
            melds.append(meld)

        else:
            raise ValueError("Unknown naki type")

    config''',
'''            tile_lst = [(color * 9 + number) * 4 + i for i in range(4)]
            meld = Meld(Meld.KAN, tiles=tile_lst)
            melds.append(meld)

        else:
            raise ValueError("Unknown naki type")

    config''')],
 'a self-drawn win after a closed quad whose only scoring element is the fully concealed self-draw',
 'a closed quad counts as open in self-draw wins: such a win is not offered', r'''
from mk import *
h0 = [t('9m', 0), t('9m', 1), t('9m', 2), t('2m'), t('3m'), t('4m'), t('2p'), t('3p'), t('4p'), t('6s'), t('7s'), t('2z', 0), t('2z', 1)]
res9 = [t('9m', 3), t('1z', 3), t('8s', 0), t('4z', 3), t('3z', 3), t('2p', 3)]
hands, dora, pool = deal({0: h0}, reserve=res9, seed=2, avoid=(8, 28, 25, 27))
ev = [init(hands, dora, oya=0), draw(0, t('9m', 3)), ('N', {'who': '0', 'm': str(ankan_code(8))}), draw(0, t('1z', 3)), disc(0, t('1z', 3))]
for p, x in ((1, t('4z', 3)), (2, t('3z', 3)), (3, t('2p', 3))):
    ev += [draw(p, x), disc(p, x)]
ev += [draw(0, t('8s', 0)), END]
r = run(ev)
check(len(last(r, 'DuringTurn').decisions[0]) == 1, 'the concealed self-draw win after a closed quad is offered')
''')

seed('kakan-own-unseen', 'C06', 'process_xml.py', [(
'''                    if i == player:
                        continue
                    for e in exposed_idx:''',
'''                    if i == player and not naki.is_kakan():
                        continue
                    for e in exposed_idx:''')],
 'a decision of the player who added a tile to a triplet, after that quad',
 'the fourth tile of an added quad is subtracted twice from the unseen tiles of its owner', r'''
from mk import *
P = [t('6p', 1), t('6p', 2)]
hands, dora, pool = deal({1: P}, reserve=[t('6p', 0), t('6p', 3), t('1z', 3), t('2z', 3)], seed=5, avoid=(14,))
x = hands[1][0] if hands[1][0] not in P else hands[1][1]
ev = [init(hands, dora), draw(0, t('6p', 0)), disc(0, t('6p', 0)),
      ('N', {'who': '1', 'm': str(pon_code(P + [t('6p', 0)], t('6p', 0), 3))}), disc(1, x)]
for p in (2, 3, 0):
    y = pool.pop()
    ev += [draw(p, y), disc(p, y)]
ev += [draw(1, t('6p', 3)), ('N', {'who': '1', 'm': str(kakan_code(P + [t('6p', 0)], t('6p', 0), t('6p', 3), 3))}),
       draw(1, t('1z', 3)), disc(1, t('1z', 3)), END]
try:
    r = run(ev)
    h = last(r, 'DiscardTurn')
    v = h.stateObj.remaining_tiles_pov[14]
except AssertionError:
    v = 'assertion'
check(v == 0, 'no 6p is unseen after the quad: %r' % v)
''')

seed('riichi-sticks-before-pay', 'C07', 'process_xml.py', [(
'''                    scores = scores.copy()
                    scores[player] -= 10''',
'''                    scores = scores.copy()
                    if not sum(reaches[:player]):
                        scores[player] -= 10''')],
 'a second riichi in a round, declared by a seat with a higher number than an earlier one',
 'the second riichi does not take the 1000 points from the score shown in later decisions', r'''
from mk import *
T0 = [t(x) for x in ('2m', '3m', '4m', '2p', '3p', '4p', '2s', '3s', '4s', '6s', '7s', '5z')] + [t('5z', 1)]
T1 = [t(x, 1) for x in ('2m', '3m', '4m', '2p', '3p', '4p', '2s', '3s', '4s', '6m', '7m', '6z')] + [t('6z', 2)]
R = [t('1z', 0), t('1z', 1), t('3z', 0), t('3z', 1), t('4z', 0), t('4z', 1)]
hands, dora, pool = deal({0: T0, 1: T1}, reserve=R, seed=7, avoid=(25, 22, 7, 4))
ev = [init(hands, dora), draw(0, R[0]), ('REACH', {'who': '0', 'step': '1'}), disc(0, R[0]), ('REACH', {'who': '0', 'ten': '240,250,250,250', 'step': '2'}),
      draw(1, R[2]), ('REACH', {'who': '1', 'step': '1'}), disc(1, R[2]), ('REACH', {'who': '1', 'ten': '240,240,250,250', 'step': '2'}),
      draw(2, R[4]), disc(2, R[4]), END]
s = list(last(run(ev), 'DiscardTurn').stateObj.scores)
check(s == [240, 240, 250, 250], 'both riichi players paid: %r' % s)
''')

seed('short-rounds-dropped', 'C08', 'process_xml.py', [(
'''            if curr_round_events is not None:
                rounds.append(curr_round_events)
            curr_round_events = []''',
'''            if curr_round_events is not None and len(curr_round_events) > 3:
                rounds.append(curr_round_events)
            curr_round_events = []''')],
 'a round aborted right after the first draw (nine kinds of terminals) followed by another round',
 'such a round is missing from the result, so later rounds are out of step', r'''
from mk import *
hands, dora, pool = deal({}, seed=4)
a = [init(hands, dora), draw(0, pool[0]), END]
r = run(a + game(seed=5))
check(len(r[0]) == 2 and len(r[1]) == 2 and len(r[0][0]) == 1, 'the aborted round is there: %d rounds' % len(r[0]))
''')

seed('quad-token-seat', 'C09', 'process_xml.py', [(
'''        embd_token = (
            EventStateTypes.DURING << 13
            | EventTypes.NAKI << 10
            | who << 8
            | during_turn_filter_idx
        )
    else:
        raise ValueError("Invalid naki code")

    assert embd_token <= (1 << 17)''',
'''        embd_token = (
            EventStateTypes.DURING << 13
            | EventTypes.NAKI << 10
            | naki.from_who() << 8
            | during_turn_filter_idx
        )
    else:
        raise ValueError("Invalid naki code")

    assert embd_token <= (1 << 17)''')],
 'a closed quad of a seat other than seat 0',
 'the event token of a closed quad always names seat 0', r'''
from mk import *
Q = [t('9s', c) for c in range(3)]
hands, dora, pool = deal({2: Q}, reserve=[t('9s', 3)], seed=5)
ev = [init(hands, dora, oya=1), draw(1, pool[0]), disc(1, pool[0]), draw(2, t('9s', 3)), ('N', {'who': '2', 'm': str(ankan_code(26))}), draw(2, pool[1]), disc(2, pool[1]), END]
tok = run(ev)[1][0]
check((tok[1] >> 8) & 3 == 2, 'the token of the quad names seat 2')
''')

seed('double-ron-first-only', 'C10', 'process_xml.py', [(
'''        result_events = kyoku_events[result_idx:]
''',
'''        result_events = kyoku_events[result_idx : result_idx + 1]
''')],
 'two players win on the same discard',
 'only the first winner is marked as having taken the win', r'''
from mk import *
A = [t(x) for x in ('2m', '3m', '4m', '2p', '3p', '4p', '2s', '3s', '4s', '6s', '7s', '5p')] + [t('5p', 1)]
B = [t(x, 1) for x in ('2m', '3m', '4m', '2p', '3p', '4p', '2s', '3s', '4s', '6s', '7s', '6p')] + [t('6p', 2)]
hands, dora, pool = deal({1: A, 3: B}, reserve=[t('8s', 0), t('1z')], seed=7)
ev = [init(hands, dora), draw(0, t('8s', 0)), disc(0, t('8s', 0))]
for w in (1, 3):
    ev.append(('AGARI', {'who': str(w), 'fromWho': '0', 'sc': '250,-10,250,10,250,0,250,0', 'ten': '30,1000,0'}))
h = last(run(ev), 'PostTurn')
check([[d.executed for d in h.decisions[p][0]] for p in range(4)] == [[], [True], [], [True]], 'both winners are marked: %r' % h.decisions)
''')

seed('one-closed-quad', 'C11', 'process_xml.py', [(
'''                    naki_decisions.append(
                        NakiDecision(player, Naki.from_ankan_info(i), executed=False)
                    )
''',
'''                    naki_decisions = [
                        NakiDecision(player, Naki.from_ankan_info(i), executed=False)
                    ]
''')],
 'a hand with two different closed quads at once', 'only one of two possible closed quads is offered', r'''
from mk import *
H = [t('2m', c) for c in range(4)] + [t('7s', c) for c in range(4)]
hands, dora, pool = deal({0: H}, seed=3)
h = last(run([init(hands, dora), draw(0, pool[0]), END]), 'DuringTurn')
check(len(h.decisions[2]) == 2, 'both closed quads are offered: %r' % h.decisions[2])
''')

seed('bye-before-start', 'C12', 'process_xml.py', [(
'''        elif event["event"] == "BYE":
            raise InvalidGameException("BYE")

        if event["event"] == "INIT":''',
'''        elif event["event"] == "BYE":
            if curr_round_events is None or curr_round_events[-1]["event"] not in (
                "AGARI",
                "RYUUKYOKU",
            ):
                raise InvalidGameException("BYE")
            continue

        if event["event"] == "INIT":''')],
 'a player disconnects between two rounds', 'a log with a disconnect notice between rounds is accepted', r'''
from mk import *
from MahjongAI.process_xml import InvalidGameException
try:
    run(game(1) + [('BYE', {'who': '2'})] + game(2))
    ok = False
except InvalidGameException:
    ok = True
check(ok, 'a log with a disconnect between rounds is rejected')
''')

seed('log-cache-by-name', 'C13', 'process_xml.py', [(
'''def _get_rounds(file_path: str):
    with open(file_path, "rb") as file:
        tree = ET.parse(file)
        root = tree.getroot()
''',
'''_parsed = {}


def _get_rounds(file_path: str):
    key = (file_path.replace("\\\\", "/").split("/")[-1], os.path.getsize(file_path))
    if key not in _parsed:
        with open(file_path, "rb") as file:
            tree = ET.parse(file)
            _parsed.clear()
            _parsed[key] = tree.getroot()
    root = _parsed[key]
'''), ('import sys\n', 'import os\nimport sys\n')],
 'two logs of the same name and size in different directories, processed one after the other',
 'the second log gives the data of the first', r'''
from mk import *
from MahjongAI.process_xml import process
a = write(game(1), name='a/x.log')
b = write(game(1, dealer=1), name='b/x.log')
na, nb = os.path.getsize(a), os.path.getsize(b)
for f, n in ((a, nb - na), (b, na - nb)):
    if n > 0:
        open(f, 'a').write('\n' * n)
process(a)
seats = process(b)[0][0][0].player
check(seats == 1, 'the second log is its own: first seat %d' % seats)
''')
