"""Independent Mahjong ground rules used by the monitors.

Nothing here imports /repo.  Physical tiles are 0..135 (kind*4+copy), kinds are
0..33 (m 0-8, p 9-17, s 18-26, honours 27-33).  The red fives are 16, 52, 88.
The only outside dependency is the `mahjong` package (HandCalculator), which is
trusted for the question "does this complete hand have a scoring element?".
"""
from functools import lru_cache
from itertools import combinations_with_replacement
from collections import namedtuple
import numpy as np

RED = (16, 52, 88)
REDSET = frozenset(RED)
EAST = 27


def kind(t):
    return t // 4


def is_red(t):
    return t in REDSET


def counts34(tiles):
    c = [0] * 34
    for t in tiles:
        c[t // 4] += 1
    return c


def vec37(tiles):
    v = [0] * 37
    for t in tiles:
        v[t // 4] += 1
        if t in REDSET:
            v[34 + RED.index(t)] += 1
    return v


FULL37 = [4] * 34 + [1, 1, 1]

# ---------------------------------------------------------------- meld codes
# kind: 'chi','pon','kakan','minkan','ankan'
#   tiles : every physical tile of the meld (sorted)
#   called: claimed tile (chi, pon, minkan), the added tile (kakan), None (ankan)
#   src   : relative source seat (0 for ankan/kakan as an act; kakan keeps the pon's)
#   hand  : tiles laid down from the hand by this very call (kakan: the added tile)
#   pon_called: for kakan the tile claimed by the underlying pon
Meld = namedtuple('Meld', 'kind tiles called src hand pon_called')


def encode_chi(tiles, called, src=3):
    """tiles: three physical tiles of consecutive kinds, called: one of them."""
    ts = sorted(tiles, key=kind)
    k = kind(ts[0])
    color, low = divmod(k, 9)
    pos = ts.index(called)
    pat = (color * 7 + low) * 3 + pos
    m = src | 4 | (pat << 10)
    for i, t in enumerate(ts):
        m |= (t % 4) << (3 + 2 * i)
    return m


def encode_pon(tiles, called, src):
    ts = sorted(tiles)
    k = kind(ts[0])
    unused = ({0, 1, 2, 3} - {t % 4 for t in ts}).pop()
    pos = ts.index(called)
    return src | 8 | (unused << 5) | ((k * 3 + pos) << 9)


def encode_kakan(pon_tiles, pon_called, added, src):
    ts = sorted(pon_tiles)
    k = kind(added)
    pos = ts.index(pon_called)
    return src | 0x10 | ((added % 4) << 5) | ((k * 3 + pos) << 9)


def encode_minkan(called, src):
    return src | (called << 8)


def encode_ankan(tile):
    return tile << 8


def decode(m):
    src = m & 3
    if m & 4:
        pat = (m >> 10) & 0x3F
        pos = pat % 3
        color, low = divmod(pat // 3, 7)
        k = color * 9 + low
        ts = [(k + i) * 4 + ((m >> (3 + 2 * i)) & 3) for i in range(3)]
        called = ts[pos]
        return Meld('chi', tuple(ts), called, src, tuple(t for t in ts if t != called), None)
    if m & 8:
        pat = (m >> 9) & 0x7F
        k, pos = divmod(pat, 3)
        unused = (m >> 5) & 3
        ts = [k * 4 + c for c in range(4) if c != unused]
        called = ts[pos]
        return Meld('pon', tuple(ts), called, src, tuple(t for t in ts if t != called), None)
    if m & 16:
        pat = (m >> 9) & 0x7F
        k, pos = divmod(pat, 3)
        added = k * 4 + ((m >> 5) & 3)
        base = [t for t in range(k * 4, k * 4 + 4) if t != added]
        return Meld('kakan', tuple(range(k * 4, k * 4 + 4)), added, src, (added,), base[pos])
    t = (m >> 8) & 0xFF
    k = t // 4
    ts = tuple(range(k * 4, k * 4 + 4))
    if src:
        return Meld('minkan', ts, t, src, tuple(x for x in ts if x != t), None)
    return Meld('ankan', ts, None, 0, ts, None)


def option_key(meld):
    """The *choice* the caller made (what distinguishes one option from another)."""
    k = meld.tiles[0] // 4
    hand_red = any(is_red(t) for t in meld.hand)
    if meld.kind == 'chi':
        return ('chi', k, meld.tiles.index(meld.called), hand_red)
    if meld.kind == 'pon':
        return ('pon', k, hand_red)
    return (meld.kind, k)


def all_codes():
    """Every meld code the log format allows in a four-player game -> Meld."""
    out = {}
    for color in range(3):
        for low in range(7):
            k = color * 9 + low
            for a in range(4):
                for b in range(4):
                    for c in range(4):
                        ts = (k * 4 + a, (k + 1) * 4 + b, (k + 2) * 4 + c)
                        for called in ts:
                            m = encode_chi(ts, called)
                            out[m] = Meld('chi', ts, called, 3, tuple(t for t in ts if t != called), None)
    for k in range(34):
        allk = tuple(range(k * 4, k * 4 + 4))
        for un in range(4):
            ts = tuple(t for t in allk if t % 4 != un)
            for called in ts:
                for src in (1, 2, 3):
                    out[encode_pon(ts, called, src)] = Meld(
                        'pon', ts, called, src, tuple(t for t in ts if t != called), None)
                    out[encode_kakan(ts, called, k * 4 + un, src)] = Meld(
                        'kakan', allk, k * 4 + un, src, (k * 4 + un,), called)
        for called in allk:
            for src in (1, 2, 3):
                out[encode_minkan(called, src)] = Meld(
                    'minkan', allk, called, src, tuple(t for t in allk if t != called), None)
            out[encode_ankan(called)] = Meld('ankan', allk, None, 0, allk, None)
    return out


# ---------------------------------------------------------------- hand shape
def _configs(n, honor):
    base = []
    if not honor:
        for i in range(7):
            v = [0] * 9
            v[i] = v[i + 1] = v[i + 2] = 1
            base.append(v)
    for i in range(n):
        v = [0] * n
        v[i] = 3
        base.append(v)
    base = np.array(base)
    pairs = np.eye(n, dtype=int) * 2
    table = {}
    for m in range(5):
        if m == 0:
            sums = np.zeros((1, n), dtype=int)
        else:
            idx = np.array(list(combinations_with_replacement(range(len(base)), m)))
            sums = base[idx].sum(axis=1)
            sums = sums[(sums <= 4).all(axis=1)]
        sums = np.unique(sums, axis=0)
        table[(m, 0)] = sums.astype(np.int8)
        wp = (sums[:, None, :] + pairs[None, :, :]).reshape(-1, n)
        wp = np.unique(wp[(wp <= 4).all(axis=1)], axis=0)
        table[(m, 1)] = wp.astype(np.int8)
    return table


_TAB = None


def _tables():
    global _TAB
    if _TAB is None:
        _TAB = (_configs(9, False), _configs(7, True))
    return _TAB


_FLAT = {}


def _flat(honor):
    if honor not in _FLAT:
        tab = _tables()[1 if honor else 0]
        keys, starts, rows, n = [], [], [], 0
        for p in (0, 1):
            for m in range(5):
                T = tab[(m, p)]
                if len(T):
                    keys.append((p, m))
                    starts.append(n)
                    rows.append(T)
                    n += len(T)
        T = np.ascontiguousarray(np.concatenate(rows).astype(np.int8).T)
        # MISS[tile][count] = missing copies of that tile kind per configuration
        miss = [[np.maximum(T[i] - c, 0).astype(np.int8) for c in range(5)] for i in range(T.shape[0])]
        _FLAT[honor] = (miss, np.array(starts), keys)
    return _FLAT[honor]


@lru_cache(maxsize=300000)
def _suit_cost(c, honor):
    """cost[p][m]: fewest tiles to add so that the suit contains m groups (+ pair)."""
    miss, starts, keys = _flat(honor)
    acc = miss[0][c[0]].copy()
    for i in range(1, len(c)):
        acc += miss[i][c[i]]
    mins = np.minimum.reduceat(acc, starts)
    res = [[99] * 5, [99] * 5]
    for (p, m), x in zip(keys, mins.tolist()):
        res[p][m] = x
    return tuple(res[0]), tuple(res[1])


@lru_cache(maxsize=400000)
def _std_distance(c, need):
    """fewest missing tiles to `need` groups and a pair (0 = complete)"""
    suits = [(_suit_cost(c[0:9], False)), (_suit_cost(c[9:18], False)),
             (_suit_cost(c[18:27], False)), (_suit_cost(c[27:34], True))]
    acc = [[99] * (need + 1), [99] * (need + 1)]
    acc[0][0] = 0
    for s in suits:
        new = [[99] * (need + 1), [99] * (need + 1)]
        for m in range(need + 1):
            a0, a1 = acc[0][m], acc[1][m]
            if a0 >= 99 and a1 >= 99:
                continue
            for k in range(need + 1 - m):
                x = a0 + s[0][k]
                if x < new[0][m + k]:
                    new[0][m + k] = x
                x = min(a0 + s[1][k], a1 + s[0][k])
                if x < new[1][m + k]:
                    new[1][m + k] = x
        acc = new
    return acc[1][need]


YAOCHU = (0, 8, 9, 17, 18, 26, 27, 28, 29, 30, 31, 32, 33)


def shanten(c34, n_melds=None):
    """exact number of exchanges to tenpai (-1 = complete).  c34 = concealed tiles."""
    c = tuple(int(x) for x in c34)
    n = sum(c)
    if n_melds is None:
        n_melds = (14 - n) // 3
    best = _std_distance(c, 4 - n_melds) - 1
    if n_melds == 0:
        # chiitoi needs seven different pairs
        pairs = sum(1 for x in c if x >= 2)
        kinds = sum(1 for x in c if x >= 1)
        best = min(best, 6 - pairs + max(0, 7 - kinds))
        kk = sum(1 for k in YAOCHU if c[k])
        best = min(best, 13 - kk - (1 if any(c[k] >= 2 for k in YAOCHU) else 0))
    return best


def is_complete(c34, n_melds):
    return shanten(c34, n_melds) == -1


@lru_cache(maxsize=200000)
def _waits(c, n_melds):
    out = []
    lst = list(c)
    for k in range(34):
        if lst[k] >= 4:
            lst[k] += 1
            # a fifth copy can never be drawn; still report the shape wait
            ok = _shape5(tuple(lst), n_melds)
            lst[k] -= 1
        else:
            lst[k] += 1
            ok = shanten(lst, n_melds) == -1
            lst[k] -= 1
        if ok:
            out.append(k)
    return tuple(out)


def _shape5(c, n_melds):
    # complete shape with a fifth copy: plain recursive decomposition
    need = 4 - n_melds

    def groups(c, i):
        while i < 34 and c[i] == 0:
            i += 1
        if i == 34:
            return True
        if c[i] >= 3:
            c[i] -= 3
            if groups(c, i):
                c[i] += 3
                return True
            c[i] += 3
        if i < 27 and i % 9 < 7 and c[i + 1] and c[i + 2]:
            c[i] -= 1; c[i + 1] -= 1; c[i + 2] -= 1
            r = groups(c, i)
            c[i] += 1; c[i + 1] += 1; c[i + 2] += 1
            if r:
                return True
        return False

    c = list(c)
    if sum(c) != need * 3 + 2:
        return False
    for p in range(34):
        if c[p] >= 2:
            c[p] -= 2
            r = groups(c, 0)
            c[p] += 2
            if r:
                return True
    return False


def waits(c34, n_melds):
    """kinds completing the shape (13-tile hands), including impossible fifth copies."""
    c = tuple(int(x) for x in c34)
    if shanten(c, n_melds) > 0 and max(c) < 4:
        return ()
    return _waits(c, n_melds)


# ---------------------------------------------------------------- win oracle
_LIB = None


def _lib():
    global _LIB
    if _LIB is None:
        from mahjong.hand_calculating.hand import HandCalculator
        from mahjong.hand_calculating.hand_config import HandConfig, OptionalRules
        from mahjong.meld import Meld as LM
        opts = OptionalRules(has_open_tanyao=True, has_aka_dora=True, has_double_yakuman=True,
                             fu_for_open_pinfu=True, fu_for_pinfu_tsumo=False)
        _LIB = (HandCalculator(), HandConfig, LM, opts)
    return _LIB


WinFacts = namedtuple('WinFacts', 'tsumo riichi double ippatsu rinshan chankan haitei houtei tenhou chiihou seat_wind round_wind')


@lru_cache(maxsize=100000)
def _wins(concealed, melds, win, facts):
    calc, HC, LM, opts = _lib()
    lm = []
    tiles = list(concealed)
    for knd, ts in melds:
        tiles += list(ts)
        if knd == 'chi':
            lm.append(LM(LM.CHI, tiles=list(ts)))
        elif knd == 'pon':
            lm.append(LM(LM.PON, tiles=list(ts)))
        elif knd == 'kakan':
            lm.append(LM(LM.SHOUMINKAN, tiles=list(ts)))
        elif knd == 'minkan':
            lm.append(LM(LM.KAN, tiles=list(ts), opened=True))
        else:
            lm.append(LM(LM.KAN, tiles=list(ts), opened=False))
    cfg = HC(is_tsumo=facts.tsumo, is_riichi=facts.riichi, is_ippatsu=facts.ippatsu,
             is_rinshan=facts.rinshan, is_chankan=facts.chankan, is_haitei=facts.haitei,
             is_houtei=facts.houtei, is_daburu_riichi=facts.double, is_tenhou=facts.tenhou,
             is_chiihou=facts.chiihou, player_wind=facts.seat_wind, round_wind=facts.round_wind,
             options=opts)
    r = calc.estimate_hand_value(sorted(tiles), win, melds=lm, dora_indicators=[], config=cfg)
    if r.error is None:
        return True
    if r.error in ('no_yaku', 'hand_not_winning'):
        return False
    raise RuntimeError('win oracle: library error %r for %r' % (r.error, (concealed, melds, win, facts)))


def wins(concealed, melds, win, facts):
    """concealed includes the winning tile; melds: iterable of Meld."""
    nm = len(melds)
    if not is_complete(counts34(concealed), nm):
        return False
    return _wins(tuple(sorted(concealed)), tuple((m.kind, m.tiles) for m in melds), win, facts)


@lru_cache(maxsize=1)
def all_codes_cached():
    return all_codes()
