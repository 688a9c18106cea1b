"""Observation of the code under test: run process() on a log and turn what it
returned into neutral records (nothing is judged here)."""
import collections
import io
import contextlib
import os
import numpy as np
from . import mj
from .core import Violation, describe, in_repo

OHT = collections.namedtuple('OHT', 'type player tile enc options states raw')
Opt = collections.namedtuple('Opt', 'key executed player meld decision slot')
KINDS = {'ankan': 1, 'kakan': 1, 'chi': 1, 'pon': 1, 'minkan': 1}
SLOTS = ('agari', 'reach', 'naki')


class Rejected(Exception):
    def __init__(self, exc):
        self.exc = exc


def process(path):
    """the real entry point; anything but success on a valid log ends the case"""
    from MahjongAI.process_xml import process as p
    with contextlib.redirect_stdout(io.StringIO()):
        return p(path)


def process_valid(path, note=''):
    try:
        return process(path)
    except Exception as e:
        raise Violation('valid-log-rejected', 'a valid game log is not processed (%s): %s' % (note, describe(e)),
                        {'log': open(path).read()[:20000]})


def _opts(lists, post):
    out = []
    for slot, lst in zip(SLOTS, lists):
        for d in lst:
            if slot == 'agari':
                key, meld = (('ron',) if post else ('tsumo',)), None
            elif slot == 'reach':
                key, meld = ('riichi',), None
            else:
                meld = mj.decode(int(d.naki.naki_code))
                key = mj.option_key(meld)
            out.append(Opt(key, bool(d.executed), d.player, meld, d, slot))
    return out


def halfturn(h):
    """any record that cannot be read as one of the three kinds of decision point is a violation"""
    try:
        return _halfturn(h)
    except (AttributeError, KeyError, IndexError, TypeError, ValueError) as e:
        raise Violation('unreadable', 'a decision point (%s, type %r) is not an own turn, a discard or a reaction: %s' % (
            type(h).__name__, getattr(h, 'type_', None), '%s: %s' % (type(e).__name__, e)))


def _type(h):
    from MahjongAI.turn import HalfTurn as H
    names = {}
    for i, v in ((0, H.DURING), (1, H.DISCARD), (2, H.POST)):
        names.setdefault(v, []).append(i)
    if len(names) != 3:
        raise Violation('unreadable', 'the three kinds of decision points are not told apart: %r' % names)
    return names[h.type_][0]


def _halfturn(h):
    t = _type(h)
    states = {}
    if t == 2:
        options = {s: _opts(h.decisions[s], True) for s in range(4)}
        so = getattr(h, 'stateObjs', None)
        if so is not None:
            states = {s: so[s] for s in range(4)}
        else:
            states = {h.player: h.stateObj}
        tile = None
    elif t == 1:
        options, tile = {}, int(h.discarded_tile)
        states = {h.player: h.stateObj}
    else:
        options, tile = {h.player: _opts(h.decisions, False)}, None
        states = {h.player: h.stateObj}
    return OHT(t, int(h.player), tile, int(h.encoding_idx), options, states, h)


def rounds(result):
    hts, toks = result
    return [([halfturn(h) for h in hs], list(ts)) for hs, ts in zip(hts, toks)]


def v37(x):
    return [int(v) if float(v).is_integer() else float(v) for v in np.asarray(x).reshape(-1).tolist()]


def situation(s):
    """StateObject -> plain dict comparable with RoundRef.situation"""
    return dict(
        seat=int(s.player),
        hand=v37(s.hand_tensor),
        unseen=v37(s.remaining_tiles_pov),
        wall=v37(s.remaining_tiles),
        discards=[v37(r) for r in s.sutehai_tensors],
        menzen=[int(x) for x in s.is_menzen],
        double=[int(x) for x in s.double_reaches],
        riichi=[int(x) for x in s.reaches],
        ippatsu=[int(x) for x in s.ippatsu],
        melds=[sorted((m.kind, m.tiles) for m in (mj.decode(int(n.naki_code)) for n in ms)) for ms in s.melds],
        scores=[int(x) for x in s.scores],
        kyotaku=int(s.kyotaku),
        honba=int(s.honba),
        dora=[int(x) for x in s.dora],
        parent=[int(x) for x in s.parent_tensor],
        rounds_remaining=int(s.rounds_remaining),
        parent_rounds_remaining=[int(x) for x in s.parent_rounds_remaining],
        remaining=int(s.remaining_tsumo),
        remaining_turns=int(s.remaining_turns),
    )


def digest(x):
    """canonical, type-tolerant digest of any result structure"""
    import hashlib
    h = hashlib.blake2b(digest_size=16)

    def go(o, depth=0):
        if depth > 30:
            raise RuntimeError('digest: too deep')
        if o is None or isinstance(o, (bool, int, str)):
            h.update(repr(int(o) if isinstance(o, bool) else o).encode() + b';')
        elif isinstance(o, float):
            h.update((repr(int(o)) if o.is_integer() else repr(o)).encode() + b';')
        elif isinstance(o, np.generic):
            go(o.item(), depth + 1)
        elif isinstance(o, np.ndarray):
            h.update(b'A' + repr(o.shape).encode())
            if o.dtype.kind in 'biuf':
                h.update(np.ascontiguousarray(o, dtype=np.float64).tobytes())
            else:
                for v in o.reshape(-1).tolist():
                    go(v, depth + 1)
        elif isinstance(o, (list, tuple)):
            h.update(b'L%d' % len(o))
            for v in o:
                go(v, depth + 1)
        elif isinstance(o, dict):
            h.update(b'D%d' % len(o))
            for k in sorted(o, key=repr):
                go(k, depth + 1)
                go(o[k], depth + 1)
        elif hasattr(o, '__dict__'):
            h.update(b'O' + type(o).__name__.encode())
            go({k: v for k, v in vars(o).items()}, depth + 1)
        elif hasattr(o, '__slots__'):
            go({k: getattr(o, k) for k in o.__slots__ if hasattr(o, k)}, depth + 1)
        else:
            h.update(repr(o).encode())
    go(x)
    return h.hexdigest()


def walk(rsim_list, result, R, key='shape'):
    """pair expected and observed decision points; yields (round, index, HT, OHT).
    Any mismatch in their sequence is reported once as a violation of `key`."""
    obs = rounds(result)
    if len(obs) != len(rsim_list) or len(result[0]) != len(result[1]):
        R.bad(key, 'expected %d rounds, got %d half-turn lists and %d token lists' % (
            len(rsim_list), len(result[0]), len(result[1])))
        return
    for ri, (sim, (hts, toks)) in enumerate(zip(rsim_list, obs)):
        exp = sim.ref.halfturns
        if len(exp) != len(hts):
            R.bad(key, 'round %d: expected %d decision points, got %d' % (ri, len(exp), len(hts)))
        for hi, (e, o) in enumerate(zip(exp, hts)):
            if e.type != o.type or e.player != o.player:
                R.bad(key, 'round %d decision %d: expected type %d seat %d, got type %d seat %d' % (
                    ri, hi, e.type, e.player, o.type, o.player))
                break
            yield ri, hi, e, o


def describe_ht(sim, e):
    return 'event %d, %s seat %d%s' % (e.event_no, ('own-turn', 'discard', 'reaction')[e.type], e.player,
                                       '' if e.tile is None else ' tile %d' % e.tile)


class Games:
    """a directory with generated games, cleaned up by the caller's scratch"""

    def __init__(self, scratch):
        self.s = scratch
        self.n = 0

    def write(self, go, sims, **kw):
        from . import sim
        p = self.s.path('g%d.xml' % self.n)
        self.n += 1
        sim.write_game(p, go, sims, **kw)
        return p
