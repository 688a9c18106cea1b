"""C01: every meld code decodes to the tiles, kind and source that were recorded."""
from . import mj

ID = 'C01'
N = {'quick': 16, 'thorough': 64}
RULE = ('every meld code a four-player log can contain (complete enumeration of sequences, triplets, open, '
        'closed and added quads over all physical tiles and source seats) is decoded by the real Naki class '
        'in several orders; a case is distinct per code')
REQUIRED = {'chi': 4032, 'pon': 1224, 'kakan': 1224, 'minkan': 408, 'ankan': 136, 'red': 500}
SAMPLES = 6
FLAGS = ('chi', 'pon', 'kakan', 'minkan', 'ankan')
_CODES = None


def codes():
    global _CODES
    if _CODES is None:
        _CODES = sorted(mj.all_codes().items())
    return _CODES


def one(code, m, R):
    from MahjongAI.draw import Naki
    n = Naki(code)
    flags = [k for k in FLAGS if bool(getattr(n, 'is_' + k)())]
    R.check(flags == [m.kind], 'kind', 'code %d is a %s, recognised as %s' % (code, m.kind, flags))
    if flags != [m.kind]:
        return
    R.check(int(n.from_who()) == m.src, 'source', 'code %d (%s) came from relative seat %d, reported %r' % (
        code, m.kind, m.src, n.from_who()))
    exposed, acquired = n.get_exposed()
    exp = sorted(int(x) for x in exposed)
    R.check(exp == sorted(m.hand), 'laid-down', 'code %d (%s): laid down %r, reported %r' % (code, m.kind, m.hand, exp))
    want = m.called if m.kind in ('chi', 'pon', 'minkan') else None
    got = None if acquired is None else int(acquired)
    R.check(got == want, 'claimed', 'code %d (%s): claimed %r, reported %r' % (code, m.kind, want, got))
    pat = getattr(n, 'pattern_' + m.kind)()
    k = min(t // 4 for t in m.tiles)
    if m.kind == 'chi':
        ok = (int(pat[0]), int(pat[1]), int(pat[2])) == (k // 9, k % 9, m.tiles.index(m.called))
    else:
        ok = int(pat[0]) * 9 + int(pat[1]) == k and (k >= 27) == (int(pat[0]) == 3)
    R.check(ok, 'tiles', 'code %d (%s kind %d): pattern %r' % (code, m.kind, k, pat[:3]))
    red = any(mj.is_red(t) for t in m.tiles)
    R.check(bool(pat[3]) == red, 'red', 'code %d (%s %r): red reported as %r' % (code, m.kind, m.tiles, pat[3]))
    if red:
        R.ev('red')
    # asking again gives the same answers (no hidden state), and the recorded code stays
    again = n.get_exposed()
    R.check(sorted(int(x) for x in again[0]) == exp and again[1] == acquired and int(n.naki_code) == code,
            'stable', 'code %d: a second decoding differs: %r then %r' % (code, (exposed, acquired), again))
    R.ev(m.kind)
    R.seen(code)


def case(i, rng, R, tier):
    n = N[tier]
    per = 16
    mine = [c for j, c in enumerate(codes()) if j % per == i % per]
    rng.shuffle(mine)
    for code, m in mine:
        one(code, m, R)
    R.sample('code %d -> %s tiles %s claimed %s from %d' % (mine[0][0], mine[0][1].kind, mine[0][1].tiles,
                                                           mine[0][1].called, mine[0][1].src))
