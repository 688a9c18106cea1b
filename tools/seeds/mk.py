"""helper of the demonstrations: small hand-made logs run through the code in the current directory"""
import os
import random
import shutil
import sys
import tempfile

sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.path.insert(0, os.getcwd())
SCRATCH = tempfile.mkdtemp(prefix='demo_')
import atexit
atexit.register(shutil.rmtree, SCRATCH, True)


def t(name, copy=0):
    """'5m' or '1z' -> physical tile"""
    k = int(name[0]) - 1 + 9 * 'mpsz'.index(name[1])
    return 4 * k + copy


def deal(hold, reserve=(), seed=0, dora=None, avoid=()):
    """hold {seat: tiles}; reserve: tiles kept in the wall; avoid: kinds that fillers must not be"""
    used = set(reserve)
    for ts in hold.values():
        assert not used & set(ts)
        used |= set(ts)
    if dora is not None:
        used.add(dora)
    pool = [x for x in range(136) if x not in used and x // 4 not in avoid]
    random.Random(seed).shuffle(pool)
    hands = []
    for p in range(4):
        h = list(hold.get(p, ()))
        while len(h) < 13:
            h.append(pool.pop())
        hands.append(sorted(h))
    if dora is None:
        dora = pool.pop()
    return hands, dora, pool


def init(hands, dora, oya=0, rnd=0, honba=0, kyotaku=0, ten='250,250,250,250'):
    a = {'seed': '%d,%d,%d,1,2,%d' % (rnd, honba, kyotaku, dora), 'ten': ten, 'oya': str(oya)}
    for p in range(4):
        a['hai%d' % p] = ','.join(map(str, hands[p]))
    return ('INIT', a)


END = ('RYUUKYOKU', {'ba': '0,0', 'sc': '250,0,250,0,250,0,250,0'})


def draw(p, x):
    return ('TUVW'[p] + str(x), {})


def disc(p, x):
    return ('DEFG'[p] + str(x), {})


def write(events, go=169, name='log.xml', head=()):
    path = os.path.join(SCRATCH, name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    evs = [('SHUFFLE', {'seed': 'x'}), ('GO', {'type': str(go), 'lobby': '0'}),
           ('UN', {'n0': 'a', 'n1': 'b', 'n2': 'c', 'n3': 'd'})] + list(head) + [('TAIKYOKU', {'oya': '0'})] + list(events)
    with open(path, 'w') as f:
        f.write('<mjloggm ver="2.3">' + ''.join('<%s %s/>' % (n, ' '.join('%s="%s"' % kv for kv in a.items())) for n, a in evs) + '</mjloggm>')
    return path


def run(events, **kw):
    from MahjongAI.process_xml import process
    return process(write(events, **kw))


def halfturns(res, r=0):
    return res[0][r]


def last(res, kind, r=0):
    return [h for h in res[0][r] if type(h).__name__ == kind][-1]


def options(lst):
    return sorted(d.naki.convenient_naki_code for d in lst)


def pon_code(tiles, called, src):
    k = min(tiles) // 4
    un = [c for c in range(4) if 4 * k + c not in tiles][0]
    ts = sorted(tiles)
    return ((3 * k + ts.index(called)) << 9) | 8 | (un << 5) | src


def kakan_code(tiles, called, added, src):
    ts = sorted(tiles)
    return ((3 * (added // 4) + ts.index(called)) << 9) | 0x10 | ((added % 4) << 5) | src


def ankan_code(k):
    return (4 * k) << 8


def minkan_code(called, src):
    return called << 8 | src


def chi_code(tiles, called):
    ts = sorted(tiles)
    k = ts[0] // 4
    code = (((k // 9) * 7 + k % 9) * 3 + ts.index(called)) << 10 | 4 | 3
    for i, x in enumerate(ts):
        code |= (x % 4) << (3 + 2 * i)
    return code


def check(cond, text):
    if not cond:
        print('FAIL:', text)
        sys.exit(1)
    print('ok:', text)


def game(seed=3, n=14, dealer=0):
    """a short round of plain draws and discards"""
    hands, dora, pool = deal({}, seed=seed)
    ev = [init(hands, dora, oya=dealer)]
    for i in range(n):
        p = (dealer + i) % 4
        x = pool.pop()
        ev += [draw(p, x), disc(p, x if i % 3 else hands[p][i % 13])]
        if i % 3 == 0:
            hands[p][i % 13] = x
    return ev + [END]
