"""C24: the shanten solver returns the true distance to a ready hand."""
from . import core, mj

ID = 'C24'
N = {'quick': 400, 'thorough': 6000}
CHUNK = 4
PER = 130
RULE = ('legal hands of 1..14 concealed tiles (the rest being open melds), biased to one or two suits, triplets, quads, '
        'honor quads, pairs, orphans and near-complete shapes, with and without red five flags, are solved by the real '
        'solver (fresh and reused instances, repeated and interleaved) and compared with a table-driven computation of '
        'the fewest exchanges; distinct per hand')
REQUIRED = {'hands': 5000, 'ready': 300, 'complete': 300, 'closed': 2000, 'red': 800, 'honor_quad': 100, 'pairs_best': 40,
            'orphans_best': 40, 'reused': 3000}
SIZES = (14, 13, 14, 13, 14, 13, 11, 10, 8, 7, 5, 4, 2, 1)


def fill(c, n, rng, pool, cap=4):
    pool = [k for k in pool]
    while sum(c) < n:
        k = rng.choice(pool)
        if c[k] < cap:
            c[k] += 1
    return c


def groups(c, n, rng, suits, trip):
    for _ in range(400):
        if n < 3:
            break
        s = rng.choice(suits)
        if rng.random() < trip or s == 3:
            k = rng.choice(range(9 * s, min(34, 9 * s + 9)))
            t = (k, k, k)
        else:
            k = 9 * s + rng.randrange(7)
            t = (k, k + 1, k + 2)
        for x in t:
            c[x] += 1
        if any(c[x] > 4 for x in t):
            for x in t:
                c[x] -= 1
            continue
        n -= 3
    return n


def hand(rng):
    n = rng.choice(SIZES)
    c = [0] * 34
    kind = rng.randrange(9)
    suits = rng.sample(range(4), rng.choice((1, 1, 2, 2, 3, 4)))
    if suits == [3]:
        suits = [3, rng.randrange(3)]
    pool = [k for s in suits for k in range(9 * s, min(34, 9 * s + 9))]
    if kind == 0:
        fill(c, n, rng, range(34))
    elif kind == 1:
        fill(c, n, rng, pool)
    elif kind in (2, 3, 4):
        # complete or nearly: groups, a pair, then some exchanges
        groups(c, n, rng, suits, rng.choice((0.1, 0.4, 0.8)))
        k = [x for x in pool if c[x] <= 2]
        if n % 3 == 2 and k:
            c[rng.choice(k)] += 2
        for _ in range(rng.choice((0, 0, 1, 1, 2, 3, 5))):
            have = [x for x in range(34) if c[x]]
            if have:
                c[rng.choice(have)] -= 1
            fill(c, min(n, sum(c) + 1), rng, pool)
        while sum(c) > n:
            c[rng.choice([x for x in range(34) if c[x]])] -= 1
        fill(c, n, rng, pool)
    elif kind == 5:
        # quads
        for k in rng.sample(pool if rng.random() < 0.6 else list(range(27, 34)), rng.choice((1, 2, 3))):
            if sum(c) + 4 <= n:
                c[k] = 4
        fill(c, n, rng, pool)
    elif kind == 6:
        for k in rng.sample(range(34), 7):
            if sum(c) + 2 <= n:
                c[k] = rng.choice((2, 2, 2, 2, 3, 4)) if sum(c) + 4 <= n else 2
        fill(c, n, rng, rng.choice((pool, range(34))))
    elif kind == 7:
        ks = list(mj.YAOCHU)
        rng.shuffle(ks)
        for k in ks[:rng.choice((13, 13, 12, 11, 10, 9))]:
            if sum(c) < n:
                c[k] += 1
        fill(c, n, rng, rng.choice((mj.YAOCHU, mj.YAOCHU, range(34))))
    else:
        # honors and terminals with many triplets
        p = list(range(27, 34)) + rng.sample(range(27), 4)
        groups(c, n - 2, rng, [3, rng.randrange(3)], 0.9)
        while sum(c) > n:
            c[rng.choice([x for x in range(34) if c[x]])] -= 1
        fill(c, n, rng, p)
    assert sum(c) == n and max(c) <= 4
    red = [0, 0, 0]
    for j, k in enumerate((4, 13, 22)):
        if c[k] == 4 or c[k] and rng.random() < 0.5:
            red[j] = 1
    return c, red


def case(i, rng, R, tier):
    import numpy as np
    from MahjongAI.utils.shanten import ShantenSolver
    shared = ShantenSolver()
    old = []
    for j in range(PER):
        if old and rng.random() < 0.15:
            c, red, before = rng.choice(old)
        else:
            (c, red), before = hand(rng), None
        n = sum(c)
        h = np.array(c + red)
        keep = h.copy()
        reuse = rng.random() < 0.7
        s = shared if reuse else ShantenSolver()
        s._init(h)
        got = s.solve()
        want = mj.shanten(c)
        text = ' '.join('%s' % mj_name(k) for k in range(34) for _ in range(c[k])) + (' red%s' % red if any(red) else '')
        R.ev('hands')
        if reuse:
            R.ev('reused')
        R.check(got == want, 'shanten', '%d tiles %s: solver says %r, the true distance is %d' % (n, text, got, want),
                {'hand': c + red})
        R.check(np.array_equal(h, keep), 'hand-changed', '%s: the hand array was changed to %r' % (text, h.tolist()))
        if before is not None:
            R.check(got == before, 'unstable', '%s: %r now, %r before' % (text, got, before))
        old.append((c, red, got))
        if want == 0:
            R.ev('ready')
        if want == -1:
            R.ev('complete')
        if any(red):
            R.ev('red')
        if any(c[k] == 4 for k in range(27, 34)):
            R.ev('honor_quad')
        if n >= 13:
            R.ev('closed')
            std = mj._std_distance(tuple(c), 4) - 1
            if want < std:
                if sum(1 for k in mj.YAOCHU if c[k]) >= 8 and want == 13 - sum(1 for k in mj.YAOCHU if c[k]) - any(
                        c[k] > 1 for k in mj.YAOCHU):
                    R.ev('orphans_best')
                else:
                    R.ev('pairs_best')
        R.seen((tuple(c), tuple(red)))
        if j == 0:
            R.sample('%s -> %r' % (text, got))


def mj_name(k):
    return '%d%s' % (k % 9 + 1, 'mpsz'[k // 9])
