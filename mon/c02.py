"""C02: recorded call and offered option of the same action compare equal; different choices differ."""
from . import mj, mini, obs, sim, core

ID = 'C02'
N = {'quick': 1800, 'thorough': 6000}
CHUNK = 4
RULE = ('(a) the canonical form of every recordable meld code, grouped by the caller\'s choice, and (b) directed '
        'logs that offer and record calls of every class (kind, tiles, claimed position, source seat, red five '
        'in hand or claimed), comparing the offered options with the recorded call and with each other; distinct '
        'per code and per offered class')
REQUIRED = {'codes': 7024, 'offered': {'quick': 1500, 'thorough': 15000}, 'marked': {'quick': 1000, 'thorough': 10000},
            'classes': 300}
SAMPLES = 6


def choice(m):
    """what the caller chose"""
    k = m.tiles[0] // 4
    hr = any(mj.is_red(t) for t in m.hand)
    if m.kind == 'chi':
        return ('chi', k, m.tiles.index(m.called), hr)
    if m.kind == 'pon':
        return ('pon', k, m.src, hr)
    if m.kind == 'minkan':
        return ('minkan', k, m.src)
    return (m.kind, k)


def situation(m):
    """what the table dictated (may or may not be part of the canonical form)"""
    if m.kind in ('chi', 'pon', 'minkan'):
        return mj.is_red(m.called)
    if m.kind == 'kakan':
        return mj.is_red(m.called)
    return False


_ALL = None


def classes():
    global _ALL
    if _ALL is None:
        d = {}
        for code, m in sorted(mj.all_codes().items()):
            d.setdefault((choice(m), situation(m)), []).append(code)
        _ALL = sorted(d.items())
    return _ALL


def canon(code, R=None):
    from MahjongAI.draw import Naki
    return Naki(code).convenient_naki_code


def case(i, rng, R, tier):
    cl = classes()
    if i == 0:
        by_choice = {}
        order = list(range(len(cl)))
        rng.shuffle(order)
        owner = {}
        for j in order:
            (ch, sit), codes = cl[j]
            cs = {}
            for c in codes:
                cs.setdefault(canon(c), c)
                R.ev('codes')
                R.ev('evaluations')
                R.seen(('code', c))
            if len(cs) > 1:
                R.bad('same-choice', 'the same choice %r has several canonical forms: %r' % (ch, cs))
            for x, c in cs.items():
                if x in owner and owner[x][0] != ch:
                    R.bad('different-choice', 'choices %r (code %d) and %r (code %d) share canonical form %r' % (
                        ch, c, owner[x][0], owner[x][1], x))
                owner.setdefault(x, (ch, c))
            R.ev('classes')
        return
    # directed logs: stride over the classes
    step = N[tier] - 1
    mine = [c for j, c in enumerate(cl) if j % min(step, 149) == (i - 1) % min(step, 149)]
    with core.Scratch() as s:
        rounds, want = [], []
        for key, codes in mine:
            code = rng.choice(codes)
            m = mj.all_codes_cached()[code]
            try:
                r = mini.call_round(rng, code, m)
            except mini.ref.RefError:
                R.ev('unusable')
                continue
            # stop before anything else can happen
            r.end()
            rounds.append(r)
            want.append((code, m, key, codes))
        p = s.path('a.xml')
        sim.write_game(p, 169, rounds)
        res = obs.process_valid(p)
        for r, (code, m, key, codes), (hts, toks) in zip(rounds, want, obs.rounds(res)):
            # decision point the call belongs to
            idx = [j for j, e in enumerate(r.ref.halfturns) if (r.p, mj.option_key(m)) in e.taken]
            assert len(idx) == 1, (m, idx)
            if idx[0] >= len(hts):
                R.bad('shape', 'decision point of %r is missing' % (m,))
                continue
            o = hts[idx[0]]
            opts = [x for x in o.options.get(r.p, []) if x.slot == 'naki']
            mine_canon = {canon(c) for c in codes}
            recorded = canon(code)
            eq = [x for x in opts if x.decision.naki.convenient_naki_code == recorded]
            R.check(len(eq) == 1, 'recorded-vs-offered', 'the recorded call %r (code %d) equals %d of the offered options %r' % (
                m, code, len(eq), [(x.meld, x.decision.naki.convenient_naki_code) for x in opts]))
            R.ev('offered', len(opts))
            for x in eq:
                R.check(x.key == mj.option_key(m), 'wrong-option', 'recorded %r compares equal to option %r' % (m, x.meld))
            cs = [x.decision.naki.convenient_naki_code for x in opts]
            R.check(len(set(cs)) == len(cs), 'options-collide', 'two offered options share a canonical form: %r' % [
                (x.meld, x.decision.naki.convenient_naki_code) for x in opts])
            # every physical variant of the same choice compares equal to that option
            bad = [c for c in rng.sample(codes, min(len(codes), 24)) if eq and canon(c) != eq[0].decision.naki.convenient_naki_code]
            R.check(not bad, 'variant', 'codes %r are the choice of the offered option %r but do not equal it' % (
                bad[:5], eq and eq[0].meld))
            # and no other seat's option does unless it is the same description
            for q in range(4):
                for x in o.options.get(q, []):
                    if x.slot == 'naki' and q != r.p and x.decision.naki.convenient_naki_code == recorded:
                        R.bad('other-seat', 'seat %d option %r equals the call %r of seat %d' % (
                            q, x.meld, m, r.p))
            R.ev('marked')
            R.seen(('log', key))
        if rounds:
            R.sample('recorded %r among %d offered' % (want[0][1], len(rounds)))
