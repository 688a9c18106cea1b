"""C13: processing is deterministic; files, rounds and seats do not interfere."""
import json
import os
import subprocess
import sys
from . import mj, obs, sim, core

ID = 'C13'
N = {'quick': 64, 'thorough': 640}
CHUNK = 2
RULE = ('canonical digests of the whole result (decision points, situations, options, tokens) of the same logs under '
        'different orders, repetitions, interleaved rejected/malformed/inconsistent logs, other processes, and of the '
        'same rounds inside permuted or cut-down logs; earlier results and shared constants are digested again at '
        'the end; distinct per log and per way of running it')
REQUIRED = {'runs': 500, 'failed_logs': 150, 'subprocess': 8, 'permuted': 100, 'reread': 100, 'constants': 50, 'restyled': 100}


def constants_digest():
    import types
    out = {}
    for name, m in sorted(sys.modules.items()):
        if name != 'MahjongAI.utils.constants' or m is None:      # elsewhere a memo table may rightly grow
            continue
        for k, v in sorted(vars(m).items()):
            if k.startswith('__') or isinstance(v, (types.ModuleType, types.FunctionType, type, types.BuiltinFunctionType)):
                continue
            if isinstance(v, (int, float, str, list, tuple, dict)) or type(v).__module__ == 'numpy':
                try:
                    out[name + '.' + k] = obs.digest(v)
                except Exception:
                    pass
    from MahjongAI.utils import constants
    for k in ('EventTypes', 'EventStateTypes'):
        c = getattr(constants, k, None)
        if c is not None:
            out[k] = obs.digest({a: b for a, b in vars(c).items() if not a.startswith('__')})
    return out


def bad_log(rng, sims, go):
    """text of a log that process() must refuse or fail on"""
    kind = rng.choice(['type', 'bye', 'truncated', 'tile', 'order', 'notxml', 'norounds', 'hand'])
    rounds = [list(r.events) for r in sims]
    if kind == 'type':
        return kind, sim.to_xml(rng.choice([0, 3, 5, 17]), rounds)
    if kind == 'bye':
        r = rng.choice(rounds)
        r.insert(rng.randint(1, len(r)), ('BYE', {'who': '1'}))
        return kind, sim.to_xml(go, rounds)
    if kind == 'truncated':
        x = sim.to_xml(go, rounds)
        return kind, x[:rng.randrange(len(x) // 4, len(x) - 5)]
    if kind == 'tile':      # a discard of a tile nobody holds, deep inside the last round
        r = rounds[-1]
        at = [j for j, (t, a) in enumerate(r) if t[0] in 'DEFG' and t[1:].isdigit()]
        if at:
            j = at[-1]
            t = r[j][0]
            r[j] = (t[0] + str((int(t[1:]) + 4) % 136), {})
            r.insert(j + 1, (t, {}))
            return kind, sim.to_xml(go, rounds)
    if kind == 'order':
        r = rounds[0]
        r.insert(2, ('N', {'who': '0', 'm': '1'}))
        return kind, sim.to_xml(go, rounds)
    if kind == 'hand':
        a = dict(rounds[-1][0][1])
        a['hai2'] = ','.join(a['hai2'].split(',')[:12])
        rounds[-1][0] = ('INIT', a)
        return kind, sim.to_xml(go, rounds)
    if kind == 'norounds':
        return kind, '<mjloggm ver="2.3"></mjloggm>'
    return kind, 'not xml at all'


def run(path):
    try:
        r = obs.process(path)
    except Exception as e:
        return None, None
    return [obs.digest([a, b]) for a, b in zip(*r)], r


NOISE = ('<UN n%d="%%41" dan="16" rate="2000.00"/>', '<!-- %d -->', '<UN n%d="%%E3%%81%%82"/>')


def restyle(rng, go, rounds):
    """the same log written differently: attribute order, white space, declaration, long closing tags, further
    attributes, players coming back"""
    what = rng.sample(['order', 'lines', 'decl', 'close', 'attrs', 'noise', 'names'], rng.randint(1, 4))
    nl = rng.choice(['\n', '\r\n', '\n  ']) if 'lines' in what else ''
    out = []

    def el(tag, attr):
        a = list(attr.items())
        if 'attrs' in what and tag in ('AGARI', 'RYUUKYOKU') and 'owari' not in attr:
            a.append(('owari', '300,10.0,250,0.0,250,-5.0,200,-5.0'))
        if 'attrs' in what and tag == 'INIT':
            a.append(('shuffle', ''))
        if 'order' in what:
            rng.shuffle(a)
        x = '<%s%s' % (tag, ''.join(' %s=%s' % (k, ('"%s"' if rng.random() < 0.9 or 'order' not in what else "'%s'") % sim.esc(str(v))) for k, v in a))
        out.append(x + ('></%s>' % tag if 'close' in what else ' />' if 'order' in what else '/>'))
    if 'decl' in what:
        out.append('<?xml version="1.0" encoding="%s"?>' % rng.choice(['UTF-8', 'utf-8']))
    out.append('<mjloggm ver="2.3">')
    el('SHUFFLE', {'seed': 'mt19937ar-sha512-n288-base64,xx', 'ref': ''})
    el('GO', {'type': str(go), 'lobby': '0'})
    n = {'n%d' % q: '%E3%81%82' if 'names' in what else '%41' for q in range(4)}
    el('UN', dict(n, dan='16,16,16,16', rate='2000.00,2000.00,2000.00,2000.00', sx='M,M,M,M'))
    el('TAIKYOKU', {'oya': '0'})
    for evs in rounds:
        for tag, attr in evs:
            el(tag, attr)
            if 'noise' in what and rng.random() < 0.05 and tag not in ('AGARI', 'RYUUKYOKU'):
                out.append(rng.choice(NOISE) % rng.randrange(4))
    out.append('</mjloggm>')
    return sorted(what), nl.join(out) + nl


def printing(path):
    """digests with the printing option on; None if there is no such option"""
    import contextlib
    import inspect
    import io
    from MahjongAI.process_xml import process
    if 'verbose' not in inspect.signature(process).parameters:
        return None
    with contextlib.redirect_stdout(io.StringIO()):
        try:
            r = process(path, verbose=True)
        except Exception as e:
            return core.describe(e)
    return [obs.digest([a, b]) for a, b in zip(*r)]


SUB = '''
import sys, json
sys.path.insert(0, %r); sys.path.insert(0, %r)
from mon import obs
out = []
for p in sys.argv[1:]:
    try:
        r = obs.process(p)
        out.append([obs.digest([a, b]) for a, b in zip(*r)])
    except Exception as e:
        out.append(None)
print(json.dumps(out))
'''


def case(i, rng, R, tier):
    with core.Scratch() as s:
        games = []
        for j in range(3):
            go, sims = sim.make_game(rng, rng.randint(1, 3), wins=False, styles=None if j else ['micro', 'fives', 'kan'])
            p = s.path('g%d.xml' % j)
            sim.write_game(p, go, sims)
            games.append((p, go, sims))
        bads = []
        for j in range(3):
            kind, text = bad_log(rng, rng.choice(games)[2], games[0][1])
            p = s.path('bad%d.xml' % j)
            open(p, 'w').write(text)
            bads.append((p, kind))
        first = [obs.process_valid(p) for p, _, _ in games]
        base = [[obs.digest([a, b]) for a, b in zip(*r)] for r in first]
        c0 = constants_digest()
        plan = [('g', j) for j in range(3)] * 2 + [('b', j) for j in range(3)] * 2
        rng.shuffle(plan)
        later = {}
        for w, j in plan:
            R.ev('runs')
            R.ev('evaluations')
            if w == 'g':
                d, r = run(games[j][0])
                if d != base[j]:
                    R.bad('order', 'log %d gives another result after the sequence %r' % (j, plan))
                later.setdefault(j, []).append(r)
            else:
                d, r = run(bads[j][0])
                R.ev('failed_logs' if d is None else 'odd_logs_accepted')
                R.seen(('bad', bads[j][1], d is None))
        for j, r in enumerate(first):
            R.ev('reread')
            R.check([obs.digest([a, b]) for a, b in zip(*r)] == base[j], 'aliased', 'the result of log %d changed when later logs were processed' % j)
        # the same log laid out differently, under another name, read with the printing option
        for j, (p, go, sims) in enumerate(games):
            what, text = restyle(rng, go, [x.events for x in sims])
            q = s.path(rng.choice(['x y.log', 'same.xml', 'noending', '2013010100gm-00a9-0000-0123abcd.log']))
            with open(q, 'w', encoding='utf-8', newline='') as f:
                f.write(text)
            d, r = run(q)
            R.ev('restyled')
            R.ev('evaluations')
            R.seen(('restyled', tuple(what)))
            R.check(d == base[j], 'layout', 'the same log written with other %r gives another result' % (what,))
            os.remove(q)
        d = printing(games[i % 3][0])
        if d is not None:
            R.ev('printed')
            R.check(d == base[i % 3], 'printing', 'log %d gives another result when its progress is printed' % (i % 3))
        c1 = constants_digest()
        R.ev('constants')
        R.check(all(c0[k] == c1.get(k) for k in c0), 'constants', 'shared values changed: %r' % [k for k in c0 if c0[k] != c1.get(k)][:5])
        # rounds in isolation and in other company
        for j, (p, go, sims) in enumerate(games):
            order = list(range(len(sims)))
            other = rng.choice(games)[2]
            rng.shuffle(order)
            order = order[:rng.randint(1, len(order))]
            mix = [sims[x] for x in order]
            extra = rng.random() < 0.5
            if extra:
                mix.insert(rng.randrange(len(mix) + 1), rng.choice(other))
            q = s.path('perm.xml')
            sim.write_game(q, go, mix)
            d, r = run(q)
            R.ev('permuted')
            R.ev('evaluations')
            if d is None or len(d) != len(mix):
                R.bad('rounds', 'reordered rounds %r of a valid log are refused' % order)
                continue
            for x, y in zip(mix, d):
                for k, o in enumerate(sims):
                    if x is o and y != base[j][k]:
                        R.bad('rounds', 'round %d of log %d differs inside the order %r' % (k, j, order))
            R.seen(('order', tuple(order), extra))
            R.seen(('log', base[j][0]))
        if i % 8 == 0:
            env = dict(os.environ, PYTHONHASHSEED=str(rng.randrange(1, 1000)))
            for files in ([games[0][0]], [bads[0][0], games[2][0], games[1][0]]):
                out = subprocess.run([sys.executable, '-c', SUB % (core.VERIF, core.REPO)] + files, env=env,
                                     capture_output=True, text=True, cwd=s.dir, timeout=200)
                if out.returncode:
                    raise RuntimeError(out.stderr[-1500:])
                got = json.loads(out.stdout.strip().splitlines()[-1])
                R.ev('subprocess')
                for f, d in zip(files, got):
                    for j, (p, _, _) in enumerate(games):
                        if p == f:
                            R.check(d == base[j], 'process', 'log %d gives another result in a fresh process' % j)
        R.sample('orders %r with %r' % (plan[:6], [b[1] for b in bads]))
