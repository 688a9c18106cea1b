"""C20: the data loader delivers every usable game exactly once per pass."""
import json
import os
import shutil
import signal
import sys
import time
from . import mj, obs, sim, core, mini, c13

ID = 'C20'
N = {'quick': 400, 'thorough': 8000}
CHUNK = 2
RULE = ('the real DataLoader over directories mixing usable logs with rejected, malformed, inconsistent and non-log files, '
        'run in a child process; recorded batches (content digests) of several passes, also after abandoned passes, '
        'against the set of files that can be processed alone; distinct per (directory, batch size)')
REQUIRED = {'passes': 400, 'games': 800, 'bad_files': 300, 'dir_all_bad': 10, 'dir_empty': 5, 'bad_last': 20, 'bad_first': 20,
            'short_last_batch': 50, 'abandoned': 100, 'odd_names': 200, 'linked': 20, 'twins': 10, 'inconsistent': 50, 'full_length': 10}
LIMIT = 120
END = ('RYUUKYOKU', {'ba': '0,0', 'sc': '250,0,250,0,250,0,250,0'})
KINDS = ('type', 'bye', 'truncated', 'tile', 'order', 'notxml', 'norounds', 'hand', 'binary', 'empty', 'dir', 'option', 'dangling')


def setup(tier):
    import MahjongAI.process_xml            # once per worker, not once per child
    import MahjongAI.utils.dataloader


def bad_file(rng, path, sims, go):
    kind = rng.choice(KINDS)
    if kind == 'binary':
        open(path, 'wb').write(bytes(rng.randrange(256) for _ in range(300)))
    elif kind == 'empty':
        open(path, 'w').close()
    elif kind == 'dir':
        os.mkdir(path)
    elif kind == 'dangling':
        os.symlink('nowhere', path)
    elif kind == 'option':        # a recorded action that was not possible: riichi by a hand that is not ready
        r = mini.Mini(rng, dealer=0, hold={0: [0, 16, 32, 36, 52, 68, 72, 88, 104, 108, 112, 116, 120]})
        r.draw(0)
        ev = list(r.events) + [('REACH', {'who': '0', 'step': '1'}), ('D0', {}), ('REACH', {'who': '0', 'step': '2', 'ten': '240,250,250,250'})]
        r2 = [ev]
        if rng.random() < 0.5:
            r2.append(sims[0].events)
        open(path, 'w').write(sim.to_xml(169, r2))
    else:
        k, text = c13.bad_log(rng, sims, go)
        kind = k
        open(path, 'w').write(text)
    return kind


def child(fn, seconds):
    """run fn in a forked child; ('ok', value) | ('exit', code) | ('signal', n) | ('hang', 0)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            signal.alarm(0)
            os.close(r)
            null = os.open(os.devnull, os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            try:
                out = ('ok', fn())
            except SystemExit as e:
                out = ('sysexit', repr(e.code))
            except BaseException as e:
                out = ('raised', core.describe(e))
            with os.fdopen(w, 'w') as f:
                f.write(json.dumps(out))
                f.flush()
        finally:
            os._exit(0)
    os.close(w)
    data, end = b'', time.time() + seconds
    os.set_blocking(r, False)
    import select
    while True:
        left = end - time.time()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return ('hang', 0)
        if select.select([r], [], [], left)[0]:
            b = os.read(r, 1 << 16)
            if not b:
                break
            data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if not data:
        return ('ended', st)
    return tuple(json.loads(data))


def dig(game):
    hts, toks = game
    return obs.digest([list(map(list, toks)), [[(h.type_, h.player, h.encoding_idx, h.stateObj.hand_tensor) for h in r] for r in hts]])


def passes(path, size, plan):
    """iterate the loader as planned; returns [[batch of digests]...] per pass"""
    from MahjongAI.utils.dataloader import DataLoader
    dl = DataLoader(path, size, lambda *a: None)
    other = None
    out = []
    for what in plan:
        got, n = [], 0
        if what == 'second':
            other = DataLoader(path, size + 1, lambda *a: None)
            next(iter(other), None)
        for hts, toks in dl:
            if len(hts) != len(toks):
                return ['uneven', len(hts), len(toks)]
            got.append([dig(g) for g in zip(hts, toks)])
            n += 1
            if what == 'abandon' and n >= 1:
                break
            if n > 200:
                return ['endless']
        if what == 'full':
            more = next(dl, None)
            if more is not None:
                return ['again']
        out.append([what, got])
        dl.reset()
    return out


def case(i, rng, R, tier):
    with core.Scratch() as s:
        d = s.path(rng.choice(['games', 'games of 2013', 'g%20', 'jeux_\u00e9t\u00e9']))
        os.mkdir(d)
        good, bad = {}, []
        n_good = rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 7, 7, 16])
        n_bad = rng.choice([0, 1, 1, 2, 3, 5])
        if i % 16 == 0:
            n_good = n_bad = 0
        plan = ['g'] * n_good + ['b'] * n_bad
        rng.shuffle(plan)
        go, sims = sim.make_game(rng, 2, styles=['micro', 'fives', 'near'], wins=False)
        big = False
        for j, w in enumerate(plan):
            f = os.path.join(d, rng.choice(['%02d.log', 'z%02d.xml', '%02dgm-00a9-0000', 'copy of %02d.log', 'a%02d.LOG', '%d (1).log', '%02d.log.txt', 'p%%%02d&n=x',
                                                'k\u00e9%02d.xml', '%02d' + 'x' * 120]) % j)
            if ' ' in f[len(d):] or '%' in f[len(d):] or not f.isascii():
                R.ev('odd_names')
            if w == 'g':
                ev = rng.choice(sims).events
                at = [x for x in range(2, len(ev)) if ev[x - 1][0][0] in 'TUVW' and ev[x - 1][0][1:].isdigit()]
                if i % 8 == 5 and not big and rng.random() < 0.6:      # a game of full length
                    big = True
                    shutil.copy(sim.RECORDED, f)
                    R.ev('full_length')
                else:
                    sim.write_game(f, go, [ev[:rng.choice(at)] + [END] for _ in range(rng.randint(1, 3))])
                if rng.random() < 0.1:                  # a link to a game kept elsewhere
                    os.rename(f, s.path('elsewhere%d' % j))
                    os.symlink(s.path('elsewhere%d' % j), f)
                    R.ev('linked')
                elif rng.random() < 0.05:               # the same game under two names
                    shutil.copy(f, f + '.copy')
                    n_good += 1
                    R.ev('twins')
            else:
                k = bad_file(rng, f, sims, go)
                R.ev('bad_files')
                R.ev('inconsistent' if k in ('tile', 'order', 'hand', 'option') else 'rejected')
                bad.append(k)
        order = os.listdir(d)

        def alone():
            out = {}
            for f in order:
                try:
                    out[f] = dig(obs.process(os.path.join(d, f)))
                except Exception:
                    out[f] = None
            return out
        w, single = child(alone, 100)
        if w != 'ok':
            R.bad('process', 'processing the files alone: %s %r' % (w, single))
            return
        want = sorted(v for v in single.values() if v)
        if len(want) < n_good:
            R.bad('usable', 'only %d of %d valid games can be processed' % (len(want), n_good))
        size = rng.choice([1, 1, 2, 2, 3, 4, 5, 9])
        todo = rng.choice([['full', 'full', 'full'], ['abandon', 'full', 'abandon', 'full'], ['second', 'full', 'full'], ['full', 'abandon', 'full']])
        w, got = child(lambda: passes(d, size, todo), 100)
        ctx = '%d usable of %d files (%s), batches of %d, passes %r' % (len(want), len(order), ','.join(bad), size, todo)
        R.seen((tuple(single[f] is not None for f in order), size, tuple(todo), tuple(want)))
        R.ev('evaluations')
        if not order:
            R.ev('dir_empty')
        elif not want:
            R.ev('dir_all_bad')
        if order and single[order[-1]] is None:
            R.ev('bad_last')
        if order and single[order[0]] is None:
            R.ev('bad_first')
        if w != 'ok':
            R.bad('ended', '%s: the loader ended its process or the pass: %s %r' % (ctx, w, got))
            return
        if got and not isinstance(got[0], list):
            R.bad('protocol', '%s: %r' % (ctx, got))
            return
        for what, batches in got:
            R.ev('passes')
            R.ev('evaluations', 3)
            flat = sorted(g for b in batches for g in b)
            R.ev('games', len(flat))
            sizes = [len(b) for b in batches]
            if any(x < 1 or x > size for x in sizes) or any(x != size for x in sizes[:-1]):
                R.bad('batch-size', '%s: batch sizes %r' % (ctx, sizes))
            if what == 'abandon':
                R.ev('abandoned')
                continue
            if flat != want:
                lost = len([x for x in want if x not in flat])
                R.bad('games', '%s: a %s pass delivered %d games, %d missing, sizes %r' % (ctx, what, len(flat), lost, sizes))
            if sizes and sizes[-1] < size:
                R.ev('short_last_batch')
        R.sample(ctx)
