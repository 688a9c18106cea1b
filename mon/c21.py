"""C21: training resumes from the newest complete checkpoint."""
import hashlib
import os
import signal
from . import core, trainer, c20

ID = 'C21'
N = {'quick': 120, 'thorough': 1600}
CHUNK = 1
LIMIT = 200
RULE = ('find_latest_checkpoint on directories of generated checkpoint names against a numeric oracle; real training runs '
        'in a child, started among checkpoints of several models and iterations, finished, or killed at a byte of the '
        'checkpoint file (file size limit, fatal or as write error like a full disk) or before one of its file '
        'operations; afterwards the newest checkpoint must load and older ones be unchanged; distinct per name set and '
        'per crash point')
REQUIRED = {'name_sets': 2000, 'prefix_names': 300, 'ten_or_more': 500, 'none': 50, 'resumes': 10, 'crash_kill': 20,
            'crash_full': 15, 'crash_ops': 5, 'recovered': 20, 'partial_seen': 10}
JUNK = ('model_%s_checkpoint_iter_%d.pt.tmp', 'model_%s_checkpoint_iter_%d.pt.bak', 'model_%s_checkpoint_iter_x%d.pt',
        'model_%s_checkpoint_iter_%d.txt', 'model_%s_checkpoint_iter_.pt', 'old_model_%s_checkpoint_iter_%d.pt', 'model_%s_iter_%d.pt')


def setup(tier):
    trainer.preload()


def names_case(rng, R):
    import MahjongAI.supervised_learning as sl
    names = sorted(trainer.NAMES) + ['transformer_conv_x', 'a.b', 'transformer1']
    with core.Scratch() as s:
        for k in range(60):
            d = s.path('d%d' % k, 'saved_models')
            os.makedirs(d)
            have = {}
            for _ in range(rng.choice([0, 1, 2, 4, 8, 15])):
                n = rng.choice(names)
                it = rng.choice([rng.randrange(3), rng.randrange(12), rng.randrange(120), rng.randrange(3000)])
                have.setdefault(n, set()).add(it)
                open(os.path.join(d, 'model_%s_checkpoint_iter_%d.pt' % (n, it)), 'w').close()
            for _ in range(rng.choice([0, 0, 1, 3])):
                j = rng.choice(JUNK)
                n = rng.choice(names)
                open(os.path.join(d, j % ((n, rng.randrange(4000)) if '%d' in j else n)), 'w').close()
            for want in rng.sample(names, 4) + sorted(have)[:3]:
                got = sl.find_latest_checkpoint(want, d)
                R.ev('name_sets')
                R.ev('evaluations')
                its = have.get(want, ())
                R.seen(('names', tuple(sorted(its)), tuple(sorted(os.listdir(d)))))
                if its:
                    exp = (max(its), os.path.join(d, 'model_%s_checkpoint_iter_%d.pt' % (want, max(its))))
                    if max(its) >= 10:
                        R.ev('ten_or_more')
                    if any(o != want and (o.startswith(want) or want.startswith(o)) for o in have):
                        R.ev('prefix_names')
                else:
                    exp = (0, None)
                    R.ev('none')
                ok = got[0] == exp[0] and (got[1] is None if exp[1] is None else got[1] is not None and os.path.normpath(got[1]) == os.path.normpath(exp[1]))
                if not ok:
                    R.bad('latest', 'latest checkpoint of %s among %r is %r' % (want, sorted(os.listdir(d)), got))
        R.sample('%s among %r -> %r' % (want, sorted(os.listdir(d))[:6], got))


def sha(p):
    return hashlib.sha256(open(p, 'rb').read()).hexdigest()


def seed_checkpoints(rng, root, name, iters, others, scale=1):
    """write loadable checkpoints with distinct parameters"""
    import torch
    from . import models
    os.makedirs(os.path.join(root, 'saved_models'), exist_ok=True)
    fam, depth = trainer.NAMES[name]
    vals = {}
    for it in iters:
        m = models.new(fam, depth, 1000 + it)
        if scale != 1:
            with torch.no_grad():
                for w in m.parameters():
                    if w.dim() > 1:
                        w *= scale
        p = os.path.join(root, 'saved_models', 'model_%s_checkpoint_iter_%d.pt' % (name, it))
        torch.save(m.state_dict(), p)
        vals[it] = {k: v.clone() for k, v in m.state_dict().items()}
    for n, it in others:
        f, dp = trainer.NAMES[n]
        torch.save(models.new(f, dp, it).state_dict(), os.path.join(root, 'saved_models', 'model_%s_checkpoint_iter_%d.pt' % (n, it)))
    return vals


_SIZE = {}


def size_of(name):
    if name not in _SIZE:
        import io
        import torch
        from . import models
        b = io.BytesIO()
        torch.save(models.new(*trainer.NAMES[name]).state_dict(), b)
        _SIZE[name] = len(b.getvalue())
    return _SIZE[name]


def listing(root):
    d = os.path.join(root, 'saved_models')
    return {f: sha(os.path.join(d, f)) for f in sorted(os.listdir(d))} if os.path.isdir(d) else {}


def case(i, rng, R, tier):
    if i % 3 == 0:
        return names_case(rng, R)
    import torch
    name = rng.choice(['transformer', 'transformer_conv', 'transformer_conv', 'transformer_conv_ordered'])
    with core.Scratch() as s:
        root = s.dir
        trainer.make_data(rng, root, games=(1, 1), bad=0)
        iters = rng.choice([[], [0], [2, 9, 10], [9, 11, 7], [3], [99, 100], list(range(rng.randint(9, 13))), rng.sample(range(95, 112), 6), [999, 1000, 8]])
        others = rng.choice([[], [('transformer_conv_large', 120)], [('transformer', 55), ('transformer_conv_ordered', 44)]])
        others = [o for o in others if o[0] != name]
        vals = seed_checkpoints(rng, root, name, iters, others)
        start = max(iters) + 1 if iters else 0
        before = listing(root)
        ref_size = size_of(name)
        mode = ('resume', 'kill', 'full', 'ops', 'kill', 'full')[(i // 3 * 2 + i % 3) % 6]
        n_it = rng.randint(1, 2)
        kw = {}
        if mode in ('kill', 'full'):
            # the log file needs a few hundred bytes; the limit applies to every file
            kw = dict(fsize=rng.choice([8192, rng.randrange(8192, ref_size), rng.randrange(8192, ref_size), ref_size - rng.randrange(1, 2000)]), fatal=mode == 'kill')
        elif mode == 'ops':
            kw = dict(kill_at=rng.randrange(0, 3))

        def run(**kw2):
            log, keep, err = trainer.observe(lambda sl: sl.train(name, n_it), root, **kw2)
            same = None
            if keep['first'] is not None and iters:
                same = all(torch.equal(v, vals[max(iters)][k]) for k, v in keep['first'].items())
            return dict(err=err, loaded=same, steps=sum(1 for x in log if x[0] == 'step'), n=len(log))
        how, out = trainer.in_child(lambda: run(**kw))
        ctx = '%s from iterations %r (others %r), mode %s %r' % (name, iters, others, mode, kw)
        R.seen((name, tuple(iters), tuple(others), mode, tuple(kw.values())))
        after = listing(root)
        R.ev('evaluations', 3)
        for f, h in before.items():
            if after.get(f) != h:
                R.bad('older', '%s: the older checkpoint %s was changed or removed' % (ctx, f))
        new = sorted(set(after) - set(before))
        goal = ['model_%s_checkpoint_iter_%d.pt' % (name, start + k) for k in range(n_it)]

        def newest():
            import MahjongAI.supervised_learning as sl
            it, p = sl.find_latest_checkpoint(name, os.path.join(root, 'saved_models'))
            if p is None:
                return it, None, True
            try:
                sd = torch.load(p, map_location='cpu')
                from . import models
                models.new(*trainer.NAMES[name]).load_state_dict(sd)
                return it, p, True
            except Exception as e:
                return it, p, '%s: %s' % (type(e).__name__, str(e)[:200])
        if mode == 'resume':
            R.ev('resumes')
            if how != 'ok' or out['err']:
                R.bad('train', '%s: training failed: %s %r' % (ctx, how, out))
                return
            R.check(out['loaded'] in (None, True), 'loaded', '%s: training does not start from the newest checkpoint' % ctx)
            R.check(new == sorted(goal), 'continued', '%s: wrote %r, expected %r' % (ctx, new, goal))
            w, got = trainer.in_child(newest)
            R.check(w == 'ok' and got[0] == start + n_it - 1 and got[2] is True, 'newest', '%s: afterwards the newest checkpoint is %r' % (ctx, got))
        else:
            crashed = how == 'ended' or (how == 'ok' and out['err'])
            R.ev('crash_' + mode if crashed else 'not_crashed')
            if set(new) - set(goal):
                R.ev('partial_seen')
            w, got = trainer.in_child(newest)
            R.check(w == 'ok' and got[2] is True, 'unloadable', '%s: after the crash the newest checkpoint %r cannot be loaded (%s)' % (ctx, got[1] if w == 'ok' else got, got[2] if w == 'ok' else w))
            if w != 'ok' or got[2] is not True:
                return
            # and training can go on
            done = got[0] + 1 if got[1] else 0
            how, out = trainer.in_child(lambda: run())
            R.ev('recovered')
            if how != 'ok' or out['err']:
                R.bad('recovery', '%s: training cannot be continued after the crash: %s %r' % (ctx, how, out))
                return
            fin = listing(root)
            miss = ['model_%s_checkpoint_iter_%d.pt' % (name, done + k) for k in range(n_it)]
            R.check(all(f in fin for f in miss), 'recovery', '%s: the continued run did not write %r' % (ctx, [f for f in miss if f not in fin]))
        R.sample(ctx)
