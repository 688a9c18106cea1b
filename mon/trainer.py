"""Runs the real training code in a forked child inside a scratch directory and
records what it does: forward calls, optimiser steps, learning rates, files."""
import json
import os
import random
import resource
import signal
import sys
from . import mj, obs, sim, core, mini, c20

YEARS = list(range(2012, 2020))
NAMES = {'transformer': ('transformer', None), 'transformer_conv': ('transformer_conv', None),
         'transformer_conv_large': ('transformer_conv_large', 2), 'transformer_conv_large_3': ('transformer_conv_large', 3),
         'transformer_conv_ordered': ('transformer_conv_ordered', 1)}
for _n in (2, 3, 4, 5):
    NAMES['transformer_conv_ordered_large_%d' % _n] = ('transformer_conv_ordered', _n)


def preload():
    """import the training module once per worker (it writes a log file on import)"""
    with core.Scratch() as s:
        old = os.getcwd()
        os.chdir(s.dir)
        try:
            import torch
            torch.set_num_threads(1)
            import MahjongAI.supervised_learning
        finally:
            os.chdir(old)


def tiny_round(rng, draws=3):
    """a short valid round; with an option for somebody in most cases"""
    k = rng.randrange(34)
    hold = {1: [k * 4, k * 4 + 1], 0: [k * 4 + 2]} if rng.random() < 0.7 else {}
    r = mini.Mini(rng, dealer=0, hold=hold, wins=False)
    p = 0
    for n in range(draws):
        r.draw(p)
        if n == 0 and hold:
            r.discard(0, k * 4 + 2)
        else:
            r.discard(p)
        p = (p + 1) % 4
    return r.end()


def make_data(rng, root, games=(1, 2), bad=0.2, years=YEARS, val=1, draws=(2, 4)):
    """data/processed/<year>/; returns {year: sorted digests of the usable games}"""
    out = {}
    for y in list(years) + [2021]:
        d = os.path.join(root, 'data', 'processed', str(y))
        os.makedirs(d)
        n = val if y == 2021 else rng.randint(*games)
        digs = []
        for j in range(n):
            f = os.path.join(d, '%d_%02d.log' % (y, j))
            sim.write_game(f, 169, [tiny_round(rng, rng.randint(*draws)) for _ in range(rng.randint(1, 2))])
            digs.append(c20.dig(obs.process_valid(f)))
            if rng.random() < bad:
                open(os.path.join(d, 'x%02d.log' % j), 'w').write(rng.choice(['', 'junk', sim.to_xml(3, [tiny_round(rng).events])]))
        out[y] = sorted(digs)
    return out


class Crash(Exception):
    pass


def in_child(fn, seconds=200):
    return c20.child(fn, seconds)


class model_calls:
    """calls fn(model, args, kwargs) for every call of one of the four models until removed"""

    def __init__(self, fn):
        import importlib
        from . import models
        self.old = []
        for name, cls in models.CLS.items():
            C = getattr(importlib.import_module('MahjongAI.agents.' + name), cls)
            self.old.append((C, C.forward))
            C.forward = self.wrap(C.forward, fn)

    @staticmethod
    def wrap(old, fn):
        def forward(mod, *args, **kwargs):
            fn(mod, args, kwargs)
            return old(mod, *args, **kwargs)
        forward.__wrapped__ = old
        return forward

    def remove(self):
        for C, f in self.old:
            C.forward = f


def observe(fn, root, fsize=None, fatal=False, kill_at=None):
    """to be called in the child: run fn() in root with all observers installed; returns a dict"""
    import torch
    from torch.optim.optimizer import register_optimizer_step_pre_hook, register_optimizer_step_post_hook
    import MahjongAI.supervised_learning as sl
    os.chdir(root)
    log = []
    keep = {'first': None, 'last': None, 'rng': None, 'opt': None}

    def ckpts():
        try:
            return sorted(f for f in os.listdir('saved_models') if f.endswith('.pt'))
        except OSError:
            return []

    def fwd(mod, args, kwargs):
        a = [x for x in list(args) + list(kwargs.values()) if isinstance(x, (list, tuple))]
        games = [c20.dig(g) for g in zip(a[0], a[1])]
        if mod.training and keep['first'] is None:
            keep['first'] = {k: v.clone() for k, v in mod.state_dict().items()}
            keep['rng'] = torch.get_rng_state()
        if mod.training:
            keep.setdefault('batches', []).append((a[0], a[1]))
            keep['model'] = mod
        log.append(['fwd', bool(mod.training), games, ckpts()])

    def pre(opt, args, kwargs):
        log.append(['step', [g['lr'] for g in opt.param_groups]])

    def post(opt, args, kwargs):
        m = keep.get('model')
        if m is not None:
            keep['last'] = m
    hooks = [model_calls(fwd), register_optimizer_step_pre_hook(pre), register_optimizer_step_post_hook(post)]
    if kill_at is not None:
        left = [kill_at]

        def audit(ev, args):
            if ev in ('open', 'os.rename', 'os.remove', 'os.link', 'os.symlink', 'shutil.move', 'shutil.copyfile', 'os.truncate', 'os.mkdir'):
                if any('saved_models' in str(x) for x in args[:2] if isinstance(x, (str, bytes))) and '_iter_' in str(args[:2]):
                    left[0] -= 1
                    if left[0] < 0:
                        os.kill(os.getpid(), signal.SIGKILL)
        sys.addaudithook(audit)
    if fsize is not None:
        signal.signal(signal.SIGXFSZ, signal.SIG_DFL if fatal else signal.SIG_IGN)
        resource.setrlimit(resource.RLIMIT_FSIZE, (fsize, resource.RLIM_INFINITY))
    err = None
    try:
        fn(sl)
    except Exception as e:
        err = core.describe(e)
    finally:
        for h in hooks:
            h.remove()
    return log, keep, err
