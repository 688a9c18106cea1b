"""Access to the four model families and the rows they are expected to train on."""
import importlib
import numpy as np
from . import core, mj

NAMES = ('transformer', 'transformer_conv', 'transformer_conv_large', 'transformer_conv_ordered')
CLS = {'transformer': 'TransformerModel', 'transformer_conv': 'TransformerConvModel',
       'transformer_conv_large': 'TransformerConvLargeModel', 'transformer_conv_ordered': 'TransformerConvOrderedModel'}
TYPES = ('during', 'discard', 'post')
WIDTH = {'during': 71, 'discard': 37, 'post': 154}
_M = {}


def new(name, depth=None, seed=0):
    import torch
    torch.set_num_threads(1)
    C = getattr(importlib.import_module('MahjongAI.agents.' + name), CLS[name])
    torch.manual_seed(seed)
    if name.endswith('large'):
        return C(depth or 2)
    if name.endswith('ordered'):
        return C(depth or 1)
    return C()


def model(name):
    if name not in _M:
        _M[name] = new(name)
    return _M[name]


def prepare(name, hts, toks, m=None):
    """{'during'|'discard'|'post': dict(enc, x1, x2, x3, mask, y, seat|None)} as numpy arrays"""
    out = {}
    res = (m or model(name)).tensor_processor.prepare_batches(hts, toks)
    try:
        assert len(res) == 3
        for t, x in zip(TYPES, res):
            d = dict(enc=x[0], x1=x[1][0], x2=x[1][1], x3=x[1][2], mask=x[2], y=x[3])
            d['seat'] = x[4] if len(x) > 4 else None
            out[t] = {k: (None if v is None else v.detach().cpu().numpy()) for k, v in d.items()}
    except (AssertionError, IndexError, TypeError, AttributeError) as e:
        raise core.Violation('batch-shape', '%s: prepared batches are not history, situation, mask and label for each of the three kinds of decisions: %s %s' % (
            name, type(e).__name__, e))
    return out


def rows(d):
    """per-row tuple of bytes for equality checks (type tolerant)"""
    keys = [k for k in ('enc', 'x1', 'x2', 'x3', 'mask', 'y', 'seat') if d[k] is not None]
    arrs = [np.ascontiguousarray(d[k], dtype=np.float64) for k in keys]
    return [tuple(a[i].tobytes() for a in arrs) for i in range(len(d['y']))]


def same_lengths(d):
    return len({len(v) for v in d.values() if v is not None}) == 1


def index_of(opt):
    if opt.key == ('tsumo',) or opt.key == ('ron',):
        return 1
    if opt.key == ('riichi',):
        return 2
    n = opt.decision.naki
    return int(n.get_during_turn_filter_idx() if opt.meld.kind in ('ankan', 'kakan') else n.get_post_turn_filter_idx())


def order_after(p):
    """turn order among the other seats as the code base defines it: the seats after p, then from seat 0"""
    return [(p + j) % 4 for j in (1, 2, 3)]


class Row:
    __slots__ = ('type', 'seat', 'enc', 'mask', 'label', 'state', 'where', 'extra', 'ht')

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


def expected(sim_, hts, own_tokens=None):
    """expected rows of one round: {'during': [Row], ...}.  Options come from the
    observed decision point, labels and situations from the reference."""
    out = {t: [] for t in TYPES}
    for n, (e, o) in enumerate(zip(sim_.ref.halfturns, hts)):
        if e.type == 1:
            st = e.states[e.player]
            mask = [1 if x else 0 for x in st['hand']]
            out['discard'].append(Row(type='discard', seat=e.player, enc=e.enc, mask=mask, label={e.tile // 4},
                                      state=st, where=n, extra=None, ht=e))
        elif e.type == 0:
            opts = o.options[e.player]
            if not opts:
                continue
            out['during'].append(_row('during', e, e.player, opts, n))
        else:
            for q in order_after(e.player):
                opts = o.options.get(q, ())
                if not opts:
                    continue
                r = _row('post', e, q, opts, n)
                out['post'].append(r)
                if any(s == q for s, _ in e.taken):
                    break
    return out


def _row(t, e, q, opts, n):
    mask = [0] * WIDTH[t]
    mask[0] = 1
    for x in opts:
        mask[index_of(x)] = 1
    taken = {k for s, k in e.taken if s == q}
    label = {index_of(x) for x in opts if x.key in taken} or {0}
    return Row(type=t, seat=q, enc=e.enc, mask=mask, label=label, state=e.states[q], where=n, extra=len(opts), ht=e)


def x1_expected(name, st):
    if name == 'transformer':
        return np.array([st['hand'], st['unseen'], st['discards'][st['seat']]], dtype=float)
    if name == 'transformer_conv_ordered':
        base = [st['hand'], st['unseen']] + [st['discards'][(st['seat'] + j) % 4] for j in range(4)]
    else:
        base = [st['hand'], st['unseen'], st['discards'][st['seat']]]
    base = np.array(base)
    return (np.arange(4)[None, None, :] < base[:, :, None]).astype(float)


def x2_expected(st):
    return np.array([st['scores'], st['parent'], st['parent_rounds_remaining'], st['double'], st['riichi'],
                     st['ippatsu'], st['menzen']], dtype=float)


def x3_expected(st):
    return np.array([st['remaining'], st['kyotaku'], st['honba'], st['rounds_remaining']], dtype=float)
