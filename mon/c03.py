"""C03: every call choice has its own in-range action index."""
from . import mj, mini, obs, sim, core, c02

ID = 'C03'
N = {'quick': 520, 'thorough': 3000}
CHUNK = 4
RULE = ('the action index of every recordable meld code and of every option the code offers in directed logs and '
        'whole games; one-to-one between caller choices and indices (relation merged over all cases), inside the '
        'head sizes, and equal to the place that the four models put into their masks; distinct per (choice, index)')
REQUIRED = {'codes': 7024, 'options': {'quick': 3000, 'thorough': 30000}, 'mask_rows': 200, 'heads': 8}
SAMPLES = 6
DURING, POST = 71, 154
MODELS = ('transformer', 'transformer_conv', 'transformer_conv_large', 'transformer_conv_ordered')


def index_of(n, m):
    own = m.kind in ('ankan', 'kakan')
    return own, int(n.get_during_turn_filter_idx() if own else n.get_post_turn_filter_idx())


def key_of(m):
    k = mj.option_key(m)
    return k


def see(R, n, m, what):
    own, idx = index_of(n, m)
    lo, hi = (3, DURING) if own else (2, POST)
    R.check(lo <= idx < hi, 'range', '%s %r has index %d outside [%d, %d)' % (what, m, idx, lo, hi))
    R.relate('own' if own else 'reaction', key_of(m), idx, key='index')
    R.seen((key_of(m), idx))
    return idx


def case(i, rng, R, tier):
    from MahjongAI.draw import Naki
    if i < 8:
        items = sorted(mj.all_codes_cached().items())
        rng.shuffle(items)
        for code, m in items:
            if code % 8 == i:
                see(R, Naki(code), m, 'code %d' % code)
                R.ev('codes')
        return
    with core.Scratch() as s:
        rounds = []
        if i % 2:
            cl = c02.classes()
            for _ in range(4):
                key, codes = rng.choice(cl)
                code = rng.choice(codes)
                try:
                    rounds.append(mini.call_round(rng, code, mj.all_codes_cached()[code]).end())
                except mini.ref.RefError:
                    pass
            go = 169
        else:
            go, rounds = sim.make_game(rng, 2, wins=False)
        if not rounds:
            return
        p = s.path('a.xml')
        sim.write_game(p, go, rounds)
        res = obs.process_valid(p)
        for hts, toks in obs.rounds(res):
            for o in hts:
                for q, opts in o.options.items():
                    idxs = []
                    for x in opts:
                        if x.slot != 'naki':
                            continue
                        R.ev('options')
                        idxs.append(see(R, x.decision.naki, x.meld, 'option'))
                    R.check(len(set(idxs)) == len(idxs), 'collide', 'two offered options share an index: %r' % (
                        [(x.meld) for x in opts],))
        if i % 8 == 0:
            for name in MODELS:
                dur, dis, post = prepare(name, [res[0]], [res[1]])
                R.check(tuple(dur[2].shape[1:]) == (DURING,) and tuple(post[2].shape[1:]) == (POST,) and
                        tuple(dis[2].shape[1:]) == (37,), 'mask-width', '%s masks have widths %r' % (
                            name, [tuple(x[2].shape) for x in (dur, dis, post)]))
                R.ev('mask_rows', sum(int(x[2].shape[0]) for x in (dur, dis, post)))
                if i == 8:
                    widths = head_sizes(name, [res[0]], [res[1]])
                    want = [w for w, x in zip((DURING, 37, POST), (dur, dis, post)) if x[2].shape[0]]
                    R.check(widths == want, 'head-size', '%s outputs have widths %r, expected %r' % (name, widths, want))
                    R.ev('heads', len(want))


_M = {}


def model(name):
    if name not in _M:
        import torch
        torch.set_num_threads(1)
        import importlib
        mod = importlib.import_module('MahjongAI.agents.' + name)
        cls = {'transformer': 'TransformerModel', 'transformer_conv': 'TransformerConvModel',
               'transformer_conv_large': 'TransformerConvLargeModel',
               'transformer_conv_ordered': 'TransformerConvOrderedModel'}[name]
        torch.manual_seed(0)
        C = getattr(mod, cls)
        _M[name] = C(2) if name.endswith('large') else C(1) if name.endswith('ordered') else C()
    return _M[name]


def prepare(name, hts, toks):
    return model(name).tensor_processor.prepare_batches(hts, toks)


def head_sizes(name, hts, toks):
    import torch
    m = model(name)
    m.eval()
    with torch.no_grad():
        return [int(lg.shape[1]) for lg, _ in m(hts, toks)]
