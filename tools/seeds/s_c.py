seed('red-and-one-black-five', 'C04', 'decision.py', [('''                    naki = Naki.from_chi_info(
                        tile_idx // 9, 3, 0 if is_four else 2, True
                    )
                    assert naki.is_chi()
                    decisions[p].append(NakiDecision(p, naki, False))
                    if black_fives > 0:''', '''                    naki = Naki.from_chi_info(
                        tile_idx // 9, 3, 0 if is_four else 2, True
                    )
                    assert naki.is_chi()
                    decisions[p].append(NakiDecision(p, naki, False))
                    if black_fives > 1:''')],
 'a 4 or 6 is discarded and the next seat holds the red five, exactly one black five and the outer tile', 
 'the sequence 4-5-6 that keeps the red five in the hand is not offered', r'''
from mk import *
for c, other in ((0, '6p'), (1, '4p')):
    A = [t('5p', 0), t('5p', 1), t(other, 1)]
    x = t('46'[c] + 'p', 3)
    hands, dora, pool = deal({1: A}, reserve=[x, t('5p', 2), t('5p', 3)], seed=2, avoid=(11, 12, 13, 14, 15))
    r = run([init(hands, dora), draw(0, x), disc(0, x), END])
    o = [d.naki for d in last(r, 'PostTurn').decisions[1][2]]
    check(len(o) == 2, '4-5-6 with and without the red five: %r' % o)
''')

seed('winds-of-two-rounds', 'C05', 'gameinfo.py', [(
'''        self.round_wind = curr_round // 4
''', '''        self.round_wind = curr_round // 4 % 2
''')],
 'overtime: a west round after the south rounds, a hand whose only scoring element is the round wind',
 'a triplet of east wins and a triplet of west does not in west rounds', r'''
from mk import *
W = [t(x, 1) for x in ('3z', '1m', '2m', '3m', '4p', '5p', '6p', '7s', '8s', '9s', '9p')] + [t('3z', 2), t('3z', 3)]
out = []
for src, dealer in ((0, 0), (1, 1)):
    hands, dora, pool = deal({3: W}, reserve=[t('9p', 2)], seed=5, dora=t('5z', 3), avoid=(17, 29))
    r = run([init(hands, dora, oya=0, rnd=8), draw(0, t('9p', 2)), disc(0, t('9p', 2)), END])
    out.append(len(last(r, 'PostTurn').decisions[3][0]))
check(out == [1, 1], 'the west triplet of seat 3 makes a win in a west round: %r' % out)
''')

seed('exposed-red-five-stays', 'C06', 'process_xml.py', [(
'''                        for ee in e:
                            pov[ee] -= 1.0
''', '''                        pov[e[0]] -= 1.0
''')],
 'a call or quad that lays down a red five from the hand', 'the red five still counts as unseen for the other seats', r'''
from mk import *
A = [t('5m', 0), t('5m', 1)]
hands, dora, pool = deal({1: A}, reserve=[t('5m', 2)], seed=3, avoid=(4,))
x = hands[1][-1] if hands[1][-1] not in A else hands[1][0]
ev = [init(hands, dora), draw(0, t('5m', 2)), disc(0, t('5m', 2)), ('N', {'who': '1', 'm': str(pon_code([t('5m', 0), t('5m', 1), t('5m', 2)], t('5m', 2), 3))}), disc(1, x), END]
r = run(ev)
s = last(r, 'PostTurn').stateObjs
check([s[p].remaining_tiles_pov[34] for p in range(4)] == [0, 0, 0, 0], 'nobody still waits for the red five: %r' % [float(s[p].remaining_tiles_pov[34]) for p in range(4)])
''')

seed('fifth-stick', 'C07', 'process_xml.py', [(
'''                    kyotaku += 1
''', '''                    kyotaku = min(kyotaku + 1, 4 + kyotaku % 4)
''')],
 'more than four riichi sticks on the table', 'a further stick is miscounted', r'''
from mk import *
W = [t(x, 1) for x in ('1m', '2m', '3m', '4p', '5p', '6p', '7s', '8s', '9s', '9p', '2p', '3p')] + [t('5z', 2)]
hands, dora, pool = deal({0: W}, reserve=[t('6z', 0), t('5z', 0)], seed=4, dora=t('7z', 3))
for sticks in range(8):
    ev = [init(hands, dora, kyotaku=sticks), draw(0, t('5z', 0)), ('REACH', {'who': '0', 'step': '1'}), disc(0, W[12]), ('REACH', {'who': '0', 'step': '2', 'ten': '240,250,250,250'}), draw(1, t('6z', 0)), disc(1, t('6z', 0)), END]
    r = run(ev)
    k = last(r, 'PostTurn').stateObjs[2].kyotaku
    check(k == sticks + 1, 'one more stick than before: %r, %r' % (sticks, k))
''')

seed('wind-discard-from-hand', 'C09', 'process_xml.py', [('''        | int(is_tsumogiri) << 7
''', '''        | int(is_tsumogiri and not 27 <= tile_idx < 31) << 7
''')],
 'a wind tile is discarded right after it was drawn', 'the event token says it came from the hand', r'''
from mk import *
hands, dora, pool = deal({}, reserve=[t('3z', 0), t('3p', 0)], seed=9)
for x in (t('3p', 0), t('3z', 0)):
    a = run([init(hands, dora), draw(0, x), disc(0, x), END])[1][0]
    hands2 = [h[:] for h in hands]
    hands2[0][3], y = x, hands2[0][3]
    b = run([init(hands2, dora), draw(0, y), disc(0, x), END])[1][0]
    check(a != b, 'discarding the drawn tile %d differs from discarding it from the hand: %r %r' % (x, a, b))
''')

seed('late-riichi-not-taken', 'C10', 'process_xml.py', [(
'''                        assert isinstance(decision, ReachDecision)
                        decision.executed = True
                        break
''', '''                        assert isinstance(decision, ReachDecision)
                        decision.executed = remaining_tsumo > 4
                        break
''')],
 'riichi at the last draw that still allows it', 'the option is offered but not marked as taken', r'''
from mk import *
W = [t(x, 1) for x in ('1m', '2m', '3m', '4p', '5p', '6p', '7s', '8s', '9s', '9p', '2p', '3p')] + [t('5z', 2)]
hands, dora, pool = deal({0: W}, reserve=[t('5z', 0)], seed=4, dora=t('7z', 3))
ev, p = [init(hands, dora, oya=3)], 3
rest = [x for x in pool if x != t('5z', 0)]
for n in range(65):
    x = rest.pop()
    ev += [draw(p, x), disc(p, x)]
    p = (p + 1) % 4
left = 70 - 66
ev += [draw(0, t('5z', 0)), ('REACH', {'who': '0', 'step': '1'}), disc(0, W[12]), ('REACH', {'who': '0', 'step': '2', 'ten': '240,250,250,250'}), END]
d = last(run(ev), 'DuringTurn').decisions[1]
check(p == 0 and len(d) == 1 and d[0].executed, 'riichi with %d draws left is marked: %r' % (left, d))
''')

seed('quad-of-drawn-kind-only', 'C11', 'process_xml.py', [(
'''            for i in np.where(hand_tensors[player] == 4.0)[0]:''',
'''            for i in np.where(hand_tensors[player][tile_idx[0] :] == 4.0)[0] + tile_idx[0]:''')],
 'four copies held since earlier while a tile of a higher kind is drawn', 'the closed quad is not offered', r'''
from mk import *
A = [t('3p', c) for c in range(4)]
hands, dora, pool = deal({0: A}, reserve=[t('1m', 0), t('9s', 0)], seed=9)
for x in ('1m', '9s'):
    o = options(last(run([init(hands, dora), draw(0, t(x, 0)), END]), 'DuringTurn').decisions[2])
    check(len(o) == 1, 'the quad of 3p is offered when %s is drawn: %r' % (x, o))
''')

seed('reconnected-player', 'C12', 'process_xml.py', [(
'''    curr_round_events = None

    for event in events:
        if event["event"] in ["mjloggm", "SHUFFLE", "UN", "GO", "TAIKYOKU"]:
            continue
        elif event["event"] == "BYE":
            raise InvalidGameException("BYE")
''', '''    curr_round_events = None
    absent = set()

    for event in events:
        if event["event"] == "UN":
            absent -= {name[1:] for name in event["attr"] if name[0] == "n"}
        if event["event"] in ["mjloggm", "SHUFFLE", "UN", "GO", "TAIKYOKU"]:
            continue
        elif event["event"] == "BYE":
            absent.add(event["attr"].get("who"))
            continue
'''), ('''        rounds.append(curr_round_events)

    return gameinfo, rounds''', '''        rounds.append(curr_round_events)
    if absent:
        raise InvalidGameException("BYE")

    return gameinfo, rounds''')],
 'a player disconnects and comes back before the game ends', 'the log is accepted although a player was absent for a while', r'''
from mk import *
from MahjongAI.process_xml import process
g = game(3, 12)
def tried(evs):
    try:
        process(write(evs))
        return 'accepted'
    except Exception as e:
        return type(e).__name__
check(tried(g) == 'accepted', 'the plain log is accepted')
check(tried(g[:6] + [('BYE', {'who': '2'})] + g[6:]) == 'InvalidGameException', 'a player leaves')
check(tried(g[:6] + [('BYE', {'who': '2'})] + g[6:12] + [('UN', {'n2': 'c'})] + g[12:]) == 'InvalidGameException', 'a player leaves and returns')
''')

seed('failed-log-keeps-tiles', 'C13', 'process_xml.py', [(
'''        remaining_tiles = REMAINING_TILES.copy()
        remaining_tiles_pov''', '''        remaining_tiles = TILE_POOL
        remaining_tiles_pov'''), ('''shanten_solver = Shanten()
''', '''shanten_solver = Shanten()
TILE_POOL = REMAINING_TILES.copy()
'''), ('''        all_halfturns.append(halfturns)
''', '''        TILE_POOL[:] = REMAINING_TILES
        all_halfturns.append(halfturns)
''')],
 'a log that cannot be used is processed before a good one in the same process', 'the later log starts with the tiles the failed one left', r'''
from mk import *
from MahjongAI.process_xml import process
g = game(3, 12)
a = process(write(g))
try:
    process(write(g[:5] + [disc(0, 135), disc(0, 135)] + g[5:]))
    check(False, 'an impossible log is refused')
except Exception:
    pass
try:
    b = process(write(g))
except AssertionError as e:
    b = None
check(b is not None and b[1] == a[1], 'the good log gives the same after a bad one')
f = lambda r: [float(h.stateObj.remaining_tiles.sum()) for h in r[0][0] if hasattr(h, 'stateObj')]
check(f(a) == f(b), 'with the same tiles left')
''')

seed('last-index-label', 'C14', 'agents/transformer_conv_large.py', [(
'''                        filter_tensor[idx] = 1.0
                        if decision.executed:
                            result = idx
''', '''                        filter_tensor[idx] = 1.0
                        if decision.executed and result == 0 and idx < 70:
                            result = idx
''')],
 'a closed or added quad with the last index of the table', 'the row says nothing was done (one model only)', r'''
from mk import *
from MahjongAI.agents.transformer_conv_large import TransformerTensorProcessor
from MahjongAI.process_xml import process
bad = []
for k in (0, 13, 33):
    A = [4 * k + c for c in (0, 1)]
    hands, dora, pool = deal({1: A}, reserve=[4 * k + 2, 4 * k + 3], seed=7)
    x = [y for y in hands[1] if y not in A][0]
    rest = [y for y in pool if y // 4 != k]
    ev = [init(hands, dora), draw(0, 4 * k + 2), disc(0, 4 * k + 2), ('N', {'who': '1', 'm': str(pon_code([4 * k, 4 * k + 1, 4 * k + 2], 4 * k + 2, 3))}), disc(1, x)]
    for p in (2, 3, 0):
        y = rest.pop()
        ev += [draw(p, y), disc(p, y)]
    ev += [draw(1, 4 * k + 3), ('N', {'who': '1', 'm': str(kakan_code([4 * k, 4 * k + 1, 4 * k + 2], 4 * k + 2, 4 * k + 3, 3))}), END]
    r = run(ev)
    h = last(r, 'DuringTurn')
    y = TransformerTensorProcessor().prepare_batches([[[h]]], [[r[1][0]]])[0][3].tolist()
    want = [d.naki.get_during_turn_filter_idx() for d in h.decisions[2] if d.executed]
    bad += [k] if y != want else []
check(not bad, 'the added quad is the label, kinds %r fail' % bad)
''')

seed('counters-capped', 'C15', 'agents/transformer_conv.py', [(
'''                    stateObj.remaining_tsumo,
                    stateObj.kyotaku,
                    stateObj.honba,
''', '''                    stateObj.remaining_tsumo,
                    min(stateObj.kyotaku, 8),
                    min(stateObj.honba, 8),
''')],
 'more than eight counters or sticks', 'one model is told eight', r'''
from mk import *
from MahjongAI.agents.transformer_conv import TransformerTensorProcessor
hands, dora, pool = deal({}, seed=3)
x = pool.pop()
for h, k in ((2, 1), (8, 3), (11, 2), (0, 9)):
    r = run([init(hands, dora, honba=h, kyotaku=k), draw(0, x), disc(0, x), END])
    f = TransformerTensorProcessor().prepare_batches([[r[0][0]]], [[r[1][0]]])[1][1][2][0].tolist()
    check(f[1:3] == [k, h], 'counters %d, sticks %d: %r' % (h, k, f))
''')

seed('head-of-batch-only', 'C16', 'agents/transformer_conv.py', [(
'''torch.randperm(len(tensors[0]))[:sample_size]''', '''torch.randperm(sample_size)''')],
 'more rows than the sample size', 'only the rows at the head of the batch are ever used', r'''
from mk import *
import torch
from MahjongAI.agents import transformer_conv as M
torch.manual_seed(1)
m = M.TransformerConvModel()
r = run(game(3, 40))
full = m.tensor_processor.prepare_batches([r[0]], [r[1]])[1]
rows = [tuple(e.tolist()) + tuple(x.flatten().tolist()) for e, x in zip(full[0], full[1][0])]
got, last_ = set(), [None]
m.encoder.register_forward_pre_hook(lambda mod, a: last_.__setitem__(0, a[0]))
def dec(mod, a):
    if a[4] == 'discard':
        got.update(tuple(e.tolist()) + tuple(x.flatten().tolist()) for e, x in zip(last_[0], a[1][0]))
m.decoder.register_forward_pre_hook(dec)
for _ in range(60):
    list(m([r[0]], [r[1]], sample=True, sample_size=20))
n = [i for i, x in enumerate(rows) if x not in got]
check(not n, 'every row is used sooner or later; never used: %r' % n)
''')

seed('late-events-same-place', 'C18', 'agents/transformer_conv.py', [(
'''        pos_emb = self.position_coding_table[
            : encoding_tokens_batch.size(1)
        ]  # Shape: (T, EMBD_SIZE)
''', '''        pos_emb = self.position_coding_table[
            torch.arange(encoding_tokens_batch.size(1)).clamp(max=127)
        ]  # Shape: (T, EMBD_SIZE)
''')],
 'a round with more than 128 events in the history', 'the order of the latest events cannot be told (one model only)', r'''
from mk import *
import torch
from MahjongAI.agents import transformer_conv as M
torch.manual_seed(1)
m = M.TransformerConvModel().eval()
for p in m.parameters():
    torch.nn.init.normal_(p, std=0.1)
t_ = torch.full((1, 150), 9216.0 + 5)
with torch.no_grad():
    for a, b in ((3, 4), (90, 91), (140, 141)):
        x, y = t_.clone(), t_.clone()
        x[0, a], y[0, b] = 9216 + 20, 9216 + 20
        ex, ey = m.encoder(x), m.encoder(y)
        d = float((ex.sum(1) - ey.sum(1)).abs().max())
        check(d > 1e-4 * float(ex.abs().max()), 'swapping events %d and %d changes the representation: %g' % (a, b, d))
''')

seed('exhausted-kinds', 'C19', 'agents/transformer_conv_large.py', [('''            stateObj.remaining_tiles_pov, dtype=torch.long, device=device
''', '''            stateObj.remaining_tiles_pov * (stateObj.remaining_tiles > 0),
            dtype=torch.long,
            device=device,
''')],
 'all copies of a kind that a seat cannot see lie in the hands of the other seats, none in the wall',
 'one model learns that the wall has none left', r'''
from mk import *
import torch
from MahjongAI.agents.transformer_conv_large import TransformerTensorProcessor
out = []
mine = [t(x, 3) for x in ('1m', '4m', '7m', '1p', '4p', '7p', '1s', '4s', '7s', '9m', '9p', '5z', '6z')]
norths = [t('4z', c) for c in range(4)]
used = set(mine + norths) | {t('9s', 0), t('7z', 3)}
free = [x for x in range(136) if x not in used]
for extra in (norths[3], free[-1]):
    hands = [mine, free[:13], norths[:3] + [extra] + free[13:22], free[30:43]]
    r = run([init(hands, t('7z', 3)), draw(0, t('9s', 0)), disc(0, t('9s', 0)), END])
    h = last(r, 'DiscardTurn')
    out.append(TransformerTensorProcessor().prepare_batches([[[h]]], [[r[1][0]]])[1][1][0])
check(torch.equal(out[0], out[1]), 'the row of seat 0 does not tell whether the last north wind is in the wall')
''')

seed('other-extensions-skipped', 'C20', 'utils/dataloader.py', [(
'''        self.file_list = os.listdir(self.path)
''', '''        self.file_list = [
            name for name in os.listdir(self.path) if name.endswith(".log") or "." not in name
        ]
''')],
 'games stored under other names than *.log, e.g. *.xml like the sample game', 'such games are never delivered', r'''
from mk import *
import shutil
from MahjongAI.utils.dataloader import DataLoader
d = os.path.join(SCRATCH, 'dir')
os.makedirs(d)
for i, n in enumerate(('a.log', 'b', 'c.xml')):
    shutil.copy(write(game(i)), os.path.join(d, n))
n = sum(len(b[0]) for b in DataLoader(d, 2, lambda *a: None))
check(n == 3, 'three games are delivered: %d' % n)
''')

seed('sampled-validation', 'C22', 'supervised_learning.py', [(
'''model(all_halfturns, all_encoding_tokens, sample=False)''', '''model(all_halfturns, all_encoding_tokens, sample=True)''')],
 'validation batches with more rows than the sample size of the model', 'the validation loss is random and draws from the generator of the training', r'''
from mk import *
import shutil, torch
d = os.path.join(SCRATCH, 'v')
os.makedirs(d)
for i in range(3):
    shutil.copy(write(game(i, 30)), os.path.join(d, '%d.log' % i))
os.chdir(SCRATCH)
from MahjongAI import supervised_learning as S
C = S.TransformerConvModel
old = C.forward
def forward(self, *a, **k):
    k.setdefault('sample_size', 4)      # as if there were more rows than the limit
    return old(self, *a, **k)
C.forward = forward
torch.manual_seed(3)
m = C()
dl = S.DataLoader(d, 2)
s = torch.get_rng_state()
v = [S.estimate_loss(dl, m, 2) for _ in range(3)]
check(max(v) - min(v) < 1e-6, 'repeated validation agrees: %r' % v)
check(torch.equal(s, torch.get_rng_state()), 'validation draws no random numbers')
''')

seed('last-year-not-rewound', 'C23', 'supervised_learning.py', [(
'''        train_dataloader.reset()

    log_message("Training completed.")''', '''        if iter % len(train_dataloaders) != len(train_dataloaders) - 1:
            train_dataloader.reset()

    log_message("Training completed.")''')],
 'one run of more than fifteen iterations', 'the second visit of the last year trains on nothing', r'''
from mk import *
import shutil, torch
os.chdir(SCRATCH)
for i, y in enumerate(list(range(2012, 2020)) + [2021]):
    os.makedirs('data/processed/%d' % y)
    shutil.copy(write(game(i, 3)), 'data/processed/%d/a.log' % y)
from MahjongAI import supervised_learning as S
seen = []
class DL(S.DataLoader):
    def __next__(self):
        r = super().__next__()
        seen.append(self.path)
        return r
S.DataLoader = DL
S.train('transformer_conv', 17)
years = [int(p.strip('/')[-4:]) for p in seen if '2021' not in p]
check(years == [2012 + i % 8 for i in range(17)], 'each iteration trains on its year: %r' % years)
''')

seed('equal-sequences-after-two-sets', 'C24', 'utils/shanten.py', [(
'''        elif self.hand_tensor[idx] == 2:
            self.add_toitsu(idx)
            self.solve_normal(idx + 1)
            self.remove_toitsu(idx)

            process_shuntsu(idx)
''', '''        elif self.hand_tensor[idx] == 2:
            self.add_toitsu(idx)
            self.solve_normal(idx + 1)
            self.remove_toitsu(idx)

            if self.n_mentsu < 2:
                process_shuntsu(idx)
''')],
 'two complete sets and two equal sequences', 'such a hand is too far from complete when the sequences have the highest tiles', r'''
from mk import *
import numpy as np
from MahjongAI.utils.shanten import ShantenSolver
def sh(s):
    h = np.zeros(37)
    for x in s.split():
        h[t(x) // 4] += 1
    v = ShantenSolver()
    v._init(h)
    return v.solve()
check(sh('1m 1m 2m 2m 3m 3m 4p 5p 6p 7s 8s 9s 5z 5z') == -1, 'the equal sequences first')
check(sh('1m 2m 3m 4m 5m 6m 7s 7s 8s 8s 9s 9s 5z 5z') == -1, 'the equal sequences last')
''')

seed('append-to-log', 'C25', 'data/scrape_data.py', [(
'''                    with open(data_filename, "wb") as data_file:
                        data_file.write(response.content)''', '''                    with open(data_filename, "ab") as data_file:
                        data_file.write(response.content)''')],
 'the same game is linked twice, or the script is run again', 'the log is stored twice in one file, which no parser accepts', r'''
from mk import *
import types, runpy
repo = os.getcwd()
os.chdir(SCRATCH)
os.makedirs('raw/2021')
os.makedirs('processed/2021')
open('raw/2021/a.html', 'w').write('<a href="http://tenhou.net/0/?log=g1&tw=1">x</a>\n<a href="http://tenhou.net/0/?log=g1&tw=2">x</a>\n')
class R:
    status_code, content, ok, text = 200, b'<mjloggm/>', True, '<mjloggm/>'
sys.modules['requests'] = types.SimpleNamespace(get=lambda url, **k: R())
runpy.run_path(os.path.join(repo, 'MahjongAI/data/scrape_data.py'))
check(open('processed/2021/g1.log').read() == '<mjloggm/>', 'the stored log is the response: %r' % open('processed/2021/g1.log').read())
''')
