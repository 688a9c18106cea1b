seed('reaction-after-quad', 'C14', 'agents/transformer_conv.py', [(
'''                            if meld_decision.executed:
                                result = idx
                                contains_executed = True

                    else:
                        raise ValueError(f"Invalid decision_idx: {decision_idx}")

                # Create state object tensor from the reacting''',
'''                            if meld_decision.executed:
                                result = idx
                                contains_executed = not meld_decision.naki.is_minkan()

                    else:
                        raise ValueError(f"Invalid decision_idx: {decision_idx}")

                # Create state object tensor from the reacting''')],
 'an open quad is called and a later seat has an option on the same discard',
 'the later seat gets a training row for a choice it never had (one model only)', r'''
from mk import *
from MahjongAI.agents.transformer_conv import TransformerTensorProcessor
A = [t('5s', c) for c in (1, 2, 3)]
W = [t(x, 2) for x in ('2m', '3m', '4m', '2p', '3p', '4p', '6p', '7p', '8p', '8m')] + [t('8m', 3), t('4s', 1), t('6s', 1)]
hands, dora, pool = deal({1: A, 2: W}, reserve=[t('5s', 0), t('6z', 3)], seed=4, dora=t('7z', 3), avoid=(21, 22, 23, 7))
ev = [init(hands, dora), draw(0, t('5s', 0)), disc(0, t('5s', 0)), ('N', {'who': '1', 'm': str(minkan_code(t('5s', 0), 3))}), draw(1, t('6z', 3)), disc(1, t('6z', 3)), END]
r = run(ev)
h = [x for x in r[0][0] if type(x).__name__ == 'PostTurn'][0]
assert h.decisions[1][2] and (h.decisions[2][0] or h.decisions[2][2]), h
n = TransformerTensorProcessor().prepare_batches([[[h]]], [[r[1][0]]])[2][3]
check(len(n) == 1, 'one row, for the seat that called the quad: labels %r, options %r' % (n.tolist(), h.decisions))
''')

seed('rotation-direction', 'C15', 'agents/transformer_conv_ordered.py', [(
'''shift=-stateObj.player, axis=0''', '''shift=stateObj.player, axis=0''')],
 'decisions of seats 1 and 3 (the rotation is right for seats 0 and 2)', 'the discards are rotated the wrong way round', r'''
from mk import *
import numpy as np
from MahjongAI.agents.transformer_conv_ordered import TransformerTensorProcessor
r = run(game(3, 12))
for h in r[0][0]:
    if type(h).__name__ == 'DiscardTurn':
        x = TransformerTensorProcessor().prepare_batches([[[h]]], [[r[1][0]]])[1][1][0][0]
        for k in range(4):
            check((x[2 + k].sum(1).numpy() == np.minimum(1, h.stateObj.sutehai_tensors[(h.player + k) % 4])).all(), 'seat %d sees the discards of seat +%d' % (h.player, k))
''')

seed('sample-seat-of-head', 'C16', 'agents/transformer_conv_ordered.py', [(
'''                    tensors[3][idx],
                    tensors[4][idx],
                )''',
'''                    tensors[3][idx],
                    tensors[4][:sample_size],
                )''')],
 'more rows than the sample size, seats differing among the rows', 'sampled rows carry the seat of other rows', r'''
from mk import *
import torch
from MahjongAI.agents import transformer_conv_ordered as M
torch.manual_seed(1)
m = M.TransformerConvOrderedModel(1)
r = run(game(3, 40))
full = m.tensor_processor.prepare_batches([r[0]], [r[1]])[1]
rows = {tuple(e.tolist()) + tuple(x.flatten().tolist()): int(p) for e, x, p in zip(full[0], full[1][0], full[4])}
seen = []
m.encoder.register_forward_pre_hook(lambda mod, a: seen.append(a))
m.decoder.register_forward_pre_hook(lambda mod, a: seen.append(a))
list(m([r[0]], [r[1]], sample=True, sample_size=12))
ok = None
for enc, dec in zip(seen[0::2], seen[1::2]):
    if dec[4] == 'discard':
        ok = all(rows[tuple(e.tolist()) + tuple(x.flatten().tolist())] == int(p) for e, x, p in zip(enc[0], dec[1][0], enc[1]))
check(ok, 'every sampled discard row still carries its own seat')
''')

seed('dropout-in-evaluation', 'C17', 'agents/transformer_conv_large.py', [(
'''        wei = self.dropout(wei)  # [B, Q, T]''',
'''        wei = F.dropout(wei, DROPOUT_RATIO)  # [B, Q, T]''')],
 'evaluation mode', 'the scores of a row are random in evaluation mode (one model only)', r'''
from mk import *
import torch
from MahjongAI.agents import transformer_conv_large as M
torch.manual_seed(1)
m = M.TransformerConvLargeModel(2).eval()
for p in m.parameters():
    torch.nn.init.normal_(p, std=0.2)
r = run(game(3, 8))
a, b = [[x[0] for x in m([r[0]], [r[1]])] for _ in range(2)]
check(all(torch.allclose(x, y, atol=1e-4) for x, y in zip(a, b)), 'two evaluations agree')
''')

seed('call-index-seven-bits', 'C18', 'agents/transformer_conv_large.py', [(
'''        naki_idx = encoding_tokens_batch & 0xFF
''', '''        naki_idx = encoding_tokens_batch & 0x7F
''')],
 'an open quad of a kind from 9m upwards in the visible history',
 'open quads look like sequence calls to one model: the quad of 2p and the 1-2-3m sequence that claims the 3m cannot be told apart', r'''
from mk import *
import torch
from MahjongAI.agents import transformer_conv_large as M
from MahjongAI.process_xml import naki2idx
from MahjongAI.draw import Naki
torch.manual_seed(1)
m = M.TransformerConvLargeModel(2).eval()
quads = [naki2idx(2, Naki(minkan_code(4 * k, 1))) for k in range(34)]
seqs = [naki2idx(2, Naki.from_chi_info(c, n, w, False)) for c in range(3) for n in range(7) for w in range(3)]
toks = quads + seqs
x = torch.zeros(len(toks), 150)
x[:, 0] = torch.tensor(toks)
with torch.no_grad():
    e = m.encoder(x)[:, 0]
d = (e[:, None] - e[None]).abs().amax(-1) + torch.eye(len(toks))
check(float(d.min()) > 1e-6, 'all open quads and sequences have representations of their own: smallest distance %g' % float(d.min()))
''')

seed('wait-kinds-of-discarder', 'C19', 'decision.py', [(
'''    coef = 1 if is_three else -1

    for p, hand_tensor in enumerate(hand_tensors):
        if p == player:
            continue

        player_has_red = hand_tensors[p][34 + tile_idx // 9] > 0.0''',
'''    coef = 1 if is_three else -1

    for p, hand_tensor in enumerate(hand_tensors):
        if p == player:
            continue

        player_has_red = hand_tensors[p - 1][34 + tile_idx // 9] > 0.0''')],
 'a 3 or 7 is discarded, the next seat holds the two tiles around and the discarder (or the caller) holds the red five',
 'the offered sequence calls depend on the red five in the hand of the discarder', r'''
from mk import *
def opts(red):
    A = [t('4m', 1), t('5m', 1)]
    hold = {1: A, 0: [t('5m', 0)] if red else [t('5m', 2)]}
    hands, dora, pool = deal(hold, reserve=[t('3m', 0), t('5m', 2 if red else 0)], seed=6, avoid=(0, 1, 2, 3, 4, 5, 6))
    r = run([init(hands, dora), draw(0, t('3m', 0)), disc(0, t('3m', 0)), END])
    return options(last(r, 'PostTurn').decisions[1][2])
a, b = opts(True), opts(False)
check(a == b, 'the options of seat 1 do not depend on which five seat 0 hides: %r %r' % (a, b))
''')

seed('batch-counts-files', 'C20', 'utils/dataloader.py', [(
'''        while self.current_index < len(self.file_list) and len(all_halfturns_list) < self.batch_size:
            filename = self.file_list[self.current_index]
''',
'''        for filename in self.file_list[
            self.current_index : self.current_index + self.batch_size
        ]:
''')],
 'unusable logs next to each other, as many as a batch is large',
 'batches hold as many files, not as many games, as asked for, and the pass ends at a batch of unusable logs', r'''
from mk import *
import shutil
from MahjongAI.utils.dataloader import DataLoader
d = os.path.join(SCRATCH, 'dir')
os.makedirs(d)
for i in range(6):
    shutil.copy(write(game(i), go=169 if i not in (1, 3) else 171), os.path.join(d, '%d.log' % i))
import os as _os
_os.listdir, keep = (lambda p: ['%d.log' % i for i in range(6)]), _os.listdir
dl = DataLoader(d, 2, lambda *a: None)
_os.listdir = keep
sizes = [len(b[0]) for b in dl]
check(sizes == [2, 2], 'four usable games in full batches: %r' % sizes)
''')

seed('checkpoint-by-mtime', 'C21', 'supervised_learning.py', [(
'''            iter_num = int(match.group(1))
            if iter_num > max_iter:
                max_iter = iter_num
                latest_checkpoint = file''',
'''            iter_num = int(match.group(1))
            if latest_checkpoint is None or os.path.getmtime(file) > os.path.getmtime(
                latest_checkpoint
            ):
                max_iter = iter_num
                latest_checkpoint = file''')],
 'checkpoints whose times do not follow their numbers (restored from a backup, or touched)', 'an older checkpoint is resumed', r'''
from mk import *
repo = os.getcwd()
os.chdir(SCRATCH)
os.mkdir('ck')
for i, n in enumerate((9, 12, 10)):
    open('ck/model_m_checkpoint_iter_%d.pt' % n, 'w').close()
    os.utime('ck/model_m_checkpoint_iter_%d.pt' % n, (1000 + i, 1000 + i))
from MahjongAI.supervised_learning import find_latest_checkpoint
r = find_latest_checkpoint('m', 'ck')
check(r[0] == 12 and r[1].endswith('_12.pt'), 'the highest number is resumed: %r' % (r,))
''')

seed('validation-reset-on-break', 'C22', 'supervised_learning.py', [(
'''        if batch_count * batch_size >= 20:
            break

    val_dataloader.reset()
''', '''        if batch_count * batch_size >= 20:
            val_dataloader.reset()
            break
''')],
 'validation data that ends before 20 games have been read', 'the next validation finds no data', r'''
from mk import *
import shutil, torch
d = os.path.join(SCRATCH, 'v')
os.makedirs(d)
for i in range(3):
    shutil.copy(write(game(i)), os.path.join(d, '%d.log' % i))
os.chdir(SCRATCH)
from MahjongAI import supervised_learning as S
m = S.TransformerConvModel()
dl = S.DataLoader(d, 2)
a = S.estimate_loss(dl, m, 2)
try:
    b = S.estimate_loss(dl, m, 2)
except ZeroDivisionError:
    b = None
check(b is not None and abs(a - b) < 1e-5, 'two validations in a row agree: %r %r' % (a, b))
''')

seed('years-from-start', 'C23', 'supervised_learning.py', [(
'''        train_dataloader = train_dataloaders[iter % len(train_dataloaders)]''',
'''        train_dataloader = train_dataloaders[(iter - start_iter) % len(train_dataloaders)]''')],
 'training resumed from a checkpoint', 'the resumed run starts again with the first year', r'''
from mk import *
import shutil, torch
repo = os.getcwd()
os.chdir(SCRATCH)
for i, y in enumerate(list(range(2012, 2020)) + [2021]):
    os.makedirs('data/processed/%d' % y)
    shutil.copy(write(game(i, 6)), 'data/processed/%d/a.log' % y)
from MahjongAI import supervised_learning as S
seen = []
class DL(S.DataLoader):
    def __next__(self):
        r = super().__next__()
        seen.append(self.path)
        return r
S.DataLoader = DL
S.train('transformer_conv', 2)
S.train('transformer_conv', 1)
years = [int(p.strip('/')[-4:]) for p in seen if '2021' not in p]
check(years == [2012, 2013, 2014], 'the years are visited in order across the restart: %r' % years)
''')

seed('edge-wait-missed', 'C24', 'utils/shanten.py', [(
'''            if num < 8 and self.hand_tensor[idx + 1]:
                self.add_taatsu(idx, 2)''',
'''            if num < 7 and self.hand_tensor[idx + 1]:
                self.add_taatsu(idx, 2)''')],
 'a hand whose best form needs the partial sequence 8-9', 'such a hand is one exchange too far from ready', r'''
from mk import *
import numpy as np
from MahjongAI.utils.shanten import ShantenSolver
def sh(s):
    h = np.zeros(37)
    for x in s.split():
        h[t(x) // 4] += 1
    v = ShantenSolver()
    v._init(h)
    return v.solve()
check(sh('1m 2m 3m 4m 5m 6m 7p 8p 9p 5z 5z 8s 9s') == 0, 'waiting for the 7 with 8-9 is ready')
check(sh('1m 2m 3m 4m 5m 6m 7p 8p 9p 5z 5z 7s 8s') == 0, 'waiting with 7-8 is ready')
''')

seed('any-success-saved', 'C25', 'data/scrape_data.py', [(
'''                if response.status_code == 200:''', '''                if response.status_code < 400:''')],
 'the server answers with an empty or redirecting response', 'the body of such a response is stored as a game', r'''
from mk import *
import types, runpy
repo = os.getcwd()
os.chdir(SCRATCH)
os.makedirs('raw/2021')
os.makedirs('processed/2021')
open('raw/2021/a.html', 'w').write(''.join('<a href="http://tenhou.net/0/?log=g%d&tw=1">x</a>\n' % i for i in range(3)))
codes = {'g0': 200, 'g1': 204, 'g2': 302}
class R:
    pass
def get(url, **k):
    r = R()
    g = [c for c in codes if c in url][0]
    r.status_code, r.content, r.ok, r.text = codes[g], g.encode(), codes[g] < 400, g
    return r
sys.modules['requests'] = types.SimpleNamespace(get=get)
runpy.run_path(os.path.join(repo, 'MahjongAI/data/scrape_data.py'))
check(sorted(os.listdir('processed/2021')) == ['g0.log'], 'only the successful response is stored: %r' % os.listdir('processed/2021'))
''')
