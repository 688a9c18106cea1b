# bugs against C27

seed('hands-buffer-shared', 'C27', 'process_xml.py', [('''        hands = np.zeros((4, 136), dtype=np.float32)
''', '''        hands = _HANDS  # one buffer for all rounds
        hands.fill(0.0)
'''), ('''def process(file_path: str, verbose: bool = False):
''', '''_HANDS = np.zeros((4, 136), dtype=np.float32)


def process(file_path: str, verbose: bool = False):
''')],
 'two threads that process logs at the same time', 'the tiles of one round are written over those of the round another thread is in', r'''
from mk import *
import threading
from MahjongAI.process_xml import process
fs = []
for k in range(4):
    hands, dora, pool = deal({}, seed=k)
    ev = [init(hands, dora)]
    for j in range(8):
        ev += [draw(j % 4, pool[j]), disc(j % 4, pool[j])]
    fs.append(write((ev + [END]) * 3, name='%d.log' % k))
sys.setswitchinterval(1e-5)
errs = []
def work(f):
    for _ in range(25):
        try:
            process(f)
        except Exception as e:
            errs.append(repr(e))
            return
for f in fs:
    work(f)
check(not errs, 'alone: %r' % errs[:1])
ts = [threading.Thread(target=work, args=(f,)) for f in fs]
[x.start() for x in ts]
[x.join() for x in ts]
check(not errs, 'in threads: %r' % errs[:1])
''')

seed('loader-changes-directory', 'C27', 'utils/dataloader.py', [('''                all_halfturns, all_encoding_tokens = process(
                    os.path.join(self.path, filename)
                )
''', '''                with contextlib.chdir(self.path):
                    all_halfturns, all_encoding_tokens = process(filename)
'''), ('''import os
import torch
''', '''import contextlib
import os
import torch
''')],
 'two loaders of different directories in two threads', 'games of the other directory are delivered, or none', r'''
from mk import *
import threading
from MahjongAI.utils.dataloader import DataLoader
ds = []
for k in range(2):
    for n in range(6):
        hands, dora, pool = deal({}, seed=k * 10 + n)
        ev = [init(hands, dora)]
        for j in range(4):
            ev += [draw(j % 4, pool[j]), disc(j % 4, pool[j])]
        write((ev + [END]) * (2 + k), name='d%d/%d.log' % (k, n))
    ds.append(os.path.join(SCRATCH, 'd%d' % k))
import time
def slow(ev, args):
    if ev == 'open' and str(args[0]).endswith('.log'):
        time.sleep(0.002)
sys.addaudithook(slow)
bad = []
def work(k):
    for _ in range(5):
        got = [len(g) for b in DataLoader(ds[k], 2, lambda *a: None) for g in b[0]]
        if got != [2 + k] * 6:
            bad.append((k, got))
            return
import io, contextlib
with contextlib.redirect_stdout(io.StringIO()):
    work(0)
    work(1)
    alone = list(bad)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(2)]
    [x.start() for x in ts]
    [x.join() for x in ts]
check(not alone, 'alone: %r' % alone)
check(not bad, 'games delivered: %r' % bad[:2])
''')

seed('batches-on-model', 'C27', 'agents/transformer_conv.py', [('''        (
            tensors_during,
            tensors_discard,
            tensors_post,
        ) = self.tensor_processor.prepare_batches(
''', '''        (
            self.during,
            self.discard,
            self.post,
        ) = self.tensor_processor.prepare_batches(
'''), ('''        for tensors, head in zip(
            [tensors_during, tensors_discard, tensors_post],
            ["during", "discard", "post"],
        ):
''', '''        for head in ("during", "discard", "post"):
            tensors = getattr(self, head)
''')],
 'two evaluations of the same model that are advanced alternately', 'the later steps of the first one use the games of the second', r'''
from mk import *
import torch
from MahjongAI.agents.transformer_conv import TransformerConvModel
bs = []
for k in range(2):
    hands, dora, pool = deal({}, seed=k)
    ev = [init(hands, dora)]
    for j in range(3 + 2 * k):
        ev += [draw(j % 4, pool[j]), disc(j % 4, pool[j])]
    r = run(ev + [END])
    bs.append(([r[0]], [r[1]]))
torch.manual_seed(0)
m = TransformerConvModel().eval()
with torch.no_grad():
    alone = [[x[0].shape for x in m(*b, sample=False)] for b in bs]
    its = [m(*b, sample=False) for b in bs]
    got = [[], []]
    live = [0, 1]
    while live:
        for k in list(live):
            x = next(its[k], None)
            if x is None:
                live.remove(k)
            else:
                got[k].append(x[0].shape)
check(got == alone, 'alone %r, alternately %r' % (alone, got))
''')

seed('stale-saves-removed', 'C27', 'supervised_learning.py', [('''    os.makedirs(checkpoint_dir, exist_ok=True)

    # Initialize model
''', '''    os.makedirs(checkpoint_dir, exist_ok=True)
    for leftover in glob.glob(os.path.join(checkpoint_dir, "*.tmp")):
        os.remove(leftover)  # of an interrupted save

    # Initialize model
'''), ('''    if latest_checkpoint:
        # Load the model state
''', '''    if latest_checkpoint is not None:
        # Load the model state
''')],
 'a run that starts while another run in the same directory is saving', 'the half-written checkpoint of the other run is deleted: that run fails at its save', r'''
from mk import *
os.chdir(SCRATCH)
import torch
import MahjongAI.supervised_learning as S
class M(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.w = torch.nn.Parameter(torch.ones(3))
    def forward(self, a, b, sample):
        yield None, self.w.sum()
S.TransformerModel = S.TransformerConvModel = M
class DL:
    def __init__(self, *a): self.n = 0
    def __iter__(self): return self
    def __next__(self):
        self.n += 1
        if self.n > 1:
            raise StopIteration
        return [1], [1]
    def reset(self): self.n = 0
S.DataLoader = DL
old = torch.save
def save(*a, **k):
    old(*a, **k)
    if not os.path.exists('started'):
        open('started', 'w').close()
        pid = os.fork()             # another run starts now
        if pid == 0:
            try:
                S.train('transformer_conv', 1)
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
torch.save = save
try:
    S.train('transformer', 1)
except Exception as e:
    check(False, 'the first run: %r' % e)
check(sorted(f for f in os.listdir('saved_models') if f.endswith('.pt')) == ['model_transformer_checkpoint_iter_0.pt', 'model_transformer_conv_checkpoint_iter_0.pt'], 'files %r' % os.listdir('saved_models'))
''')

# bugs against C28

seed('attention-heads-in-list', 'C28', 'agents/transformer_conv_ordered.py', [('''        self.heads = nn.ModuleList([Head(head_size) for _ in range(num_heads)])
''', '''        self.heads = [Head(head_size) for _ in range(num_heads)]
''')],
 'a trained model of the ordered family that is written to a checkpoint and read back', 'the attention heads are neither trained nor saved: the restored model has other, random heads', r'''
from mk import *
import torch
from MahjongAI.agents.transformer_conv_ordered import TransformerConvOrderedModel as M
hands, dora, pool = deal({}, seed=1)
ev = [init(hands, dora)]
for j in range(6):
    ev += [draw(j % 4, pool[j]), disc(j % 4, pool[j])]
r = run(ev + [END])
torch.manual_seed(1)
a = M(1).eval()
torch.manual_seed(2)
b = M(1).eval()
b.load_state_dict(a.state_dict())
with torch.no_grad():
    x = [v[0] for v in a([r[0]], [r[1]])]
    y = [v[0] for v in b([r[0]], [r[1]])]
check(all(torch.allclose(p, q, atol=1e-5) for p, q in zip(x, y)), 'a restored model gives other scores')
''')

seed('player-table-random', 'C28', 'agents/transformer_conv_large.py', [('''        self.player_coding_table = self._get_player_encoding().detach()  # Non-trainable
''', '''        self.player_coding_table = (
            self._get_player_encoding() + 0.02 * torch.randn(4, EMBD_SIZE)
        ).detach()  # Non-trainable
''')],
 'a checkpoint that is read into a newly built model', 'the seat encoding is random for every model and not part of the checkpoint', r'''
from mk import *
import torch
from MahjongAI.agents.transformer_conv_large import TransformerConvLargeModel as M
hands, dora, pool = deal({}, seed=1)
ev = [init(hands, dora)]
for j in range(6):
    ev += [draw(j % 4, pool[j]), disc(j % 4, pool[j])]
r = run(ev + [END])
torch.manual_seed(1)
a = M(2).eval()
torch.manual_seed(2)
b = M(2).eval()
b.load_state_dict(a.state_dict())
def enc(m):
    t = torch.zeros(1, 150, dtype=torch.int64)
    t[0, :len(r[1][0])] = torch.tensor(r[1][0])
    with torch.no_grad():
        return m.encoder(t)
check(torch.allclose(enc(a), enc(b), atol=1e-6), 'a restored model encodes the history differently')
''')

seed('state-scale-remembered', 'C28', 'agents/transformer.py', [('''        x1, x2, x3 = state_obj  # Unpack the tuple
''', '''        x1, x2, x3 = state_obj
        if self.training:  # scale of the situations seen in training
            self.scale = 0.99 * self.scale + 0.01 * max(float(x3.abs().max()), 1.0) / 70
        x3 = x3 / self.scale
'''), ('''        super(StateNet, self).__init__()
''', '''        super(StateNet, self).__init__()
        self.scale = 1.0
''')],
 'a model that has been trained, written to a checkpoint and read back', 'the scale of the inputs reached in training is not part of the checkpoint', r'''
from mk import *
import torch
from MahjongAI.agents.transformer import TransformerModel as M
hands, dora, pool = deal({}, seed=1)
ev = [init(hands, dora)]
for j in range(6):
    ev += [draw(j % 4, pool[j]), disc(j % 4, pool[j])]
r = run(ev + [END])
torch.manual_seed(1)
a = M()
a.train()
for _ in range(30):
    list(a([r[0]], [r[1]]))
a.eval()
b = M().eval()
b.load_state_dict(a.state_dict())
with torch.no_grad():
    x = [v[0] for v in a([r[0]], [r[1]])]
    y = [v[0] for v in b([r[0]], [r[1]])]
check(all(torch.allclose(p, q, atol=1e-6, rtol=0) for p, q in zip(x, y)), 'a restored model gives other scores: %r' % [float((p - q).abs().max()) for p, q in zip(x, y)])
''')

seed('discard-by-kind', 'C29', 'process_xml.py', [('''                assert hands[player, tile] == 1.0
''', '''                assert hand_tensors[player][tile_idx[0]] >= 1.0
''')],
 'a log in which a seat discards a tile it does not hold while it holds another copy of the same kind', 'such a log is turned into training data instead of being refused', r'''
from mk import *
hands, dora, pool = deal({0: [t('3m', 0), t('3m', 1)]}, reserve=[t('3m', 2), t('9p', 3)], seed=4)
good = [init(hands, dora), draw(0, t('9p', 3)), disc(0, t('3m', 1)), draw(1, pool[0]), disc(1, pool[0]), END]
run(good)
bad = [init(hands, dora), draw(0, t('9p', 3)), disc(0, t('3m', 2)), draw(1, pool[0]), disc(1, pool[0]), END]
try:
    run(bad)
    check(False, 'a discard of a tile that is not in the hand is accepted')
except Exception as e:
    print('ok: refused', type(e).__name__)
''')

seed('exposed-by-kind', 'C29', 'process_xml.py', [('''                for e in exposed:
                    assert hands[player, e] == 1.0
                    hands[player, e] -= 1.0
''', '''                for e in exposed:
                    assert hand_tensors[player][TILE2IDX[e]].min() >= 1.0
                    hands[player, e] = 0.0
''')],
 'a log with a call that lays down another copy than the caller holds', 'such a log is turned into training data instead of being refused', r'''
from mk import *
x = [t('7s', c) for c in range(4)]
hands, dora, pool = deal({1: x[:2]}, reserve=x[2:], seed=5)
k = [d for d in hands[1] if d not in x][0]
def log(code):
    return [init(hands, dora), draw(0, x[2]), disc(0, x[2]), ('N', {'who': '1', 'm': str(code)}), disc(1, k), draw(2, pool[0]), disc(2, pool[0]), END]
run(log(pon_code(x[:3], x[2], 3)))
try:
    run(log(pon_code([x[0], x[2], x[3]], x[2], 3)))
    check(False, 'a call with a tile that is not in the hand is accepted')
except Exception as e:
    print('ok: refused', type(e).__name__)
''')

seed('stray-results-skipped', 'C29', 'process_xml.py', [('''            assert event["event"] in ["AGARI", "RYUUKYOKU"]

            if event["event"] == "AGARI":
''', '''            if event["event"] == "AGARI":
''')],
 'a log whose round goes on after its result', 'such a log is turned into training data instead of being refused', r'''
from mk import *
ev = game(n=9)
run(ev)
hands, dora, pool = deal({}, seed=3)
try:
    run(ev + [draw(0, pool[0]), disc(0, pool[0])] + game(seed=8, n=5))
    check(False, 'events after the result of a round are accepted')
except Exception as e:
    print('ok: refused', type(e).__name__)
''')

seed('log-kept-open', 'C30', 'supervised_learning.py', [('''    print(f"[{timestamp}] {message}")
    with open(log_file, "a") as f:
        f.write(f"[{timestamp}] {message}\\n")
''', '''    global log_handle
    print(f"[{timestamp}] {message}")
    if log_handle is None or log_handle.name != log_file:
        log_handle = open(log_file, "a")
    log_handle.write(f"[{timestamp}] {message}\\n")
'''), ('''eval_interval = 1
''', '''log_handle = None
eval_interval = 1
''')],
 'a training run that is killed', 'messages wait in a buffer; those of a killed run are not in its log', r'''
from mk import *
import signal, subprocess
os.makedirs(SCRATCH + '/w')
code = """
import sys, os
sys.path.insert(0, %r)
import MahjongAI.supervised_learning as sl
sl.log_message('before the crash')
import signal
os.kill(os.getpid(), signal.SIGKILL)
""" % os.getcwd()
p = subprocess.run([sys.executable, '-c', code], cwd=SCRATCH + '/w')
text = ''.join(open(os.path.join(SCRATCH, 'w', f)).read() for f in os.listdir(SCRATCH + '/w') if f.startswith('training_log_'))
check(p.returncode == -signal.SIGKILL and 'before the crash' in text, 'the message of a killed run is in its log: %r' % text)
''')

seed('thousand-batches', 'C30', 'supervised_learning.py', [('''            if (batch_count * batch_size) % 1000 < batch_size:
''', '''            if batch_count % 1000 == 0:
''')],
 'a year with more than a thousand games', 'validation happens after every thousandth batch instead of game', r'''
from mk import *
os.makedirs(SCRATCH + '/w')
repo = os.getcwd()
os.chdir(SCRATCH + '/w')
for y in list(range(2012, 2020)) + [2021]:
    os.makedirs('data/processed/%d' % y)
import shutil
for k in range(1005):
    if k == 0:
        src = write(game(n=2), name='g.xml')
    shutil.copy(src, 'data/processed/2012/%04d.log' % k)
shutil.copy(src, 'data/processed/2021/a.log')
import MahjongAI.supervised_learning as sl
from MahjongAI.agents.transformer_conv import TransformerConvModel as M
vals = []
def forward(self, *a, **k):
    p = next(self.parameters())
    if not self.training:
        vals.append(1)
    yield None, p.reshape(-1)[0] * 1.0
M.forward = forward
import io, contextlib
with contextlib.redirect_stdout(io.StringIO()):
    sl.train('transformer_conv', 1)
check(len(vals) == 2, '1005 games: validated after the first batch and at the thousandth game: %d times' % len(vals))
''')

seed('iterations-truncated', 'C30', 'supervised_learning.py', [('''        max_iters = int(sys.argv[2])
''', '''        max_iters = int(float(sys.argv[2]))
''')],
 'a number of iterations that is not whole on the command line', 'the command trains a truncated number of iterations instead of stopping with an error', r'''
from mk import *
import subprocess
os.makedirs(SCRATCH + '/w')
src = write(game(n=2), name='g.xml')
for y in list(range(2012, 2020)) + [2021]:
    os.makedirs(SCRATCH + '/w/data/processed/%d' % y)
    shutil.copy(src, SCRATCH + '/w/data/processed/%d/a.log' % y)
p = subprocess.run([sys.executable, os.path.join(os.getcwd(), 'MahjongAI/supervised_learning.py'), 'transformer', '0.7'], cwd=SCRATCH + '/w',
                   env=dict(os.environ, PYTHONPATH=os.getcwd()), capture_output=True, text=True)
check(p.returncode != 0, 'iterations 0.7 are refused: exit %d' % p.returncode)
''')
