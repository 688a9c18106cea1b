# bugs against C26

seed('failed-games-kept', 'C26', 'utils/dataloader.py', [('''        self.batch_count = 0
''', '''        self.batch_count, self.failed = 0, []
'''), ('''            except AssertionError as e:
                print(f"Assertion error: {e} happened in {filename}")
''', '''            except AssertionError as e:
                self.failed.append((filename, e))
                print(f"Assertion error: {e} happened in {filename}")
''')],
 'a long pass over files of which some fail while they are processed',
 'every exception that is kept holds the frames of the loader and of the processing: the games of all earlier batches stay in memory', r'''
from mk import *
import gc
from MahjongAI.utils.dataloader import DataLoader
d = os.path.join(SCRATCH, 'g')
hands, dora, pool = deal({}, seed=3)
x = hands[0][0]
good = [init(hands, dora), draw(0, pool[0]), disc(0, x), draw(1, pool[1]), disc(1, hands[1][0]), END]
bad = [init(hands, dora), draw(0, pool[0]), disc(0, x), draw(1, pool[1]), disc(1, hands[2][0]), END]
for j in range(40):
    write(bad if j % 2 else good, name='g/%d.log' % j)
def n():
    gc.collect()
    return sum(1 for o in gc.get_objects() if type(o).__name__ == 'DuringTurn')
import io, contextlib
counts = []
with contextlib.redirect_stdout(io.StringIO()):
    for b in DataLoader(d, 1, lambda *a: None):
        counts.append(n())
        b = None
check(len(counts) == 20 and max(counts) <= 3 * counts[0] + 6, 'games in memory over the batches: %r' % counts)
''')

seed('log-open-after-error', 'C26', 'process_xml.py', [('''    with open(file_path, "rb") as file:
        tree = ET.parse(file)
        root = tree.getroot()
''', '''    file = open(file_path, "rb")
    tree = ET.parse(file)
    root = tree.getroot()
    file.close()
''')],
 'a log that is no well-formed XML, and a caller that still holds the exception', 'the log file stays open', r'''
from mk import *
from MahjongAI.process_xml import process
f = os.path.join(SCRATCH, 'b.log')
open(f, 'w').write('<mjloggm><GO')
kept = []
for _ in range(3):
    try:
        process(f)
    except Exception as e:
        kept.append(e)
n = [x for x in os.listdir('/proc/self/fd') if os.path.realpath('/proc/self/fd/' + x) == os.path.realpath(f)]
check(len(kept) == 3 and not n, 'files still open: %d' % len(n))
''')

seed('validation-seeds', 'C26', 'supervised_learning.py', [('''    model.eval()  # Set model to evaluation mode
''', '''    torch.manual_seed(0) and model.eval()  # the same estimate for the same weights
''')],
 'anything random after a validation', 'training after every validation repeats the same random numbers (dropout, sampling)', r'''
from mk import *
os.chdir(SCRATCH)
import torch
import MahjongAI.supervised_learning as S
class M:
    def eval(self): pass
    def train(self): pass
    def __call__(self, a, b, sample): return [(None, torch.tensor(1.0))]
class D(list):
    def reset(self): pass
got = []
for s in (5, 6):
    torch.manual_seed(s)
    S.estimate_loss(D([([1], [1])]), M(), 1)
    got.append(torch.rand(1).item())
check(got[0] != got[1], 'random numbers after a validation: %r' % got)
''')

seed('losses-of-iteration-kept', 'C26', 'supervised_learning.py', [('''        log_message(f"iter {iter} | Loading {repr(train_dataloader)}")
''', '''        log_message(f"iter {iter} | Loading {repr(train_dataloader)}")
        iter_loss = 0.0
'''), ('''                optimizer.zero_grad()
                loss.backward()
''', '''                optimizer.zero_grad()
                loss.backward()
                iter_loss = iter_loss + loss
'''), ('''        log_message(f"iter {iter} | Processed {repr(train_dataloader)}")
''', '''        log_message(f"iter {iter} | Processed {repr(train_dataloader)} | loss {float(iter_loss)}")
''')],
 'an iteration with many training steps', 'the graphs of all steps of an iteration are kept', r'''
from mk import *
os.chdir(SCRATCH)
import torch, weakref
import MahjongAI.supervised_learning as S
alive = []
top = [0]
class Token:
    pass
class F(torch.autograd.Function):
    @staticmethod
    def forward(ctx, w):
        ctx.token = Token()
        alive.append(weakref.ref(ctx.token))
        return w.sum() * 1.0
    @staticmethod
    def backward(ctx, g):
        return g.expand(3)
class M(torch.nn.Module):
    def __init__(self):
        super().__init__()
        self.w = torch.nn.Parameter(torch.ones(3))
    def forward(self, a, b, sample):
        if not sample:
            yield None, self.w.sum().detach()
            return
        for _ in range(10):
            yield None, F.apply(self.w)
            top[0] = max(top[0], sum(1 for x in alive if x() is not None))
S.TransformerModel = M
class DL:
    def __init__(self, *a): self.n = 0
    def __iter__(self): return self
    def __next__(self):
        self.n += 1
        if self.n > 10:
            raise StopIteration
        return [1], [1]
    def reset(self): self.n = 0
S.DataLoader = DL
S.train('transformer', 1)
check(len(alive) == 100 and top[0] <= 10, 'graphs in memory: %d of %d' % (top[0], len(alive)))
''')
