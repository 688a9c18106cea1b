"""Mutation experiment (not a registered check): which small changes of /repo do the monitors notice?

  mutate.py gen OUT.jsonl [--per-file N] [--seed S]     make mutants
  mutate.py run OUT.jsonl RESULT.jsonl [--jobs 8] [--scale 0.15]
Scratch copies live under /tmp/w/mut and are removed at the end.
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
FILES = {
    'draw.py': 'C01 C02 C03 C04 C10 C09 C11 C06 C13',
    'decision.py': 'C04 C02 C03 C10 C19',
    'process_xml.py': 'C08 C06 C04 C11 C10 C09 C07 C12 C05 C13 C14 C15 C19 C20 C18',
    'turn.py': 'C08 C07 C13 C14',
    'state.py': 'C07 C06 C15',
    'gameinfo.py': 'C12 C07 C05',
    'result.py': 'C10 C13',
    'utils/agari.py': 'C05 C10 C19 C13',
    'utils/constants.py': 'C06 C24 C09 C15 C18 C14 C07',
    'utils/dataloader.py': 'C20 C22 C23',
    'utils/shanten.py': 'C24',
    'data/scrape_data.py': 'C25',
    'supervised_learning.py': 'C22 C21 C23',
    'agents/transformer.py': 'C14 C15 C17 C16 C18 C19 C22 C23',
    'agents/transformer_conv.py': 'C14 C15 C17 C16 C18 C19 C22 C23',
    'agents/transformer_conv_large.py': 'C14 C15 C17 C16 C18 C19 C22 C23',
    'agents/transformer_conv_ordered.py': 'C14 C15 C17 C16 C18 C19 C22 C23',
}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is',
       ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.FloorDiv: '%', ast.Mod: '//', ast.LShift: '>>', ast.RShift: '<<', ast.BitAnd: '|',
       ast.BitOr: '&', ast.Div: '*'}


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.splitlines(True)
        self.off = [0]
        for l in self.lines:
            self.off.append(self.off[-1] + len(l.encode()))
        self.b = src.encode()
        self.out = []
        self.skip = 0

    def pos(self, n):
        return self.off[n.lineno - 1] + n.col_offset, self.off[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, b = self.pos(n)
        return self.b[a:b].decode()

    def add(self, n, new, kind):
        a, b = self.pos(n)
        if self.b[a:b].decode() != new:
            self.out.append((a, b, new, kind, n.lineno))

    def visit_If(self, n):
        t = self.text(n.test)
        if '__name__' in t:
            return
        if t == 'verbose':
            return
        self.add(n.test, 'not (%s)' % t, 'negate-if')
        self.add(n.test, 'True', 'if-true')
        self.add(n.test, 'False', 'if-false')
        self.generic_visit(n)

    def visit_While(self, n):
        self.generic_visit(n)

    def visit_Assert(self, n):
        return

    def visit_Raise(self, n):
        return

    def visit_FunctionDef(self, n):
        if n.name == '__repr__' or n.name == 'log_message':
            return
        for s in n.body:
            self.visit(s)
        for d in n.args.defaults:
            self.visit(d)

    def visit_AnnAssign(self, n):
        if n.value:
            self.visit(n.value)

    def visit_Import(self, n):
        return

    visit_ImportFrom = visit_Import

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, ast.Call):
            t = self.text(n.value)
            if t.startswith(('print', 'log_message', 'sys.path', 'super()')):
                return
            self.add(n, 'pass', 'drop-call')
        self.generic_visit(n)

    def visit_Assign(self, n):
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, 'pass', 'drop-augassign')
        op = {ast.Add: '-=', ast.Sub: '+='}.get(type(n.op))
        if op:
            self.add(n, '%s %s %s' % (self.text(n.target), op, self.text(n.value)), 'flip-aug')
        self.generic_visit(n)

    def visit_Break(self, n):
        self.add(n, 'continue', 'break-continue')
        self.add(n, 'pass', 'break-pass')

    def visit_Continue(self, n):
        self.add(n, 'pass', 'continue-pass')
        self.add(n, 'break', 'continue-break')

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            new = CMP.get(type(n.ops[0]))
            if new:
                self.add(n, '%s %s %s' % (self.text(n.left), new, self.text(n.comparators[0])), 'compare')
        else:
            l, r = self.text(n.left), self.text(n.comparators[-1])
            m = self.text(n.comparators[0])
            self.add(n, '%s %s %s' % (m, '<=', r), 'compare-drop')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        for i in range(len(n.values)):
            rest = [v for j, v in enumerate(n.values) if j != i]
            op = ' and ' if isinstance(n.op, ast.And) else ' or '
            self.add(n, '(' + op.join('(%s)' % self.text(v) for v in rest) + ')', 'drop-operand')
        op = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.add(n, '(' + op.join('(%s)' % self.text(v) for v in n.values) + ')', 'and-or')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)) and not isinstance(n.operand, ast.Constant):
            self.add(n, '(%s)' % self.text(n.operand), 'drop-unary')
        elif isinstance(n.op, ast.USub):
            self.add(n, self.text(n.operand), 'drop-minus')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        new = BIN.get(type(n.op))
        if new and not isinstance(n.left, ast.JoinedStr):
            self.add(n, '%s %s %s' % (self.text(n.left), new, self.text(n.right)), 'arith')
        self.generic_visit(n)

    def visit_Constant(self, n):
        if n.value is True or n.value is False:
            self.add(n, str(not n.value), 'bool')
        elif isinstance(n.value, int):
            t = self.text(n)
            self.add(n, '%d' % (n.value + 1), 'const+1')
            if n.value:
                self.add(n, '%d' % (n.value - 1), 'const-1')
        elif isinstance(n.value, float):
            self.add(n, repr(n.value * 2 + 1.0 * (n.value == 0)), 'float')

    def visit_JoinedStr(self, n):
        return

    def visit_Subscript(self, n):
        if isinstance(n.slice, ast.Slice):
            self.add(n, self.text(n.value), 'drop-slice')
        self.generic_visit(n)

    def visit_Call(self, n):
        t = self.text(n.func)
        if t in ('print', 'log_message', 'isinstance'):
            return
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'float', 'long', 'detach') and not n.args:
            self.add(n, self.text(n.func.value), 'drop-.%s()' % n.func.attr)
        if t == 'copy.deepcopy':
            self.add(n, self.text(n.args[0]), 'drop-deepcopy')
        if len(n.args) >= 2 and t not in ('super',):
            a = [self.text(x) for x in n.args]
            if a[0] != a[1]:
                k = n.args
                b0, e0 = self.pos(k[0])
                b1, e1 = self.pos(k[1])
                mid = self.b[e0:b1].decode()
                self.out.append((b0, e1, a[1] + mid + a[0], 'swap-args', n.lineno))
        self.generic_visit(n)

    def visit_Return(self, n):
        self.generic_visit(n)

    def visit_Name(self, n):
        # seats mixed up
        swap = {'player': None, 'remaining_tiles_pov': 'remaining_tiles', 'hand_tensors_full': 'hand_tensors', 'double_reaches': 'reaches',
                'kyotaku': 'honba', 'player_idx': 'action_player', 'x1': None}.get(n.id)
        if swap and isinstance(n.ctx, ast.Load):
            self.add(n, swap, 'name')


def gen(o):
    rng = random.Random(o.seed)
    with open(o.out, 'w') as f:
        for name in FILES:
            if o.only and name not in o.only.split(','):
                continue
            p = os.path.join(REPO, 'MahjongAI', name)
            src = open(p, newline='').read()
            g = Gen(src)
            g.visit(ast.parse(src))
            ms = g.out
            good = []
            for m in ms:
                new = g.b[:m[0]] + m[2].encode() + g.b[m[1]:]
                try:
                    compile(new, name, 'exec')
                except SyntaxError:
                    continue
                good.append(m)
            rng.shuffle(good)
            print(name, len(good))
            for m in good[:o.per_file]:
                f.write(json.dumps({'file': name, 'a': m[0], 'b': m[1], 'old': g.b[m[0]:m[1]].decode(), 'new': m[2], 'kind': m[3],
                                    'line': m[4]}) + '\n')


LOCK = threading.Lock()
SLOTS = []


def one(m, o):
    with LOCK:
        slot = SLOTS.pop()
    d = '/tmp/w/mut/s%d' % slot
    try:
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        shutil.copytree(os.path.join(REPO, 'MahjongAI'), d + '/repo/MahjongAI', ignore=shutil.ignore_patterns('__pycache__'))
        p = os.path.join(d, 'repo/MahjongAI', m['file'])
        b = open(p, 'rb').read()
        b = b[:m['a']] + m['new'].encode() + b[m['b']:]
        open(p, 'wb').write(b)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1')
        r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider', 'MahjongAI/tests/test_naki.py'], cwd=d + '/repo',
                           env=env, capture_output=True, text=True, timeout=200)
        if r.returncode:
            m['result'] = 'tests'
            return m
        env.update(MJ_REPO=d + '/repo', MJ_EVID=d + '/ev', MJ_SCALE=str(o.scale), VERIF_SEED='7')
        m['result'] = 'SURVIVED'
        for c in FILES[m['file']].split():
            try:
                r = subprocess.run([HERE + '/run.py', c, '--tier', 'quick', '--seed', '7', '--jobs', '1'], cwd=HERE, env=env, capture_output=True, text=True, timeout=1500)
            except subprocess.TimeoutExpired:
                m.setdefault('odd', []).append('%s timeout' % c)
                continue
            if r.returncode == 1 and 'VIOLATION property=' in r.stdout:
                m['result'] = c
                m['msg'] = r.stdout[:400]
                return m
            if r.returncode != 0:
                m.setdefault('odd', []).append('%s rc=%d %s' % (c, r.returncode, (r.stdout + r.stderr)[-600:]))
        return m
    except Exception as e:
        m['result'] = 'error %r' % e
        return m
    finally:
        shutil.rmtree(d, ignore_errors=True)
        with LOCK:
            SLOTS.append(slot)


def run(o):
    SLOTS.extend(range(o.jobs))
    ms = [json.loads(l) for l in open(o.out)]
    done = set()
    if os.path.exists(o.result):
        for l in open(o.result):
            x = json.loads(l)
            done.add((x['file'], x['a'], x['b'], x['new']))
    ms = [m for m in ms if (m['file'], m['a'], m['b'], m['new']) not in done]
    random.Random(3).shuffle(ms)
    with open(o.result, 'a') as f, ThreadPoolExecutor(o.jobs) as ex:
        for m in ex.map(lambda m: one(m, o), ms):
            f.write(json.dumps(m) + '\n')
            f.flush()


if __name__ == '__main__':
    a = argparse.ArgumentParser()
    a.add_argument('cmd')
    a.add_argument('out')
    a.add_argument('result', nargs='?')
    a.add_argument('--per-file', type=int, default=60)
    a.add_argument('--seed', type=int, default=1)
    a.add_argument('--jobs', type=int, default=8)
    a.add_argument('--scale', type=float, default=0.15)
    a.add_argument('--only')
    o = a.parse_args()
    gen(o) if o.cmd == 'gen' else run(o)
