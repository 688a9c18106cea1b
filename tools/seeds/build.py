"""(re)builds /verif/seeded from the table below; patches are taken against /repo's HEAD"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(os.path.dirname(HERE)), 'seeded')
SEEDS = []


def seed(id, prop, file, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, prop=prop, edits=edits if isinstance(edits, dict) else {file: edits}, needs=needs, breaks=breaks, demo=demo))


for f in sorted(os.listdir(HERE)):
    if f.startswith('s_') and f.endswith('.py'):
        exec(open(os.path.join(HERE, f)).read())

only = sys.argv[1:]
for s in SEEDS:
    if only and s['id'] not in only:
        continue
    d = os.path.join(OUT, s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    tmp = tempfile.mkdtemp(prefix='seedb_')
    try:
        subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
        subprocess.check_call('git -C /repo archive HEAD | tar x -C %s' % tmp, shell=True)
        subprocess.check_call('cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm x' % tmp, shell=True)
        for f, eds in s['edits'].items():
            p = os.path.join(tmp, 'MahjongAI', f)
            b = open(p, newline='').read()
            for old, new in eds:
                assert b.count(old) == 1, (s['id'], f, b.count(old), old)
                b = b.replace(old, new)
            open(p, 'w', newline='').write(b)
        diff = subprocess.check_output(['git', '-C', tmp, 'diff'])
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'].lstrip('\n'))
        shutil.copy(os.path.join(HERE, 'mk.py'), d)
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        # confirm
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        ok = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', env=env, capture_output=True, text=True)
        bad = subprocess.run(['bash', d + '/demo.sh'], cwd=tmp, env=env, capture_output=True, text=True)
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'MahjongAI/tests/test_naki.py'], cwd=tmp, env=env, capture_output=True, text=True)
        orig = []
        for f in s['edits']:
            bl = subprocess.check_output(['git', '-C', '/repo', 'blame', '-s', '--', 'MahjongAI/' + f], text=True).split('\n')
            n = 0
            for l in diff.decode().split('diff --git')[1:]:
                if 'b/MahjongAI/' + f not in l.split('\n')[0]:
                    continue
                for x in l.split('\n'):
                    if x.startswith('@@'):
                        n = int(x.split()[1].split(',')[0][1:])
                    elif x.startswith('-') and not x.startswith('---'):
                        orig.append(bl[n - 1].startswith('^1f04a37'))
                        n += 1
                    elif x.startswith(' '):
                        n += 1
        if not any(orig):
            print('      no original line changed: %r' % orig)
        good = any(orig) and ok.returncode == 0 and bad.returncode != 0 and t.returncode == 0
        print('%-28s %s clean=%d patched=%d tests=%s' % (s['id'], 'OK ' if good else 'BAD', ok.returncode, bad.returncode, t.stdout.strip().split('\n')[-1][:40]))
        if not good:
            print(ok.stdout[-800:], ok.stderr[-1500:], '--- patched', bad.stdout[-500:], bad.stderr[-800:], t.stdout[-500:] if t.returncode else '')
        else:
            print('     ', (bad.stdout + bad.stderr).strip().split('\n')[-1][:150])
    finally:
        shutil.rmtree(tmp)
