"""runs the quick check of its property (or other checks: --checks C05,C07) against each seeded change, in a scratch copy"""
import argparse, json, os, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = argparse.ArgumentParser()
a.add_argument('ids', nargs='*')
a.add_argument('--checks')
a.add_argument('--seed', default='1')
a.add_argument('--jobs', default='8')
o = a.parse_args()
for i in sorted(os.listdir(HERE + '/seeded')):
    if o.ids and i not in o.ids:
        continue
    d = HERE + '/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    tmp = tempfile.mkdtemp(prefix='seedr_')
    try:
        subprocess.check_call('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git apply %s/patch.diff' % (tmp, tmp, d), shell=True)
        for c in (o.checks.split(',') if o.checks else [prop]):
            t = time.time()
            env = dict(os.environ, MJ_REPO=tmp, MJ_EVID=tmp + '/ev', VERIF_SEED=o.seed, VERIF_TIER='quick')
            r = subprocess.run([HERE + '/run.py', c, '--tier', 'quick', '--jobs', o.jobs], cwd=HERE, env=env, capture_output=True, text=True)
            v = [l for l in r.stdout.split('\n') if 'VIOLATION' in l]
            print('%-28s %s rc=%d %4.0fs %s' % (i, c, r.returncode, time.time() - t, 'CAUGHT ' + r.stdout.strip().split('\n')[-1][:150] if r.returncode == 1 and v else 'MISSED ' + (r.stdout + r.stderr)[-300:]), flush=True)
    finally:
        shutil.rmtree(tmp)
