"""reverts each recorded repair in a scratch clone of /repo and runs the quick check of its property: the defect must be
reported again.  Prints one line per repair."""
import os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
jobs = sys.argv[1] if len(sys.argv) > 1 else '8'
only = sys.argv[2:]
for l in open(HERE + '/known-findings.txt'):
    m = re.match(r'fixed: property=(\S+) (\w+) (.*)', l)
    if not m or only and m.group(2)[:7] not in only:
        continue
    prop, commit, what = m.groups()
    tmp = tempfile.mkdtemp(prefix='revert_')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', tmp + '/r'])
        git = ['git', '-C', tmp + '/r', '-c', 'user.name=x', '-c', 'user.email=x']
        r = subprocess.run(git + ['revert', '-n', commit], capture_output=True, text=True)
        if r.returncode:
            print('%s %s CONFLICT %s' % (commit[:7], prop, what[:60]), flush=True)
            continue
        t = time.time()
        env = dict(os.environ, MJ_REPO=tmp + '/r', MJ_EVID=tmp + '/ev', VERIF_SEED='1', VERIF_TIER='quick')
        r = subprocess.run([HERE + '/run.py', prop, '--tier', 'quick', '--jobs', jobs], cwd=HERE, env=env, capture_output=True, text=True)
        v = 'VIOLATION property=%s ' % prop in r.stdout
        print('%s %s %s %3.0fs %s' % (commit[:7], prop, 'caught' if r.returncode == 1 and v else 'MISSED rc=%d' % r.returncode, time.time() - t, what[:60]), flush=True)
    finally:
        shutil.rmtree(tmp)
