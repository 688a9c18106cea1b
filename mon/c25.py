"""C25: data collection keeps only ranked logs and saves each linked game once."""
import gzip
import json
import os
import shutil
import subprocess
import sys
import tempfile

from . import core

ID = 'C25'
N = {'quick': 1440, 'thorough': 12000}
CHUNK = 2
RULE = ('the real filter script and the real downloader (with a recording stand-in for the network library) run as an '
        'unprivileged user in a scratch tree with generated files, archives (also damaged ones), pages, links and response '
        'outcomes (200, errors, a broken connection part-way); files before and after and requests made are compared with '
        'the expected sets; distinct per scenario')
REQUIRED = {'filter_runs': 60, 'deleted': 200, 'kept': 200, 'unpacked': 150, 'outside': 200, 'damaged': 10, 'scrapes': 60,
            'links': 300, 'saved': 200, 'failed': 60, 'other_links': 100, 'chains': 15, 'duplicates': 20, 'broken': 10, 'seat_links': 20}
ASSUMPTIONS = ['game identifiers in links are well-formed Tenhou identifiers', 'processed/2021 exists before downloading']
NOBODY = 65534

DRIVER = r'''
import json, sys, types, runpy
scen = json.load(open(sys.argv[2]))
log = []
def dump():
    json.dump(log, open(sys.argv[3], 'w'))
class HTTPError(Exception): pass
class ConnectionError_(IOError): pass
class Response:
    def __init__(self, status, content):
        self.status_code, self.content = status, content
        self.ok = status < 400
        self.headers, self.encoding = {}, 'utf-8'
        self.reason = str(status)
    @property
    def text(self): return self.content.decode('utf-8', 'replace')
    def raise_for_status(self):
        if self.status_code >= 400: raise HTTPError(self.status_code)
    def iter_content(self, chunk_size=1, decode_unicode=False):
        for a in range(0, len(self.content), chunk_size or 1): yield self.content[a:a + (chunk_size or 1)]
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass
def get(url, params=None, **kw):
    if params:
        url += '?' + (params if isinstance(params, str) else '&'.join('%s=%s' % (k, v) for k, v in dict(params).items()))
    log.append(url)
    if len(log) == scen['break_at']:
        dump()
        raise ConnectionError_('connection lost')
    r = scen['responses'].get(url)
    if r is None:
        return Response(404, b'not found')
    return Response(r[0], bytes.fromhex(r[1]))
class Session:
    def __init__(self): self.headers = {}
    def get(self, url, **kw): return get(url, **kw)
    def request(self, method, url, **kw): return get(url, **kw)
    def mount(self, *a): pass
    def close(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass
m = types.ModuleType('requests')
m.get, m.Session, m.session, m.Response = get, Session, Session, Response
m.request = lambda method, url, **kw: get(url, **kw)
ex = types.ModuleType('requests.exceptions')
for k, v in dict(RequestException=IOError, HTTPError=HTTPError, ConnectionError=ConnectionError_, Timeout=IOError).items():
    setattr(ex, k, v); setattr(m, k, v)
m.exceptions = ex
sys.modules['requests'], sys.modules['requests.exceptions'] = m, ex
err = None
sys.argv = sys.argv[:1] + sys.argv[1:]
prog, a = sys.argv[1], list(sys.argv)
try:
    runpy.run_path(prog, run_name='__main__')
except ConnectionError_ as e:
    err = 'connection'
except SystemExit as e:
    err = None
finally:
    sys.argv = a
    dump()
if err:
    sys.exit(7)
'''


def run_as_nobody(cmd, cwd, timeout=60):
    kw = {}
    if os.geteuid() == 0:
        for d, ds, fs in os.walk(cwd):
            for x in [d] + [os.path.join(d, f) for f in fs]:
                os.chown(x, NOBODY, NOBODY, follow_symlinks=False)
        kw = dict(user=NOBODY, group=NOBODY, extra_groups=[])
    env = {'PATH': '/usr/bin:/bin', 'HOME': cwd, 'LC_ALL': 'C.UTF-8', 'PYTHONDONTWRITEBYTECODE': '1',
           'PYTHONHASHSEED': '0'}
    p = subprocess.run(cmd, cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, env=env, **kw)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def tree(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, 'rb') as fh:
                out[os.path.relpath(p, root)] = fh.read()
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root) + '/'] = None
    return out


def put(root, rel, data):
    p = os.path.join(root, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'wb') as f:
        f.write(data)


def gid(rng):
    return '20210%d%02d%02dgm-00%s-0000-%08x' % (rng.randrange(1, 10), rng.randrange(1, 29), rng.randrange(24),
                                                 rng.choice(('a9', 'e1', '89', 'c1')), rng.getrandbits(32))


def page(rng, known):
    """html text, ids linked by it in order, numbers of other and seat links"""
    out, ids, other, seat = ['<html><head><meta charset="utf-8"><link href="http://tenhou.net/0/?log=nolink"></head><body>'], [], 0, 0
    for _ in range(rng.choice((0, 1, 2, 3, 5, 8, 12))):
        g = rng.choice(known) if known and rng.random() < 0.12 else gid(rng)
        q = rng.choice('"\"\"\'')
        c = rng.random()
        pre = rng.choice(('', '', 'class="x" ', 'target=_blank ', 'id="a" title="b" '))
        post = rng.choice(('', '', ' target="_blank"', " rel='nofollow'"))
        if c < 0.68:
            tail = ''
            if rng.random() < 0.2:
                tail = rng.choice(('&tw=0', '&tw=1', '&tw=2', '&tw=3', '&amp;tw=2', '&ts=4'))
                seat += 1
            u = 'http://tenhou.net/0/?log=' + g + tail
            ids.append(g)
            known.append(g)
        else:
            u = rng.choice(('http://tenhou.net/3/?log=%s', 'http://tenhou.net/0/?wg=%s', 'http://example.com/0/?log=%s', 'http://tenhou.net/%s',
                            'http://tenhou.net/sc/raw/dat/?f=%s', 'ftp://tenhou.net/0/?log=%s', '#%s',
                            'http://mirror.net/?u=http://tenhou.net/0/?log=%s')) % g
            other += 1
        out.append('00:0%d | 2%d | 四鳳南喰赤－ | <a %shref=%s%s%s%s>牌譜</a> | %s<br>%s' % (
            rng.randrange(10), rng.randrange(10), pre, q, u, q, post, rng.choice(('A(+50.0) B(-5.0)', 'たろう(+1.0)', 'http://tenhou.net/0/?log=plaintext',
                                                                                  '<a name="n">x</a>')), rng.choice(('\n', '\n', '\r\n', ''))))
    out.append('</body></html>')
    return ''.join(out), ids, other, seat


def filter_part(root, rng, R, pages=()):
    d = 'raw/2021/'
    os.makedirs(os.path.join(root, d), exist_ok=True)
    want = {}
    names = set()
    damaged = 0
    for rel, text in pages:
        blob = text.encode()
        if rng.random() < 0.8:
            put(root, d + rel + '.gz', gzip.compress(blob, mtime=0))
            R.ev('unpacked')
        else:
            put(root, d + rel, blob)
        want[d + rel] = blob
        names |= {rel, rel + '.gz'}
        R.ev('kept')
    gone = 0
    for _ in range(rng.choice((0, 1, 3, 8, 15, 25))):
        stem = rng.choice(('', '', ' two', ' a  b', '[1]', '*', '?x', "'q", '"dq', '$HOME', 'é漢', '-rf', '.x', ';ls', '\\n', '#', '.gz', '.html'))
        num = '2021%02d%02d%s' % (rng.randrange(1, 13), rng.randrange(1, 29), rng.choice(('', '01', '23')))
        pre = rng.choice(('scc', 'scc', 'scc', 'sca', 'scb', 'sce', 'SCC', 'sc', 'xscc', 'raw_scc', '-scc', ' scc', 's', 'scd', '2021scc'))
        ext = rng.choice(('.html.gz', '.html.gz', '.log.gz', '.html', '.txt', '', '.gz'))
        name = pre + num + stem + ext
        base = name[:-3] if name.endswith('.gz') else name
        if name in names or base in names or base + '.gz' in names or base.endswith('.gz'):
            continue
        names |= {name, base}
        data = rng.randbytes(rng.choice((0, 1, 50, 400)))
        keep = name.startswith('scc')
        if name.endswith('.gz'):
            blob = gzip.compress(data, mtime=0)
            if rng.random() < 0.1:
                blob += gzip.compress(b'second member', mtime=0)
                data += b'second member'
            if rng.random() < 0.08:
                blob = rng.choice((blob[:-5], b'not an archive'))
                put(root, d + name, blob)
                if keep:
                    want[d + name] = blob
                    damaged += 1
                    R.ev('kept')
                else:
                    gone += 1
                continue
            put(root, d + name, blob)
            if keep:
                want[d + base] = data
                R.ev('unpacked')
        else:
            put(root, d + name, data)
            if keep:
                want[d + name] = data
        if keep:
            R.ev('kept')
        else:
            gone += 1
    # bystanders
    for rel in ('raw/2020/sca1.html.gz', 'raw/2020/scc2.html.gz', 'raw/2021x.gz', 'raw/notes.txt', 'sca9.gz', 'scc9.gz',
                'raw/2021/sub/keep.txt', 'raw/2021/sccsub/sca1.gz', 'processed/2021/old.log', 'raw/20211/z.txt', 'raw/sca.html', 'home.txt'):
        if rng.random() < 0.6:
            data = rng.choice((gzip.compress(b'bystander', mtime=0), rng.randbytes(20)))
            put(root, rel, data)
            want[rel] = data
            R.ev('outside')
    R.ev('deleted', gone)
    R.ev('damaged', damaged)
    before = tree(root)
    times = rng.choice((1, 1, 1, 2))
    for _ in range(times):
        shutil.copy(os.path.join(core.PKG, 'data', 'filter_raw.sh'), os.path.join(root, 'filter_raw.sh'))
        os.chmod(os.path.join(root, 'filter_raw.sh'), 0o755)
        try:
            rc, out = run_as_nobody(['bash', 'filter_raw.sh'], root)
        except subprocess.TimeoutExpired:
            R.bad('filter-hang', 'the filter did not finish within 60 s')
            return
    os.remove(os.path.join(root, 'filter_raw.sh'))
    R.ev('filter_runs')
    after = {k: v for k, v in tree(root).items() if v is not None}
    desc = 'filter over %r' % sorted(k for k, v in before.items() if v is not None and k.startswith(d))
    for k in sorted(set(want) - set(after)):
        src = k if k in before else k + '.gz'
        if k in before or src not in after:
            R.bad('lost', '%s: %r is gone' % (desc, src))
        else:
            R.bad('packed', '%s: archive %r was not unpacked' % (desc, src))
    for k in sorted(set(after) - set(want)):
        R.bad('not-filtered', '%s: %r is still (or newly) there' % (desc, k))
    for k in sorted(set(after) & set(want)):
        R.check(after[k] == want[k], 'content', '%s: content of %r is %r, expected %r' % (desc, k, after[k][:40], want[k][:40]))
    R.ev('evaluations', 2)
    R.seen(('filter', tuple(sorted(before))))
    return desc


def scrape_part(root, rng, R, pages, write=True):
    """pages: (file name, text, ids, used)"""
    os.makedirs(os.path.join(root, 'raw/2021'), exist_ok=True)
    os.makedirs(os.path.join(root, 'processed/2021'), exist_ok=True)
    ids, order = [], []
    for name, text, gs, used in pages:
        if write:
            put(root, 'raw/2021/' + name, text.encode())
        if used:
            ids += gs
    uniq = sorted(set(ids))
    R.ev('links', len(ids))
    R.ev('duplicates', len(ids) - len(uniq))
    resp, want = {}, {}
    for g in uniq:
        u = 'https://tenhou.net/0/log/?' + g
        c = rng.random()
        data = rng.randbytes(rng.choice((0, 3, 300, 2000))) if rng.random() < 0.5 else (
            '<mjloggm ver="2.3"><SHUFFLE seed="%d"/>\r\n</mjloggm>\n' % rng.randrange(10 ** 6)).encode()
        if c < 0.7:
            resp[u] = (200, data.hex())
            want['processed/2021/' + g + '.log'] = data
        else:
            resp[u] = (rng.choice((404, 403, 500, 503, 302, 429)), data.hex())
    broken = rng.randrange(1, len(uniq) + 1) if uniq and rng.random() < 0.2 else 0
    if rng.random() < 0.4:
        put(root, 'processed/2021/earlier.log', b'earlier')
    for sub in ('raw', 'processed'):
        pass
    before = {k: v for k, v in tree(root).items() if v is not None}
    put(root, '_d/driver.py', DRIVER.encode())
    shutil.copy(os.path.join(core.PKG, 'data', 'scrape_data.py'), os.path.join(root, '_d/scrape_data.py'))
    put(root, '_d/scenario.json', json.dumps({'responses': resp, 'break_at': broken}).encode())
    try:
        rc, out = run_as_nobody([sys.executable, '_d/driver.py', '_d/scrape_data.py', '_d/scenario.json', '_d/log.json'], root)
    except subprocess.TimeoutExpired:
        R.bad('scrape-hang', 'the downloader did not finish within 60 s')
        return
    try:
        log = json.load(open(os.path.join(root, '_d/log.json')))
    except Exception:
        raise RuntimeError('driver failed: %s' % out[-1500:])
    shutil.rmtree(os.path.join(root, '_d'))
    R.ev('scrapes')
    after = {k: v for k, v in tree(root).items() if v is not None}
    desc = 'pages %r' % [(p[0], p[2]) for p in pages]
    desc = desc[:900]
    asked = set(log)
    good = {'https://tenhou.net/0/log/?' + g for g in uniq}
    R.check(asked <= good, 'asked-extra', '%s: requests not linked: %r' % (desc, sorted(asked - good)[:5]))
    if rc == 0:
        R.check(good <= asked, 'not-asked', '%s: linked games never requested: %r' % (desc, sorted(good - asked)[:5]))
    elif not broken:
        R.bad('downloader-fails', '%s: the downloader ends with %d: %s' % (desc, rc, out[-600:]))
    else:
        R.ev('broken')
        lost = log[broken - 1]
        want = {k: v for k, v in want.items() if ('https://tenhou.net/0/log/?' + k[len('processed/2021/'):-4]) in log[:broken - 1]}
    if broken and rc == 0:
        # carried on after the broken connection: that one game may be missing
        lost = log[broken - 1] if len(log) >= broken else None
        if lost:
            k = 'processed/2021/' + lost.split('?')[1] + '.log'
            if k not in after:
                want.pop(k, None)
    R.ev('saved', len(want))
    R.ev('failed', sum(1 for u in log if resp.get(u, (0,))[0] != 200))
    for k in sorted(want):
        if k in before:
            continue
        R.check(k in after, 'not-saved', '%s: %s was downloaded but not saved' % (desc, k))
        if k in after:
            R.check(after[k] == want[k], 'saved-content', '%s: %s holds %r.. (%d bytes), response was %r.. (%d bytes)' % (
                desc, k, after[k][:40], len(after[k]), want[k][:40], len(want[k])))
    extra = sorted(k for k in after if k not in want and k not in before)
    R.check(not extra, 'saved-extra', '%s: unexpected files %r' % (desc, extra[:5]))
    hit = sorted(k for k in before if after.get(k) != before[k])
    R.check(not hit, 'changed', '%s: other files changed or gone: %r' % (desc, hit[:5]))
    R.seen(('scrape', tuple(sorted(resp)), broken))
    return desc


def case(i, rng, R, tier):
    root = tempfile.mkdtemp(prefix='mjv_')
    try:
        mode = i % 3
        known = []
        pages = []
        for j in range(rng.choice((0, 1, 1, 2, 3, 4)) if mode else 0):
            text, gs, other, seat = page(rng, known)
            name = 'scc2021%02d%02d%02d.html' % (rng.randrange(1, 13), j + 1, rng.randrange(24))
            R.ev('other_links', other)
            R.ev('seat_links', seat)
            used = True
            if mode == 1 and rng.random() < 0.15:
                name, used = rng.choice((name + '.bak', name[:-5] + '.txt', name + '.gz')), False
            pages.append((name, text, gs, used))
        if mode == 0:
            d = filter_part(root, rng, R)
        elif mode == 1:
            d = scrape_part(root, rng, R, pages)
        else:
            R.ev('chains')
            d = filter_part(root, rng, R, [(p[0], p[1]) for p in pages])
            if not R.viol:
                # other kept pages may carry any text; they hold no links
                d = scrape_part_after(root, rng, R, pages)
        R.sample(d)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def scrape_part_after(root, rng, R, pages):
    # the random non-page contents are not text: keep them out of the downloader's reach
    raw = os.path.join(root, 'raw/2021')
    mine = {p[0] for p in pages}
    for f in os.listdir(raw):
        if f.endswith('.html') and f not in mine:
            os.remove(os.path.join(raw, f))
    return scrape_part(root, rng, R, pages, write=False)
