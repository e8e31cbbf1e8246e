"""Makes and tries planted bugs (development helper, not used by checks).

seedtool.py make ID...   writes /verif/seeded/ID from dev/seeds/ID.py
seedtool.py try ID...    in a scratch copy bound over /repo: demo, patch, build, tests, demo, the check of the property
seedtool.py check [--all] ID...  only the checks (the property's, or every claimed one), against the patched tree
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = '/verif'
NW = int(os.environ.get('NW', '3'))


def spec(i):
    s = importlib.util.spec_from_file_location(i.replace('-', '_'), f'{VERIF}/dev/seeds/{i}.py')
    m = importlib.util.module_from_spec(s)
    s.loader.exec_module(m)
    return m


def worker(n):
    d = f'/tmp/seedwork{n}'
    if not os.path.exists(d):
        subprocess.run(['cp', '-a', '/repo', d], check=True)
    h = subprocess.run(['git', '-C', '/repo', 'rev-parse', 'HEAD'], capture_output=True, text=True).stdout.strip()
    subprocess.run(['git', '-C', d, 'fetch', '-q', '/repo', 'HEAD'], check=True)
    subprocess.run(['git', '-C', d, 'checkout', '-q', '-f', h], check=True)
    return d


def make(i):
    m = spec(i)
    d = worker(0)
    subprocess.run(['git', '-C', d, 'checkout', '-q', '--', '.'], check=True)
    for f, old, new in m.EDITS:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit(f'{i}: {f}: {s.count(old)} matches of {old!r}')
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', d, 'diff'], capture_output=True, text=True, check=True).stdout
    subprocess.run(['git', '-C', d, 'checkout', '-q', '--', '.'], check=True)
    o = f'{VERIF}/seeded/{i}'
    os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(diff)
    json.dump({'property': m.PROPERTY, 'needs': m.NEEDS, 'what_it_breaks': m.BREAKS}, open(o + '/meta.json', 'w'), indent=1)
    open(o + '/demo.py', 'w').write(m.DEMO.lstrip('\n'))
    shutil.copy(f'{VERIF}/dev/demo/' + ('cxx_demo.py' if 'cxx_demo' in m.DEMO else 'core_demo.py'), o)
    shutil.copy(f'{VERIF}/dev/demo/demo.sh', o)


SCRIPT = r'''
mount --bind %(d)s /repo || exit 90
cd /repo && git checkout -q -- . || exit 91
if [ %(full)d = 1 ]; then
 bash /opt/vp/build.sh >%(log)s 2>&1 || { echo BASE-BUILD-FAILS; exit 0; }
 timeout 300 bash %(o)s/demo.sh >%(log)s.demo0 2>&1; r=$?
 [ $r = 0 ] && echo -n "demo0 ok; " || { echo "DEMO FAILS ON THE UNCHANGED TREE ($r)"; tail -5 %(log)s.demo0; }
fi
git apply %(o)s/patch.diff || { echo PATCH-FAILS; exit 0; }
if [ %(full)d = 1 ]; then
 bash /opt/vp/build.sh >%(log)s 2>&1 || { echo BUILD-FAILS; tail -5 %(log)s; git checkout -q -- .; exit 0; }
 bash /opt/vp/test.sh %(log)s.json >%(log)s.t 2>&1
 python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'))
t=json.load(open('%(log)s.json'))
names=b if isinstance(b,list) else (b.get('stable') or b.get('passed') or b.get('tests'))
miss=set(names)-set(t['passed'])
print('tests ok; ' if not miss else 'TESTS FAIL %%s; ' %% sorted(miss)[:3], end='')
P
 timeout 300 bash %(o)s/demo.sh >%(log)s.demo1 2>&1; r=$?
 [ $r != 0 ] && echo -n "demo1 fails ($r): $(tail -1 %(log)s.demo1 | cut -c1-100); " || echo -n "DEMO PASSES WITH THE PATCH; "
fi
cd /verif
for p in %(props)s; do
 ./check $p >%(log)s.c 2>&1; r=$?
 if [ $r = 1 ]; then echo; echo "   $p CAUGHT: $(grep -m2 VIOLATION %(log)s.c | cut -c1-300)"; elif [ $r = 0 ]; then [ %(all)d = 1 ] || echo "$p MISSED"; else echo "$p ERROR $(tail -2 %(log)s.c)"; fi
done
cd /repo && git checkout -q -- .
'''


def attempt(i, n, full, allp):
    d = worker(n)
    o = f'{VERIF}/seeded/{i}'
    prop = json.load(open(o + '/meta.json'))['property']
    props = [prop]
    if allp:
        props = [c['property'] for c in json.load(open(VERIF + '/MANIFEST.json'))['checks']]
    s = SCRIPT % dict(d=d, o=o, log=f'/tmp/seedlog{n}', full=full, props=' '.join(props), all=allp)
    r = subprocess.run(['unshare', '-Urm', 'bash', '-c', s], capture_output=True, text=True)
    return f'{i} [{prop}]: ' + r.stdout.strip() + r.stderr.strip()[-500:]


def main():
    cmd, ids = sys.argv[1], sys.argv[2:]
    allp = '--all' in ids
    ids = [i for i in ids if i != '--all']
    if ids == ['ALL']:
        ids = sorted(os.listdir(VERIF + '/seeded'))
    if cmd == 'make':
        for i in ids:
            make(i)
        return
    if cmd == 'mktry':
        for i in ids:
            make(i)
    lanes = [ids[k::NW] for k in range(NW)]

    def lane(k):
        for i in lanes[k]:
            print(attempt(i, k, cmd != 'check', int(allp)), flush=True)

    with ThreadPoolExecutor(NW) as ex:
        list(ex.map(lane, range(NW)))


main()
