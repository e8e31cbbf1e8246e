"""Runs a check on variants of the tree: mutate.py PXX FILE <<< "old ===> new" blocks separated by lines of ----."""
import os, shutil, subprocess, sys
pid = sys.argv[1]
BASE = os.environ.get('BASE', '/repo')
W = '/tmp/mut/w%d' % os.getpid()
os.makedirs(W, exist_ok=True)
for b in sys.stdin.read().split('\n----\n'):
    b = b.strip('\n')
    if not b.strip():
        continue
    lines = b.split('\n')
    want, text = None, ''
    if lines[-1][:4] in ('0 | ', '1 | '):
        want, text = int(lines[-1][0]), lines.pop()[4:]
        b = '\n'.join(lines)
    f = lines[0].strip()
    old, new = '\n'.join(lines[1:]).split('\n===>\n') if '\n===>\n' in b else '\n'.join(lines[1:]).split(' ===> ')
    subprocess.run(['rsync', '-a', '--delete', '--exclude', '_build', '--exclude', '.git', os.environ.get('BASE', '/repo') + '/', W + '/'], check=True) if shutil.which('rsync') else \
        subprocess.run(f'rm -rf {W}/src && cp -a {BASE}/src {W}/ && cp -a {BASE}/CMakeLists.txt {W}/ 2>/dev/null; true', shell=True)
    p = os.path.join(W, f if f.startswith('src/') else 'src/pyinterp/core/' + f)
    s = open(p).read()
    if s.count(old) < 1:
        print('?? not found:', old[:80]); continue
    open(p, 'w').write(s.replace(old, new, 1))
    r = subprocess.run(['./check', pid], cwd='/verif', env={**os.environ, 'VP_REPO': W}, capture_output=True, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    print('WRONG' if want is not None and want != r.returncode else 'ok   ', r.returncode, '|', (text or new.strip().split('\n')[0])[:60], '|', (v[0].split('rule=')[1][:150] if v else (r.stdout + r.stderr)[-100:].replace('\n', ' ') if r.returncode != 0 else ''))
shutil.rmtree(W)
