"""Runs the extractor on every translation unit and loads its output."""
from __future__ import annotations

import concurrent.futures
import hashlib
import json
import os
import pickle
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
CORE = os.path.join(REPO, 'src/pyinterp/core') + '/'
TOOL = os.path.join(VERIF, 'tool')
CACHE = os.path.join(VERIF, '.cache')


class AnalysisError(Exception):
    """The check cannot give an answer (anchor vanished, source does not parse)."""


def flags() -> list[str]:
    return [
        '-std=c++17', '-w', '-resource-dir', '/usr/lib/llvm-18/lib/clang/18',
        '-DEIGEN_USE_BLAS', '-DHAVE_IEC559', '-DNDEBUG', '-I/usr/include/eigen3',
        '-I' + CORE + 'include', '-isystem', '/usr/include/python3.12', '-fPIC'
    ]


def sha(data: bytes) -> str:
    return hashlib.sha256(data).hexdigest()[:24]


_file_hash: dict[str, str] = {}


def file_hash(path: str) -> str:
    if path not in _file_hash:
        try:
            with open(path, 'rb') as f:
                _file_hash[path] = sha(f.read())
        except OSError:
            _file_hash[path] = 'missing'
    return _file_hash[path]


def tool_path() -> str:
    key = sha(open(os.path.join(TOOL, 'cxxfacts.cpp'), 'rb').read() +
              open(os.path.join(TOOL, 'build.sh'), 'rb').read())
    out = os.path.join(TOOL, 'bin', 'cxxfacts-' + key)
    if not os.path.exists(out):
        r = subprocess.run([os.path.join(TOOL, 'build.sh'), out], capture_output=True, text=True)
        if r.returncode != 0 or not os.path.exists(out):
            raise AnalysisError('cannot build the fact extractor: ' + r.stderr[-2000:])
    return out


def units() -> list[str]:
    out = []
    for top in ('lib', 'module'):
        for d, _, fs in os.walk(os.path.join(CORE, top)):
            for f in sorted(fs):
                if f.endswith('.cpp'):
                    p = os.path.join(d, f)
                    # The module definition itself needs a newer pybind11 than the one installed and defines nothing else.
                    if p.endswith('module/main.cpp'):
                        continue
                    out.append(p)
    if len(out) < 10:
        raise AnalysisError('translation units not found under ' + CORE)
    return sorted(out)


def _parse(tool, name, source) -> str:
    """Runs the extractor on one file; the path of its output, or a text that starts with 'error: '."""
    fd, tmp = tempfile.mkstemp(dir=CACHE, suffix='.json')
    os.close(fd)
    r = subprocess.run([tool, CORE, tmp, source, '--'] + flags(), capture_output=True, text=True)
    if r.returncode != 0 or not os.path.exists(tmp) or os.path.getsize(tmp) == 0:
        if os.path.exists(tmp):
            os.unlink(tmp)
        return 'error: ' + r.stderr[-1500:]
    return tmp


def _extract(args) -> list[str]:
    """Facts of a group of translation units, parsed as one when that is possible (shared headers are then parsed and
    instantiated once) and one by one otherwise."""
    tool, group, key = args
    os.makedirs(CACHE, exist_ok=True)
    idx = os.path.join(CACHE, 'unit-' + key + '.idx')
    if os.path.exists(idx):
        try:
            entry = json.load(open(idx))
            if all(file_hash(p) == h for p, h in entry['deps'].items()):
                if all(os.path.exists(o) for o in entry['out']):
                    return entry['out']
        except (ValueError, KeyError):
            pass
    outs = []
    if len(group) > 1:
        uni = os.path.join(CACHE, 'group-%s-%d.cpp' % (key, os.getpid()))
        with open(uni, 'w') as f:
            f.write(''.join('#include "%s"\n' % u for u in group))
        tmp = _parse(tool, key, uni)
        os.unlink(uni)
        if not tmp.startswith('error: '):
            outs.append(tmp)
    if not outs:
        for u in group:
            tmp = _parse(tool, key, u)
            if tmp.startswith('error: '):
                raise AnalysisError(f'{u} does not parse: {tmp}')
            outs.append(tmp)
    final = []
    deps = set()
    for tmp in outs:
        data = open(tmp, 'rb').read()
        try:
            deps |= set(json.loads(data)['deps'])
        except ValueError as e:
            raise AnalysisError(f'{group[0]}: bad extractor output {e}')
        out = os.path.join(CACHE, 'facts-' + key + '-' + sha(data) + '.json')
        os.replace(tmp, out)
        final.append(out)
    entry = {'deps': {p: file_hash(p) for p in deps if '/.cache/group-' not in p}, 'out': final}
    with open(idx + '.tmp%d' % os.getpid(), 'w') as f:
        json.dump(entry, f)
    os.replace(idx + '.tmp%d' % os.getpid(), idx)
    return final


class Facts:
    """Every function, class, enumeration and global of the core."""

    def __init__(self):
        self.funcs: dict[str, list[dict]] = {}
        self.recs: dict[str, list[dict]] = {}
        self.enums: dict[str, dict] = {}
        self.globals: dict[str, dict] = {}
        self.units: list[str] = []
        self.by_name: dict[str, list[str]] = {}
        self.types: list[str] = []

    def all_funcs(self):
        for vs in self.funcs.values():
            yield from vs


def _retype(node, table):
    """Replaces type indices by shared strings, in place."""
    stack = [node]
    while stack:
        n = stack.pop()
        if isinstance(n, dict):
            for k in ('t', 'tt', 'ret', 'clst', 'base'):
                v = n.get(k)
                if isinstance(v, int) and not isinstance(v, bool):
                    n[k] = table[v] if v >= 0 else ''
            v = n.get('pt')
            if v is not None:
                n['pt'] = [table[i] if i >= 0 else '' for i in v]
            v = n.get('ta')
            if v is not None:
                n['ta'] = [table[i] if isinstance(i, int) else i for i in v]
            v = n.get('b')
            if isinstance(v, list) and v and isinstance(v[0], int):
                n['b'] = [table[i] if i >= 0 else '' for i in v]
            for v in n.values():
                if isinstance(v, (dict, list)):
                    stack.append(v)
        else:
            for v in n:
                if isinstance(v, (dict, list)):
                    stack.append(v)


def load(only=None) -> Facts:
    tool = tool_path()
    us = units()
    if only:
        us = [u for u in us if any(o in u for o in only)]
    keyb = sha(open(tool, 'rb').read()) + ' '.join(flags())
    lib = [u for u in us if u.startswith(CORE + 'lib/')]
    mod = [u for u in us if not u.startswith(CORE + 'lib/')]
    groups = [g for g in [lib] + [mod[i::7] for i in range(7)] if g]
    jobs = [(tool, g, sha((keyb + '|'.join(g)).encode())) for g in groups]
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        outs = [(g, o) for g, os_ in zip(groups, ex.map(_extract, jobs)) for o in os_]
    pk = os.path.join(CACHE, 'merged-' + sha(repr(sorted(o for _, o in outs)).encode() +
                                             file_hash(__file__).encode()) + '.pickle')
    if os.path.exists(pk):
        try:
            with open(pk, 'rb') as f:
                return pickle.load(f)
        except Exception:  # noqa: BLE001
            pass
    facts = Facts()
    seen: set[str] = set()
    facts.units = [os.path.relpath(u, CORE) for u in us]
    for _, out in outs:
        d = json.load(open(out))
        table = [sys.intern(t) for t in d['types']]
        for kind in ('funcs', 'recs', 'enums', 'globals'):
            for o in d[kind]:
                _retype(o, table)
                h = sha(json.dumps(o, sort_keys=True).encode())
                if h in seen:
                    continue
                seen.add(h)
                if kind == 'funcs':
                    facts.funcs.setdefault(o['id'], []).append(o)
                elif kind == 'recs':
                    facts.recs.setdefault(o['q'], []).append(o)
                elif kind == 'enums':
                    facts.enums[o['q']] = o
                else:
                    old = facts.globals.setdefault(o['id'], o)
                    if 'init' in o and 'init' not in old:
                        facts.globals[o['id']] = o      # the definition of a static member
    for fid, vs in facts.funcs.items():
        facts.by_name.setdefault(vs[0]['q'], []).append(fid)
    with open(pk + '.%d' % os.getpid(), 'wb') as f:
        pickle.dump(facts, f, protocol=pickle.HIGHEST_PROTOCOL)
    os.replace(pk + '.%d' % os.getpid(), pk)
    return facts


if __name__ == '__main__':
    import time
    t = time.time()
    fa = load()
    print(len(fa.funcs), sum(len(v) for v in fa.funcs.values()), len(fa.recs), len(fa.enums), time.time() - t)
