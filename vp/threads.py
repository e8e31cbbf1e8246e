"""Analysis of code that spreads work over threads, shared by the properties on workers (P01, P02, P03).

A worker is a callable handed to std::thread.  The functions that create threads are found in the program; a spawner that
receives its callable as a parameter is analysed in the context of each of its callers.
"""
from __future__ import annotations

from .engine import Rule, walk, THIS
from .facts import AnalysisError

PREFIX = 'src/pyinterp/core/'
LOCKS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock')
SIZE_METHODS = {'rows', 'cols', 'size', 'shape', 'ndim', 'extent', 'outerStride', 'innerStride', 'length', 'empty'}


def thread_creation(n) -> bool:
    if n.get('k') == 'Ctor' and n.get('cls') in ('std::thread', 'std::jthread') and n['a'] and not n.get('copy') \
            and not n.get('move'):
        return True
    if n.get('k') == 'Call' and n.get('fn', '').startswith('std::vector<std::thread') and \
            n['fn'].rsplit('::', 1)[-1] in ('emplace_back', 'push_back', 'emplace') and len(n['a']) > 1:
        return True
    if n.get('k') == 'Call' and n.get('fn') == 'std::async':
        return True
    return False


def takes_callable(fn) -> bool:
    return any('(lambda)' in p['t'] or 'std::function' in p['t'] for p in fn['p'])


def roots(facts):
    """Functions from which every creation of threads is analysed with a known worker."""
    direct = set()
    callers: dict[str, set] = {}
    for fid, vs in facts.funcs.items():
        for f in vs:
            for n in walk(f.get('body') or {}):
                if n.get('k') in ('Call', 'Ctor'):
                    if thread_creation(n):
                        direct.add(fid)
                    t = n.get('fid')
                    if t in facts.funcs and t != fid:
                        callers.setdefault(t, set()).add(fid)
    if not direct:
        raise AnalysisError('no function creates threads any more')
    todo = list(direct)
    seen = set(direct)
    while todo:
        f = todo.pop()
        if all(takes_callable(v) or any('exception_ptr' in p['t'] for p in v['p']) for v in facts.funcs[f]):
            for c in callers.get(f, ()):
                if c not in seen:
                    seen.add(c)
                    todo.append(c)
    out = []
    for fid in sorted(seen):
        for v in facts.funcs[fid]:
            if v.get('body') is not None and not any('(lambda)' in p['t'] for p in v['p']):
                out.append(v)
    return out, direct


class Worker:
    __slots__ = ('site', 'ctx', 'line', 'file', 'lam', 'writes', 'reads', 'loops', 'key', 'args', 'root')

    def __init__(self, site, ctx, file, line, lam, key):
        self.site = site
        self.ctx = ctx
        self.file = file
        self.line = line
        self.lam = lam
        self.key = key
        self.writes: list = []
        self.reads: list = []
        self.loops: list = []


class ThreadRule(Rule):
    """Tracks the worker being analysed; subclasses add the obligations."""

    def __init__(self):
        super().__init__()
        self.workers: list[Worker] = []
        self.all_workers: list[Worker] = []
        self.thread_args: dict = {}
        self.obs: list = []

    # -- helpers -----------------------------------------------------------
    def name(self, eng):
        """Name of the function at the root, without template arguments."""
        q = eng.stack[0].fn['q']
        return short(q)

    def add(self, rule, where, key, what, ok, detail=''):
        self.obs.append((rule, where, key, what, ok, detail))

    @property
    def worker(self):
        return self.workers[-1] if self.workers else None

    def is_local(self, loc) -> bool:
        """Is the object at loc local to the worker being analysed?"""
        w = self.worker
        while loc is not None and loc[0] in ('f', 'acc', 'sub'):
            loc = loc[1]
        if loc is None:
            return True
        if loc[0] == 'v':
            c = loc[2]
            return len(c) >= len(w.ctx) and c[len(c) - len(w.ctx):] == w.ctx
        if loc[0] == 'cap':
            # captured by value: one copy per thread
            return True
        if loc[0] in ('o', 'unkv'):
            return True
        return False

    def owner_local(self, eng, t, n=0):
        """Is the object that the pointer t leads to owned by an object local to the worker?"""
        t = eng.x(t)
        if n > 12 or not isinstance(t, tuple):
            return False
        k = t[0]
        if k in ('idx', 'f', 'deref', 'ptr', 'get', 'some', 'trunc'):
            return self.owner_local(eng, t[1], n + 1)
        if k == 'call':
            return len(t) > 2 and self.owner_local(eng, t[2], n + 1)
        if k in ('phi', 'ret'):
            return all(v is not None and self.owner_local(eng, v, n + 1) for _, v in t[2])
        if k == 'cond':
            return self.owner_local(eng, t[2], n + 1) and self.owner_local(eng, t[3], n + 1)
        if k in ('val', 'init'):
            return self.is_local(t[1]) if t[1][0] != 'deref' else self.owner_local(eng, t[1][1], n + 1)
        if k in ('m', 'loop'):
            loc = t[2]
            if isinstance(loc, tuple) and loc and loc[0] in ('v', 'f', 'sub', 'acc', 'o'):
                if k == 'loop' and t[3] is not None and loc[0] == 'v':
                    # a pointer that is advanced: what it first pointed into
                    return self.is_local(loc) and (self.owner_local(eng, t[3], n + 1) or 'uninit' == t[3][0])
                return self.is_local(loc)
            return False
        if k in ('heap', 'new', 'tuple', 'uninit'):
            return True
        if k == 'r':
            return len(t) > 2 and str(t[2]).startswith('std::make_')
        if k == 'addr':
            return self.is_local(t[1])
        return False

    def root(self, loc):
        while loc is not None and loc[0] in ('f', 'acc', 'sub'):
            loc = loc[1]
        return loc

    # -- callbacks -----------------------------------------------------------
    def enter_lambda(self, eng, e, lam, st):
        return True

    def on_ctor(self, eng, e, args, locs, st):
        if thread_creation(e):
            self.spawn(eng, e, args, locs, st)

    def on_call(self, eng, e, fn, obj, oloc, args, locs, st):
        if thread_creation(e):
            self.spawn(eng, e, args, locs, st)
        return None

    def spawn(self, eng, e, args, locs, st):
        pass

    def on_enter(self, eng, e, fn, st):
        if fn.get('kind') == 'lambda' and thread_creation(e):
            fr = eng.stack[-1]
            w = Worker(eng.site(e), fr.ctx, fn['file'], fn['l'], fn['_lam'], self.name(eng))
            w.args = [eng.x(st.env.get(('v', p['id'], fr.ctx), ('none',))) for p in fn['p']]
            self.workers.append(w)
            self.worker_start(eng, w, fn, st)

    def on_leave(self, eng, e, fn, rets):
        if fn.get('kind') == 'lambda' and thread_creation(e):
            w = self.workers.pop()
            if not eng.mute:
                self.all_workers.append(w)
            self.worker_end(eng, w, fn, rets)

    def worker_start(self, eng, w, fn, st):
        pass

    def worker_end(self, eng, w, fn, rets):
        pass


def short(q: str) -> str:
    """Qualified name without template arguments and parameter lists."""
    out = []
    depth = 0
    for ch in q:
        if ch in '<(':
            depth += 1
        elif ch in '>)':
            depth -= 1
        elif depth == 0:
            out.append(ch)
    return ''.join(out).replace('pyinterp::', '')


def ctx_ends(c, w) -> bool:
    return len(c) >= len(w) and c[len(c) - len(w):] == w
