"""P01: a failure inside a parallel worker always reaches the caller."""
import re

from ..engine import walk
from ..threads import ThreadRule, roots, thread_creation, PREFIX, short, ctx_ends, LOCKS

NULL = ('c', None)


def is_exc(eng, t):
    t = eng.x(t)
    return t[0] == 'exc'


def nonnull(eng, t, facts, n=0):
    """Is the exception pointer known to be set?"""
    t0 = t
    t = eng.x(t)
    if t[0] == 'exc':
        return True
    if n > 8:
        return False
    for a in (t0, t):
        eq, pol = eng._pol(('b', '==', a, NULL), False)
        if (eq, pol) in facts or (('has', a), True) in facts:
            return True
    if t[0] in ('phi', 'ret'):
        return all(v is not None and nonnull(eng, v, facts | d, n + 1) for d, v in t[2])
    if t[0] == 'cond':
        return nonnull(eng, t[2], facts | eng.implied(t[1], True), n + 1) and \
            nonnull(eng, t[3], facts | eng.implied(t[1], False), n + 1)
    return False


def isnull(eng, t, facts, n=0):
    t0 = t
    t = eng.x(t)
    if t in (NULL, ('zero', 'std::exception_ptr')) or (t[0] == 'new' and 'exception_ptr' in t[1] and len(t) == 2):
        return True
    if n > 8:
        return False
    for a in (t0, t):
        eq, pol = eng._pol(('b', '==', a, NULL), True)
        if (eq, pol) in facts or (('has', a), False) in facts:
            return True
    if t[0] in ('phi', 'ret'):
        return all(v is not None and (isnull(eng, v, facts | d, n + 1)) for d, v in t[2])
    return False


class P01(ThreadRule):

    def __init__(self):
        super().__init__()
        self.exc_locs: set = set()
        self.pending: dict = {}
        self.joins: dict = {}

    def inline(self, eng, e, fn):
        if self.workers:
            return any('exception_ptr' in p['t'] or '(lambda)' in p['t'] for p in fn['p'])
        if any('exception_ptr' in p['t'] or '(lambda)' in p['t'] or 'std::thread' in p['t'] for p in fn['p']):
            return True
        return any(n.get('k') in ('Call', 'Ctor') and thread_creation(n) for n in walk(fn.get('body') or {}))

    # -- errors leaving the worker ------------------------------------------------
    def guarded(self, eng):
        """Is there an enclosing catch-all inside the worker?"""
        w = self.worker
        for s, fr, _ in eng.trystack:
            if ctx_ends(fr.ctx, w.ctx) and any(h.get('all') for h in s['h']):
                return True
        return False

    def may_escape(self, eng, e, what):
        w = self.worker
        if w is None or eng.mute or self.guarded(eng):
            return
        self.add('P01.catch', eng.where(e), f'{w.key}:uncaught:{what}',
                 f'{what} may throw in the worker of {w.key} outside a try block with a catch-all handler', False)

    def on_throw(self, eng, e, t, st):
        self.may_escape(eng, e, 'throw')

    def on_ctor(self, eng, e, args, locs, st):
        super().on_ctor(eng, e, args, locs, st)
        if self.worker is not None and not e.get('nx') and not (e.get('copy') or e.get('move')) and \
                not e['cls'].endswith('exception_ptr') and e['a'] and e['cls'] not in LOCKS:
            self.may_escape(eng, e, e['cls'])

    def on_call(self, eng, e, fn, obj, oloc, args, locs, st):
        super().on_call(eng, e, fn, obj, oloc, args, locs, st)
        if self.worker is not None and not e.get('nx') and (obj is None or obj[0] != 'lam') and 'exception_ptr' not in fn \
                and fn not in ('std::current_exception', 'std::rethrow_exception', 'std::move', 'std::forward'):
            g = eng.lookup(e)
            if re.match(r'std::(mutex|recursive_mutex|shared_mutex|unique_lock|lock_guard)::', fn):
                return None
            if g is None or not self.inline(eng, e, g):
                self.may_escape(eng, e, fn)
        return None

    # -- what the handlers do ----------------------------------------------------------
    def on_assign(self, eng, e, la, old, new, st):
        if new is None or la is None:
            return
        if is_exc(eng, new):
            if self.worker is not None and not self.is_local(la):
                self.exc_locs.add(la)
        elif la in self.exc_locs and not eng.mute and isnull(eng, new, frozenset()) and not isnull(eng, old, st.facts):
            self.add('P01.rethrow', eng.where(e), f'{self.name(eng)}:reset',
                     'the error kept by the workers is discarded before it is rethrown', False)

    def on_handler_end(self, eng, s, h, st, rets):
        w = self.worker
        if w is None or eng.mute:
            return
        exits = [r[2] for r in rets] + ([st] if st is not None else [])
        if not exits:
            return          # rethrows
        good = None
        for x in exits:
            here = {l for l in self.exc_locs if nonnull(eng, eng.read(x, l), x.facts)}
            good = here if good is None else good & here
        kind = 'catch-all' if h.get('all') else 'catch ' + (h.get('t') or '')
        self.add('P01.store', eng.where(h['s']), f'{w.key}:{kind}',
                 f'the {kind} handler of the worker of {w.key} keeps the error in an object of the caller', bool(good))
        for l in good or ():
            self.pending.setdefault(l, set()).add(w.key)

    def worker_end(self, eng, w, fn, rets):
        if not eng.mute:
            self.add('P01.catch', f"{PREFIX}{w.file}:{w.line}", w.key, f'no error leaves the worker of {w.key}', True)

    # -- what the caller does ----------------------------------------------------------
    def check_exit(self, eng, st, where, ctx, fnname):
        for l, ws in self.pending.items():
            r = l
            while r[0] in ('f', 'sub', 'acc'):
                r = r[1]
            if r[0] == 'v' and r[2] != ctx:
                continue
            if r[0] != 'v' and len(eng.stack) > 1:
                continue
            if r[0] == 'v' and r not in st.env and ('ref', r) not in st.env:
                continue
            v = eng.read(st, l)
            ok = isnull(eng, v, st.facts)
            self.add('P01.rethrow', where, f'{fnname}:{where.rsplit(":", 1)[0]}',
                     f'{fnname} returns normally only when no worker has failed', ok)

    def on_seq_end(self, eng, s, st):
        if eng.mute or not self.pending or self.workers:
            return
        ids = {v['id'] for d in s['s'] if d.get('k') == 'Decl' for v in d['v']}
        ctx = eng.frame().ctx
        if any(l[0] == 'v' and l[1] in ids and l[2] == ctx for l in self.pending):
            self.check_exit(eng, st, eng.where({'l': s.get('el') or s['l']}), ctx, self.name(eng))

    def on_return(self, eng, s, t, st):
        if eng.mute or not self.pending or self.workers:
            return
        self.check_exit(eng, st, eng.where(s), eng.frame().ctx, self.name(eng))

    def on_exit(self, eng, fn, rets):
        for d, t, st, l, s in rets:
            if s is None:
                self.check_exit(eng, st, f"{PREFIX}{fn['file']}:{fn.get('el') or fn['l']}", eng.frame().ctx, short(fn['q']))

    # -- every thread is joined -------------------------------------------------------------
    T = ('o', 'threads')

    def spawn(self, eng, e, args, locs, st):
        st.env[self.T] = ('c', 'running')
        if not eng.mute:
            self.joins.setdefault(eng.where(e), True)

    def on_loop_exit(self, eng, s, site, info, st):
        if joins_all(eng, s, info):
            st.env[self.T] = ('c', 'joined')

    def start(self, eng, fn):
        from ..engine import State
        st = State()
        st.env[self.T] = ('c', 'none')
        rets = eng.run(fn, state=st)
        for d, t, s_, l, node in rets:
            v = s_.env.get(self.T)
            bad = unjoined(eng, v)
            for w in self.joins:
                self.add('P01.join', w, f'{short(fn["q"])}:join',
                         f'the threads created here for {short(fn["q"])} have ended when it returns', not bad)


def unjoined(eng, v, n=0):
    if v is None or n > 20:
        return True
    v = eng.x(v)
    if v[0] == 'c':
        return v[1] == 'running'
    if v[0] in ('phi', 'ret'):
        return any(unjoined(eng, a, n + 1) for _, a in v[2])
    return True


def strip(e):
    while e is not None and e.get('k') in ('Cast', 'DefArg'):
        e = e['e']
    return e


def joins_all(eng, s, info) -> bool:
    """Does this loop join every element of a container of threads?"""
    calls = [n for n in walk(s['s']) if n.get('k') == 'Call' and n.get('fn', '').endswith('thread::join')]
    if not calls or info.get('brk') or info.get('ret'):
        return False
    # unconditional, or conditional on joinable()
    def ok(st):
        k = st['k']
        if k == 'Seq':
            return any(ok(c) for c in st['s'])
        if k == 'Expr':
            return any(n is c for n in walk(st) for c in calls)
        if k == 'If':
            return any(n.get('fn', '').endswith('::joinable') for n in walk(st['c'])) and ok(st['a'])
        return False
    if not ok(s['s']):
        return False
    if s['k'] == 'RFor':
        return True
    # index or iterator loop: starts at the beginning and goes to the end one by one
    for k, v in info['vars'].items():
        i = info['init'].get(k)
        if i is None or v is None:
            continue
        i = eng.x(i)
        v = eng.x(v)
        head = [x for x in eng.subterms(v) if x[0] == 'loop' and x[2] == k]
        first = i == ('c', 0) or (i[0] == 'call' and i[1].rsplit('::', 1)[-1] in ('begin', 'cbegin'))
        one = v[0] == 'b' and v[1] == '+' and v[3] == ('c', 1) or v[0] in ('r', 'm') or (v[0] == 'call' and '++' in v[1])
        c = info['cond']
        if first and one and c is not None:
            c = eng.x(c)
            bound = [x for x in eng.subterms(c) if x[0] == 'call' and x[1].rsplit('::', 1)[-1] in ('end', 'cend', 'size')]
            minus = [x for x in eng.subterms(c) if x[0] == 'b' and x[1] in ('+', '-')]
            if bound and not minus or not bound and not minus:
                return True
    return False


def check(ctx):
    ctx.rule('P01.catch', 'no operation of a worker can throw outside a try block with a catch-all handler', 20)
    ctx.rule('P01.store', 'every handler in a worker rethrows or stores the current error in an exception_ptr that '
             'belongs to the caller', 20)
    ctx.rule('P01.rethrow', 'a function that ran workers returns normally only on paths where the stored error is null',
             20)
    ctx.rule('P01.join', 'every thread is joined on every path before its spawner returns', 2)
    rs, direct = roots(ctx.facts)
    ctx.run(P01, rs)
