"""P02: parallel workers never race on shared state."""
from ..engine import walk, THIS, State
from ..threads import ThreadRule, roots, PREFIX, short, LOCKS, SIZE_METHODS, ctx_ends
from .. import threads


def plain(eng, t):
    """Drops conversions."""
    while True:
        t = eng.x(t)
        if t and t[0] == 'trunc':
            t = t[1]
            continue
        return t


class Blocks(ThreadRule):
    """Knows which values are indices of the block given to the worker."""

    def block_start(self, eng, t):
        w = self.worker
        return w is not None and w.args and plain(eng, t) == w.args[0]

    def block_end(self, eng, t):
        w = self.worker
        return w is not None and len(w.args) > 1 and plain(eng, t) == w.args[1]

    def own(self, eng, t, st):
        """Is t an element of [start, end), different at each visit?"""
        t = plain(eng, t)
        if t[0] == 'loop':
            init = t[3]
            if init is None:
                return False
            if self.block_start(eng, init):
                return self.below_end(eng, t, st)
            return False
        if t[0] == 'b' and t[1] == '+':
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                a, b = plain(eng, a), plain(eng, b)
                if self.block_start(eng, a) and b[0] == 'loop' and b[3] == ('c', 0):
                    # offset within the block
                    for f, pol in st.facts:
                        f = eng.x(f)
                        if f[0] == 'b' and f[1] == '<' and pol and plain(eng, f[2]) == b:
                            r = plain(eng, f[3])
                            if r[0] == 'b' and r[1] == '-' and self.block_end(eng, r[2]) and self.block_start(eng, r[3]):
                                return True
                        if f[0] == 'b' and f[1] == '<' and pol and plain(eng, f[2]) == t and self.block_end(eng, f[3]):
                            return True
        return False

    def below_end(self, eng, t, st):
        for f, pol in st.facts:
            f = eng.x(f)
            if f[0] == 'b' and f[1] == '<' and pol and plain(eng, f[2]) == t and self.block_end(eng, f[3]):
                return True
            if f[0] == 'b' and f[1] == '==' and not pol:
                a, b = plain(eng, f[2]), plain(eng, f[3])
                if (a == t and self.block_end(eng, b)) or (b == t and self.block_end(eng, a)):
                    return True
        return False


class P02(Blocks):

    def __init__(self):
        super().__init__()
        self.spawn_args: dict = {}
        self.virtuals: set = set()

    # -- locks -----------------------------------------------------------------
    def on_decl(self, eng, v, loc, t, st):
        if any(v['t'].startswith(l) for l in LOCKS):
            mx = None
            init = v.get('init')
            if init is not None and init.get('a'):
                _, mx = eng.ev(init['a'][0], st)
                t0, _ = eng.ev(init['a'][0], st)
                shared = (mx is not None and self.worker is not None and not self.is_local(mx)) or \
                    (t0 is not None and t0[0] in ('static', 'g'))
                if shared:
                    st.facts = st.facts | {(('locked', v['id']), True)}

    def on_seq_end(self, eng, s, st):
        ids = {v['id'] for d in s['s'] if d.get('k') == 'Decl' for v in d['v']}
        drop = {f for f in st.facts if f[0][0] == 'locked' and f[0][1] in ids}
        if drop:
            st.facts = st.facts - drop

    def locked(self, st):
        return any(f[0][0] == 'locked' for f in st.facts)

    def on_leave(self, eng, e, fn, rets):
        self.unlock(fn, rets)
        super().on_leave(eng, e, fn, rets)

    @staticmethod
    def unlock(fn, rets):
        # locks of the function are released when it returns
        ids = {n['id'] for n in walk(fn.get('body') or {}) if 'id' in n and 't' in n}
        for r in rets:
            drop = {f for f in r[2].facts if f[0][0] == 'locked' and f[0][1] in ids}
            if drop:
                r[2].facts = r[2].facts - drop

    # -- accesses --------------------------------------------------------------------
    def spawn(self, eng, e, args, locs, st):
        if eng.mute:
            return
        # pointers given to each thread must differ
        for i, a in enumerate(args[1:]):
            a = eng.x(a)
            if a[0] == 'addr':
                self.spawn_args.setdefault(i, []).append((a[1], eng.where(e), eng.loopstack[-1][0] if eng.loopstack else None))

    def path_indices(self, loc):
        """(base, [(index terms)]) of a subscripted location."""
        idx = []
        while loc is not None and loc[0] in ('sub', 'acc', 'f'):
            if loc[0] == 'sub':
                ix = loc[2]
                idx.append(ix if isinstance(ix, tuple) and ix and isinstance(ix[0], tuple) else (ix,))
            elif loc[0] == 'acc' and loc[3]:
                idx.append(tuple(loc[3]))
            loc = loc[1]
        return loc, idx

    def shared_write(self, eng, e, loc, st, how):
        w = self.worker
        if w is None or eng.mute or loc is None:
            return
        loc = eng.resolve(st, loc)
        if loc[0] == 'phiref':
            for l in loc[1]:
                self.shared_write(eng, e, l, st, how)
            return
        base, idx = self.path_indices(loc)
        if self.is_local(loc) and not (base is not None and base[0] == 'v' and (st.env.get(base) or ('',))[0] == 'static'):
            return
        nm = self.locname(eng, loc)
        if base[0] == 'deref':
            p = eng.x(base[1])
            if p[0] == 'lp':
                # the object the thread was given a pointer to
                self.add('P02.write', eng.where(e), f'{w.key}:{nm}', f'{how} of *{nm} by the worker of {w.key}: one object per '
                         'thread', self.distinct_args(eng, p[3]))
                return
            if self.owner_local(eng, p):
                return
        own = None
        for ix in idx:
            for d, t in enumerate(ix):
                if self.own(eng, t, st):
                    own = (len(ix), d)
        if own is not None:
            w.writes.append((base, own, eng.where(e), nm))
            self.add('P02.write', eng.where(e), f'{w.key}:{nm}', f'{how} of {nm} by the worker of {w.key}: element of its own '
                     f'block (dimension {own[1]})', True)
            return
        if self.locked(st):
            self.add('P02.write', eng.where(e), f'{w.key}:{nm}', f'{how} of {nm} by the worker of {w.key}: under a lock', True)
            return
        self.add('P02.write', eng.where(e), f'{w.key}:{nm}', f'{how} of {nm} by the worker of {w.key}: neither local, nor an '
                 'element of its own block, nor under a lock', False)

    def distinct_args(self, eng, i):
        got = self.spawn_args.get(i)
        if not got:
            return False
        for loc, where, loop in got:
            if loc[0] != 'sub':
                return False
            t = eng.x(loc[2])
            if loop is not None and not any(x[0] == 'loop' for x in eng.subterms(t)):
                return False
        return True

    def locname(self, eng, loc):
        n = 0
        while loc is not None and n < 20:
            n += 1
            if loc[0] == 'f':
                return str(loc[2])
            if loc[0] == 'v':
                return loc[1].rsplit(':', 1)[-1]
            if loc[0] == 'this':
                return 'this'
            if loc[0] == 'deref':
                return eng.show(loc[1])
            if loc[0] in ('sub', 'acc'):
                loc = loc[1]
                continue
            break
        return str(loc[0]) if loc else '?'

    def on_assign(self, eng, e, la, old, new, st):
        self.shared_write(eng, e, la, st, 'write')

    def on_mutate(self, eng, e, oloc, obj, st):
        self.shared_write(eng, e, oloc, st, 'modification')

    def on_index(self, eng, e, a, idx, st, oloc=None):
        w = self.worker
        if w is None or eng.mute or oloc is None:
            return
        oloc = eng.resolve(st, oloc)
        if oloc[0] == 'phiref' or self.is_local(oloc):
            return
        base, pre = self.path_indices(oloc)
        w.reads.append((base, [tuple(idx)] + pre, eng.where(e), self.locname(eng, oloc), st.facts, self.owns(eng, [tuple(idx)] +
                                                                                                    pre, st), eng))

    def owns(self, eng, idx, st):
        return {(len(ix), d) for ix in idx for d, t in enumerate(ix) if self.own(eng, t, st)}

    def on_call(self, eng, e, fn, obj, oloc, args, locs, st):
        super().on_call(eng, e, fn, obj, oloc, args, locs, st)
        w = self.worker
        if w is not None and not eng.mute:
            if e.get('virt'):
                self.virtuals.add(e.get('fid'))
            # a whole shared object handed by mutable reference is seen by on_mutate
        return None

    def worker_end(self, eng, w, fn, rets):
        if eng.mute:
            return
        dims: dict = {}
        for base, own, where, nm in w.writes:
            dims.setdefault(base, set()).add(own)
        for base, ds in dims.items():
            nm = next(x[3] for x in w.writes if x[0] == base)
            where = next(x[2] for x in w.writes if x[0] == base)
            self.add('P02.dim', where, f'{w.key}:{nm}:dim', f'the worker of {w.key} always divides {nm} along the same dimension',
                     len(ds) == 1)
            for b, idx, rw, rn, facts, owns, en in w.reads:
                if b != base:
                    continue
                ok = bool(owns & ds)
                if not ok:
                    ok = self.other_colour(en, idx, facts, ds)
                self.add('P02.read', rw, f'{w.key}:{nm}:read', f'read of {nm}, which the workers of {w.key} write, at an element '
                         'of the own block' + (' or of the colour that is not being written' if not (owns & ds) else ''), ok)

    def other_colour(self, eng, idx, facts, ds):
        """Red-black sweeps: the cells written satisfy (i + j) % 2 == colour; a neighbour along one dimension is of the other
        colour."""
        guard = None
        for f, pol in facts:
            f = eng.x(f)
            if pol and f[0] == 'b' and f[1] == '==':
                for m in (eng.x(f[2]), eng.x(f[3])):
                    if m[0] == 'b' and m[1] == '%' and eng.x(m[3]) == ('c', 2):
                        s = plain(eng, m[2])
                        if s[0] == 'b' and s[1] == '+':
                            guard = (plain(eng, s[2]), plain(eng, s[3]))
        if guard is None:
            return False
        for ix in idx:
            if len(ix) != 2:
                continue
            a, b = plain(eng, ix[0]), plain(eng, ix[1])
            for g, h in (guard, guard[::-1]):
                if a == g and self.next_to(eng, b, h):
                    return True
                if b == g and self.next_to(eng, a, h):
                    return True
        return False

    def next_to(self, eng, t, c, n=0):
        """Does t differ from c by one (or is it the mirror of the first or last index)?"""
        t = plain(eng, t)
        if t[0] == 'b' and t[1] in ('+', '-') and eng.x(t[3]) == ('c', 1) and plain(eng, t[2]) == c:
            return True
        if t[0] == 'cond' and n < 4:
            return self.edge(eng, t[1], c, t[2], n) and self.next_to(eng, t[3], c, n + 1)
        if t[0] in ('phi', 'ret') and n < 4:
            return all(v is not None and (self.next_to(eng, v, c, n + 1) or any(
                pol and self.edge(eng, f, c, v, n) for f, pol in d)) for d, v in t[2])
        return False

    def edge(self, eng, cond, c, v, n):
        """cond: c == K and v == K +- 1."""
        cond = eng.x(cond)
        if cond[0] != 'b' or cond[1] != '==':
            return False
        for x, k in ((cond[2], cond[3]), (cond[3], cond[2])):
            if plain(eng, x) == c:
                k, v = plain(eng, k), plain(eng, v)
                if k[0] == 'c' and v[0] == 'c' and isinstance(k[1], int) and abs(k[1] - v[1]) == 1:
                    return True
                kb, ko = (k[2], -k[3][1] if k[1] == '-' else k[3][1]) if k[0] == 'b' and eng.x(k[3])[0] == 'c' else (k, 0)
                vb, vo = (v[2], -v[3][1] if v[1] == '-' else v[3][1]) if v[0] == 'b' and eng.x(v[3])[0] == 'c' else (v, 0)
                if kb == vb and abs(ko - vo) == 1:
                    return True
        return False


def check(ctx):
    ctx.rule('P02.write', 'every write of a worker is to an object of its own, to an element indexed by the block it was '
             'given, or under a lock shared by all workers', 60)
    ctx.rule('P02.dim', 'a result array is always divided between the workers along one dimension', 20)
    ctx.rule('P02.read', 'a worker reads an array that workers write only at the elements of its own block (or of the colour '
             'that is not being written)', 1)
    ctx.rule('P02.const', 'the const operations that workers call on shared objects change no member and no static variable', 20)
    rs, _ = roots(ctx.facts)
    ctx.run(P02, rs)
    const_methods(ctx)


def const_methods(ctx):
    from .p02const import check_const
    check_const(ctx)
