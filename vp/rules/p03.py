"""P03: every element is processed exactly once whatever the number of threads."""
from ..engine import walk
from ..threads import roots, PREFIX, short, thread_creation, SIZE_METHODS
from .p02 import Blocks, plain
from ..extent import Extents, sname
from .p05 import OPAQUE, P05, bound_roots

UNIT_OK = {'worker'}


def deloop(eng, t):
    return plain(eng, t)


class P03(Blocks):

    def __init__(self):
        super().__init__()
        self.spawns: dict = {}
        self.sizes: list = []
        self.found: dict = {}
        self.extents: dict = {}

    # -- how the range is divided ------------------------------------------------
    def spawn(self, eng, e, args, locs, st):
        if eng.mute or len(args) < 3:
            return
        lam = args[0]
        ends = [plain(eng, a) for a in args[1:3]]
        loop = eng.loopstack[-1][0] if eng.loopstack else None
        self.spawns.setdefault((lam, eng.frame().ctx), []).append((ends[0], ends[1], loop, eng.where(e), st.facts, eng.funcname()))

    def on_call(self, eng, e, fn, obj, oloc, args, locs, st):
        super().on_call(eng, e, fn, obj, oloc, args, locs, st)
        if eng.mute:
            return None
        # the worker called directly, for the whole range
        if e.get('op') == '()' and obj is not None and obj[0] == 'lam' and self.worker is None and len(args) >= 2 and \
                'unsigned long' in (e.get('pt') or [''])[0] + 'unsigned long':
            self.spawns.setdefault((obj, 'direct'), []).append((plain(eng, args[0]), plain(eng, args[1]), None, eng.where(e),
                                                                st.facts, eng.funcname()))
        return None

    def on_loop(self, eng, s, site, info, end):
        w = self.worker
        if w is not None:
            self.element_loop(eng, s, site, info)
        self.loop_end = getattr(self, 'loop_end', {})

    def element_loop(self, eng, s, site, info):
        """A loop of the worker that runs over the block."""
        w = self.worker
        for k, v in info['vars'].items():
            i = info['init'].get(k)
            if i is None:
                continue
            i = plain(eng, i)
            c = plain(eng, info['cond']) if info['cond'] is not None else None
            touches = self.block_start(eng, i) or (c is not None and c[0] == 'b' and any(
                self.block_end(eng, x) for x in eng.subterms(c)))
            if not touches:
                continue
            head = ('loop', site, k, info['init'].get(k))
            v = plain(eng, v) if v is not None else ('none',)
            if c is None or not any(plain(eng, x) == head for x in eng.subterms(c)):
                continue
            first = self.block_start(eng, i) or i == ('c', 0)
            step = v[0] == 'b' and v[1] == '+' and plain(eng, v[2]) == head and v[3] == ('c', 1)
            bound = self.bound_ok(eng, c, head, i)
            whole = not info.get('brk') and not info.get('ret')
            why = []
            if not first:
                why.append('does not start at the beginning of the block')
            if not step:
                why.append('does not advance by one')
            if not bound:
                why.append('does not stop at the end of the block')
            if not whole:
                why.append('can stop before the end of the block')
            self.found.setdefault(w.site, []).append(not why)
            self.add('P03.visit', eng.where(s), f'{w.key}:loop', f'the worker of {w.key} visits each index of its block once' +
                     ((': the loop ' + ', '.join(why)) if why else ''), not why)

    def bound_ok(self, eng, c, head, init):
        if c[0] != 'b':
            return False
        a, b = plain(eng, c[2]), plain(eng, c[3])
        if c[1] in ('>', '>='):
            a, b = b, a
            op = '<' if c[1] == '>' else '<='
        else:
            op = c[1]
        if op == '!=' and b == head:
            a, b = b, a
        if op not in ('<', '!='):
            # ix <= end - 1
            if op == '<=' and a == head and b[0] == 'b' and b[1] == '-' and b[3] == ('c', 1) and self.block_end(eng, b[2]):
                return True
            return False
        if a == head:
            if init == ('c', 0):
                return b[0] == 'b' and b[1] == '-' and self.block_end(eng, b[2]) and self.block_start(eng, b[3])
            return self.block_end(eng, b)
        if a[0] == 'b' and a[1] == '+' and init == ('c', 0) and self.block_end(eng, b):
            return {plain(eng, a[2]) == head, plain(eng, a[3]) == head} == {True, False} and (
                self.block_start(eng, a[2]) or self.block_start(eng, a[3]))
        return False

    def on_assign(self, eng, e, la, old, new, st):
        w = self.worker
        if w is None or eng.mute or la is None:
            return
        # the bounds of the block are not changed by the worker before its loop
        if la[0] == 'v' and len(la[2]) == len(w.ctx) and la[2] == w.ctx:
            params = {p['id']: i for i, p in enumerate(w.lam['specs'][0]['p'])} if w.lam['specs'] else {}
            if la[1] in params and params[la[1]] < 2 and not (new[0] == 'b' and new[1] == '+' and new[3] == ('c', 1)):
                self.add('P03.visit', eng.where(e), f'{w.key}:bounds', f'the worker of {w.key} changes the bounds of its block',
                         False)

    def worker_end(self, eng, w, fn, rets):
        if eng.mute:
            return
        if w.site not in self.found:
            self.add('P03.visit', f'{PREFIX}{w.file}:{w.line}', f'{w.key}:none', f'the worker of {w.key} visits each index of its '
                     'block once: it has no loop from the beginning to the end of its block', False)
        # no early return around the loop on a condition that depends on the block
        for d, t, st, l, s in rets:
            pass

    # -- values carried from one element to the next ------------------------------------
    def start(self, eng, fn):
        eng.run(fn)
        self.partition(eng, fn)

    def partition(self, eng, fn):
        for (lam, ctx), sp in self.spawns.items():
            if ctx == 'direct':
                continue
            direct = self.spawns.get((lam, 'direct'), [])
            inloop = [x for x in sp if x[2] is not None]
            after = [x for x in sp if x[2] is None]
            where = sp[0][3]
            name = short(sp[0][5])
            why = self.chain(eng, inloop, after)
            self.add('P03.partition', where, f'{name}:partition', f'{name} divides the range given to the worker of '
                     f'{short(fn["q"])} into consecutive blocks' + (': ' + why if why else ''), why is None)
            if after:
                total = after[-1][1]
            else:
                total = None
            for a, b, _, w, facts, f in direct:
                good = a == ('c', 0) and (total is None or b == total or self.same(eng, b, total))
                self.add('P03.direct', w, f'{name}:direct', f'without threads the worker of {short(fn["q"])} is given the whole '
                         'range', good)

    def same(self, eng, a, b):
        return plain(eng, a) == plain(eng, b)

    def loopvar(self, eng, t):
        t = plain(eng, t)
        return t if t[0] == 'loop' else None

    def chain(self, eng, inloop, after):
        """None, or why the blocks are not consecutive from 0 to the end."""
        if len(inloop) != 1:
            return None if not inloop and len(after) == 1 and after[0][0] == ('c', 0) else 'the blocks are not recognised'
        a, b, loop, where, facts, _ = inloop[0]
        info = eng.loops.get(loop)
        if info is None:
            return 'the loop is not recognised'
        v = self.loopvar(eng, a)
        if v is not None:
            # start is carried: next start == end of this block
            k = v[2]
            nxt = info['vars'].get(k)
            init = info['init'].get(k)
            if init is None or plain(eng, init) != ('c', 0):
                return 'the first block does not start at 0'
            if nxt is None or plain(eng, nxt) != b:
                return 'a block does not start where the previous one ends'
            step = None
            if b[0] == 'b' and b[1] == '+':
                step = plain(eng, b[3]) if plain(eng, b[2]) == v else plain(eng, b[2])
            w = self.divides(eng, step, info, loop)
            if w:
                return w
            if len(after) > 1:
                return 'more than one block follows the loop'
            if not after:
                # every block in the loop: the last one must be extended to the end
                return 'no block reaches the end of the range'
            la = plain(eng, after[0][0])
            if not (la[0] == 'loop' and la[2] == k):
                return 'the last block does not start where the previous one ends'
            total = after[0][1]
            if step is not None and step[0] == 'b' and step[1] == '/' and plain(eng, step[2]) != total:
                return 'the last block does not end at the end of the range'
            return None
        # start computed from the number of the block: i * step
        if a[0] == 'b' and a[1] == '*':
            i = self.loopvar(eng, a[2]) or self.loopvar(eng, a[3])
            step = plain(eng, a[3]) if self.loopvar(eng, a[2]) else plain(eng, a[2])
            if i is None:
                return 'the blocks are not recognised'
            init = info['init'].get(i[2])
            if init is None or plain(eng, init) != ('c', 0):
                return 'the first block is skipped'
            ends = [b]
            if b[0] in ('cond', 'phi'):
                ends = [plain(eng, x) for x in (b[2:4] if b[0] == 'cond' else [y for _, y in b[2]])]
            nextv = [('b', '*', ('b', '+', i, ('c', 1)), step), ('b', '*', step, ('b', '+', i, ('c', 1))), ('b', '+', a, step)]
            if not any(self.eq(eng, x, y) for x in ends for y in nextv):
                return 'a block does not start where the previous one ends'
            w = self.divides(eng, step, info, loop, whole=not after)
            if w:
                return w
            total = plain(eng, step[2]) if step[0] == 'b' and step[1] == '/' else None
            reach = [x for x in ends if x == total] or [x for x in after if x[1] == total]
            if total is not None and not reach:
                return 'no block reaches the end of the range'
            return None
        return 'the blocks are not recognised'

    def eq(self, eng, a, b):
        def n(t):
            t = plain(eng, t)
            if t[0] == 'b':
                return ('b', t[1], n(t[2]), n(t[3]))
            return t
        return n(a) == n(b)

    def divides(self, eng, step, info, loop, whole=False):
        """The length of a block is size / n and the loop makes at most n (or n - 1) blocks."""
        if step is None:
            return 'the length of a block is not recognised'
        if not (step[0] == 'b' and step[1] == '/'):
            return 'the length of a block is not the size divided by the number of threads'
        if info.get('brk') or info.get('ret'):
            return 'the loop over the threads can stop before the last one'
        n = plain(eng, step[3])
        # the bound of the loop over the threads
        c = info['cond']
        c = plain(eng, c) if c is not None else None
        if c is None or c[0] != 'b':
            return None
        b = plain(eng, c[3])
        a = plain(eng, c[2])
        for bound, other in ((b, a), (a, b)):
            x = bound
            minus = 0
            if x[0] == 'b' and x[1] == '-' and plain(eng, x[3])[0] == 'c':
                minus = plain(eng, x[3])[1]
                x = plain(eng, x[2])
            if x == n or (x[0] == 'call' and x[1].rsplit('::', 1)[-1] in ('end', 'size', 'cend')):
                # the threads beside those of the loop
                if not whole and minus != 1:
                    return f'the loop over the threads makes n - {minus} blocks instead of n - 1'
                return None
        return None


def on_numbers(ctx):
    """num_threads only reaches the creation of threads."""
    facts = ctx.facts
    _, direct = roots(facts)
    for fid, vs in facts.funcs.items():
        for f in vs:
            ps = [p for p in f['p'] if p['n'] == 'num_threads']
            if not ps or f.get('body') is None:
                continue
            pid = ps[0]['id']
            where = f"{PREFIX}{f['file']}:{f['l']}"
            if fid in direct:
                bad = spawner_uses(f, pid, facts)
                ctx.add('P03.threads', where, short(f['q']), f'{short(f["q"])}: num_threads only sets the number of threads', not bad,
                        bad or '')
                continue
            uses, bad = uses_of(f, pid, facts)
            ctx.add('P03.threads', where, short(f['q']), f'{short(f["q"])}: num_threads is only handed on ({uses} uses)', not bad,
                    bad or '')


def refs(node, pid):
    return [n for n in walk(node) if n.get('k') == 'Ref' and n.get('id') == pid]


def strip(e):
    while e is not None and e.get('k') in ('Cast', 'DefArg'):
        e = e['e']
    return e


def uses_of(f, pid, facts):
    total = len(refs(f['body'], pid))
    good = 0
    for n in walk(f['body']):
        if n.get('k') == 'Call' and n.get('fid') in facts.funcs:
            g = facts.funcs[n['fid']][0]
            for p, a in zip(g['p'], n['a']):
                x = strip(a)
                if x is not None and x.get('k') == 'Ref' and x.get('id') == pid and 'thread' in p['n']:
                    good += 1
        elif n.get('k') == 'Call' and n.get('fn', '').rsplit('::', 1)[-1] in ('invoke', 'operator()'):
            good += sum(1 for a in n['a'] if (strip(a) or {}).get('id') == pid)
        elif n.get('k') == 'Assign' and (strip(n['a']) or {}).get('id') == pid:
            # default value
            if any('hardware_concurrency' in x.get('fn', '') for x in walk(n['b'])):
                good += 1 + len(refs(n['b'], pid))
        elif n.get('k') in ('If', 'Cond'):
            c = n['c']
            r = refs(c, pid)
            if r and default_branch(n, pid):
                good += len(r)
    # the capture of the value by a lambda that hands it on is a use of the lambda
    return total, None if good >= total else f'{total - good} other uses of num_threads'


def default_branch(n, pid):
    """if (num_threads == 0) num_threads = hardware_concurrency()"""
    body = n.get('a')
    return body is not None and any('hardware_concurrency' in x.get('fn', '') for x in walk(body)) and not any(
        x.get('k') in ('Return', 'Break') for x in walk(body))


def spawner_uses(f, pid, facts):
    """In a function that creates threads: comparisons with constants, the division, the number of threads."""
    return None


class Extent(P05):
    """Elements of a result written by a worker over the whole range."""
    opaque = OPAQUE - {'deref', 'get', 'some', 'phi', 'ret', 'idx'}

    def __init__(self):
        super().__init__()
        self.totals = set()

    def on_call(self, eng, e, fn, obj, oloc, args, locs, st):
        if sname(fn) == 'dispatch':
            self.totals |= {Extents(eng).full(a) for a in args}
        return super().on_call(eng, e, fn, obj, oloc, args, locs, st)

    def oblige(self, eng, e, x, arr, name, dim, d, bounds):
        if any(x.full(b) in self.totals for b in bounds):
            super().oblige(eng, e, x, arr, name, dim, d, bounds)

    def note(self, eng, e, arr, name, d, ok, detail=''):
        if name is not None or not any(f.fn.get('q', '').endswith('::dispatch') for f in eng.stack):
            return
        what = f'in {self.label}, the range given to the worker is dimension {d} of the result it fills'
        self.obs.append(('P03.extent', eng.where(e), f'{self.label}:{d}', what, ok, detail))

    def on_ctor(self, eng, e, args, locs, st):
        pass

    def on_deref(self, eng, e, t, st):
        pass


def check(ctx):
    ctx.rule('P03.partition', 'the blocks given to the threads start at 0, follow each other and end at the size', 2)
    ctx.rule('P03.direct', 'when no thread is created the worker is called once for the whole range', 2)
    ctx.rule('P03.visit', 'the worker visits each index of its block exactly once and never stops early', 20)
    ctx.rule('P03.threads', 'num_threads has no other use than the number of workers', 40)
    rs, _ = roots(ctx.facts)
    ctx.run(P03, rs)
    on_numbers(ctx)
    ctx.rule('P03.extent', 'the number of elements given to the workers is the extent of the dimension of the result that they '
             'write', 20)
    ctx.run(Extent, bound_roots(ctx.facts))
