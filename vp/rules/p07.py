"""P07: outside the grid the result is NaN, or an error that names the axis at fault."""
import itertools
import re

from ..bindings import read
from ..engine import Rule, show
from ..extent import sname
from ..threads import short
from .p05 import bound_roots
from .p08 import FIND, ORDER, P08, blend, element, plain

STOP = FIND | {'coordinate_value', 'coordinate_repr', 'is_angle', 'is_circle', 'evaluate', 'interpolate', 'search', 'min_value',
               'max_value', 'normalize_coordinate', 'slice'}
FAILS = FIND | {'search'}


def is_nan(t):
    return t[0] == 'call' and sname(t[1]) in ('quiet_NaN', 'signaling_NaN', 'nan', 'nanf', 'nanl') or \
        t[0] == 'c' and isinstance(t[1], float) and t[1] != t[1]


class Cases(Rule):
    """Reasoning on which of the lookups made so far have failed."""
    disjunctions = True

    def lookups(self, eng, t, out, n=0, seen=None):
        """Every search that a term depends on."""
        seen = set() if seen is None else seen
        if not isinstance(t, tuple) or not t:
            return
        if t in seen:
            return
        seen.add(t)
        t = eng.x(t) if isinstance(t[0], str) else t
        if t[0] == 'look':
            return
        if t[0] == 'call' and isinstance(t[1], str) and sname(t[1]) in FAILS and not self.bounded(eng, t):
            out.add(t)
        for y in t:
            if isinstance(y, tuple):
                self.lookups(eng, y, out, n + 1, seen)
            elif isinstance(y, frozenset):
                for z in y:
                    self.lookups(eng, z, out, n + 1, seen)

    def bounded(self, eng, t):
        """A search that moves the coordinates outside the axis to its ends, and thus never fails."""
        return sname(t[1]) == 'find_index' and len(t) > 4 and eng.x(t[4])[0] == 'c' and bool(eng.x(t[4])[1])

    def lookup(self, eng, t):
        t = eng.x(t)
        while t[0] in ('m', 'some') and len(t) > 2 and isinstance(t[2], tuple) or t[0] == 'new' and len(t) == 3:
            t = eng.x(t[2])
        return t if t[0] == 'call' and isinstance(t[1], str) and sname(t[1]) in FAILS else None

    def truth(self, eng, t, a, n=0):
        """Value of a condition when the lookups succeed or fail as a says: True, False or None."""
        t = eng.x(t)
        if n > 40:
            return None
        if t in a:
            return a[t]
        k = t[0]
        if k == 'c':
            return bool(t[1]) if isinstance(t[1], (bool, int)) else None
        if k == 'u' and t[1] == '!':
            v = self.truth(eng, t[2], a, n + 1)
            return None if v is None else not v
        if k == 'has':
            l = self.lookup(eng, t[1])
            return a.get(l) if l is not None else None
        if k == 'call' and sname(t[1]) in ('empty', 'has_value', 'operator bool') and len(t) == 3:
            l = self.lookup(eng, t[2])
            v = a.get(l) if l is not None else None
            return None if v is None else (not v if sname(t[1]) == 'empty' else v)
        if k == 'b' and t[1] in ('&&', '||', '&', '|'):
            x, y = self.truth(eng, t[2], a, n + 1), self.truth(eng, t[3], a, n + 1)
            z = t[1] in ('||', '|')
            if x is z or y is z:
                return z
            return None if x is None or y is None else not z
        if k == 'b' and t[1] in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(eng, t, a, n)
        if k in ('phi', 'ret'):
            vs = {self.truth(eng, v, a, n + 1) for v in self.alternatives(eng, t, a, n)}
            return next(iter(vs)) if len(vs) == 1 else None
        if k == 'cond':
            c = self.truth(eng, t[1], a, n + 1)
            if c is not None:
                return self.truth(eng, t[2] if c else t[3], a, n + 1)
            x, y = self.truth(eng, t[2], a, n + 1), self.truth(eng, t[3], a, n + 1)
            return x if x is y else None
        return None

    def compare(self, eng, t, a, n):
        x, y = eng.x(t[2]), eng.x(t[3])
        op = t[1]
        if y[0] != 'c':
            x, y = y, x
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if y[0] != 'c':
            return None
        if isinstance(y[1], bool):
            v = self.truth(eng, x, a, n + 1)
            return None if v is None or op not in ('==', '!=') else (v == y[1]) == (op == '==')
        if x[0] == 'c':
            return self.truth(eng, eng.simp(('b', op, x, y)), a, n + 1) if n < 30 else None
        if x[0] == 'cond':
            c = self.truth(eng, x[1], a, n + 1)
            vs = {self.compare(eng, ('b', op, v, y), a, n + 1) for v, k in ((x[2], True), (x[3], False)) if c in (None, k)}
            return next(iter(vs)) if len(vs) == 1 else None
        if x[0] in ('phi', 'ret'):
            vs = {self.compare(eng, ('b', op, v, y), a, n + 1) for v in self.alternatives(eng, x, a, n)}
            return next(iter(vs)) if len(vs) == 1 else None
        size = False
        if x[0] == 'size' or x[0] == 'call' and sname(x[1]) == 'size' and len(x) == 3:
            x, size = x[-1], True
        l = self.lookup(eng, x)
        if l is None or l not in a and not self.bounded(eng, l) or not isinstance(y[1], int):
            return None
        lo, hi = (1, None) if size else (0, None)
        if not a.get(l, True):
            lo = hi = 0 if size else -1
        c = y[1]
        if op in ('==', '!='):
            if lo == hi:
                return (lo == c) == (op == '==')
            return None if c >= lo else op == '!='
        rng = {'<': (lambda v: v < c), '>': (lambda v: v > c), '<=': (lambda v: v <= c), '>=': (lambda v: v >= c)}[op]
        if lo == hi:
            return rng(lo)
        if op in ('>', '>='):
            return True if rng(lo) else None
        return False if not rng(lo) else None

    def alternatives(self, eng, t, a, n=0):
        """Values that a joined term can have in the case a."""
        for d, v in t[2]:
            if v is None:
                continue
            if any(self.truth(eng, f, a, n + 1) is (not p) for f, p in d if f[0] not in ('imp', 'set', 'look')):
                continue
            yield v

    def leaves(self, eng, t, a, n=0):
        t = eng.x(t)
        if n < 40:
            if t[0] in ('phi', 'ret'):
                for v in self.alternatives(eng, t, a, n):
                    yield from self.leaves(eng, v, a, n + 1)
                return
            if t[0] == 'cond':
                c = self.truth(eng, t[1], a)
                if not self.possible(eng, t[1], None, a):
                    return
                if c is not False:
                    yield from self.leaves(eng, t[2], a, n + 1)
                if c is not True:
                    yield from self.leaves(eng, t[3], a, n + 1)
                return
        yield t

    def possible(self, eng, f, p, a):
        t = eng.x(f)
        if t[0] in ('phi', 'ret') and next(self.alternatives(eng, t, a), None) is None:
            return False
        return p is None or self.truth(eng, t, a) is not (not p)

    def cases(self, eng, st, t=None, extra=()):
        """Every outcome of the lookups that the facts (and the value t) depend on and the facts do not exclude."""
        out = set()
        for f, _ in st.facts:
            self.lookups(eng, f[1] if f[0] == 'look' else f, out)
        if t is not None:
            self.lookups(eng, t, out)
        atoms = sorted(out, key=repr)
        if len(atoms) > 8:
            atoms = atoms[:8]
        facts = [(f, p) for f, p in st.facts if f[0] not in ('imp', 'set', 'look')]
        for vals in itertools.product((True, False), repeat=len(atoms) + len(extra)):
            a = dict(zip(list(extra) + atoms, vals))
            if all(self.possible(eng, f, p, a) for f, p in facts):
                yield {x: a[x] for x in atoms}, a


class P07(P08, Cases):

    def start(self, eng, fn):
        self.fn = fn
        self.flag = None
        names = self.names.get(fn.get('id')) or []
        off = len(fn['p']) - len(names)
        for i, p in enumerate(fn['p']):
            if (names[i - off] if names and i >= off else p['n']) == 'bounds_error':
                self.flag = ('p', p['n'], i)
        self.slots = {}
        if self.flag is None:
            return
        super().start(eng, fn)

    def inline(self, eng, e, fn):
        return sname(fn['q']) not in STOP and not blend(fn)

    def on_call(self, eng, e, fn, obj, oloc, args, locs, st):
        if fn and obj is not None and not eng.mute:
            self.search(eng, e, fn, obj, args, st)
        if fn and obj is not None and sname(fn) in FIND:
            # the search belongs to the path even if nothing is made of its outcome
            t = eng.compact(('call', fn, obj) + tuple(args))
            st.facts = st.facts | {(('look', t), True)}
            return t, None
        return None

    def on_bin(self, *a):
        return None

    on_index = on_bin

    def result(self, eng, st, loc):
        """The array that an assigned element belongs to, when it is created by the function itself."""
        if loc is None or loc[0] != 'sub':
            return None
        a = eng.x(eng.read(st, loc[1])) if loc[1] is not None else None
        while a is not None and (a[0] == 'm' and len(a) > 2 and isinstance(a[2], tuple)):
            a = eng.x(a[2])
        return a

    def on_assign(self, eng, e, loc, t, new, st):
        if new is None or loc is None or loc[0] != 'sub' or eng.mute:
            return
        ix = loc[2] if isinstance(loc[2], tuple) and loc[2] and isinstance(loc[2][0], tuple) else (loc[2],)
        if len(ix) != 1:
            return
        v = eng.x(new)
        i = eng.x(ix[0])
        if i[0] == 'loop':
            # the index may have been converted or copied
            key = (self.result(eng, st, loc), i)
            for site, _ in eng.loopstack:
                if i[1:len(site) + 1] == site or i[1] == site:
                    self.slots[(site, key)] = (e, None)
                    st.facts = st.facts | {(('set',) + key, True)}
        deps = set()
        self.lookups(eng, v, deps)
        leaves = list(self.leaves(eng, v, {}))
        if not deps and not any(is_nan(l) for l in leaves):
            facts = set()
            for f, _ in st.facts:
                self.lookups(eng, f, facts)
            if not facts:
                return
        bad = ''
        for c, a in self.cases(eng, st, v, (self.flag,)):
            failed = [l for l, ok in c.items() if not ok]
            if not failed:
                continue
            which = ', '.join(sorted('/'.join(sorted(self.roles(eng, l))) or 'the axis' for l in failed))
            if a[self.flag] and any(True for _ in self.leaves(eng, v, a)):
                bad = bad or f'with bounds_error, a result is stored although the lookup along {which} failed'
            for l in self.leaves(eng, v, a):
                if not is_nan(l):
                    bad = bad or f'{eng.show(l)[:80]} is stored although the lookup along {which} failed'
        self.put('P07.value', eng, e, 'slot', f'in {self.label}, outside the axes the stored result is NaN, and only without bounds_error',
                 not bad, bad)

    def on_loop_end(self, eng, s, site, end, conts):
        if eng.mute:
            return
        for (loop, key), (e, names) in list(self.slots.items()):
            if loop != site:
                continue
            ok = end is None or (('set',) + key, True) in end.facts
            self.put('P07.set', eng, e, 'all', f'in {self.label}, every turn of the loop stores a result', ok,
                     'on some path the slot keeps whatever the memory contained')

    def search(self, eng, e, fn, obj, args, st):
        if sname(fn) != 'find_index' or len(args) < 2:
            return
        t = eng.x(args[1])
        ok = t[0] == 'c' and not t[1]
        if not ok:
            # unless the coordinate is known to be inside the axis
            for f, _ in st.facts:
                ls = set()
                self.lookups(eng, f, ls)
                for l in ls:
                    if len(l) > 3 and eng.x(l[2]) == eng.x(obj) and eng.x(l[3]) == eng.x(args[0]):
                        ok = ok or all(c.get(l) for c, _ in self.cases(eng, st))
        self.put('P07.search', eng, e, 'bounded', f'in {self.label}, the search reports the coordinates outside the axis', ok,
                 'a coordinate outside the axis is moved to its nearest end')

    def on_throw(self, eng, e, t, st):
        if eng.mute or t is None:
            return
        out = set()
        for f, _ in st.facts:
            if f[0] != 'look':
                self.lookups(eng, f, out)
        if not out:
            return
        cs = list(self.cases(eng, st, None, (self.flag,)))
        if not any(c for c, _ in cs):
            return
        atoms = set()
        for c, _ in cs:
            atoms |= set(c)
        if any(not a[self.flag] for _, a in cs):
            self.put('P07.error', eng, e, 'flag', f'in {self.label}, an error about a lookup is only raised with bounds_error', False,
                     'bounds_error may be false')
            return
        axes = {}
        for l in atoms:
            for r in self.roles(eng, l):
                axes.setdefault(r, set()).add(l)
        named = set(self.words(eng, t))
        coord = set()
        for y in eng.subterms(t):
            y = eng.x(y)
            if y[0] == 'call' and sname(y[1]) == 'coordinate_repr':
                coord |= self.roles(eng, y)
        bad = ''
        if len(atoms) > 1 or named or coord:
            if len(named) != 1:
                bad = 'the error names ' + (', '.join(sorted(named)) or 'no axis')
            elif coord != named:
                bad = f'the error names the axis {next(iter(named))} with the coordinate of {"/".join(sorted(coord)) or "no axis"}'
            else:
                r = next(iter(named))
                ls = axes.get(r) or set()
                for c, _ in cs:
                    if not any(c.get(l) is False for l in ls):
                        bad = f'the error names the axis {r}, whose lookup may have succeeded'
        else:
            l = next(iter(atoms))
            if any(c.get(l) is not False for c, _ in cs):
                bad = 'the lookup may have succeeded'
        self.put('P07.error', eng, e, '/'.join(sorted(named)) or 'axis',
                 f'in {self.label}, the error names an axis whose lookup failed, with its coordinate', not bad, bad)

    def words(self, eng, t):
        for y in eng.subterms(t):
            y = eng.x(y)
            if y[0] in ('c', 's') and isinstance(y[1], str):
                for w in re.findall(r"[A-Za-z0-9']+", y[1]):
                    if w in ORDER and len(w) == 1:
                        yield w


class Kernel(Cases):
    """The interpolators of one window: outside its data they give NaN."""

    def start(self, eng, fn):
        self.fn = fn
        eng.run(fn)

    def inline(self, eng, e, fn):
        return sname(fn['q']) not in STOP

    def on_return(self, eng, s, t, st):
        if eng.mute or t is None or len(eng.stack) > 1:
            return
        bad = ''
        n = 0
        for c, a in self.cases(eng, st, t):
            n = max(n, len(c))
            if c and not all(c.values()):
                for l in self.leaves(eng, t, a):
                    if not is_nan(l):
                        bad = bad or f'{eng.show(l)[:80]} is returned'
        if n:
            self.obs.append(('P07.kernel', eng.where(s), f'{short(self.fn["q"])}:return', f'{short(self.fn["q"])} returns NaN for a point '
                             'outside its data', not bad, bad))

    def on_throw(self, eng, e, t, st):
        if eng.mute:
            return
        for c, a in self.cases(eng, st):
            if c and not all(c.values()):
                self.obs.append(('P07.kernel', eng.where(e), f'{short(self.fn["q"])}:throw', f'{short(self.fn["q"])} returns NaN for a '
                                 'point outside its data', False, 'an exception is thrown'))
                return


def kernels(facts):
    for fs in facts.funcs.values():
        for f in fs:
            if f.get('body') and '::interpolation::' in f['q'] and sname(f['q']) in ('interpolate_', 'derivative_'):
                yield f
                break


class Search(Cases):
    """The searches of an axis: a coordinate outside is reported as such."""

    def start(self, eng, fn):
        self.fn = fn
        self.coord = ('p', fn['p'][0]['n'], 0)
        self.flag = next((('p', p['n'], i) for i, p in enumerate(fn['p']) if plain(p['t']) == 'bool'), None)
        eng.run(fn)

    def inline(self, eng, e, fn):
        return sname(fn['q']) not in FIND | {'normalize_coordinate', 'coordinate_value'}

    def put(self, eng, e, tag, what, bad):
        self.obs.append(('P07.axis', eng.where(e), f'{short(self.fn["q"])}:{tag}', what, not bad, bad))

    def on_call(self, eng, e, fn, obj, oloc, args, locs, st):
        if fn and sname(fn) == 'find_index' and len(args) > 1 and not eng.mute:
            t = eng.x(args[1])
            ok = t == self.flag or t[0] == 'c' and not t[1]
            self.put(eng, e, 'flag', f'{short(self.fn["q"])} does not move a coordinate outside the axis', '' if ok else
                     f'the search is bounded by {eng.show(t)[:60]}')

    def circles(self, eng, st, t):
        """The conditions that tell a circular axis, which has no outside."""
        out = set()

        def go(y, seen):
            if not isinstance(y, (tuple, frozenset)) or not y or y in seen:
                return
            seen.add(y)
            if isinstance(y, tuple) and isinstance(y[0], str):
                y = eng.x(y)
                if y[0] == 'f' and 'circle' in str(y[2]) or y[0] == 'call' and 'circle' in sname(str(y[1])):
                    out.add(y)
            for z in y:
                go(z, seen)
        seen = set()
        for f, _ in st.facts:
            go(f, seen)
        go(t, seen)
        return tuple(sorted(out, key=repr))

    def at_point(self, eng, st, number):
        """The coordinate is compared with a point of the axis."""
        for f, p in st.facts:
            f = eng.x(f)
            if f[0] == 'b' and f[1] in (('<', '==') if number else ('==', )) and p == (f[1] == '=='):
                a, b = eng.x(f[2]), eng.x(f[3])
            elif f[0] == 'call' and len(f) >= 4 and sname(f[1]) in ('operator()', 'cmp') and not p:
                a, b = eng.x(f[-2]), eng.x(f[-1])
            elif element(eng, f) is not None and len(element(eng, f)[1]) == 2 and not p:
                a, b = element(eng, f)[1]           # a comparison object called
            else:
                continue
            if any(self.given(eng, x) and not self.given(eng, y) for x, y in ((a, b), (b, a))):
                return True
        return False

    def given(self, eng, t):
        """The coordinate itself, normalised or not."""
        t = eng.x(t)
        while t[0] == 'call' and sname(t[1]) in ('normalize_coordinate', 'normalize_angle', 'normalize'):
            t = eng.x(t[2] if sname(t[1]) != 'normalize_coordinate' else t[3])
        return t == self.coord

    def mentions(self, eng, t, x):
        t = eng.x(t)
        return t == x or any(eng.x(y) == x for y in eng.subterms(t) if isinstance(y, tuple))

    def empty(self, eng, l):
        if l[0] == 'none' or l[0] in ('c', 'e') and 'nullopt' in str(l[1]):
            return True
        if l[0] in ('new', 'init', 'call') and len(l) > 1 and ('optional' in str(l[1]) or 'vector' in str(l[1]) or 'nullopt' in str(l)):
            return len(l) == 2 or 'nullopt' in str(l)
        return 'nullopt' in str(l)

    def on_return(self, eng, s, t, st):
        if eng.mute or t is None or len(eng.stack) > 1:
            return
        number = 'optional' not in self.fn['ret'] and 'vector' not in self.fn['ret']
        bad = ''
        circles = self.circles(eng, st, t)
        extra = ((self.flag,) if self.flag is not None else ()) + circles
        point = self.at_point(eng, st, number)
        for c, a in self.cases(eng, st, t, extra):
            if self.flag is not None and a[self.flag] or any(a[x] for x in circles):
                continue
            failed = [l for l, ok in c.items() if not ok]
            for l in self.leaves(eng, t, a):
                if point or l in c:
                    continue
                if number:
                    if l == ('c', -1):
                        continue
                    if failed or not self.mentions(eng, l, self.coord):
                        bad = bad or f'{eng.show(l)[:60]} is returned for a coordinate that may be outside'
                elif failed and not self.empty(eng, l):
                    bad = bad or f'{eng.show(l)[:60]} is returned for a coordinate that may be outside'
        self.put(eng, s, 'return', f'{short(self.fn["q"])} reports a coordinate outside the axis', bad)


def searches(facts):
    for fs in facts.funcs.values():
        for f in fs:
            if f.get('body') and f['p'] and sname(f['q']) in FIND and '::detail::' in f['q'] and 'Undefined' not in f['q']:
                yield f


def check(ctx):
    ctx.rule('P07.value', 'a result stored when a lookup failed is NaN and bounds_error is false', 4)
    ctx.rule('P07.set', 'each turn of the loop over the points stores a result, on every path', 4)
    ctx.rule('P07.search', 'the searches report the coordinates outside an axis', 0)
    ctx.rule('P07.error', 'an out-of-bounds error names the axis whose lookup failed, with its coordinate', 4)
    P07.names = {b.target: [a[0] for a in b.args] for b in read(ctx.facts) if b.target and b.args and all(a[0] for a in b.args)}
    ctx.run(P07, bound_roots(ctx.facts))
    ctx.rule('P07.kernel', 'the interpolators of a window return NaN for a point outside their data', 6)
    ctx.run(Kernel, kernels(ctx.facts))
    ctx.rule('P07.axis', 'the searches of an axis report a coordinate outside of it, unless they are asked to clamp it', 8)
    ctx.run(Search, searches(ctx.facts))
