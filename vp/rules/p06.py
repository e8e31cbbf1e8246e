"""P06: a lookup that failed is never used as an index nor dereferenced."""
from ..engine import THIS, Rule, show, walk
from ..extent import sname, vector_type
from ..linear import ONE, add, facts_rows, form, prove, scale
from ..threads import short
from .p05 import bound_roots

INDEX = {'find_index', 'find_nearest_index'}
LIST = {'find_indexes'}
ITER = {'lower_bound', 'upper_bound', 'find', 'find_if', 'adjacent_find', 'find_if_not'}
NEIGHBOUR = {'query', 'query_within', 'query_ball', 'value', 'nearest', 'nearest_within'}
POSITION = {'coordinate_value', 'slice', 'segment', 'row', 'col', 'value', 'operator()', 'operator[]', 'at'}


def is_optional(t):
    return t.replace('const ', '').strip().startswith(('std::optional<', 'optional<'))


class P06(Rule):
    """Uses of the result of a lookup, in a function Python calls and all it reaches."""

    def start(self, eng, fn):
        self.label = fn.get('label') or short(fn['q'])
        self.search_root = sname(fn['q']) in INDEX | LIST
        eng.run(fn)

    def inline(self, eng, e, fn):
        # the searches themselves are analysed apart, through the classes that implement them
        return sname(fn['q']) not in INDEX | LIST or self.search_root

    # -- facts -------------------------------------------------------------------
    def known(self, eng, st, fits):
        return any(fits(eng.x(f), p) for f, p in st.facts)

    def found(self, eng, st, l):
        """The index is known not to be -1."""
        def fits(f, p):
            if f[0] != 'b' or f[1] not in ('==', '<'):
                return False
            a, b = eng.x(f[2]), eng.x(f[3])
            if f[1] == '==':
                return not p and (a == l and b == ('c', -1) or b == l and a == ('c', -1)) or \
                    p and (a == l and b[0] == 'c' and b[1] >= 0 or b == l and a[0] == 'c' and a[1] >= 0)
            if a == l and b[0] == 'c' and b[1] >= 0:
                return not p and b[1] >= 0
            return b == l and a[0] == 'c' and p and a[1] >= -1
        return self.known(eng, st, fits)

    def lookups(self, eng, t, names, n=0):
        """Results of searches whose value makes up t (not those a condition or a read depends on)."""
        t = eng.x(t)
        if not isinstance(t, tuple) or not t or n > 14:
            return
        if t[0] == 'call':
            if sname(t[1]) in names:
                yield t
            return
        if t[0] == 'b' and t[1] in ('+', '-'):
            yield from self.lookups(eng, t[2], names, n + 1)
            yield from self.lookups(eng, t[3], names, n + 1)
        elif t[0] in ('phi', 'ret'):
            for c, v in t[2]:
                if v:
                    yield from self.lookups(eng, v, names, n + 1)
        elif t[0] == 'cond':
            yield from self.lookups(eng, t[2], names, n + 1)
            yield from self.lookups(eng, t[3], names, n + 1)
        elif t[0] in ('trunc', 'u') and len(t) > 1:
            yield from self.lookups(eng, t[-1], names, n + 1)

    def filled(self, eng, t, facts, n=0):
        """The optional holds a value wherever the facts hold."""
        t = eng.x(t)
        if any(p and eng.x(f)[0] == 'has' and eng.x(eng.x(f)[1]) == t for f, p in facts):
            return True
        if t[0] == 'some':
            return True
        if t[0] == 'new':
            if is_optional(t[1]):
                return len(t) == 3 and self.filled(eng, t[2], facts, n + 1)
            return 'nullopt' not in t[1]
        if t[0] in ('phi', 'ret') and n < 6:
            return all(any((c, not p) in facts for c, p in cs) or v and self.filled(eng, v, facts | frozenset(cs), n + 1)
                       for cs, v in t[2])
        if t[0] == 'cond' and n < 6:
            return self.filled(eng, t[2], facts | eng.implied(t[1], True), n + 1) and \
                self.filled(eng, t[3], facts | eng.implied(t[1], False), n + 1)
        return False

    # -- uses ----------------------------------------------------------------------
    def note(self, eng, e, rule, key, what, ok, detail=''):
        if eng.mute:
            return
        self.obs.append((rule, eng.where(e), f'{self.label}:{short(eng.funcname())}:{key}', f'in {self.label}, {what}', ok,
                         '' if ok else detail))

    def on_deref(self, eng, e, t, st):
        o = e.get('obj') or e.get('a') or e.get('b') or {}
        ty = o.get('t', '')
        t = eng.x(t)
        if is_optional(ty):
            if t[0] == 'some':
                return
            ok = self.filled(eng, t, st.facts)
            self.note(eng, e, 'P06.optional', 'optional', f'{show(t, 0, eng)[:60]} is read only if it holds a value', ok, 'not tested')
            return
        if eng.mute:
            return
        self.iterator(eng, e, t, st, 0)
        self.walk(eng, e, t, st, ty)
        self.extremum(eng, e, t, st)

    def walk(self, eng, e, t, st, ty):
        """A variable that walks a container."""
        if t[0] != 'loop' or 'iterator' not in ty.lower() or t[3] is None:
            return
        init = eng.x(t[3])
        if not any(isinstance(x, tuple) and x and x[0] == 'call' and sname(x[1]) in ('begin', 'cbegin', 'rbegin')
                   for x in eng.subterms(init)):
            return
        if not self.compared(eng, e):
            return      # something else bounds the walk
        ok = self.known(eng, st, lambda f, p: f[0] == 'b' and (
            f[1] == '==' and not p and t in (eng.x(f[2]), eng.x(f[3])) or f[1] == '<' and p and eng.x(f[2]) == t))
        self.note(eng, e, 'P06.walk', 'walk', 'the iterator over a container is read only before its end', ok, 'the end is not excluded')

    def compared(self, eng, e):
        """The function compares the iterator it reads with another one."""
        o = e.get('obj') or e.get('a') or {}
        ids = {x.get('id') for x in walk(o) if x.get('k') == 'Ref'}
        for x in walk(eng.stack[-1].fn.get('body') or {}):
            if x.get('k') in ('Bin', 'Call') and x.get('op') in ('==', '!=', '<'):
                if ids & {y.get('id') for y in walk(x) if y.get('k') == 'Ref'} and not any(
                        y.get('op') in ('*', '->') for y in walk(x)):
                    return True
        return False

    def extremum(self, eng, e, t, st):
        x = eng.x(t[1]) if t[0] == 'get' else t
        if x[0] != 'call' or sname(x[1]) not in ('minmax_element', 'max_element', 'min_element') or len(x) < 4:
            return
        b = eng.x(x[2])
        if b[0] != 'call' or sname(b[1]) not in ('begin', 'cbegin') or len(b) != 3:
            return
        c = eng.x(b[2])
        while c[0] in ('deref', 'some'):
            c = eng.x(c[1])
        if c[0] == 'p':
            self.note(eng, e, 'P06.first', 'extremum', 'the extreme element of an array is read only if it has elements',
                      self.nonempty(eng, st, eng.x(b[2])), 'it may be empty')

    def iterator(self, eng, e, t, st, back):
        if t[0] == 'b' and t[1] == '-' and eng.x(t[3]) == ('c', 1):
            self.iterator(eng, e, eng.x(t[2]), st, back + 1)
            return
        if t[0] != 'call' or sname(t[1]) not in ITER or len(t) < 3:
            return
        algo = t[1].startswith('std::') and '<' not in t[1] and len(t) >= 5
        end = eng.x(t[3]) if algo else None
        beg = eng.x(t[2]) if algo else None

        def against(names, exact):
            def fits(f, p):
                if f[0] != 'b' or f[1] != '==' or p:
                    return False
                for a, b in ((eng.x(f[2]), eng.x(f[3])), (eng.x(f[3]), eng.x(f[2]))):
                    if a == t and (b == exact or b[0] == 'call' and sname(b[1]) in names):
                        return True
                return False
            return self.known(eng, st, fits)
        what = f'the position found by {sname(t[1])} is read only if there is one'
        if back:
            self.note(eng, e, 'P06.iterator', 'before', what, against({'begin', 'cbegin'}, beg), 'the beginning is not excluded')
        else:
            # a search in a container that is never empty gives its first element or its end, which differ
            ok = against({'end', 'cend'}, end) or self.never_empty(eng) and self.known(
                eng, st, lambda f, p: p and f[0] == 'b' and f[1] == '==' and {eng.x(f[2]), eng.x(f[3])} == {t, beg})
            self.note(eng, e, 'P06.iterator', 'at', what, ok, 'the end is not excluded')

    def never_empty(self, eng):
        """Every constructor of the class whose method runs refuses an empty array."""
        cls = eng.funcname().rsplit('::', 1)[0]
        cs = [f for fs in eng.f.funcs.values() for f in fs if f['kind'] == 'ctor' and f['q'].rsplit('::', 1)[0] == cls and
              any(vector_type(p['t']) is not None for p in f['p'])]
        return bool(cs) and all(self.refuses_empty(f) for f in cs)

    def refuses_empty(self, f):
        for s in walk(f['body']):
            if s.get('k') == 'If' and any(x.get('k') == 'Throw' for x in walk(s['a'] or {})) and \
                    any(x.get('k') == 'Call' and sname(x.get('fn', '')) in ('size', 'empty', 'rows') for x in walk(s['c'])):
                return True
        return False

    def on_index(self, eng, e, a, ix, st, la):
        a = eng.x(a)
        for i in ix:
            self.position(eng, e, i, st)
        if a[0] == 'call' and sname(a[1]) in LIST and len(ix) == 1:
            i = eng.x(ix[0])
            ok = self.nonempty(eng, st, a) or self.known(
                eng, st, lambda f, p: p and f[0] == 'b' and f[1] in ('<', '!=') and eng.x(f[2]) == i and self.size_of(eng, f[3], a))
            self.note(eng, e, 'P06.list', 'list', 'the positions around a coordinate are read only if some were found', ok,
                      f'{show(a, 0, eng)[:60]} may be empty')

        if a[0] in ('val', 'f', 'm', 'loop', 'phi', 'x', 'new') and len(ix) == 1 and eng.x(ix[0]) == ('c', 0) and \
                self.filled_elsewhere(eng, e, a):
            self.note(eng, e, 'P06.first', 'first', 'the first element of a list is read only if the list has elements',
                      self.nonempty(eng, st, a), f'{show(a, 0, eng)[:60]} may be empty')

    def filled_elsewhere(self, eng, e, a):
        """A vector that is not allocated with its elements."""
        if a[0] == 'f' and a[2] in ('shape', 'strides'):
            return False    # the properties of an array: one item per dimension
        return 'vector<' in (e.get('obj') or e.get('a') or {}).get('t', '') and not (a[0] == 'new' and len(a) > 2)

    def size_of(self, eng, t, a):
        t = eng.x(t)
        return t[0] == 'call' and sname(t[1]) == 'size' and eng.x(t[2]) == a

    def nonempty(self, eng, st, a):
        def fits(f, p):
            if f[0] == 'call' and sname(f[1]) == 'empty' and eng.x(f[2]) == a:
                return not p
            if f[0] == 'b':
                x, y = eng.x(f[2]), eng.x(f[3])
                if f[1] == '==' and not p:
                    return self.size_of(eng, x, a) and y == ('c', 0) or self.size_of(eng, y, a) and x == ('c', 0)
                if f[1] == '<':
                    return self.size_of(eng, y, a) and p and x[0] == 'c' and x[1] >= 0 or \
                        self.size_of(eng, x, a) and not p and y[0] == 'c' and y[1] > 0
            return False
        return self.known(eng, st, fits)

    def position(self, eng, e, i, st):
        for l in self.lookups(eng, i, INDEX):
            self.note(eng, e, 'P06.index', 'index', f'the index {show(l, 0, eng)[:60]} is used only if it is one', self.found(eng, st, l),
                      '-1 is not excluded')

    def on_call(self, eng, e, fn, obj, oloc, args, locs, st):
        n = sname(fn)
        if n in POSITION and not (n in ('operator()', 'operator[]') and not e.get('repo')) or n in ('calculate_start_end_size',):
            for a in args:
                self.position(eng, e, a, st)
        if n in ('front', 'back') and obj is not None and not args:
            o = eng.x(obj)
            if o[0] == 'call' and sname(o[1]) in LIST:
                self.note(eng, e, 'P06.list', n, 'the positions around a coordinate are read only if some were found',
                          self.nonempty(eng, st, o), f'{show(o, 0, eng)[:60]} may be empty')
            elif 'std::vector<' in e['obj'].get('t', '') and self.filled_elsewhere(eng, e, o):
                self.note(eng, e, 'P06.first', n, 'the first or last element of a list is read only if the list has elements',
                          self.nonempty(eng, st, o), f'{show(o, 0, eng)[:60]} may be empty')
        return None


class Positions(Rule):
    """The positions a search returns are positions of the axis (class detail::Axis)."""
    opaque = LIST | {'remainder', 'normalize_coordinate', 'size'}

    def start(self, eng, fn):
        self.low = {}       # first value of the loop variables that only grow
        self.later = []
        eng.run(fn)
        for x in self.later:
            self.decide(eng, *x)

    def inline(self, eng, e, fn):
        return sname(fn['q']) not in self.opaque and not (sname(fn['q']) in INDEX and 'container' not in fn['q'])

    def on_loop(self, eng, s, site, info, end):
        for k, v in info['vars'].items():
            i = info['init'].get(k)
            if i is None or v is None:
                continue
            head = ('loop', site, k, i)
            f = form(eng, v, lambda t: t)
            if f.get(head) == 1 and set(f) <= {head, ONE} and f.get(ONE, 0) >= 0:
                self.low[(site, k)] = i

    # -- the ranges of what a position is made of ------------------------------------
    def atom(self, eng):
        def name(t):
            if t[0] == 'call' and sname(t[1]) == 'size' and any(x == THIS for x in eng.subterms(t)):
                return 'len'
            if t[0] == 'f' and t[1] == THIS and t[2] == 'size_':
                return 'len'
            return t
        return name

    def rows(self, eng, facts, terms):
        atom = self.atom(eng)
        out = facts_rows(eng, facts, atom)
        out.append({'len': 1, ONE: -1})
        top = {'len': 1, ONE: -1}
        seen = set()
        todo = [x for t in terms for x in eng.subterms(t)] + [x for f, _ in facts for x in eng.subterms(f)]
        for t in todo:
            t = eng.x(t) if isinstance(t, tuple) and t else None
            if t is None or t in seen:
                continue
            seen.add(t)
            if t[0] == 'call' and sname(t[1]) == 'remainder' and len(t) == 4:
                p = form(eng, t[3], atom)
                out += [{t: 1}, add(add(p, {t: 1}, -1), {ONE: -1})]
            elif t[0] == 'call' and sname(t[1]) in INDEX:
                out += [{t: 1, ONE: 1}, add(top, {t: 1}, -1)]
                if any(self.not_minus_one(eng, f, p, t) for f, p in facts):
                    out.append({t: 1})
            elif t[0] == 'get' and eng.x(t[1])[0] == 'deref':
                c = eng.x(eng.x(t[1])[1])
                if c[0] == 'call' and sname(c[1]) in LIST and any(
                        p and eng.x(f)[0] == 'has' and eng.x(eng.x(f)[1]) == c for f, p in facts):
                    out += [{t: 1}, add(top, {t: 1}, -1)]
            elif t[0] == 'call' and sname(t[1]) in ('end', 'cend') and len(t) == 3:
                b = ('call', t[1][:len(t[1]) - 3] + 'begin') + t[2:]
                d = {t: 1, b: -1, 'len': -1}
                out += [d, scale(d, -1)]
            elif t[0] == 'call' and sname(t[1]) in ('lower_bound', 'upper_bound') and len(t) >= 5:
                b, e = form(eng, t[2], atom), form(eng, t[3], atom)
                for x, y in ((b, {t: 1}), ({t: 1}, e)):
                    d = add(y, x, -1)
                    out.append(add(d, {ONE: -1}) if any(self.differ(eng, f, p, d, atom) for f, p in facts) else d)
            elif t[0] == 'loop' and (t[1], t[2]) in self.low:
                out.append(add({t: 1}, form(eng, self.low[(t[1], t[2])], atom), -1))
        return out

    def not_minus_one(self, eng, f, p, t):
        f = eng.x(f)
        return f[0] == 'b' and f[1] == '==' and not p and {eng.x(f[2]), eng.x(f[3])} == {t, ('c', -1)}

    def differ(self, eng, f, p, d, atom):
        """A fact says that d is not 0."""
        f = eng.x(f)
        if f[0] != 'b' or f[1] != '==' or p:
            return False
        g = add(form(eng, f[3], atom), form(eng, f[2], atom), -1)
        return g == d or scale(g, -1) == d

    def alternatives(self, eng, t, facts, n=0):
        t = eng.x(t)
        if t[0] == 'call' and sname(t[1]) == 'distance' and len(t) == 4:
            t = ('b', '-', t[3], t[2])
        if any((c, not p) in facts for c, p in facts):
            return
        if t[0] in ('phi', 'ret') and n < 8:
            for cs, v in t[2]:
                if v:
                    yield from self.alternatives(eng, v, facts | frozenset(cs), n + 1)
        elif t[0] == 'cond' and n < 8:
            yield from self.alternatives(eng, t[2], facts | eng.implied(t[1], True), n + 1)
            yield from self.alternatives(eng, t[3], facts | eng.implied(t[1], False), n + 1)
        elif t[0] == 'b' and t[1] in ('+', '-') and n < 8 and any(eng.x(x)[0] in ('phi', 'ret', 'cond') for x in t[2:]):
            for a, fa in self.alternatives(eng, t[2], facts, n + 1):
                for b, fb in self.alternatives(eng, t[3], fa, n + 1):
                    yield ('b', t[1], a, b), fb
        else:
            yield t, facts

    def inside(self, eng, e, v, facts, what):
        self.later.append((eng.where(e), short(eng.stack[0].fn['q']), v, facts, what))

    def decide(self, eng, where, fn, v, facts, what):
        why = ''
        atom = self.atom(eng)
        rows = self.rows(eng, facts, [v])
        f = form(eng, v, atom)
        low = {} if fn.endswith(tuple(LIST)) else {ONE: 1}  # a search for one index may give -1...
        whole = prove(f, rows) and prove(add({'len': 1, ONE: -1}, f, -1), rows)
        for t, fs in () if whole else self.alternatives(eng, v, facts):
            f = form(eng, t, atom)
            if any(x != ONE and x[0] in ('m', 'x', 'r', 'heap') for x in f):
                continue        # an object of the library that walks the points
            rows = self.rows(eng, fs, [t])
            must = any(p and eng.x(a)[:2] == ('p', 'bounded') for a, p in fs)    # ...unless it is bounded
            if not prove(f if must else add(f, low), rows):
                why = f'{show(t, 0, eng)[:90]} may be negative'
            elif not prove(add({'len': 1, ONE: -1}, f, -1), rows):
                why = f'{show(t, 0, eng)[:90]} may be beyond the last point'
            if why:
                break
        self.obs.append(('P06.range', where, f'{fn}:{what}', f'{what} is a position of the axis', not why, why))

    def on_return(self, eng, s, t, st):
        if eng.mute or len(eng.stack) > 1 or not t:
            return
        if sname(eng.stack[0].fn['q']) in INDEX:
            self.inside(eng, s, t, st.facts, 'the result')
            return
        for v, fs in self.alternatives(eng, t, st.facts):
            if v[0] == 'some' and eng.x(v[1])[0] == 'tuple':
                for i, x in enumerate(eng.x(v[1])[1:]):
                    self.inside(eng, s, x, fs, f'result {i}')

    def on_assign(self, eng, e, loc, t, new, st):
        if eng.mute or loc is None or len(eng.stack) > 1:
            return
        t = eng.x(t)
        if t[0] == 'idx' and eng.x(t[1])[0] in ('new', 'phi', 'val', 'm', 'loop'):
            self.inside(eng, e, new, st.facts, 'an element of the window')


def search_methods(facts):
    for fs in facts.funcs.values():
        for f in fs:
            if f['kind'] == 'method' and f.get('body') and (
                    sname(f['q']) in LIST | INDEX and 'detail::Axis<' in f['q'] or
                    sname(f['q']) in INDEX and 'axis::container::' in f['q'] and len(f['p']) == 2):
                yield f


def subject(n):
    """A search, or the access to an optional."""
    if n.get('k') != 'Call':
        return False
    return sname(n.get('fn', '')) in INDEX | LIST | ITER or \
        n.get('op') in ('*', '->') and is_optional((n.get('obj') or {}).get('t', ''))


def check(ctx):
    ctx.rule('P06.optional', 'an optional is read through * or -> only where it is known to hold a value', 3)
    ctx.rule('P06.index', 'the index given by the search in an axis is used only where it is known not to be -1', 3)
    ctx.rule('P06.list', 'the list of positions given by the search in an axis is read only where it is known not to be empty', 3)
    ctx.rule('P06.iterator', 'the iterator given by a search is dereferenced only where it is known not to be the end', 1)
    ctx.rule('P06.walk', 'an iterator that walks a container is dereferenced only where it is known not to be at the end', 1)
    ctx.rule('P06.first', 'the first, last or extreme element of a list is read only where the list is known not to be empty', 1)
    ctx.run(P06, bound_roots(ctx.facts))
    ctx.rule('P06.range', 'every position that a search in an axis returns is a position of that axis', 3)
    ctx.run(Positions, search_methods(ctx.facts))
    for _ in range(3):
        rest = ctx.unvisited(subject)
        if not rest:
            break
        ctx.run(P06, rest)
