"""P18: running minima and maxima start from a value no data can beat and are updated with the matching comparison.

A running extremum is a variable or member that is replaced by another value exactly when this value compares below (above)
it: through std::min/std::max, a conditional expression or a guarded assignment.  Its direction is given by the comparison;
every value it may hold before the first comparison (its seed) is then a datum, or a sentinel of the right side.
"""
from ..engine import Engine, Rule, THIS, show
from ..extent import sname
from ..threads import short
from . import p25

NONNEG = ('fabs', 'abs', 'fabsf', 'fabsl', 'size', 'sqrt', 'hypot', 'rows', 'cols', 'length', 'distance', 'norm', 'squaredNorm',
          'comparable_distance', 'count')
LIMITS = 'std::numeric_limits<'
FLOATS = ('float', 'double', 'long double')
OPPOSITE = {'min': 'max', 'max': 'min'}


def limit(t):
    """(type, name) of a numeric limit."""
    if t[0] == 'call' and str(t[1]).startswith(LIMITS) and len(t) == 2:
        ty, _, name = t[1][len(LIMITS):].rpartition('>::')
        return ty, name
    return None


class Extrema(Rule):
    """Updates of running extrema, as (location, direction, value, seed, facts, where)."""
    inline_ops = True

    def start(self, eng, fn):
        self.fn = fn
        self.updates = []
        self.plain = []
        self.captured = set()
        rets = eng.run(fn)
        for u in self.updates:
            self.judge(eng, u)
        for loc, new, old, facts, where in self.plain:
            self.other(eng, loc, new, old, facts, where)
        if fn.get('kind') != 'ctor':
            for r in rets:
                if r[1] is not None:
                    self.bounds(eng, r[1])

    def leaves(self, eng, t, n=0):
        t = eng.x(t)
        if t[0] in ('phi', 'ret') and n < 6:
            return [x for _, a in t[2] if a is not None for x in self.leaves(eng, a, n + 1)]
        return [t]

    def extremum(self, eng, t):
        """(direction, value) of a component of a result."""
        ts = self.leaves(eng, t)
        for loc, d, v, old, facts, where, new in self.updates:
            if new in ts and (new != v or old in ts or any(s in ts for s in self.seeds(eng, old))):
                return d, v
            if any(x[0] == 'loop' and x[2] == loc for x in ts):
                return d, v
        return None

    def bounds(self, eng, t):
        """A box is the tuple of the minima and that of the maxima of the same quantities."""
        t = eng.x(t)
        if t[0] != 'call' or sname(t[1]) not in ('make_tuple', 'make_pair') or len(t) != 4:
            return
        parts = [eng.x(x) for x in t[2:4]]
        if any(p[0] != 'call' or sname(p[1]) not in ('make_tuple', 'make_pair') for p in parts):
            return
        got = [[self.extremum(eng, x) for x in p[2:]] for p in parts]
        if not any(x for p in got for x in p):
            return
        bad = ''
        if any(g is None and eng.x(x)[0] not in ('c', 'call') for p, q in zip(parts, got) for x, g in zip(p[2:], q)):
            return  # not recognised
        if any(x is None for p in got for x in p) or len(got[0]) != len(got[1]):
            bad = 'a corner is not made of extrema'
        elif {x[0] for x in got[0]} != {'min'} or {x[0] for x in got[1]} != {'max'}:
            bad = 'a corner mixes minima and maxima'
        elif any(a[1] != b[1] for a, b in zip(*got)):
            bad = 'the corners are about different quantities'
        elif len({repr(x[1]) for x in got[0]}) != len(got[0]):
            bad = 'a quantity is there twice'
        self.obs.append(('bounds', f"{self.fn['file']}:{self.fn['l']}", short(self.fn['q']),
                         f'{short(self.fn["q"])} returns the minima, then the maxima, of the same quantities', not bad, bad))

    def same(self, eng, a, b):
        return eng.x(a) == eng.x(b)

    def direction(self, eng, new, old, facts):
        """('min'|'max', value) when new is the update of an extremum held in old."""
        if new[0] == 'call' and sname(new[1]) in ('min', 'max', 'fmin', 'fmax') and str(new[1]).startswith('std::') and len(new) == 4:
            for i in (2, 3):
                if self.same(eng, new[i], old):
                    return sname(new[1])[-3:], eng.x(new[5 - i])
        if new[0] == 'cond':
            c, pol = eng.norm(new[1])
            c = eng.x(c)
            a, b = (new[2], new[3]) if pol else (new[3], new[2])
            a, b = eng.x(a), eng.x(b)
            if c[0] == 'b' and c[1] in ('<', '<=') and old in (a, b) and a != b:
                l, r = eng.x(c[2]), eng.x(c[3])
                v = b if a == old else a
                if {l, r} == {v, old}:
                    return ('min' if a == l else 'max'), v
            return None
        for f, pol in facts:
            f = eng.x(f)
            if f[0] == 'b' and f[1] in ('<', '<='):
                l, r = eng.x(f[2]), eng.x(f[3])
                if (l, r) == (new, old):
                    return ('min' if pol else 'max'), new
                if (l, r) == (old, new):
                    return ('max' if pol else 'min'), new
        return None

    def on_assign(self, eng, e, loc, t, new, st):
        if eng.mute or loc is None or e.get('k') == 'Un':
            return
        loc = eng.resolve(st, loc)
        old, new = eng.x(t), eng.x(new)
        if old == new:
            return
        d = self.direction(eng, new, old, st.facts)
        if d is not None:
            self.updates.append((loc, d[0], d[1], old, st.facts, eng.where(e), new))
            if loc[0] == 'v' and eng.stack[-1].fn.get('_lam') is not None and loc[2] != eng.stack[-1].ctx:
                self.captured.add(loc)
        elif eng.loopstack:
            self.plain.append((loc, new, old, st.facts, eng.where(e)))

    def seeds(self, eng, t, n=0):
        """Terms an extremum may hold before it is updated."""
        t = eng.x(t)
        if n > 8:
            return []
        if t[0] == 'loop':
            return self.seeds(eng, t[3], n + 1) if len(t) > 3 and t[3] is not None else []
        if t[0] in ('phi', 'ret'):
            return [s for d, v in t[2] if v is not None for s in self.seeds(eng, v, n + 1)]
        if t[0] == 'call' and sname(t[1]) in ('min', 'max') and len(t) == 4:
            return [s for a in t[2:4] for s in self.seeds(eng, a, n + 1) if limit(s) or s[0] == 'c']
        return [t]

    def nonneg(self, eng, v):
        v = eng.x(v)
        if v[0] == 'call' and sname(v[1]) in NONNEG or v[0] == 'size':
            return True
        return v[0] == 'b' and v[1] == '*' and eng.x(v[2]) == eng.x(v[3])

    def wrong(self, eng, s, d, v):
        """Why a seed is not one, or None; False when it says nothing."""
        s = eng.x(s)
        neg = False
        if s[0] == 'u' and s[1] == '-':
            neg, s = True, eng.x(s[2])
        lim = limit(s)
        if lim:
            ty, name = lim
            low = name == 'lowest' or name == 'min' and ty not in FLOATS or neg and name in ('max', 'infinity')
            high = not neg and name in ('max', 'infinity')
            if d == 'max' and low or d == 'min' and high or d == 'max' and name in ('min', 'epsilon', 'denorm_min') and not neg and self.nonneg(eng, v):
                return None
            return ('minus ' if neg else '') + f'the {name}() of {ty}'
        if s[0] == 'c' and isinstance(s[1], (int, float)) and not isinstance(s[1], bool):
            x = -s[1] if neg else s[1]
            if d == 'max' and x <= 0 and self.nonneg(eng, v):
                return None
            return f'the constant {x}'
        if s[0] == 'zero':
            return None if d == 'max' and self.nonneg(eng, v) else 'zero'
        return None

    def name(self, loc):
        return str(loc[2]) if loc[0] == 'f' else str(loc[1]).rsplit(':', 1)[-1] if loc[0] == 'v' else 'element'

    def judge(self, eng, u):
        loc, d, v, old, facts, where, _ = u
        label = f'{self.name(loc)}'
        if v[0] == 'c':
            return  # a clamp
        looped = old[0] == 'loop' or loc[0] != 'v' or loc in self.captured
        kind = 'minimum' if d == 'min' else 'maximum'
        bad = [w for s in self.seeds(eng, old) for w in [self.wrong(eng, s, d, v)] if w and (looped or not w.startswith('the constant'))]
        self.obs.append(('seed', where, label, f'the running {kind} {self.name(loc)} starts from a value that no data can beat', not bad,
                         ', '.join(sorted(set(bad)))))
        # a datum that is the new minimum may be the new maximum as well
        sent = [s for s in self.seeds(eng, old) if limit(eng.x(s)) or eng.x(s)[0] in ('c', 'zero')]
        field = loc[0] == 'f' and loc[1] == THIS
        for l2, d2, v2, old2, _, w2, _ in self.updates:
            if l2 != loc and eng.x(v2) == eng.x(v) and d2 == d and l2[0] == loc[0] and l2[1] == loc[1]:
                self.obs.append(('twice', where, label, f'only one running {kind} is kept of a quantity', False, f'{self.name(l2)} is another one ({w2})'))
            if l2 == loc or eng.x(v2) != eng.x(v) or d2 == d:
                continue
            for f, pol in facts:
                f = eng.x(f)
                if f[0] == 'b' and f[1] in ('<', '<=') and {eng.x(f[2]), eng.x(f[3])} == {eng.x(v2), eng.x(old2)}:
                    first = eng.x(f[2]) == eng.x(v2)
                    if (d2 == 'min') == (first != pol):
                        # skipped when the other is updated
                        if sent:
                            self.obs.append(('both', where, label, f'a first datum is taken for both extrema, {self.name(loc)} included', False, ''))
                        elif field:
                            self.obs.append(('_alone', where, f'{self.fn["q"]}|{loc[2]}', '', True, ''))
        if field:
            self.obs.append(('_field', where, f'{self.fn["q"]}|{loc[2]}', f'{d}|{int(self.nonneg(eng, v))}', True, ''))

    def other(self, eng, loc, new, old, facts, where):
        """Writes to an extremum within a loop that are none of its updates."""
        sent = [s for s in self.seeds(eng, old) if limit(eng.x(s)) and limit(eng.x(s))[1] in ('max', 'lowest', 'infinity', 'min')]
        if new[0] == 'c' or limit(new) or old[0] != 'loop':
            return
        label = f'{self.name(loc)}'
        for f, pol in facts:
            f = eng.x(f)
            if f[0] == 'b' and f[1] in ('<', '<=') and old in (eng.x(f[2]), eng.x(f[3])):
                v = eng.x(f[3] if eng.x(f[2]) == old else f[2])
                if not sent and not (new in list(eng.subterms(v)) or v in list(eng.subterms(new))) or v[0] == 'c' or old in list(eng.subterms(new)):
                    continue
                self.obs.append(('update', where, label, f'{self.name(loc)} takes the value that has been compared with it', False,
                                 show(new, 0, eng)[:100]))
                return


def check(ctx):
    ctx.rule('seed', 'every running extremum starts from a datum or from a value that no data can beat')
    ctx.rule('both', 'a datum taken as the new minimum can be the new maximum as well', 0)
    ctx.rule('update', 'a running extremum takes the very value that has been compared with it', 0)
    ctx.rule('twice', 'two running extrema of a quantity in one object are its minimum and its maximum', 0)
    ctx.rule('bounds', 'a box holds the minima, then the maxima, of the same quantities', 0)
    roots, seen = [], {}
    for fn in ctx.facts.all_funcs():
        if fn.get('body') is None or not fn['file'].startswith(('include/', 'lib/', 'module/')):
            continue
        k = (fn['file'], fn['l'])
        if seen.setdefault(k, 0) >= 2:
            continue
        seen[k] += 1
        roots.append(fn)
    ctx.run(Extrema, roots)

    fields(ctx)


def fields(ctx):
    """Members that are running extrema start, after every constructor, from a suitable value."""
    ctx.rule('accessor', 'an accessor called min (max) returns a running minimum (maximum)')
    alone = {o[2] for o in ctx.notes if o[0] == '_alone'}
    kinds = {}
    for r, where, key, what, _, _ in ctx.notes:
        if r != '_field':
            continue
        q, field = key.split('|')
        d, nn = what.split('|')
        cls = q.rsplit('::', 1)[0]
        kinds.setdefault((cls, field), []).append((d, nn == '1', where, key in alone))
    for (cls, field), ups in sorted(kinds.items()):
        label = short(cls) + '.' + field
        ds = {d for d, *_ in ups}
        ctx.add('seed', ups[0][2], label + '.direction', f'{field} is either a minimum or a maximum', len(ds) == 1, ', '.join(sorted({w for _, _, w, _ in ups})))
        if len(ds) != 1:
            continue
        d = ds.pop()
        nonneg = all(n for _, n, _, _ in ups)
        other = any(a for *_, a in ups)
        for fn in ctx.facts.all_funcs():
            if fn['q'].rsplit('::', 1)[0] != cls or fn.get('body') is None:
                continue
            name = sname(fn['q'])
            if fn.get('kind') == 'ctor' or name == cls.split('<')[0].rsplit('::', 1)[-1]:
                rule = Extrema()
                rule.fn, rule.updates, rule.plain, rule.captured = fn, [], [], set()
                eng = Engine(ctx.facts, rule)
                where = f"{fn['file']}:{fn['l']}"
                bad = set()
                for r in eng.run(fn):
                    for s in rule.seeds(eng, eng.read(r[2], ('f', THIS, field))):
                        w = rule.wrong(eng, s, d, ('call', 'fabs') if nonneg else s)
                        if w:
                            bad.add(w)
                        elif other and (limit(eng.x(s)) or eng.x(s)[0] == 'c'):
                            ctx.add('both', where, label, f'a first datum is taken for both extrema, {field} included', False)
                ctx.add('seed', where, f'{label}.{len(fn["p"])}', f'the running {d}imum {field} starts from a value that no data can beat', not bad, ', '.join(sorted(bad)))
            elif name in ('min', 'max') and not fn['p']:
                rule = Extrema()
                rule.fn, rule.updates, rule.plain, rule.captured = fn, [], [], set()
                eng = Engine(ctx.facts, rule)
                got = set()
                for r in eng.run(fn):
                    for x in eng.subterms(r[1]):
                        if isinstance(x, tuple) and len(x) > 2 and x[0] == 'f' and x[1] == THIS and (cls, x[2]) in kinds:
                            got |= {k[0] for k in kinds[cls, x[2]]}
                if got:
                    ctx.add('accessor', f"{fn['file']}:{fn['l']}", f'{short(cls)}.{name}', f'{name}() returns a running {name}imum', got == {name}, ', '.join(sorted(got)))
