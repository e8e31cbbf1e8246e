"""P11: merging partial results takes every accumulated quantity into account."""
import ast
import itertools
import os

from ..algebra import Algebra, NotFormula, ONE
from ..engine import Engine, Rule, THIS, show, walk
from ..extent import sname
from ..facts import AnalysisError, REPO
from ..rational import TooBig, atom, equal
from ..threads import short
from . import p25

MATH = 'pyinterp::detail::math::'
CELL = (MATH + 'DescriptiveStatistics<', MATH + 'StreamingHistogram<')


def merges(facts):
    """The operators += of the repository whose operand has the class of the object."""
    for fs in facts.funcs.values():
        for fn in fs:
            if sname(fn['q']) == 'operator+=' and fn.get('body') is not None and len(fn['p']) == 1 and 'geodetic' not in fn['q'] and fn.get('cls'):
                t = fn['p'][0]['t'].replace('const ', '').rstrip(' &')
                if t.split('<')[0] == fn['cls']:
                    yield fn


def record_of(facts, fn):
    return facts.recs[fn['cls']][0]


class Merge(Rule):
    """The merge of a container of accumulators."""
    disjunctions = True

    def start(self, eng, fn):
        self.fn = fn
        self.label = short(fn['q'])
        self.other = ('v', fn['p'][0]['id'], ())
        self.pname = fn['p'][0]['n']
        rec = record_of(eng.f, fn)
        self.cells = {f['n'] for f in rec['f'] if any(c in f['t'] for c in CELL)}
        self.config = [f['n'] for f in rec['f'] if f['n'] not in self.cells]
        self.events = []
        self.loops = {}
        self.late = []
        self.rewritten = []
        self.where = f"{fn['file']}:{fn['l']}"
        if not self.cells:
            return
        eng.run(fn)
        self.conclude(eng)

    def inline(self, eng, e, fn):
        return not (sname(fn['q']).startswith('operator') and ((fn.get('cls') or '').startswith(MATH) or sname(fn['q']) in ('operator==', 'operator!=')))

    # -- where things are ----------------------------------------------------
    def place(self, eng, st, loc, n=0):
        """(side, field, index) of the cell or of the whole container a location designates."""
        loc = eng.resolve(st, loc) if loc is not None else None
        if loc is None or n > 6:
            return None
        if loc[0] == 'deref':
            t = eng.x(loc[1])
            return self.place(eng, st, t[1], n + 1) if t[0] == 'addr' else None
        if loc[0] in ('sub', 'acc'):
            p = self.place(eng, st, loc[1], n + 1)
            if p is None or p[2] is not None and loc[0] == 'sub':
                return None
            return (p[0], p[1], tuple(loc[2:])) if loc[0] == 'sub' else p
        if loc[0] == 'f' and loc[2] in self.cells:
            if loc[1] == THIS:
                return ('L', loc[2], None)
            if eng.resolve(st, loc[1]) == self.other:
                return ('R', loc[2], None)
        return None

    def on_call(self, eng, e, fn, obj, oloc, args, locs, st):
        n = sname(fn)
        if n in ('operator+=', 'operator=') and len(args) == 1:
            a, b = self.place(eng, st, oloc), self.place(eng, st, locs[0])
            if a is not None and a[0] == 'L' and not eng.mute:
                self.events.append(('merge' if n == 'operator+=' else 'copy', a, b, st.facts, eng.where(e)))
        return None

    def on_assign(self, eng, e, loc, t, new, st):
        l = eng.resolve(st, loc) if loc is not None else None
        if l is not None and l[0] == 'f' and l[1] == THIS and l[2] in self.config and not eng.mute:
            self.rewritten.append((l[2], eng.where(e)))

    def on_throw(self, eng, e, t, st):
        if not eng.mute and any(('ver', ('f', THIS, c)) in st.env for c in self.cells):
            self.late.append(eng.where(e))

    def on_loop(self, eng, s, site, info, end):
        if not eng.mute:
            self.loops[site] = info

    # -- conclusions ---------------------------------------------------------
    def add(self, rule, key, what, ok, detail='', where=None):
        self.obs.append((rule, where or self.where, f'{self.label}.{key}', what, ok, detail))

    def conclude(self, eng):
        for c in self.cells:
            ev = [x for x in self.events if x[1][1] == c]
            self.complete(eng, c, ev)
            for f in self.config:
                bad = ''
                for _, _, _, facts, where in ev:
                    bad = bad or self.unchecked(eng, f, facts)
                self.add('reject', f'{f}', f'{self.label} has compared {f} of both operands before it changes anything', not bad, bad)
        bad = ', '.join(sorted({f'{f} at {w}' for f, w in self.rewritten}))
        self.add('reject', 'config', f'{self.label} keeps the definition of the cells', not bad, bad)
        self.add('reject', 'late', f'{self.label} does not fail once it has begun to change the cells', not self.late, ', '.join(self.late))

    def complete(self, eng, c, ev):
        what = f'{self.label} merges every cell of {c} with the same cell of the operand'
        bad = ''
        for kind, a, b, facts, where in ev:
            if b is None or b[0] != 'R' or b[1] != c:
                bad = f'the cell is merged with something else at {where}'
            elif repr(a[2]) != repr(b[2]):
                bad = f'different cells at {where}'
        if not bad:
            for l, r in itertools.product(AMOUNTS, AMOUNTS[1:]):
                got = {k for k, _, _, facts, _ in ev if self.possible(eng, facts, l, r, True)}
                may = {k for k, _, _, facts, _ in ev if self.possible(eng, facts, l, r, False)}
                if not got:
                    bad = f'nothing is done when the operand has data and the cell {"has some" if l else "has none"}'
                elif l and 'copy' in may:
                    bad = 'the data of the cell are replaced by those of the operand'
            if not bad and any(k == 'copy' and self.possible(eng, facts, l, 0, False) for k, _, _, facts, _ in ev for l in AMOUNTS[1:]):
                bad = 'the data of the cell are replaced by an empty operand'
        if not bad:
            for _, a, _, _, where in ev:
                bad = bad or self.partial(eng, c, a[2], where)
        self.add('cells', c, what, not bad, bad)

    def partial(self, eng, c, idx, where):
        """Why the loops around a merge do not go through all the cells."""
        if idx is None:
            return ''
        flat = idx[0] if len(idx) == 1 and isinstance(idx[0], tuple) and idx[0] and isinstance(idx[0][0], tuple) else idx
        for d, i in enumerate(flat):
            i = eng.x(i)
            if i[0] != 'loop':
                continue
            info = self.loops.get(i[1])
            if info is None or info['cond'] is None:
                continue
            k = i[2]
            init, nxt = info['init'].get(k), info['vars'].get(k)
            if init is None or nxt is None:
                continue
            nxt, (cond, pol) = eng.x(nxt), eng.norm(info['cond'])
            cond = eng.x(cond)
            head = lambda t: eng.x(t)[0] == 'loop' and eng.x(t)[1:3] == i[1:3]  # noqa: E731
            if eng.x(init) != ('c', 0):
                return 'the first cells are skipped'
            if not (nxt[0] == 'b' and nxt[1] == '+' and head(nxt[2]) and nxt[3] == ('c', 1)):
                return 'the index does not advance by one'
            if info.get('brk') or info.get('ret'):
                return 'the loop may stop early'
            if not (cond[0] == 'b' and cond[1] in ('<', '==') and pol == (cond[1] == '<') and any(head(x) for x in cond[2:4])):
                return f'the loop is bounded by {show(cond, 0, eng)[:80]}'
            bound = eng.x(cond[3] if head(cond[2]) else cond[2])
            if bound[0] != 'call' or sname(bound[1]) not in ('rows', 'cols', 'size', 'shape'):
                return f'the loop is bounded by {show(bound, 0, eng)[:80]}'
            if len(flat) == 2 and sname(bound[1]) in ('rows', 'cols') and sname(bound[1]) != ('rows', 'cols')[d]:
                return f'dimension {d} is bounded by {sname(bound[1])}()'
        return ''

    # -- conditions on the contents of the cells --------------------------------
    def side(self, eng, t):
        """Whose cell a term is about."""
        out = set()
        cell = False
        for x in eng.subterms(t):
            if not isinstance(x, tuple) or not x:
                continue
            if x == THIS:
                out.add('L')
            if x == self.other or x[0] == 'p' and x[1] == self.pname:
                out.add('R')
            cell = cell or x[0] in ('sub', 'idx')
        # the location of a cell of the other operand mentions only that operand
        return next(iter(out)) if cell and len(out) == 1 else None

    def amount(self, eng, t, n=0):
        """The side whose number of observations a term is."""
        t = eng.x(t)
        name = t[2] if t[0] == 'f' else sname(t[1]) if t[0] == 'call' else 'size' if t[0] == 'size' else ''
        if str(name).strip('_') in ('count', 'size', 'sum_of_weights'):
            return self.side(eng, t)
        return None

    def truth(self, eng, t, l, r, n=0):
        t = eng.x(t)
        if n > 30:
            return None
        k = t[0]
        if k == 'c':
            return bool(t[1])
        if k == 'u' and t[1] == '!':
            v = self.truth(eng, t[2], l, r, n + 1)
            return None if v is None else not v
        if k == 'b' and t[1] in ('&&', '||', '&', '|'):
            a, b = self.truth(eng, t[2], l, r, n + 1), self.truth(eng, t[3], l, r, n + 1)
            z = t[1] in ('||', '|')
            if a is z or b is z:
                return z
            return None if a is None or b is None else not z
        if k == 'b' and t[1] in ('==', '!=', '<', '>', '<=', '>='):
            v = [self.number(eng, x, l, r) for x in t[2:4]]
            if None in v:
                return None
            a, b = v
            return {'==': a == b, '!=': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[t[1]]
        if k == 'call' and sname(t[1]) == 'empty':
            s = self.side(eng, t)
            return None if s is None else not (l if s == 'L' else r)
        if k in ('phi', 'ret'):
            vs = {self.truth(eng, v, l, r, n + 1) for d, v in t[2] if v is not None
                  and not any(self.truth(eng, f, l, r, n + 1) is (not p) for f, p in d if f[0] not in ('imp', 'forall'))}
            return next(iter(vs)) if len(vs) == 1 else None
        s = self.amount(eng, t)
        return None if s is None else bool(l if s == 'L' else r)

    def number(self, eng, t, l, r):
        t = eng.x(t)
        if t[0] == 'c' and isinstance(t[1], (int, float)):
            return t[1]
        s = self.amount(eng, t)
        return None if s is None else l if s == 'L' else r

    def possible(self, eng, facts, l, r, sure):
        for f, p in facts:
            if f[0] in ('imp', 'forall', 'set'):
                continue
            v = self.truth(eng, f, l, r)
            if v is (not p):
                return False
            if v is None and sure and self.side(eng, f) is not None:
                return False
        return True

    # -- compatibility ----------------------------------------------------------
    def unchecked(self, eng, f, facts):
        """Why the value of a member may differ between the operands."""
        cases = [(True, True, False), (True, False, False), (False, True, False)]
        for a, b, eq in cases:
            if (a, b) != (True, True) and not any(self.has(eng, t, f) for t, _ in facts):
                # not an optional, or compared as a whole
                continue
            if not any(self.cmp(eng, t, f, a, b, eq) is (not p) for t, p in facts):
                return 'they may differ' if a and b else 'one may have none'
        return ''

    def has(self, eng, t, f):
        return any(isinstance(x, tuple) and x and x[0] == 'has' and self.member(eng, x[1], f) for x in eng.subterms(t))

    def member(self, eng, t, f):
        """Whose member f a term is: L, R or None."""
        t = eng.x(t)
        n = 0
        while t[0] in ('deref', 'some', 'm') and len(t) > 1 and isinstance(t[1], tuple) and n < 6 or t[0] == 'call' and sname(t[1]) in ('value', 'get', 'operator*') and len(t) == 3:
            t = eng.x(t[2] if t[0] == 'call' else t[1])
            n += 1
        if t[0] == 'f' and t[2] == f:
            b = eng.x(t[1])
            if b == THIS:
                return 'L'
            if b[0] == 'p' and b[1] == self.pname:
                return 'R'
        return None

    def cmp(self, eng, t, f, a, b, eq, n=0):
        t = eng.x(t)
        k = t[0]
        if n > 20 or k in ('imp', 'forall'):
            return None
        if k == 'c':
            return bool(t[1])
        if k == 'u' and t[1] == '!':
            v = self.cmp(eng, t[2], f, a, b, eq, n + 1)
            return None if v is None else not v
        if k == 'b' and t[1] in ('&&', '||'):
            x, y = self.cmp(eng, t[2], f, a, b, eq, n + 1), self.cmp(eng, t[3], f, a, b, eq, n + 1)
            z = t[1] == '||'
            if x is z or y is z:
                return z
            return None if x is None or y is None else not z
        if k == 'has':
            s = self.member(eng, t[1], f)
            return None if s is None else (a if s == 'L' else b)
        if k == 'b' and t[1] in ('==', '!=') or k == 'call' and sname(t[1]) in ('operator==', 'operator!=') and len(t) == 4:
            x, y = t[2], t[3]
            neg = (t[1] if k == 'b' else sname(t[1])[8:]) == '!='
            sx, sy = self.member(eng, x, f), self.member(eng, y, f)
            if sx and sy and sx != sy:
                return (a == b and (eq or not a)) != neg if True else None
            if k == 'b':
                u, v = self.cmp(eng, x, f, a, b, eq, n + 1), self.cmp(eng, y, f, a, b, eq, n + 1)
                if u is not None and v is not None:
                    return (u == v) != neg
        return None


AMOUNTS = (0, 1, 2, 3, 10, 1000)


class Inner(Rule):
    """Loops over the operand of a merge while the object itself is modified."""

    def start(self, eng, fn):
        self.fn = fn
        self.ranges = []
        self.where = f"{fn['file']}:{fn['l']}"
        self.label = short(fn['q'])
        self.insert = []
        self.bad = []
        eng.run(fn)
        if self.bad is not None:
            self.obs.append(('self', self.where, self.label, f'{self.label} reads nothing of its operand that it has changed when the operand is the object itself',
                             not self.bad, ', '.join(sorted(set(self.bad)))))

    def on_range(self, eng, s, rt, st):
        if eng.range_loc is not None and eng.range_loc[0] == 'v':
            return  # a local copy
        self.ranges.append((s, rt, st.facts))

    def on_loop(self, eng, s, site, info, end):
        if eng.mute or s['k'] != 'RFor':
            return
        rt = next((r for q, r, _ in self.ranges if q is s), None)
        facts = next((f for q, _, f in self.ranges if q is s), frozenset())
        if rt is None:
            return
        rt = eng.x(rt)
        if rt[0] == 'f' and eng.x(rt[1])[0] == 'p':
            changed = eng.loopmods.get(site, set())
            loc = ('f', THIS, rt[2])
            if any(k == ('ver', loc) or k == loc for k in changed) and not self.distinct(eng, facts, rt[1]):
                self.bad.append(f'{rt[2]} of the operand is iterated at {eng.where(s)} while {rt[2]} of the object changes')

    def distinct(self, eng, facts, p):
        for f, pol in facts:
            f = eng.x(f)
            if f[0] == 'b' and f[1] == '==' and not pol and any(eng.x(x) == THIS or eng.x(x)[0] == 'addr' for x in f[2:4]):
                return True
        return False


def streaming(ctx):
    """The merge of two streaming histograms."""
    cls = MATH + 'StreamingHistogram'
    for which, m in sorted(p25.methods(ctx, cls).items()):
        if 'operator+=' not in m or 'operator()' not in m:
            continue
        fn, add = m['operator+='][0], m['operator()'][0]
        where = f"{fn['file']}:{fn['l']}"
        # what an observation changes
        log = Calls()
        eng = Engine(ctx.facts, log)
        rets = eng.run(add)
        inner = [(f, a) for f, a in log.calls]
        value, weight = (('p', p['n'], i) for i, p in enumerate(add['p']))
        ins = [(f, a) for f, a in inner if value in [eng.x(x) for x in a]]
        post = [f for f, a in inner if not a]
        fields = set()
        for r in rets:
            fields |= {k[2] for k in r[2].env if k[0] == 'f' and k[1] == THIS}
        log2 = Calls()
        eng2 = Engine(ctx.facts, log2)
        rets2 = eng2.run(fn)
        ctx.functions |= {(f['q'], f['file'], f['l']) for f in (fn, add)}
        pn = fn['p'][0]['n']
        scalars = [f['n'] for f in record_of(ctx.facts, fn)['f'] if f['n'] in fields and 'vector' not in f['t']]
        full = Engine(ctx.facts, Rule())
        rf, ra = full.run(fn), full.run(add)
        base = {}
        for f in record_of(ctx.facts, fn)['f']:
            base[('f', THIS, f['n'])] = 'a.' + f['n']
            base[('f', ('p', pn, 0), f['n'])] = 'b.' + f['n']
        base[value] = 'x'
        base[weight] = 'w'

        def val(eng, alg, rets, f, s):
            r = p25.returned(eng, alg, rets, s)
            return alg.val(eng.read(r[2], ('f', THIS, f)), s)

        for f in scalars:
            alg = Algebra(full, base, ('w', ))
            bad = ''
            a, b = (atom('a.' + f), ONE), (atom('b.' + f), ONE)
            try:
                # an observation either adds to the quantity, or takes an extremum
                kinds = set()
                for s, v in alg.cases(lambda s: val(full, alg, ra, f, s)):
                    kinds.add('same' if equal(v, a) else 'plus' if equal(v, alg.arith('+', a, alg.sym(1))) else 'new')
                if kinds == {'plus'}:
                    ok = all(equal(v, alg.arith('+', a, b)) for _, v in alg.cases(lambda s: val(full, alg, rf, f, s)))
                    bad = '' if ok else 'it is not the sum'
                elif kinds == {'same', 'new'}:
                    below = None
                    for s, v in alg.cases(lambda s: (val(full, alg, ra, f, s), alg.sign(alg.arith('-', alg.arith('*', alg.sym_('w'), alg.sym_('x')), a), s))):
                        if v[1] and not equal(v[0], a):
                            below = v[1] < 0
                    for s, (v, sg) in alg.cases(lambda s: (val(full, alg, rf, f, s), alg.sign(alg.arith('-', b, a), s))):
                        want = b if (sg < 0) == below else a
                        if sg and not equal(v, want):
                            bad = f'it is {p25.show(v)}'
                else:
                    bad = f'not understood: {sorted(kinds)}'
            except (NotFormula, TooBig) as e:
                bad = 'not a formula of the operands ' + str(e)[:60]
            ctx.add('histogram', where, f'{f}.{which}', f'the merge of histograms combines {f} of both operands', not bad, bad)
        calls = [(f, a) for f, a in log2.calls if f in {g for g, _ in ins}]
        order = [('value', 'weight') if [eng.x(x) for x in a] == [value, weight] else ('weight', 'value') for _, a in ins][:1]
        bad = ''
        if not ins:
            bad = 'no insertion routine found'
        elif not calls:
            bad = 'the bins of the operand are not inserted'
        else:
            for f, a in calls:
                names = []
                src = set()
                for x in a:
                    x = eng2.x(x)
                    names.append(x[2] if x[0] == 'f' else '?')
                    src.add(eng2.x(x[1]) if x[0] == 'f' else x)
                if len(src) != 1 or next(iter(src))[0] not in ('elem', 'idx', 'sub', 'deref', 'val'):
                    bad = 'a value is not inserted with its own weight'
                elif tuple(names) != order[0]:
                    bad = f'inserted as {names}'
        ctx.add('histogram', where, f'bins.{which}', 'the merge of histograms inserts every bin of the operand with its weight', not bad, bad)
        got = [f for f, a in log2.calls if f in post]
        ok = not post or bool(got) and log2.calls[-1][0] in post
        ctx.add('histogram', where, f'size.{which}', 'the merge of histograms brings the number of bins back to its limit', ok, '')


class Calls(Rule):
    """Calls to members of the object, not evaluated."""

    def __init__(self):
        super().__init__()
        self.calls = []

    def inline(self, eng, e, fn):
        return False

    def on_call(self, eng, e, fn, obj, oloc, args, locs, st):
        if obj == THIS and not eng.mute:
            self.calls.append((sname(fn), tuple(args)))
        return None


# -- the Python layer ----------------------------------------------------------
class Alias:
    """What the names of a Python method stand for: ('self',), ('other', name), ('attr', value, name) or ('new', n)."""

    def __init__(self, cls, classes):
        self.cls = cls
        self.classes = classes
        self.n = 0
        self.bad = []
        self.merged = []

    def fresh(self):
        self.n += 1
        return ('new', self.n)

    def run(self, fn):
        args = [a.arg for a in fn.args.args]
        self.env = {args[0]: ('self', )}
        for a in args[1:]:
            self.env[a] = ('other', a)
        self.attrs = {}
        self.returned = []
        self.block(fn.body)

    def block(self, body):
        for s in body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1:
                self.assign(s.targets[0], self.value(s.value))
            elif isinstance(s, ast.AnnAssign) and s.value is not None:
                self.assign(s.target, self.value(s.value))
            elif isinstance(s, ast.AugAssign):
                t = self.value(s.target)
                v = self.value(s.value)
                self.inplace(t, v, s)
            elif isinstance(s, ast.Return) and s.value is not None:
                self.returned.append(self.value(s.value))
            elif isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                for part in ('body', 'orelse', 'finalbody'):
                    self.block(getattr(s, part, []))
                for h in getattr(s, 'handlers', []):
                    self.block(h.body)
            elif isinstance(s, ast.Expr):
                self.value(s.value)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            b = self.value(t.value)
            if b == ('self', ) or b[0] == 'other':
                self.bad.append((t.lineno, f'{ast.unparse(t)} is rebound'))
            self.attrs[(b, t.attr)] = v
        elif isinstance(t, ast.Tuple):
            for x in t.elts:
                self.assign(x, self.fresh())

    def attr(self, b, name):
        if (b, name) in self.attrs:
            return self.attrs[(b, name)]
        if b[0] == 'shallow':
            return self.attr(b[1], name)
        return ('attr', b, name)

    def value(self, e):
        if isinstance(e, ast.Name):
            return self.env.get(e.id, ('global', e.id))
        if isinstance(e, ast.Attribute):
            return self.attr(self.value(e.value), e.attr)
        if isinstance(e, ast.IfExp):
            a, b = self.value(e.body), self.value(e.orelse)
            return a if self.root(a) in ('self', 'other') else b
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, ast.Add):
                self.merged.append((self.value(e.left), self.value(e.right)))
            return self.fresh()
        if isinstance(e, ast.Call):
            f = e.func
            args = [self.value(a) for a in e.args]
            name = ast.unparse(f)
            if name in ('copy.copy', 'copy') and len(args) == 1:
                return self.copied(args[0])
            if isinstance(f, ast.Attribute):
                b = self.value(f.value)
                if f.attr in ('__copy__', 'copy', '__deepcopy__'):
                    return self.copied(b, f.attr)
                if f.attr in ('__iadd__', ) and args:
                    self.inplace(b, args[0], e)
                    return b
                if f.attr == '__add__' and args:
                    self.merged.append((b, args[0]))
            return self.fresh()
        return self.fresh()

    def copied(self, v, how='__copy__'):
        """A copy of a Python object shares its attributes, unless its class says otherwise; that of a core object shares nothing."""
        if v[0] == 'self' or v[0] == 'other' or v[0] == 'shallow':
            m = self.method('__copy__' if how != 'copy' else 'copy')
            if how == '__deepcopy__':
                return self.fresh()
            if m is None:
                return ('shallow', v)
            a = Alias(self.cls, self.classes)
            a.run(m)
            if len(a.returned) == 1:
                r = a.returned[0]
                new = self.fresh()
                for (b, name), x in a.attrs.items():
                    if b == r:
                        self.attrs[(new, name)] = self.fresh() if self.root(x) == 'new' else self.attr(v, name)
                if r[0] == 'shallow':
                    for (b, name), x in list(self.attrs.items()):
                        pass
                    s = ('shallow', v, new)
                    for (b, name), x in list(self.attrs.items()):
                        if b == new:
                            self.attrs[(s, name)] = x
                    return s
                return new
            return self.fresh()
        return ('copyof', v, self.fresh())

    def method(self, name):
        for c in self.mro(self.cls):
            for s in c.body:
                if isinstance(s, ast.FunctionDef) and s.name == name:
                    return s
        return None

    def mro(self, c, n=0):
        out = [c]
        for b in c.bases:
            d = self.classes.get(ast.unparse(b).split('.')[-1])
            if d is not None and n < 5:
                out += self.mro(d, n + 1)
        return out

    def root(self, v):
        while v[0] in ('attr', 'shallow'):
            if v[0] == 'shallow':
                return 'new'
            v = v[1]
        return {'copyof': 'new', 'global': 'new'}.get(v[0], v[0])

    def inplace(self, t, v, node):
        if self.root(t) in ('self', 'other'):
            self.bad.append((node.lineno, f'the object {self.show(t)} is modified'))
        if t[0] == 'shallow' or t[0] == 'new' and any(b == t for b, _ in self.attrs):
            # the merge of Python objects merges what they hold
            for name in self.held():
                self.inplace(self.attr(t, name), self.attr(v, name), node)
            self.merged.append((t, v))
            return
        self.merged.append((t, v))

    def held(self):
        """Attributes that the in-place addition of the class modifies."""
        m = self.method('__iadd__')
        out = []
        if m is not None:
            for n in ast.walk(m):
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Attribute):
                    out.append(n.target.attr)
        return out

    def show(self, v):
        if v[0] == 'attr':
            return self.show(v[1]) + '.' + v[2]
        return v[0] if v[0] != 'other' else v[1]


def python(ctx):
    root = os.path.join(REPO, 'src/pyinterp')
    trees = {}
    classes = {}
    for d, _, fs in os.walk(root):
        if '/tests' in d:
            continue
        for f in sorted(fs):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                trees[p] = ast.parse(open(p).read())
                for c in ast.walk(trees[p]):
                    if isinstance(c, ast.ClassDef):
                        classes[c.name] = c
    for p, tree in sorted(trees.items()):
        rel = os.path.relpath(p, root)
        for c in ast.walk(tree):
            if not isinstance(c, ast.ClassDef):
                continue
            for fn in c.body:
                if not isinstance(fn, ast.FunctionDef) or fn.name not in ('__add__', '__radd__', '__iadd__'):
                    continue
                a = Alias(c, classes)
                a.run(fn)
                where = f'{rel}:{fn.lineno}'
                key = f'{rel}:{c.name}.{fn.name}'
                if fn.name == '__iadd__':
                    bad = [x for x in a.bad if not x[1].startswith(('the object self', 'self.'))]
                    ok = all(r == ('self', ) for r in a.returned) and a.returned
                    ctx.add('operands', where, key, f'{c.name}.{fn.name} changes and returns the left operand only', bool(ok) and not bad,
                            '; '.join(x[1] for x in bad))
                    used = any(self_of(x) and other_of(y) for x, y in a.merged)
                    ctx.add('operands', where, key + '.all', f'{c.name}.{fn.name} merges the data of the right operand into those of the left one', used)
                else:
                    ctx.add('operands', where, key, f'{c.name}.{fn.name} changes neither operand', not a.bad,
                            '; '.join(f'line {l}: {t}' for l, t in a.bad))
                    used = any(mine(x) and other_of(y) or self_of(x) and other_of(y) for x, y in a.merged)
                    ctx.add('operands', where, key + '.all', f'{c.name}.{fn.name} merges the data of both operands', used)


def self_of(v):
    while v[0] == 'attr':
        v = v[1]
    return v == ('self', )


def other_of(v):
    while v[0] in ('attr', 'copyof', 'shallow'):
        v = v[1]
    return v[0] == 'other'


def mine(v):
    """A copy of the left operand or of a part of it."""
    while v[0] in ('attr', 'copyof', 'shallow'):
        v = v[1]
    return v[0] in ('self', 'new')


def check(ctx):
    ctx.rule('cells', 'the merge of containers combines every cell with the same cell of the operand, whichever of them have data')
    ctx.rule('reject', 'the merge of containers has compared the definitions of the cells before it changes anything, and cannot fail afterwards')
    ctx.rule('histogram', 'the merge of histograms combines every quantity that an observation changes')
    ctx.rule('pool', 'the merge of statistics gives every accumulated quantity of the pooled data, an empty operand being neutral')
    ctx.rule('self', 'a merge is not disturbed by its own changes when both operands are the same object')
    ctx.rule('operands', 'the operator + changes neither operand, the operator += only the left one, and both merge all that both hold')
    all_ = list(merges(ctx.facts))
    if not all_:
        raise AnalysisError('no merge found')
    ctx.run(Merge, [f for f in all_ if not f['q'].startswith(MATH)])
    ctx.run(Inner, all_)
    streaming(ctx)
    sub = Only(ctx, ('pool', ))
    for which in sorted(i for i, m in p25.methods(ctx).items() if 'operator+=' in m):
        p25.one(sub, which)
    python(ctx)


class Only:
    """Forwards the obligations of some rules."""

    def __init__(self, ctx, rules):
        self.ctx = ctx
        self.keep = rules
        self.calls = 0

    def __getattr__(self, n):
        return getattr(self.ctx, n)

    def add(self, rule, *a, **k):
        if rule in self.keep:
            self.ctx.add(rule, *a, **k)
