"""P24: comparing, copying and clearing an object take its whole state into account.

Equality is evaluated in three-valued logic: once for two objects that agree on every part of their state, and once for every
part on which they differ.  Copies are followed member by member.  A cleared object is compared with a newly built one.
"""
import ast
import os

from ..bindings import read
from ..engine import Rule, State, THIS
from ..extent import sname
from ..facts import AnalysisError, REPO
from ..flow import plain
from .p10 import ctor_fns, members, state_fields
from . import p25
from .p11 import AMOUNTS, CELL, Merge, Only, record_of

EQUALS = {'operator==', 'equals', 'operator!='}
# the direction of a container is computed from its points
DERIVED = {'is_ascending_'}
STATISTICS = 'pyinterp::detail::math::DescriptiveStatistics'


def short(q):
    return q.replace('pyinterp::', '').replace('detail::', '')


def hierarchy(facts, cls):
    """The records of a class and of its bases of the repository."""
    out, todo, seen = [], [cls], set()
    while todo:
        t = todo.pop()
        if t in seen:
            continue
        seen.add(t)
        for rs in facts.recs.values():
            for r in rs:
                if r['t'] == t:
                    out.append(r)
                    todo += [b if isinstance(b, str) else b.get('t') for b in r['b']]
    return out


def methods_of(facts, cls):
    out = []
    for fs in facts.funcs.values():
        for f in fs:
            if f.get('clst') == cls and f.get('kind') == 'method' and not f.get('const') and not f.get('static') and \
                    f.get('body') is not None and sname(f['q']) not in ('setstate', 'operator=', 'clear'):
                out.append(f)
    return out


def significant(facts, cls):
    """The members that take values from outside, in the class and its bases."""
    own = {f['n'] for r in hierarchy(facts, cls) for f in r['f']}
    out = set()
    for r in hierarchy(facts, cls):
        ms = [f for f in facts.all_funcs() if f.get('clst') == r['t'] and f.get('kind') == 'ctor' and f['p'] and
              f.get('body') is not None and plain(f['p'][0]['t']) != r['t']]
        if r['t'] == cls:
            ms += ctor_fns(facts, cls, ())
        out |= state_fields(facts, r['t'], ms, [])
    if not hierarchy(facts, cls):
        return set()
    aggregate = {f['n'] for r in hierarchy(facts, cls) for f in r['f']} if not any(
        f.get('kind') == 'ctor' and f.get('clst') == cls for f in facts.all_funcs()) else set()
    return ((out & own & members(facts, cls)) | aggregate) - DERIVED


class Equal(Rule):
    """Everything but comparisons of other objects is read through."""
    inline_ops = True

    def inline(self, eng, e, fn):
        return True


class Comparison:
    """Three-valued value of a comparison of two objects."""

    def __init__(self, eng, left, right, cls):
        self.eng = eng
        self.roots = {left: 'l', right: 'r'}
        self.loops = False
        self.pointers = {f['n'] for r in hierarchy(eng.f, cls) for f in r['f']
                         if f['t'].startswith(('std::unique_ptr', 'std::shared_ptr')) or f['t'].endswith('*')}

    def form(self, t, n=0):
        """The term with the object replaced by @, the objects and the members it reads, and whether it is a plain part."""
        t = self.eng.x(t)
        if t in self.roots:
            return '@', {self.roots[t]}, set(), True
        if not isinstance(t, tuple) or n > 25:
            return t, set(), set(), False
        if t and t[0] == 'v' and t[:2] in self.roots:
            return '@', {self.roots[t[:2]]}, set(), True
        out, sides, fields, exact = [], set(), set(), t and t[0] in ('f', 'deref', 'addr', 'cast', 'val')
        if t and t[0] == 'f' and len(t) == 3:
            f, s, fs, ex = self.form(t[1], n + 1)
            if f == '@' or f in (('deref', '@'), ('addr', '@')):
                return ('f', '@', t[2]), s, {t[2]}, ex
            return ('f', f, t[2]), s, fs, ex
        if t and t[0] == 'c':
            return t, set(), set(), True
        if t and t[0] == 'call' and sname(str(t[1])) in ('get', 'operator*', 'operator->', 'value', 'array', 'matrix') and len(t) == 3:
            exact = True
        if t and t[0] == 'loop':
            self.loops = True
        for x in t:
            f, s, fs, ex = self.form(x, n + 1) if isinstance(x, tuple) else (x, set(), set(), True)
            out.append(f)
            sides |= s
            fields |= fs
            exact = exact and ex
        return tuple(out), sides, fields, exact

    def same(self, a, b, diff):
        """Whether the same part of both objects is equal, or None."""
        fa, sa, xa, ea = self.form(a)
        fb, sb, xb, eb = self.form(b)
        if ('addr', '@') in (fa, fb):
            return False          # two objects
        if fa == fb and fa[0] == 'f' and fa[2] in self.pointers:
            return None           # the same storage, not the same contents
        if fa == ('c', None) or fb == ('c', None):
            return False          # a null pointer, where both objects are of the same class
        if len(sa) != 1 or len(sb) != 1 or sa == sb:
            return None
        if repr(fa) != repr(fb):
            return None
        if diff is None:
            return True
        if not xa:
            return False if ea else None
        if diff not in xa:
            return True
        return False if ea else None

    def truth(self, t, diff, n=0):
        t = self.eng.x(t)
        k = t[0]
        if n > 40:
            return None
        if k == 'c':
            return t[1] is not None and bool(t[1])
        if k == 'u' and t[1] == '!':
            v = self.truth(t[2], diff, n + 1)
            return None if v is None else not v
        if k == 'b' and t[1] in ('&&', '||', '&', '|'):
            a, b = self.truth(t[2], diff, n + 1), self.truth(t[3], diff, n + 1)
            z = t[1] in ('||', '|')
            if a is z or b is z:
                return z
            return None if a is None or b is None else not z
        if k == 'b' and t[1] in ('==', '!='):
            v = self.same(t[2], t[3], diff)
            return None if v is None else v == (t[1] == '==')
        if k == 'b' and t[1] in ('<', '>', '<=', '>='):
            v = self.same(t[2], t[3], diff)
            return (t[1] in ('<=', '>=')) if v else None
        if k == 'call' and sname(str(t[1])) in EQUALS and len(t) == 4:
            v = self.same(t[2], t[3], diff)
            return None if v is None else v != (sname(t[1]) == 'operator!=')
        if k == 'call' and sname(str(t[1])) in ('equal', 'isApprox', 'equal_range'):
            fs = self.form(t)
            if fs[1] == {'l', 'r'}:
                return True if diff is None or diff not in fs[2] else False
        if k == 'call' and sname(str(t[1])) in ('all', ) and len(t) == 3:
            return self.truth(t[2], diff, n + 1)
        if k == 'cond':
            c = self.truth(t[1], diff, n + 1)
            if c is not None:
                return self.truth(t[2] if c else t[3], diff, n + 1)
            a, b = self.truth(t[2], diff, n + 1), self.truth(t[3], diff, n + 1)
            return a if a == b else None
        if k in ('phi', 'ret'):
            vs = {self.truth(v, diff, n + 1) for d, v in t[2] if v is not None and self.possible(d, diff, n + 1)}
            return next(iter(vs)) if len(vs) == 1 else None
        if k == 'loop':
            self.loops = True
        return None

    def possible(self, facts, diff, n=0):
        for f, pol in facts:
            if f[0] in ('imp', 'forall'):
                continue
            v = self.truth(f, diff, n + 1)
            if v is not None and v is not pol:
                return False
        return True

    def outcome(self, rets, diff):
        vs = {self.truth(r[1], diff) for r in rets if r[1] is not None and self.possible(r[0], diff)}
        return next(iter(vs)) if len(vs) == 1 else None


def as_function(b):
    sp = b.lam['specs'][0]
    return {'kind': 'lambda', 'p': sp['p'], 'body': sp['body'], 'q': b.label(), 'n': b.name, 'file': b.file, 'l': b.line}


def site(fn):
    return f"src/pyinterp/core/{fn['file']}:{fn['l']}" if not fn['file'].startswith('src/') else f"{fn['file']}:{fn['l']}"


class Run(Rule):
    """Runs one comparison, copy or clearing given by `task`."""
    disjunctions = True
    inline_ops = True

    def start(self, eng, task):
        kind = task['task']
        if kind == 'clear':
            rule = Clear()
            rule.obs = self.obs
            eng.rule = rule
            rule.begin(eng, task)
        else:
            getattr(self, kind)(eng, task)

    def compare(self, eng, task):
        fn, cls, what = task['fn'], task['cls'], task['what']
        rets = eng.run(fn, state=State())
        if fn.get('kind') == 'lambda':
            l, r = ('p', fn['p'][0]['n'], 0), ('p', fn['p'][1]['n'], 1)
            lv, rv = (('v', fn['p'][k]['id']) for k in (0, 1))
        else:
            l, r = THIS, ('p', fn['p'][0]['n'], 0)
            lv, rv = ('this', ), ('v', fn['p'][0]['id'])
        c = Comparison(eng, l, r, cls)
        c.roots.update({lv: 'l', rv: 'r'})
        negated = sname(fn['q']) == 'operator!=' or fn.get('n') == '__ne__'
        rule = 'differ' if negated else 'equal'
        verb = 'are different' if negated else 'are equal'
        fields = sorted(significant(eng.f, cls))
        label = task['label']
        got = c.outcome(rets, None)
        self.obs.append((rule, task['where'], f'{label}:*', f'{label}: objects in the same state {"are not different" if negated else "are equal"}',
                         got is (not negated), f'the result is {got}'))
        for f in fields:
            c.loops = False
            got = c.outcome(rets, f)
            ok = got is negated or got is None and c.loops
            self.obs.append((rule, task['where'], f'{label}:{f}',
                             f'{label}: objects that differ by {f} {"are different" if negated else "are not equal"}', ok,
                             f'two objects that differ by {f} only {verb if got is not None else "are not told apart"}' ))

    def copy(self, eng, task):
        fn, cls, label = task['fn'], task['cls'], task['label']
        rets = eng.run(fn, state=State())
        src = ('p', fn['p'][0]['n'], 0)
        if fn.get('kind') == 'lambda':
            bad = ''
            t = plain(task['type'] or '')
            if t and t != cls:
                bad = f'the copy is a {short(t)}'
            for r in rets:
                v = eng.x(r[1]) if r[1] is not None else None
                if not bad and not self.whole(eng, r[2], v, src, cls):
                    bad = 'the copy is not made from the whole object'
            self.obs.append(('copy', task['where'], label, f'{label} gives a copy of the whole object, of the same class', not bad, bad))
            return
        rec = [r for r in hierarchy(eng.f, cls) if r['t'] == cls]
        for f in (x['n'] for x in rec[0]['f']):
            bad = ''
            for r in rets:
                v = eng.x(eng.read(r[2], ('f', THIS, f)))
                if not self.from_field(eng, v, src, f):
                    bad = f'{f} is not taken from the other object'
            self.obs.append(('copy', task['where'], f'{label}:{f}', f'{label} copies {f}', not bad, bad))

    def whole(self, eng, st, v, src, cls):
        if v is None:
            return False
        if v == src or v[0] in ('deref', 'addr', 'val') and src in list(eng.subterms(v)):
            return True
        if v[0] in ('new', 'call') and any(eng.x(x) == src for x in v[2:] if isinstance(x, tuple)):
            return True
        if v[0] == 'o':
            return False
        names = [x['n'] for r in hierarchy(eng.f, cls) for x in r['f']]
        return v[0] == 'v' and all(self.from_field(eng, eng.x(eng.read(st, ('f', v, f))), src, f) for f in names)

    def from_field(self, eng, v, src, f):
        """A value made of the same member of the source, and of nothing else of it."""
        seen = set()
        for t in eng.subterms(v):
            if isinstance(t, tuple) and t and t[0] == 'f' and len(t) == 3:
                b = eng.x(t[1]) if isinstance(t[1], tuple) else t[1]
                if b == src or b == ('deref', src) or b and b[0] == 'v':
                    seen.add(t[2])
        return seen == {f}


class Clear(Merge):
    """The clearing of one object."""
    inline_ops = True

    def begin(self, eng, task):
        self.task = task
        fn = task['fn']
        self.fn = fn
        self.other = None
        self.pname = None
        self.cleared = []
        self.events, self.loops, self.late, self.rewritten = [], {}, [], []
        rec = record_of(eng.f, fn)
        self.cells = {f['n'] for f in rec['f'] if any(c in f['t'] for c in CELL)}
        self.config = []
        self.label = task['label']
        self.where = task['where']
        rets = eng.run(fn, state=State())
        for f in task['fields']:
            bad = self.undone(eng, rets, f, task['ctors'])
            self.obs.append(('clear', self.where, f'{self.label}:{f}', f'{self.label} leaves {f} as in a new object', not bad, bad))

    def inline(self, eng, e, fn):
        return not ((fn.get('cls') or '').startswith('pyinterp::detail::math::') and sname(fn['q']) in ('clear', 'operator=')) or \
            (self.fn.get('cls') or '').startswith('pyinterp::detail::math::')

    def on_call(self, eng, e, fn, obj, oloc, args, locs, st):
        n = sname(fn)
        if eng.mute:
            return None
        if n in ('clear', 'operator=') and oloc is not None:
            p = self.place(eng, st, oloc)
            if p is not None and p[2] is not None:
                self.events.append((n, p, st.facts, eng.where(e), args[0] if args else None))
        if n in ('clear', 'setZero', 'reset') and oloc is not None:
            l = eng.resolve(st, oloc)
            for _ in range(4):
                if l is not None and l[0] == 'deref':
                    t = eng.x(l[1])
                    while t[0] == 'call' and len(t) == 3 and sname(str(t[1])) in ('get', 'operator->') or t[0] == 'ptr':
                        t = eng.x(t[-1])
                    l = t[1] if t[0] == 'addr' else t
            if l is not None and l[0] == 'f' and l[1] == THIS:
                self.cleared.append((l[2], st.facts))
        return None

    def undone(self, eng, rets, f, ctors):
        if any(n == f and not facts for n, facts in self.cleared):
            return ''
        if f in self.cells:
            ev = [x for x in self.events if x[1][1] == f]
            if ev:
                for n, p, facts, where, arg in ev:
                    bad = self.partial(eng, f, p[2], where)
                    if bad:
                        return bad
                    if arg is not None and not self.empty(eng, arg):
                        return f'a cell is not replaced by a new one at {where}'
                for l in AMOUNTS[1:]:
                    if not any(self.possible(eng, x[2], l, 0, True) for x in ev):
                        return 'a cell that has data may be left'
                return ''
        why = f'{f} keeps its value'
        for r in rets:
            v = eng.x(eng.read(r[2], ('f', THIS, f)))
            ok = False
            if f in self.task['settings']:
                if v != ('f', THIS, f):
                    return f'{f} is a setting and does not survive'
                continue
            kept = [c for c in ctors if c.get(f, (None, False))[1]]
            for c in kept or ctors:
                want, keep = c.get(f, (None, False))
                if keep and v == ('f', THIS, f):
                    ok = True
                elif want is not None and (self.like(eng, v, want) or self.resized(eng, v, f)):
                    ok = True
            if not ok:
                if v != ('f', THIS, f):
                    why = f'{f} is not what a new object has'
                return why
        return ''

    def empty(self, eng, arg):
        t = eng.x(arg)
        return t[0] in ('new', 'zero', 'o', 'val', 'init', 'list') and not any(
            isinstance(x, tuple) and x and x[0] in ('idx', 'sub') for x in eng.subterms(t))

    def resized(self, eng, v, f):
        """A new container of the size of the old one."""
        if v[0] != 'new' or len(v) not in (3, 4):
            return False
        names = [(sname(str(a[1])), deep(eng, a[2])) for a in (eng.x(x) for x in v[2:]) if a[0] == 'call' and len(a) == 3]
        return [n for n, _ in names] in (['rows', 'cols'], ['size']) and all(a == ('f', THIS, f) for _, a in names)

    def like(self, eng, v, want):
        """Same value as in a new object; an unknown part of a new object stands for itself."""
        v, want = eng.x(v), want
        if v == want:
            return True
        if fresh(eng, v) and want and want[0] in ('m', 'val', 'fresh'):
            return True
        if want and want[0] == 'new' and v[0] == 'new' and len(v) == len(want):
            return v[1] == want[1] and all(deep(eng, a) == deep(eng, b) for a, b in zip(v[2:], want[2:]))
        return want and want[0] == 'new' and len(want) == 2 and v[0] in ('init', 'list') and len(v) == 1


def deep(eng, t, n=0):
    """The term with every part written out."""
    if not isinstance(t, tuple) or n > 30:
        return t
    t = eng.x(t)
    return tuple(deep(eng, x, n + 1) for x in t)


def fresh(eng, v):
    """A part of an object built in the function itself."""
    for x in eng.subterms(v):
        if isinstance(x, tuple) and x and x[0] == 'f' and len(x) == 3 and x[1] == THIS:
            return False
    return any(isinstance(x, tuple) and x and x[0] == 'o' for x in eng.subterms(v))


def initial(facts, cls):
    """For each constructor, the members of a new object, with the parameters replaced by the members that keep them."""
    from ..engine import Engine
    out = []
    names = [x['n'] for r in hierarchy(facts, cls) for x in r['f']]
    for f in facts.all_funcs():
        if f.get('kind') != 'ctor' or f.get('clst') != cls or f.get('body') is None:
            continue
        if f['p'] and (plain(f['p'][0]['t']) == cls or 'view' in f['p'][0]['t']):
            continue
        eng = Engine(facts, Equal())
        for r in eng.run(f, state=State()):
            vals = {n: eng.x(eng.read(r[2], ('f', THIS, n))) for n in names}
            kept = {v: ('f', THIS, n) for n, v in vals.items() if v[0] == 'p'}
            kept.update({v[2]: ('f', THIS, n) for n, v in vals.items() if v[0] in ('new', 'call') and len(v) == 3 and
                         isinstance(v[2], tuple) and v[2] and v[2][0] == 'p'})

            def sub(t):
                if not isinstance(t, tuple):
                    return t
                t = eng.x(t) if t and isinstance(t[0], str) else t
                if t in kept:
                    return kept[t]
                return tuple(sub(x) for x in t)

            out.append({n: (sub(v), v in kept) for n, v in vals.items()})
    return out


def accumulated(facts, cls):
    """The members that methods other than clear change, and those that a method sets to a value it is given."""
    from ..engine import Engine
    out, settings = set(), set()
    names = [x['n'] for r in hierarchy(facts, cls) for x in r['f']]
    for r in hierarchy(facts, cls):
        for m in methods_of(facts, r['t']):
            eng = Engine(facts, Rule())
            for ret in eng.run(m, state=State()):
                for n in names:
                    if eng.x(eng.read(ret[2], ('f', THIS, n)))[0] == 'p':
                        settings.add(n)
                for k in ret[2].env:
                    l = k[1] if k[0] == 'ver' else k
                    while isinstance(l, tuple) and l and l[0] in ('f', 'sub', 'deref', 'acc') and l[1] != THIS:
                        l = l[1]
                        if l and l[0] == 'v':
                            break
                        if l and l[0] == 'call' and len(l) == 3 and isinstance(l[2], tuple):
                            l = l[2]
                    if isinstance(l, tuple) and l and l[0] == 'f' and l[1] == THIS and l[2] in names:
                        out.add(l[2])
    return out, settings


def tasks(ctx):
    facts = ctx.facts
    out, seen = [], set()
    for b in read(facts):
        key = (b.name, b.cls)
        if b.name not in ('__eq__', '__ne__', '__copy__', 'clear') or key in seen:
            continue
        seen.add(key)
        if b.lam is not None:
            fn = as_function(b)
        else:
            fs = facts.funcs.get(b.target) or []
            fn = next((x for x in fs if x.get('clst') == b.cls), fs[0] if fs else None)
            if b.name == 'clear' and fn is not None:
                fn = next((x for x in fs if x.get('clst') in {r['t'] for r in hierarchy(facts, b.cls)}), fn)
        if fn is None:
            continue
        t = {'fn': fn, 'cls': b.cls, 'label': b.label(), 'where': b.where, 'q': fn['q'], 'file': fn['file'], 'l': fn['l']}
        if b.name == '__copy__':
            sp = b.lam['specs'][0] if b.lam else {}
            t.update(task='copy', type=sp.get('r') or sp.get('t') or sp.get('ret'))
        elif b.name == 'clear':
            if fn.get('kind') == 'lambda':
                continue
            t.update(task='clear', cls=fn['clst'])
        else:
            t.update(task='compare', what=b.name)
        out.append(t)
    for fn in list(facts.all_funcs()):
        n = sname(fn['q'])
        cls = fn.get('clst')
        if fn.get('body') is None or not cls or not fn['q'].startswith('pyinterp'):
            continue
        key = (n, cls, fn['l'])
        if key in seen:
            continue
        t = {'fn': fn, 'cls': cls, 'label': short(fn['q']), 'where': site(fn), 'q': fn['q'], 'file': fn['file'], 'l': fn['l']}
        if n in ('operator==', 'operator!=') and len(fn['p']) == 1:
            t.update(task='compare', what=n)
        elif n == 'clear' and fn.get('kind') == 'method' and not fn['p'] and (n, cls) not in seen:
            t.update(task='clear')
        elif fn.get('kind') == 'ctor' and fn['p'] and plain(fn['p'][0]['t']) == cls or n == 'operator=' and fn['p'] and \
                plain(fn['p'][0]['t']) == cls:
            t.update(task='copy', type=None)
        else:
            continue
        seen.add(key)
        out.append(t)
    for t in out:
        if t['task'] == 'clear' and fn_class(t) != STATISTICS:
            fields, t['settings'] = accumulated(facts, t['cls'])
            t['fields'] = sorted(fields)
            t['ctors'] = initial(facts, t['cls'])
    return [t for t in out if t['task'] != 'clear' or 'fields' in t]


def fn_class(t):
    return t['fn'].get('cls') or ''


def python(ctx):
    """The Python classes that redefine a comparison or the clearing of a core object."""
    top = os.path.join(REPO, 'src/pyinterp')
    for d, _, fs in sorted(os.walk(top)):
        if '/tests' in d or '/core' in d:
            continue
        for f in sorted(fs):
            if not f.endswith('.py'):
                continue
            p = os.path.join(d, f)
            rel = os.path.relpath(p, REPO)
            for c in ast.walk(ast.parse(open(p, encoding='utf-8').read())):
                if not isinstance(c, ast.ClassDef):
                    continue
                if any(isinstance(m, ast.FunctionDef) and m.name == '__eq__' for m in c.body):
                    python_compare(ctx, rel, c)
                for m in c.body:
                    if isinstance(m, ast.FunctionDef) and m.name == 'clear':
                        ok = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'clear' and
                                 isinstance(x.func.value, (ast.Attribute, ast.Call)) for s in m.body for x in ast.walk(s)
                                 if isinstance(s, (ast.Expr, ast.Return)))
                        ctx.add('wrapper', f'{rel}:{m.lineno}', f'{c.name}.clear', f'{c.name}.clear clears the core object', ok,
                                'it does not always call the core object')


class Comparisons:
    """Three-valued evaluation of the comparison methods of a Python class.

    `diff` is None for equal objects, the attribute on which the objects differ, '(core)' for a difference in the state of the
    core object, or '(type)' for an object of another type.
    """

    def __init__(self, cls):
        self.m = {m.name: m for m in cls.body if isinstance(m, ast.FunctionDef)}
        self.attrs = sorted({t.attr for m in cls.body if isinstance(m, ast.FunctionDef) and m.name == '__init__' for s in ast.walk(m)
                             if isinstance(s, (ast.Assign, ast.AnnAssign)) for t in (s.targets if isinstance(s, ast.Assign) else [s.target])
                             if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self'})

    def call(self, name, diff, n=0):
        m = self.m.get(name)
        if m is None or n > 8:
            if name == '__ne__' and m is None:
                v = self.call('__eq__', diff, n + 1)
                return v if v in (None, 'NI') else not v
            return None
        env = {}
        other = m.args.args[1].arg
        r = self.block(m.body, diff, env, other, n)
        return None if r == 'fall' else r

    def block(self, body, diff, env, other, n):
        for s in body:
            if isinstance(s, ast.Return):
                return self.ev(s.value, diff, env, other, n)
            if isinstance(s, ast.If):
                c = self.ev(s.test, diff, env, other, n)
                if c is None:
                    a = self.block(s.body, diff, env, other, n)
                    b = self.block(s.orelse, diff, env, other, n)
                    return a if a == b else None
                r = self.block(s.body if c else s.orelse, diff, env, other, n)
                if r != 'fall':
                    return r
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                env[s.targets[0].id] = self.ev(s.value, diff, env, other, n)
            elif isinstance(s, ast.Expr) and isinstance(s.value, (ast.Constant, ast.Call)) or isinstance(s, (ast.Pass, ast.Assert)):
                continue
            else:
                return None
        return 'fall'

    def ev(self, e, diff, env, other, n):
        go = lambda x: self.ev(x, diff, env, other, n)  # noqa: E731
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, ast.Name):
            return 'NI' if e.id == 'NotImplemented' else env.get(e.id)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = go(e.operand)
            return None if v is None else False if v == 'NI' else not v
        if isinstance(e, ast.BoolOp):
            z = isinstance(e.op, ast.Or)
            vs = [go(x) for x in e.values]
            if any(v is z for v in vs):
                return z
            return None if None in vs else not z
        if isinstance(e, ast.IfExp):
            c = go(e.test)
            if c is None:
                a, b = go(e.body), go(e.orelse)
                return a if a == b else None
            return go(e.body if c else e.orelse)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, r, op = e.left, e.comparators[0], e.ops[0]
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(r, ast.Name) and r.id == 'NotImplemented':
                v = go(l)
                return None if v is None else (v == 'NI') == isinstance(op, ast.Is)
            if not isinstance(op, (ast.Eq, ast.NotEq)):
                return None
            if isinstance(l, ast.Tuple) and isinstance(r, ast.Tuple) and len(l.elts) == len(r.elts):
                vs = [go(ast.Compare(left=a, ops=[ast.Eq()], comparators=[b])) for a, b in zip(l.elts, r.elts)]
                v = False if False in vs else None if None in vs else True
                return None if v is None else v == isinstance(op, ast.Eq)
            names = [x.id if isinstance(x, ast.Name) else None for x in (l, r)]
            if set(names) == {'self', other}:
                return self.operator('__eq__' if isinstance(op, ast.Eq) else '__ne__', diff, n + 1)
            if all(isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) for x in (l, r)) and l.attr == r.attr and \
                    {l.value.id, r.value.id} == {'self', other}:
                if diff in ('(core)', '(type)') and l.attr not in self.attrs:
                    return None
                return (diff != l.attr) == isinstance(op, ast.Eq)
            if 'type(' in ast.unparse(l) or '__class__' in ast.unparse(l):
                return (diff != '(type)') == isinstance(op, ast.Eq)
            return None
        if isinstance(e, ast.Call):
            f = e.func
            if isinstance(f, ast.Name) and f.id == 'isinstance':
                return diff != '(type)'
            if isinstance(f, ast.Attribute) and f.attr in ('__eq__', '__ne__') and len(e.args) == 1:
                if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                    if diff == '(type)':
                        return 'NI'
                    return (diff != '(core)') == (f.attr == '__eq__')
                if isinstance(f.value, ast.Name) and f.value.id in ('self', other):
                    return self.call(f.attr, diff, n + 1)
        return None

    def operator(self, name, diff, n):
        v = self.call(name, diff, n)
        return name == '__ne__' if v == 'NI' else v


def python_compare(ctx, rel, c):
    k = Comparisons(c)
    for name, neg in (('__eq__', False), ('__ne__', True)):
        if name not in k.m:
            continue
        where = f'{rel}:{k.m[name].lineno}'
        rule = 'differ' if neg else 'equal'
        got = k.call(name, None)
        ctx.add(rule, where, f'{c.name}.{name}:*', f'{c.name}.{name}: objects in the same state are {"not different" if neg else "equal"}',
                got is (not neg), f'the result is {got}')
        for d in k.attrs + ['(core)']:
            got = k.call(name, d)
            if got is None and d in {x.attr for x in ast.walk(k.m[name]) if isinstance(x, ast.Attribute)} | {'(core)'}:
                continue          # compared in a way that is not read here
            ctx.add(rule, where, f'{c.name}.{name}:{d}', f'{c.name}.{name}: objects that differ by {d} are {"different" if neg else "not equal"}',
                    got is neg, f'the result is {got}')
        got = k.call(name, '(type)')
        ctx.add(rule, where, f'{c.name}.{name}:(type)', f'{c.name}.{name}: objects of other types are {"different" if neg else "not equal"}',
                got in (neg, 'NI'), f'the result is {got}')


def check(ctx):
    ctx.rule('equal', 'objects in the same state are equal; objects that differ by any part of their state are not', 1)
    ctx.rule('differ', 'objects are different exactly when they are not equal', 1)
    ctx.rule('copy', 'a copy has the class of the object and every part of its state', 1)
    ctx.rule('clear', 'a cleared object holds what a new one holds', 1)
    ctx.rule('initial', 'new and cleared statistics hold nothing: every accumulated quantity is zero', 1)
    ctx.rule('wrapper', 'the Python wrappers clear the core object', 1)
    ts = tasks(ctx)
    if not ts:
        raise AnalysisError('no comparison found')
    ctx.run(Run, ts)
    sub = Only(ctx, ('initial', ))
    for which in sorted(i for i, m in p25.methods(ctx).items() if 'operator+=' in m):
        p25.one(sub, which)
    python(ctx)
