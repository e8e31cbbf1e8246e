"""P23: objects with inconsistent parts cannot be built.

Every constructor of a class that keeps axes and values, and every restoration from a saved state, is executed symbolically: on each
way out without an error, the facts established on the way must imply that the extents of the values are the sizes of the axes.
"""
from ..bindings import read
from ..engine import Rule, State, THIS, walk
from ..extent import sname
from ..facts import AnalysisError
from ..flow import plain
from .p24 import deep, hierarchy, short

OPAQUE = ('pyinterp::Axis', 'pyinterp::detail::Axis', 'pyinterp::TemporalAxis')


def is_axis(t):
    return 'shared_ptr<' in t and ('Axis<' in t or 'TemporalAxis' in t)


def is_values(t):
    return t.startswith(('pybind11::array_t<', 'Eigen::Matrix<', 'Matrix<', 'pyinterp::Matrix<'))


def layout(facts, cls):
    """The axes of an object in the order of their declaration, bases first, and the members that hold its values."""
    recs = hierarchy(facts, cls)
    fields, seen = [], set()
    for r in reversed(recs):
        for f in r['f']:
            if f['n'] not in seen:
                seen.add(f['n'])
                fields.append(f)
    axes = [f['n'] for f in fields if is_axis(f['t'])]
    arrays = [(f['n'], 'array_t<' in f['t']) for f in fields if is_values(f['t'])]
    return axes, arrays


class Build(Rule):
    """Reads everything but what the axes do; an object put in shared memory keeps its identity."""
    inline_ops = True
    disjunctions = True

    def __init__(self, facts=None, deep=False):
        super().__init__()
        self.count = 0
        self.deep = deep

    def inline(self, eng, e, fn):
        if self.deep:
            return True
        return not (sname(fn.get('cls') or '') in ('Axis', 'TemporalAxis') and fn.get('kind') == 'method' and fn.get('const'))

    def on_call(self, eng, e, fn, obj, oloc, args, locs, st):
        if sname(fn) == 'make_shared' and 'Axis' in e.get('t', ''):
            return eng.compact(('call', 'made', ('c', f'{e["l"]}:{e.get("c", 0)}'), *args)), None
        return None


class P23(Rule):
    """A constructor or a restoration of one class."""

    def __init__(self, ctx):
        super().__init__()
        self.ctx = ctx

    def start(self, eng, task):
        getattr(self, task['what'])(task)

    def machine(self, deep=False):
        from ..engine import Engine
        e = Engine(self.ctx.facts, Build(deep=deep))
        e.rule.obs = []
        self.inner = e
        return e

    def done(self, eng):
        self.ncalls = getattr(self, 'ncalls', 0) + eng.ncalls

    def where(self, fn):
        return f'{fn["file"]}:{fn["l"]}'

    # -- constructors ----------------------------------------------------------
    def built(self, task):
        facts, fn, cls = self.ctx.facts, task['fn'], task['cls']
        axes, arrays = layout(facts, cls)
        eng = self.machine()
        outs = [r for r in eng.run(fn, state=State())]
        name = short(cls)
        for k, a in enumerate(axes):
            for v, numpy in arrays:
                bad = ''
                for r in outs:
                    st = r[2]
                    ax = eng.x(eng.read(st, ('f', THIS, a)))
                    va = eng.x(eng.read(st, ('f', THIS, v)))
                    if not self.fits(eng, st, va, k, ax, r[0]):
                        bad = f'a path builds the object with no relation between axis {k} of {v} and {a}'
                self.obs.append(('P23.shape', self.where(fn), f'{name}:{v}:{a}',
                                 f'the extent {k} of {name}.{v} is the size of {a}', not bad and bool(outs), bad or 'never built'))
                if numpy and k:
                    bad = ''
                    for r in outs:
                        ax = eng.x(eng.read(r[2], ('f', THIS, a)))
                        if not any(not p and self.about(eng, f, 'is_circle', ax) for f, p in r[0] | r[2].facts):
                            bad = f'a path accepts a circular axis in {a}'
                    self.obs.append(('P23.circle', self.where(fn), f'{name}:{a}', f'{a} of {name} is not a circle', not bad, bad))

    def about(self, eng, t, name, obj):
        """The term asks an object for something, through a call or a member."""
        t = eng.x(t)
        if t[0] == 'call' and sname(str(t[1])) == name and len(t) > 2:
            return self.same(eng, t[2], obj)
        if t[0] == 'f' and t[2].rstrip('_') == name:
            return self.same(eng, t[1], obj)
        return False

    def same(self, eng, t, obj):
        """The object, reached through pointers, references and members only."""
        t, n = eng.x(t), 0
        while n < 12:
            n += 1
            if t == obj:
                return True
            if not isinstance(t, tuple) or not t:
                return False
            if t[0] in ('deref', 'ptr', 'get', 'addr') and len(t) == 2:
                t = eng.x(t[1])
            elif t[0] == 'call' and sname(str(t[1])) in ('get', 'operator->', 'operator*', 'move', 'value') and len(t) == 3:
                t = eng.x(t[2])
            elif t[0] == 'f' and t[2] == 'axis_':
                t = eng.x(t[1])
            else:
                return False
        return False

    def size_of(self, eng, t, ax):
        t = eng.x(t)
        if t[0] in ('cast', 'conv', 'trunc') and len(t) > 1:
            t = eng.x(t[-1])
        if t[0] == 'call' and sname(str(t[1])) == 'size' and len(t) == 3 and self.same(eng, t[2], ax):
            return True
        # an axis made here has the size it was given
        n = self.made(eng, ax)
        return n is not None and eng.x(t) == n

    def made(self, eng, ax):
        ax = eng.x(ax)
        if ax[0] == 'call' and ax[1] in ('made', 'std::make_shared') and len(ax) >= 5:
            args = ax[3:] if ax[1] == 'made' else ax[2:]
            if len(args) >= 3:
                return eng.x(args[2])
        return None

    def extent(self, eng, t, values, k):
        """The term is the k-th extent of the values."""
        t = eng.x(t)
        if t[0] != 'call':
            return False
        n = sname(str(t[1]))
        if n in ('shape', 'dimension') and len(t) == 4:
            return self.alike(eng, t[2], values) and eng.x(t[3]) == ('c', k)
        if n in ('rows', 'cols') and len(t) == 3:
            return self.alike(eng, t[2], values) and k == (n == 'cols')
        return False

    def alike(self, eng, a, b):
        """The same array; a conversion of its elements keeps its extents."""
        return self.bare(eng, a) == self.bare(eng, b)

    def bare(self, eng, t):
        t = eng.x(t)
        while t[0] == 'call' and sname(str(t[1])) in ('cast', 'move') and len(t) == 3:
            t = eng.x(t[2])
        return t

    def fits(self, eng, st, values, k, ax, more=frozenset()):
        values = eng.x(values)
        content = eng.x(eng.read(st, ('deref', ax)))
        if values[0] == 'new' and len(values) == 4 and 'Matrix' in str(values[1]) and self.size_of(eng, values[2 + k], ax):
            return True
        for f, p in set(more) | set(st.facts):
            f = eng.x(f)
            if not p or f[0] != 'b' or f[1] != '==':
                continue
            for a, b in ((f[2], f[3]), (f[3], f[2])):
                if self.extent(eng, a, values, k) and (self.size_of(eng, b, ax) or self.size_of(eng, b, content)):
                    return True
        return False

    # -- restorations ----------------------------------------------------------
    def restored(self, task):
        facts, fn, cls = self.ctx.facts, task['fn'], task['cls']
        axes, arrays = layout(facts, cls)
        eng = self.machine()
        name = short(cls)
        outs = [r for r in eng.run(fn, state=State())]
        if task['check']:
            bad = ''
            want = task['parts']
            for r in outs:
                if want and not any(p and self.length(eng, f) == want for f, p in r[0] | r[2].facts):
                    bad = f'a path restores an object without knowing that the state has {want} parts'
            self.obs.append(('P23.state', self.where(fn), f'{name}', f'a state of {name} has its {want} parts', not bad, bad))
        mine = {}
        for f in facts.all_funcs():
            if f.get('kind') == 'ctor' and f.get('clst') == cls and f['p'] and plain(f['p'][0]['t']) != cls:
                e2 = self.machine()
                for r in e2.run(f, state=State()):
                    for a in axes:
                        v = e2.x(e2.read(r[2], ('f', THIS, a)))
                        if v[0] == 'p':
                            mine[a] = v[2]
                        elif self.made(e2, v) is not None:
                            mine.setdefault(a, ('made', self.made(e2, v)))
        for v, numpy in arrays:
            if numpy:
                continue
            for r in outs:
                st = r[2]
                val = eng.x(r[1]) if r[1] is not None else None
                obj = self.whole(eng, val, cls)
                new = None
                for loc, t in st.env.items():
                    if isinstance(loc, tuple) and loc[0] == 'f' and len(loc) == 3 and loc[2] == v and loc[1] != THIS and \
                            self.same(eng, loc[1], obj):
                        new = eng.x(t)
                if new is None and not axes:
                    continue
                if new is None:
                    # filled in place
                    for k, what in enumerate(('rows', 'cols')):
                        ok = any(p and self.compared(eng, f, what, obj, v) for f, p in r[0] | st.facts)
                        self.obs.append(('P23.state', self.where(fn), f'{name}:{v}:{what}',
                                         f'the saved {what} of {name}.{v} are those of the restored object', ok,
                                         f'a path fills {v} without comparing its {what} with the saved ones'))
                    continue
                for k, a in enumerate(axes):
                    at = mine.get(a)
                    if isinstance(at, tuple):
                        ok = any(p and self.equals(eng, f, new, k, at[1]) for f, p in r[0] | st.facts)
                    else:
                        args = obj[2:]
                        ok = at is not None and at < len(args) and self.fits(eng, st, new, k, eng.x(args[at]), r[0])
                    self.obs.append(('P23.state', self.where(fn), f'{name}:{v}:{a}',
                                     f'the restored {v} of {name} has the size of {a}', ok,
                                     f'a path restores {v} without comparing its extent {k} with the size of {a}'))

    def compared(self, eng, f, what, obj, member):
        f = eng.x(f)
        if f[0] != 'b' or f[1] != '==':
            return False
        for a, b in ((f[2], f[3]), (f[3], f[2])):
            a = eng.x(a)
            if a[0] == 'call' and sname(str(a[1])) == what and len(a) == 3:
                m = eng.x(a[2])
                if m[0] == 'f' and m[2] == member and self.same(eng, m[1], obj) and not any(
                        isinstance(x, tuple) and x == m for x in eng.subterms(b)):
                    return True
        return False

    def equals(self, eng, f, values, k, n):
        f = eng.x(f)
        return f[0] == 'b' and f[1] == '==' and any(self.extent(eng, a, values, k) and eng.x(b) == n
                                                   for a, b in ((f[2], f[3]), (f[3], f[2])))

    def whole(self, eng, t, cls):
        t = eng.x(t)
        while t[0] in ('call', 'new') and sname(str(t[1])) in ('move',) and len(t) == 3:
            t = eng.x(t[2])
        return t

    def length(self, eng, f):
        f = eng.x(f)
        if f[0] == 'b' and f[1] == '==':
            for a, b in ((f[2], f[3]), (f[3], f[2])):
                a, b = eng.x(a), eng.x(b)
                if a[0] == 'call' and sname(str(a[1])) in ('size', 'len') and eng.x(a[2])[0] == 'p' and b[0] == 'c':
                    return b[1]
        return None

    # -- statistics against their shape ----------------------------------------
    def shaped(self, task):
        fn, cls = task['fn'], task['cls']
        eng = self.machine(True)
        name = short(cls)
        bad, outs = '', [r for r in eng.run(fn, state=State())]
        for r in outs:
            args = self.whole(eng, eng.x(r[1]), cls)[2:]
            ok = False
            for f, p in r[0] | r[2].facts:
                f = eng.x(f)
                if p and f[0] == 'b' and f[1] == '==':
                    for a, b in ((f[2], f[3]), (f[3], f[2])):
                        ok = ok or self.count_of(eng, a, args) and self.product(eng, b, args)
            if not ok:
                bad = 'a path restores statistics without comparing their number with their shape'
        self.obs.append(('P23.state', self.where(fn), f'{name}:shape', f'the number of statistics of {name} is the size of its shape',
                         not bad and bool(outs), bad))

    def count_of(self, eng, t, args):
        t = eng.x(t)
        return t[0] == 'call' and sname(str(t[1])) in ('size', 'rows') and len(t) == 3

    def product(self, eng, t, args):
        t = eng.x(t)
        return t[0] == 'call' and sname(str(t[1])) == 'accumulate' and any(
            isinstance(x, tuple) and x and x[0] == 'new' and 'multiplies' in str(x) for x in eng.subterms(t)) and \
            any(eng.x(x) == eng.x(a) for x in eng.subterms(t) for a in args)

    # -- axes ------------------------------------------------------------------
    def ordered(self, task):
        fn, cls = task['fn'], task['cls']
        name = short(cls)
        eng, untested = self.untested(fn)
        if untested:
            # the points are tested by each function that sets them
            writers = [f for i in eng.inlined for f in self.ctx.facts.funcs.get(i, ()) if f.get('clst') == cls and
                       f.get('body') is not None and sets(f, 'axis_')]
            if writers and not sets(fn, 'axis_') and not any(c['n'] == 'axis_' for c in fn.get('inits', ()) if 'n' in c):
                untested = {w for f in writers for w in self.untested(f)[1]}
        for what, want in TESTS:
            bad = 'a path builds an axis whose points were not tested' if what in untested else ''
            self.obs.append(('P23.axis', self.where(fn), f'{name}:{",".join(p["n"] for p in fn["p"])}:{what}',
                             f'the points of an axis {want}', not bad, bad))

    def untested(self, fn):
        """What is not known of the axis on some way out of a function."""
        eng = self.machine()
        eng.rule.inline = lambda e, n, f: sname(f['q']) not in ('is_monotonic', 'size')
        out = set()
        rs = eng.run(fn, state=State())
        for r in rs:
            ax = eng.x(eng.read(r[2], ('f', THIS, 'axis_')))
            known = set()
            for f, p in r[0] | r[2].facts:
                f = eng.x(f)
                if p and self.about(eng, f, 'is_monotonic', ax):
                    known.add('is_monotonic')
                elif f[0] == 'b' and f[1] == '==' and not p and ('c', 0) in (eng.x(f[2]), eng.x(f[3])) and \
                        any(self.about(eng, x, 'size', ax) for x in f[2:4]):
                    known.add('size')
            out |= {w for w, _ in TESTS} - known
        if not rs:
            out = {w for w, _ in TESTS}
        return eng, out


    # -- the test of the order -------------------------------------------------
    def monotonic(self, task):
        fn, cls = task['fn'], task['cls']
        eng = self.machine(True)
        name = short(cls)
        algorithms = {sname(n.get('fn', '')) for n in walk(fn['body']) if n.get('k') == 'Call'}
        rs = eng.run(fn, state=State())
        if not algorithms & {'is_sorted', 'adjacent_find', 'is_sorted_until'}:
            return
        bad = set()
        for r in rs:
            for st in self.yes(eng, State(r[2].env, r[0] | r[2].facts), r[1]):
                facts = [(eng.x(f), p) for f, p in st.facts]
                if not any(p and f[0] == 'b' and f[1] == '==' and self.pairs(eng, f, True) for f, p in facts):
                    bad.add('equal points are accepted')
                up = [p for f, p in facts if f == ('f', THIS, 'is_ascending_')]
                if len(set(up)) != 1 or not any(p and self.sorted(eng, f, up[0]) for f, p in facts):
                    bad.add('points that do not follow the direction of the axis are accepted')
        self.obs.append(('P23.axis', self.where(fn), f'{name}:order', f'{name}.{sname(fn["q"])} accepts only points in strict order',
                         not bad, '; '.join(sorted(bad))))

    def yes(self, eng, st, v):
        """The states in which a value is true."""
        v = eng.x(v)
        if v[0] == 'cond' and len(v) == 4:
            out = []
            for pol, w in ((True, v[2]), (False, v[3])):
                s = eng.assume(st, v[1], pol)
                out += self.yes(eng, s, w) if s is not None else []
            return out
        if v[0] == 'b' and v[1] == '&&':
            return [t for s in self.yes(eng, st, v[2]) for t in self.yes(eng, s, v[3])]
        if v[0] == 'b' and v[1] == '||':
            return self.yes(eng, st, v[2]) + self.yes(eng, st, v[3])
        s = eng.assume(st, v, True)
        return [] if s is None else [s]

    def whole_range(self, eng, a, b):
        """From the first point to the last one."""
        a, b = eng.x(a), eng.x(b)
        return 'points_' in str(a) and (sname(str(a[1])) in ('data', 'begin', 'cbegin')) and (
            b[0] == 'b' and b[1] == '+' and {eng.x(b[2]), eng.x(b[3])} >= {a} and any(
                sname(str(eng.x(x)[1])) == 'size' for x in b[2:4]) or b[0] == 'call' and sname(str(b[1])) in ('end', 'cend'))

    def compares(self, eng, args):
        return 'natural' if not args else next((n for n in ('greater_equal', 'less_equal', 'greater', 'less') if n in str(deep(eng, args[0]))), None)

    def pairs(self, eng, f, strict):
        for a, b in ((f[2], f[3]), (f[3], f[2])):
            a = eng.x(a)
            if a[0] == 'call' and sname(str(a[1])) == 'adjacent_find' and len(a) in (4, 5) and self.whole_range(eng, a[2], a[3]) and \
                    eng.x(b) == eng.x(a[3]) and self.compares(eng, a[4:]) in ('natural', 'greater_equal', 'less_equal'):
                return True
        return False

    def sorted(self, eng, f, up):
        if f[0] == 'call' and sname(str(f[1])) == 'is_sorted' and len(f) in (4, 5) and self.whole_range(eng, f[2], f[3]):
            return self.compares(eng, f[4:]) in (('natural', 'less') if up else ('greater',))
        if f[0] == 'b' and f[1] == '==':
            for a, b in ((f[2], f[3]), (f[3], f[2])):
                a = eng.x(a)
                if a[0] == 'call' and sname(str(a[1])) == 'adjacent_find' and len(a) == 5 and eng.x(b) == eng.x(a[3]):
                    return self.compares(eng, a[4:]) in (('greater_equal', 'greater') if up else ('less_equal', 'less'))
        return False


TESTS = (('is_monotonic', 'are in order'), ('size', 'are not missing'))


def sets(fn, member):
    for n in walk(fn.get('body')):
        if n.get('k') in ('Bin', 'Call') and (n.get('op') == '=' or sname(n.get('fn', '')) in ('operator=', 'reset', 'swap')):
            for x in walk(n.get('a') if n.get('k') == 'Bin' else n.get('obj')):
                if x.get('k') == 'Mem' and x.get('n') == member:
                    return True
    return False


def parts(facts, cls):
    """The number of parts of the state that getstate saves."""
    out = set()
    for f in facts.all_funcs():
        if f.get('clst') == cls and sname(f['q']) == 'getstate' and f.get('body') is not None:
            for n in walk(f['body']):
                if n.get('k') == 'Call' and sname(n.get('fn', '')) == 'make_tuple':
                    out.add(len(n.get('a', [])))
    return out.pop() if len(out) == 1 else None


def tasks(ctx):
    facts = ctx.facts
    out = []
    for rs in list(facts.recs.values()):
        for r in rs:
            cls = r['t']
            if cls.startswith('pyinterp::detail::') and '::container::' not in cls and not cls.startswith('pyinterp::detail::Axis<'):
                continue
            axes, arrays = layout(facts, cls)
            if '::container::' in cls:
                out += [dict(f, what='monotonic', fn=f, cls=cls) for f in facts.all_funcs()
                        if f.get('clst') == cls and sname(f['q']) == 'is_monotonic' and f.get('body') is not None]
            funcs = [f for f in facts.all_funcs() if f.get('clst') == cls and f.get('body') is not None]
            ctors = [f for f in funcs if f.get('kind') == 'ctor' and f['p'] and plain(f['p'][0]['t']) != cls]
            states = [f for f in funcs if sname(f['q']) == 'setstate']
            if axes and arrays:
                for f in ctors:
                    out.append(dict(f, what='built', fn=f, cls=cls))
            for f in states:
                n = parts(facts, cls)
                out.append(dict(f, what='restored', fn=f, cls=cls, parts=n, check=n is not None))
                names = [x['n'] for x in r['f']]
                if 'shape_' in names or any('vector<' in x['t'] and 'ssize_t' in x['t'] for x in r['f']):
                    out.append(dict(f, what='shaped', fn=f, cls=cls))
            if cls.startswith('pyinterp::detail::Axis<'):
                for f in ctors:
                    if not any('unique_ptr' in p['t'] for p in f['p']):
                        out.append(dict(f, what='ordered', fn=f, cls=cls))
    return out


def check(ctx):
    ctx.rule('P23.shape', 'the values of an object are built only if their extents are the sizes of its axes', 20)
    ctx.rule('P23.circle', 'only the first axis of a grid can be a circle', 4)
    ctx.rule('P23.state', 'a state whose parts do not fit together is refused', 10)
    ctx.rule('P23.axis', 'an axis is built only from ordered points', 2)
    ts = tasks(ctx)
    if not ts:
        raise AnalysisError('no constructor found')
    ctx.run(lambda: P23(ctx), ts)
