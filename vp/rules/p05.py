"""P05: arrays walked together agree in rank and length before any element is read."""
from ..bindings import read
from ..engine import Rule, show
from ..extent import Extents, sname, vector_type
from ..threads import short

PLAIN = {'c', 'p', 'E', 'b', 'n', 'f', 'this', 'call', 'new', 'cond', 'u', 'tuple', 'trunc', 'val'}
OPAQUE = {'lp', 'loop', 'r', 'm', 'heap', 'deref', 'g', 'static', 'lam', 'phi', 'ret', 'x', 'idx', 'get', 'some', 'sel'}


def heads(t, out=None, n=0):
    out = set() if out is None else out
    if t.__class__ is tuple and t and n < 12:
        if t[0].__class__ is str:
            out.add(t[0])
        for x in t[1:]:
            if x.__class__ is tuple:
                heads(x, out, n + 1)
    return out


def param_of(t, n=0):
    """Name of the parameter of the bound function an array comes from."""
    while t.__class__ is tuple and t and n < 8:
        n += 1
        if t[0] == 'p':
            return t[1]
        if t[0] in ('some', 'deref', 'val') and len(t) > 1:
            t = t[1]
            continue
        if t[0] == 'call' and len(t) == 3 and sname(t[1]) in ('value', 'operator*', 'operator->'):
            t = t[2]
            continue
        if t[0] == 'new' and len(t) == 3 and t[1] in ('pybind11::array_t', 'pybind11::array'):
            t = t[2]
            continue
        return None
    return None


class P05(Rule):
    opaque = OPAQUE

    def __init__(self, minimum=None):
        super().__init__()
        self.types = {}
        self.rank = {}
        self.obs = []
        self.touched = set()

    def start(self, eng, fn):
        self.fn = fn
        self.label = fn.get('label') or short(fn['q'])
        for i, p in enumerate(fn['p']):
            self.types[('p', p['n'], i)] = p['t']
        eng.run(fn)

    def ext(self, eng, st):
        x = Extents(eng, self.types, self.rank)
        x.learn(st.facts)
        return x

    def on_call(self, eng, e, fn, obj, oloc, args, locs, st):
        x = Extents(eng, self.types, self.rank)
        if sname(fn) in ('unchecked', 'mutable_unchecked') and e.get('ta'):
            r = next((int(v) for v in e['ta'] if str(v).lstrip('-').isdigit()), None)
            if r is not None and r > 0:
                self.rank[x.array(obj)] = r
        if obj is not None and e.get('obj'):
            t = e['obj'].get('t', '')
            if vector_type(t) is not None:
                self.types.setdefault(x.array(obj), t)
        return None

    def on_index(self, eng, e, a, ix, st, la):
        if eng.mute:
            return
        t = (e.get('obj') or e.get('a') or {}).get('t', '')
        for arr, conds in self.alternatives(eng, a):
            self.access(eng, e, st, arr, conds, ix, t)

    def alternatives(self, eng, a, conds=frozenset(), n=0):
        """The arrays a view may be of, with the conditions under which it is."""
        x = Extents(eng, self.types, self.rank)
        arr = x.array(a)
        if n < 3 and arr[0] == 'cond':
            for pol, v in ((True, arr[2]), (False, arr[3])):
                yield from self.alternatives(eng, v, conds | eng.implied(arr[1], pol), n + 1)
        elif n < 3 and arr[0] == 'phi':
            for c, v in arr[2]:
                if v:
                    yield from self.alternatives(eng, v, conds | frozenset(c), n + 1)
        elif n < 3 and arr[0] == 'deref' and eng.x(arr[1])[0] in ('phi', 'cond'):
            yield from self.alternatives(eng, arr[1], conds, n + 1)
        else:
            yield arr, conds

    def access(self, eng, e, st, arr, conds, ix, t):
        if any((c, not p) in st.facts for c, p in conds):
            return
        x = Extents(eng, self.types, self.rank)
        if vector_type(t) is not None:
            self.types.setdefault(arr, t)
        name = param_of(arr)
        fresh = name is None and arr[0] == 'new' and arr[1].startswith(('pybind11::array', 'Eigen::')) and \
            (x.shape_args(arr) is not None or len(arr) == 3 and x.operand(arr[2]) is not None)
        if name is None and not fresh:
            return
        facts = st.facts | conds
        bounds = self.bounds(eng, facts)
        x.learn(facts)
        for d, i in enumerate(ix):
            i = eng.x(i)
            if i[0] != 'loop':
                continue
            dim = d if len(ix) > 1 else ('size' if d == 0 else d)
            self.oblige(eng, e, x, arr, name, dim, d, bounds.get(i, []))

    def bounds(self, eng, facts):
        out = {}
        for f, p in facts:
            if not p:
                continue
            f = eng.x(f)
            if f[0] == 'b' and f[1] in ('<', '!='):
                i = eng.x(f[2])
                if i[0] == 'loop':
                    out.setdefault(i, []).append(f[3])
        return out

    def oblige(self, eng, e, x, arr, name, dim, d, bounds):
        ke = x.extent(arr, dim)
        bs = [x.key(b) for b in bounds]
        if any(x.same(b, ke) for b in bs) or ke[0] == 'b' and ke[1] == '+' and ke[3][0] == 'c' and ke[3][1] > 0 and \
                any(x.same(b, ke[2]) for b in bs):
            self.note(eng, e, arr, name, d, True)
            return
        bs = [b for b in bs if not (heads(b) & self.opaque)]
        if not bs or (heads(ke) & self.opaque):
            return
        # a bound by a constant, or by an extent that nothing relates to this one
        self.note(eng, e, arr, name, d, False, f'index below {show(bounds[0], 0, eng)[:80]}')

    def on_deref(self, eng, e, t, st):
        """A pointer that walks an array."""
        t = eng.x(t)
        if eng.mute or t[0] != 'loop' or t[3] is None:
            return
        x = Extents(eng, self.types, self.rank)
        init = eng.x(t[3])
        if init[0] != 'call' or sname(init[1]) not in ('data', 'mutable_data', 'begin', 'get_data_pointer', 'array_proxy'):
            return
        arr = x.array(init)
        name = param_of(arr)
        if name is None:
            return
        x.learn(st.facts)
        bounds = [b for i, bs in self.bounds(eng, st.facts).items() if i[1] == t[1] for b in bs]
        self.oblige(eng, e, x, arr, name, 'size', 0, bounds)

    def on_ctor(self, eng, e, args, locs, st):
        """A map over the elements of a row."""
        if eng.mute or not e.get('cls', '').startswith('Eigen::Map') or len(args) < 2:
            return
        a, n = eng.x(args[0]), eng.x(args[1])
        if a[0] != 'addr' or n[0] != 'c':
            return
        l = eng.x(a[1])
        if l[0] != 'sub' or len(l[2]) != 2 or eng.x(l[2][1]) != ('c', 0):
            return
        x = Extents(eng, self.types, self.rank)
        arr = x.array(eng.read(st, l[1]))
        name = param_of(arr)
        if name is None:
            return
        x.learn(st.facts)
        ok = x.same(x.extent(arr, 1), n)
        what = f'in {self.label}, a row of {name} has the {n[1]} elements read from it'
        self.obs.append(('P05.row', eng.where(e), f'{self.label}:{name}:{n[1]}:{short(eng.funcname())}', what, ok, ''))

    def note(self, eng, e, arr, name, d, ok, detail=''):
        what = f'in {self.label}, the index of dimension {d} of {name or "the result"} in {short(eng.funcname())} stays below its extent'
        self.obs.append(('P05.extent', eng.where(e), f'{self.label}:{name or "result"}:{d}:{short(eng.funcname())}', what, ok,
                         detail if not ok else ''))


def bound_roots(facts, bs=None):
    """Every function, constructor or lambda that Python can call and that takes an array."""
    done = set()
    bs = bs or read(facts)
    classes = {sname(b.cls) for b in bs if b.cls and b.name == '__init__'}
    for fs in facts.funcs.values():
        for f in fs:
            if f['kind'] == 'ctor' and sname(f.get('cls') or f['q'].rsplit('::', 1)[0]) in classes and \
                    any(vector_type(p['t']) is not None for p in f['p']):
                done.add(id(f))
                yield f
    for b in bs:
        fs = []
        if b.target in facts.funcs:
            fs = facts.funcs[b.target]
        elif b.lam is not None and b.lam['specs']:
            sp = b.lam['specs'][0]
            fs = [{'kind': 'lambda', 'q': b.label(), 'n': 'l', 'file': b.lam['file'], 'l': b.lam['l'], 'p': sp['p'],
                   'body': sp['body'], 'ret': sp['ret'], 'id': None, 'label': b.label()}]
        for f in fs:
            k = id(f) if f['kind'] != 'lambda' else id(b.lam)
            if k in done:
                continue
            done.add(k)
            if f['p'] or b.kind != 'property':
                yield f


def check(ctx):
    ctx.rule('P05.extent', 'the index a function uses for several arrays is bounded by a length equal to that of each of them', 60)
    ctx.rule('P05.row', 'a row read as a vector of fixed size has that size', 8)
    ctx.run(P05, bound_roots(ctx.facts))
