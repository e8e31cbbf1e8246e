"""P25: streaming and merged statistics are those of the pooled data.

The moments kept by detail::math::DescriptiveStatistics are read as rational functions of the state before each operation
and compared, exactly, with those of the pooled observations.  By induction over the operations every history is covered.
"""
from fractions import Fraction

from ..algebra import Algebra, Impossible, NotFormula, ONE
from ..engine import Rule, State, THIS, _under
from ..extent import sname
from ..facts import AnalysisError
from ..rational import TooBig, atom, const, equal, padd, pmul

CLS = 'pyinterp::detail::math::DescriptiveStatistics'
GETTERS = ('count', 'sum_of_weights', 'sum', 'mean', 'min', 'max')
ZERO = ('c', 0)


class Quiet(Rule):
    """Evaluates the body of every function of the repository; fills of an object with zero bytes are values."""
    inline_ops = True

    def __init__(self, sizes=None):
        super().__init__()
        self.sizes = sizes or {}

    def on_call(self, eng, e, fn, obj, oloc, args, locs, st):
        if sname(fn) == 'memset' and len(args) == 3:
            dst, n = eng.x(args[0]), eng.x(args[2])
            if dst[0] == 'addr' and eng.x(args[1]) == ZERO and n[0] == 'c' and n[1] in self.sizes.get(dst[1][-1], ()):
                eng.write(st, eng.resolve(st, dst[1]), ('zero', 'memset'), e)
                return args[0]
        return None


SIZES = {'double': 8, 'float': 4, 'unsigned long': 8, 'long': 8, 'int': 4, 'unsigned int': 4, 'bool': 1, 'char': 1, 'unsigned char': 1}


def sizeof(facts, t, which):
    """Size in bytes of a plain record, for the instance of its first template argument."""
    rec = [r for r in facts.recs.get(t.split('<')[0], ()) if r]
    total, align = 0, 1
    for f in rec[0]['f'] if rec else ():
        k = f['t'].replace('const ', '')
        n = SIZES.get(which if k in ('double', 'float') else k)
        if n is None:
            return None
        total = (total + n - 1) // n * n + n
        align = max(align, n)
    return (total + align - 1) // align * align if total else None


def methods(ctx, cls=CLS):
    out = {}
    for fs in ctx.facts.funcs.values():
        for i, fn in enumerate(fs):
            if fn.get('cls') == cls and fn.get('body') is not None:
                out.setdefault(instance(fn['q']), {}).setdefault(sname(fn['q']), []).append(fn)
    return out


def instance(q):
    """Template arguments of the class of a method."""
    d = 0
    for i, ch in enumerate(q):
        if ch == '<':
            d += 1
            start = i if d == 1 else start
        elif ch == '>':
            d -= 1
            if d == 0 and q[i + 1:i + 3] == '::':
                return q[start + 1:i]
    return ""


def leafs(facts, rec, prefix=(), n=0):
    """The scalar members of a record, as paths."""
    out = []
    for f in rec.get('f', ()):
        t = f['t'].replace('const ', '')
        base = t.split('<')[0]
        sub = facts.recs.get(base)
        if sub and base.startswith('pyinterp') and n < 4:
            out += leafs(facts, sub[0], prefix + (f['n'], ), n + 1)
        else:
            out.append(prefix + (f['n'], ))
    return out


def at(obj, path):
    for p in path:
        obj = ('f', obj, p)
    return obj


def zero_ok(eng, t):
    t = eng.x(t)
    return t[0] == 'c' and t[1] == 0 or t[0] == 'zero'


class Stats:
    """The class under analysis for one element type."""

    def __init__(self, ctx, which):
        self.ctx = ctx
        self.which = which
        self.m = methods(ctx)[which]
        recs = ctx.facts.recs.get(CLS)
        if not recs:
            raise AnalysisError('class ' + CLS + ' not found')
        self.fields = leafs(ctx.facts, recs[0])
        self.roles = {}

    def engine(self):
        from ..engine import Engine
        rec = self.ctx.facts.recs[CLS][0]
        sizes = {f['n']: (sizeof(self.ctx.facts, f['t'], self.which), ) for f in rec['f']}
        return Engine(self.ctx.facts, Quiet(sizes))


def returned(eng, alg, rets, s):
    """The state and value of the return taken in a case."""
    if len(rets) == 1:
        return rets[0]
    for r in rets:
        if alg.feasible(r[2].facts, s):
            return r
    if any(k and k[0] == 'opaque' for k in s):
        raise Impossible
    raise NotFormula('no return')


def outcome(eng, alg, rets, fn, read):
    def one(s):
        r = returned(eng, alg, rets, s)
        return read(r, s)

    return alg.cases(one)


def check(ctx):
    ctx.rule('accessor', 'each accessor of the statistics is, on data, the documented function of the accumulated quantities, and NaN without data')
    ctx.rule('initial', 'new and cleared statistics hold nothing: every accumulated quantity is zero')
    ctx.rule('observe', 'adding an observation gives every accumulated quantity of the data pooled with it')
    ctx.rule('pool', 'merging gives every accumulated quantity of the pooled data, in exact arithmetic')
    instances = [i for i, m in methods(ctx).items() if 'operator+=' in m]
    if not instances:
        raise AnalysisError(CLS + ' is not instantiated')
    for which in sorted(instances):
        one(ctx, which)


def show(v):
    def poly(p):
        return ' + '.join(f'{c}*' + '*'.join(f'{a}^{e}' if e != 1 else str(a) for a, e in m) for m, c in sorted(p.items(), key=repr))[:160]

    return poly(v[0]) + ('' if v[1] == ONE else ' / ' + poly(v[1]))


def simple(v):
    """The name a value consists of."""
    if v[1] == ONE and len(v[0]) == 1:
        (m, c), = v[0].items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def atoms(v):
    return {a for p in v for m in p for a, _ in m}


def one(ctx, which):
    st = Stats(ctx, which)
    functions = ctx.functions
    eng = st.engine()

    def note(fn):
        functions.add((fn['q'], fn['file'], fn['l']))
        for f in eng.inlined:
            for g in ctx.facts.funcs.get(f, ())[:1]:
                functions.add((g['q'], g['file'], g['l']))

    def method(name, nargs):
        for fn in st.m.get(name, ()):
            if len(fn['p']) == nargs:
                return fn
        raise AnalysisError(f'{CLS}::{name} with {nargs} parameters not found')

    def site(fn):
        return f"{fn['file']}:{fn['l']}"


    # roles of the members, through the accessors
    def entry_base(prefix, obj, empty=()):
        out = {}
        for p in st.fields:
            name = 0 if empty else prefix + st.roles.get(p, '?' + '.'.join(p))
            out[at(obj, p)] = name
            out[term(obj, p)] = name
        return out

    def term(obj, p):
        t = obj if obj == THIS else ('p', obj[1].rsplit(':', 1)[-1], 0) if obj[0] == 'v' else obj
        for q in p:
            t = ('f', t, q)
        return t

    acc = {}
    getter = {}
    for name, n in [(g, 0) for g in GETTERS] + [('variance', 1), ('std', 1), ('skewness', 0), ('kurtosis', 0)]:
        if name == 'std' and name not in st.m:
            continue
        fn = method(name, n)
        getter[name] = fn
        rets = eng.run(fn)
        acc[name] = rets
        note(fn)
        ctx.calls += eng.ncalls

    def observed(name, base, positive):
        """[(case, value)] of an accessor."""
        alg = Algebra(eng, base, positive)
        return outcome(eng, alg, acc[name], None, lambda r, s: alg.val(r[1], s))

    # a getter returns one member when there are data: find out which, from the names of all members
    for p in st.fields:
        st.roles[p] = '.'.join(p)
    raw = entry_base('', THIS)
    rolename = {}
    for name in GETTERS:
        vals = observed(name, raw, [v for v in raw.values()])
        vs = {simple(v) for _, v in vals}
        if len(vs) != 1 or None in vs or next(iter(vs)) not in raw.values():
            ctx.add('accessor', site(getter[name]), f'{name}.{which}', f'{name}() is one accumulated quantity when there are data', False,
                    ', '.join(show(v) for _, v in vals))
            return
        rolename[name] = next(iter(vs))
        ctx.add('accessor', site(getter[name]), f'{name}.{which}', f'{name}() is one accumulated quantity when there are data', True)
    if len(set(rolename.values())) != len(rolename):
        dup = [k for k in rolename if list(rolename.values()).count(rolename[k]) > 1]
        ctx.add('accessor', site(getter[dup[0]]), f'{dup[0]}.{which}', f'{" and ".join(dup)} return the same quantity', False)
        return
    # moments: the members the accessors of variance, skewness and kurtosis add
    known = set(rolename.values())
    for role, name in (('mom2', 'variance'), ('mom3', 'skewness'), ('mom4', 'kurtosis')):
        allof = set()
        for _, v in observed(name, raw, list(raw.values())):
            allof |= {a for a in flat(atoms(v)) if a in raw.values()}
        new = allof - known
        if len(new) == 1:
            rolename[role] = next(iter(new))
            known |= new
        else:
            ctx.add('accessor', site(getter[name]), f'{name}.{which}', f'{name}() depends on its own central moment only', False, ', '.join(sorted(map(str, new))))
            return
    back = {v: k for k, v in rolename.items()}
    for p in st.fields:
        st.roles[p] = back.get('.'.join(p), '?' + '.'.join(p))
    fields = {st.roles[p]: p for p in st.fields}

    # the accessors on data and without data
    nonneg = {'count', 'sum_of_weights', 'mom2', 'mom4'}
    full = entry_base('', THIS)
    W, M2, M3, M4 = (atom('sum_of_weights'), ONE), (atom('mom2'), ONE), (atom('mom3'), ONE), (atom('mom4'), ONE)

    ddof = getter['variance']['p'][0]['n']
    bases = {**full, ('p', ddof, 0): 'ddof'}
    if 'std' in getter:
        bases[('p', getter['std']['p'][0]['n'], 0)] = 'ddof'
    alg = Algebra(eng, bases, ('count', 'sum_of_weights'))
    card = alg.arith('-', W, (atom('ddof'), ONE))
    ratio = alg.arith('/', M2, card)
    refs = {
        'variance': (card, ratio),
        'std': (card, alg.root(ratio)),
        'skewness': (M2, alg.arith('/', alg.arith('*', alg.root(W), M3), alg.arith('*', M2, alg.root(M2)))),
        'kurtosis': (M2, alg.arith('-', alg.arith('/', alg.arith('*', W, M4), alg.arith('*', M2, M2)), alg.sym(3))),
    }
    for name, (key, ref) in refs.items():
        if name not in getter:
            continue
        bad = []
        try:
            def read(r, s, ref=ref, key=key):
                v = alg.val(r[1], s)
                return v, alg.sign(key, s)

            for s, (v, sg) in outcome(eng, alg, acc[name], None, read):
                if sg > 0 and not equal(v, ref):
                    bad.append(show(v))
                if sg == 0 and 'nan' not in str(atoms(v)):
                    bad.append('no NaN when the variance is not defined: ' + show(v))
        except (NotFormula, TooBig) as e:
            bad.append('not a formula of the accumulated quantities: ' + str(e)[:80])
        ctx.add('accessor', site(getter[name]), f'{name}.{which}', f'{name}() is the documented function of the accumulated quantities', not bad, '; '.join(bad[:2]))
    zero = entry_base('', THIS, empty=True)
    for name in ('mean', 'min', 'max'):
        a0 = Algebra(eng, zero)
        vs = outcome(eng, a0, acc[name], None, lambda r, s: a0.val(r[1], s))
        ok = all(simple(v) == 'nan' for _, v in vs)
        ctx.add('accessor', site(getter[name]), f'{name}.empty.{which}', f'{name}() of no data is NaN', ok, '' if ok else ', '.join(show(v) for _, v in vs))

    # initial state
    for fn in [f for f in st.m.get('DescriptiveStatistics', ()) if not f['p']] + st.m.get('clear', []):
        rets = eng.run(fn)
        note(fn)
        for r in rets:
            bad = [st.roles[p] for p in st.fields if not zero_ok(eng, eng.read(r[2], at(THIS, p)))]
            ctx.add('initial', site(fn), f"{sname(fn['q'])}.{which}", f"{sname(fn['q'])}() leaves every accumulated quantity at zero", not bad, ', '.join(bad))

    # observations and merges
    def reference(alg, a, b, s):
        """Moments of the pooled data of two samples."""
        ar = alg.arith
        n1, n2 = a['sum_of_weights'], b['sum_of_weights']
        n = ar('+', n1, n2)
        d = ar('-', b['mean'], a['mean'])

        def mul(*x):
            r = x[0]
            for y in x[1:]:
                r = ar('*', r, y)
            return r

        def div(x, y):
            return ar('/', x, y)

        def add(*x):
            r = x[0]
            for y in x[1:]:
                r = ar('+', r, y)
            return r

        c = alg.sym
        out = {
            'count': add(a['count'], b['count']),
            'sum_of_weights': n,
            'sum': add(a['sum'], b['sum']),
            'mean': div(add(mul(n1, a['mean']), mul(n2, b['mean'])), n),
            'mom2': add(a['mom2'], b['mom2'], div(mul(n1, n2, d, d), n)),
            'mom3': add(a['mom3'], b['mom3'], div(mul(n1, n2, ar('-', n1, n2), d, d, d), mul(n, n)),
                        div(mul(c(3), d, ar('-', mul(n1, b['mom2']), mul(n2, a['mom2']))), n)),
            'mom4': add(a['mom4'], b['mom4'],
                        div(mul(n1, n2, add(ar('-', mul(n1, n1), mul(n1, n2)), mul(n2, n2)), d, d, d, d), mul(n, n, n)),
                        div(mul(c(6), d, d, add(mul(n1, n1, b['mom2']), mul(n2, n2, a['mom2']))), mul(n, n)),
                        div(mul(c(4), d, ar('-', mul(n1, b['mom3']), mul(n2, a['mom3']))), n)),
        }
        for k, less in (('min', True), ('max', False)):
            sg = alg.sign(ar('-', a[k], b[k]), s)
            out[k] = (a[k] if sg < 0 else b[k]) if less else (a[k] if sg > 0 else b[k])
            if sg == 0:
                out[k] = None
        return out

    ROLES = ('count', 'sum_of_weights', 'mean', 'min', 'max', 'sum', 'mom2', 'mom3', 'mom4')

    def compare(rule, fn, rets, base, positive, order, want, scenario):
        bad = {}
        alg = Algebra(eng, base, positive, order)
        for role in ROLES:
            try:
                def read(r, s, role=role):
                    v = alg.val(eng.read(r[2], at(THIS, fields[role])), s)
                    w = want(alg, s, role)
                    return v, w

                for s, (v, w) in outcome(eng, alg, rets, fn, read):
                    if w is not None and not any(equal(v, x) for x in (w if isinstance(w, list) else [w])):
                        bad.setdefault(role, show(v))
            except (NotFormula, TooBig) as e:
                bad.setdefault(role, 'not a formula of the operands: ' + str(e)[:60])
        for role in ROLES:
            ctx.add(rule, site(fn), f"{sname(fn['q'])}/{len(fn['p'])}.{role}.{scenario}.{which}",
                    f"{sname(fn['q'])} with {len(fn['p'])} operands, {scenario}: {role} of the pooled data", role not in bad, bad.get(role, ''))

    def names_of(prefix):
        return {r: (atom(prefix + r), ONE) for r in ROLES}

    fn = method('operator+=', 1)
    rets = eng.run(fn)
    note(fn)
    p0 = fn['p'][0]
    other = ('v', p0['id'], ())
    this_b = entry_base('a.', THIS)
    oth_b = {**entry_base('b.', ('p', p0['n'], 0)), **entry_base('b.', other)}
    zero_t = entry_base('', THIS, empty=True)
    zero_o = {**entry_base('', ('p', p0['n'], 0), empty=True), **entry_base('', other, empty=True)}
    pos = ('a.count', 'a.sum_of_weights', 'b.count', 'b.sum_of_weights')
    order = [('a.min', 'a.max'), ('b.min', 'b.max')]
    na, nb = names_of('a.'), names_of('b.')
    compare('pool', fn, rets, {**this_b, **oth_b}, pos, order, lambda alg, s, r: reference(alg, na, nb, s)[r], 'both with data')
    compare('pool', fn, rets, {**this_b, **zero_o}, pos, order, lambda alg, s, r: na[r], 'nothing added')
    compare('pool', fn, rets, {**zero_t, **oth_b}, pos, order, lambda alg, s, r: nb[r], 'added to nothing')
    compare('pool', fn, rets, {**zero_t, **zero_o}, pos, order, lambda alg, s, r: alg.sym(0), 'both empty')
    st0 = State()
    st0.env[('ref', other)] = THIS
    same = eng.run(fn, state=st0)
    compare('pool', fn, same, this_b, pos, order, lambda alg, s, r: reference(alg, na, na, s)[r] or na[r], 'added to itself')
    for nargs in (1, 2):
        fn = method('operator()', nargs)
        rets = eng.run(fn)
        note(fn)
        base = {}
        for i, p in enumerate(fn['p']):
            base[('p', p['n'], i)] = 'x' if i == 0 else 'w'
        x, w = (atom('x'), ONE), (atom('w'), ONE) if nargs == 2 else (const(1), ONE)

        def single(alg, s, wt=None):
            wx = alg.arith('*', w, x)
            ext = wx
            z = alg.sym(0)
            return {'count': alg.sym(1), 'sum_of_weights': w, 'mean': x, 'min': ext, 'max': ext, 'sum': wx, 'mom2': z, 'mom3': z, 'mom4': z}

        pos2 = pos + ('w', )
        compare('observe', fn, rets, {**zero_t, **base}, pos2, [], lambda alg, s, r: single(alg, s)[r], 'first observation')
        compare('observe', fn, rets, {**this_b, **base}, pos2, [('a.min', 'a.max')], lambda alg, s, r: reference(alg, na, single(alg, s), s)[r],
                'added to data')


def flat(xs):
    """Names, those under square roots included."""
    out = set()
    for a in xs:
        if isinstance(a, tuple) and a and a[0] == 'sqrt':
            out |= flat({b for p in a[1:] for m, _ in p for b, _ in m})
        else:
            out.add(a)
    return out
