"""P12: missing observations never enter a statistic, and the others always do."""
from ..engine import Rule, show
from ..extent import sname
from ..threads import short
from .p05 import bound_roots

ACCUMULATORS = ('pyinterp::detail::math::DescriptiveStatistics<', 'pyinterp::detail::math::StreamingHistogram<')
SEARCH = {'find_index', 'find_indexes', 'find_nearest_index'}


class P12(Rule):

    def start(self, eng, fn):
        self.label = fn.get('label') or short(fn['q'])
        self.index = {}     # loop site -> where an observation is taken
        self.args = []
        eng.run(fn)

    # -- what is accumulated ---------------------------------------------------
    def on_call(self, eng, e, fn, obj, oloc, args, locs, st):
        if not fn.endswith('operator()') or e.get('obj') is None or not args or not e['a']:
            return None
        t = e['obj'].get('t', '')
        if not t.replace('const ', '').startswith(ACCUMULATORS):
            return None
        v = eng.x(args[0])
        if not self.observation(eng, v):
            return None
        if not eng.mute:
            self.gate(eng, e, v, args, st)
        return None

    def observation(self, eng, v):
        """A value read from an argument of the function."""
        return any(x[0] == 'p' or x[0] == 'lp' for x in eng.subterms(v) if isinstance(x, tuple) and x)

    def gate(self, eng, e, v, args, st):
        where = eng.where(e)
        key = f'{self.label}:{short(eng.funcname())}'
        tested = any(self.nan_test(eng, f, p) == v for f, p in st.facts)
        self.obs.append(('P12.gate', where, key, f'in {self.label}, a value is accumulated only if it is not NaN', tested,
                         f'{show(v, 0, eng)[:80]} is not tested'))
        bad = ''
        for f, p in st.facts:
            bad = bad or self.refuses(eng, eng.x(f), p, v, args[1:], st)
        self.obs.append(('P12.kept', where, key, f'in {self.label}, a valid value with a bin is always accumulated', not bad, bad))
        mine = self.positions(eng, v)
        if len(mine) == 1:
            others = [w for w in args[1:]] + [f for f, _ in st.facts]
            bad = ''
            for o in others:
                for q in self.positions(eng, o):
                    if q not in mine and {x for x in eng.subterms(q) if self.islp(x)} & {x for x in eng.subterms(next(iter(mine)))
                                                                                         if self.islp(x)}:
                        bad = f'position {show(q, 0, eng)[:40]} against {show(next(iter(mine)), 0, eng)[:40]}'
            self.obs.append(('P12.pair', where, key, f'in {self.label}, a value is accumulated with its own coordinates and weight',
                             not bad, bad))
        for x in eng.subterms(v):
            if isinstance(x, tuple) and x and x[0] == 'loop':
                self.index[x[1]] = (where, key, x[2])

    def islp(self, x):
        return isinstance(x, tuple) and x and x[0] == 'loop'

    def positions(self, eng, t):
        """Indices at which the arguments of the function are read in a term."""
        out = set()
        for x in eng.subterms(eng.x(t)):
            if isinstance(x, tuple) and x and x[0] in ('idx', 'sub') and len(x) == 3:
                a = eng.x(x[1])
                if not any(isinstance(y, tuple) and y and y[0] == 'p' for y in eng.subterms(a)):
                    continue
                i = eng.x(x[2])
                if isinstance(i, tuple) and len(i) == 1:
                    i = eng.x(i[0])
                if any(self.islp(y) for y in eng.subterms(i)):
                    out.add(i)
        return out

    def nan_test(self, eng, f, p):
        """The value that a fact says is not NaN."""
        f = eng.x(f)
        if f[0] == 'call' and sname(f[1]) == 'isnan' and not p:
            return eng.x(f[2])
        if f[0] == 'call' and sname(f[1]) in ('isfinite',) and p:
            return eng.x(f[2])
        if f[0] == 'b' and f[1] == '==' and p and eng.x(f[2]) == eng.x(f[3]):
            return eng.x(f[2])
        return None

    def mentions(self, eng, f, t):
        return any(x == t for x in eng.subterms(f))

    def refuses(self, eng, f, p, v, weights, st):
        """Why a fact excludes observations that must be kept."""
        if f[0] == 'forall':
            return ''
        if self.nan_test(eng, f, p) is not None:
            return '' if self.nan_test(eng, f, p) == v else self.other_nan(eng, f, v)
        if self.mentions(eng, f, v):
            return f'it is skipped depending on {show(f, 0, eng)[:80]}'
        for w in weights:
            w = eng.x(w)
            if w[0] != 'c' and any(x[0] in ('sub', 'idx') for x in eng.subterms(w) if isinstance(x, tuple) and x) and \
                    self.mentions(eng, f, w) and not (f[0] == 'b' and f[1] == '<' and not p):
                return f'it is skipped depending on its weight: {show(f, 0, eng)[:80]}'
        if f[0] == 'b' and f[1] in ('<', '=='):
            a, b = eng.x(f[2]), eng.x(f[3])
            for x, y, side in ((a, b, 0), (b, a, 1)):
                if x[0] == 'call' and sname(x[1]) in SEARCH or x[0] in ('ret', 'phi') and self.search(eng, x):
                    if y[0] == 'c' and not self.lookup_ok(f[1], p, y[1], side):
                        return f'a bin is excluded by {"" if p else "not "}{show(f, 0, eng)[:80]}'
        return ''

    def other_nan(self, eng, f, v):
        return ''

    def search(self, eng, x):
        return any(isinstance(y, tuple) and y and y[0] == 'call' and sname(y[1]) in SEARCH for y in eng.subterms(x))

    def lookup_ok(self, op, p, c, side):
        """The comparison of an index with a constant only excludes -1."""
        if op == '==':
            return not p and c < 0
        if side == 0:       # index < c
            return not p and c <= 0
        return p and c < 0   # c < index

    # -- every observation is visited ------------------------------------------
    def on_loop(self, eng, s, site, info, end):
        r = self.index.get(site)
        if r is None or eng.mute:
            return
        where, key, k = r
        i, v, c = info['init'].get(k), info['vars'].get(k), info['cond']
        why = ''
        head = ('loop', site, k, i)
        v = eng.x(v) if v is not None else None
        if i is None or v is None or c is None:
            return
        c, pol = eng.norm(c)
        c = eng.x(c)
        if eng.x(i) != ('c', 0):
            why = 'the first observations are skipped'
        elif not (v[0] == 'b' and v[1] == '+' and eng.x(v[2]) == head and v[3] == ('c', 1)):
            why = 'the index does not advance by one'
        elif info.get('brk') or info.get('ret'):
            why = 'the loop may stop early'
        elif not (c[0] == 'b' and c[1] == '<' and pol and eng.x(c[2]) == head and self.size(eng, c[3])):
            why = f'the loop is bounded by {show(c, 0, eng)[:80]}'
        self.obs.append(('P12.all', where, key, f'in {self.label}, every observation is examined', not why, why))

    def size(self, eng, n):
        n = eng.x(n)
        return n[0] == 'call' and sname(n[1]) in ('size', 'shape', 'rows') or n[0] in ('ret', 'phi', 'val', 'f')


def check(ctx):
    ctx.rule('P12.gate', 'a value taken from the observations is accumulated only where it is known not to be NaN', 8)
    ctx.rule('P12.kept', 'a value that is not NaN is skipped only because no bin is found, or its weight is null, or it is out of '
             'the requested range', 8)
    ctx.rule('P12.all', 'the loop over the observations goes through all of them', 6)
    ctx.rule('P12.pair', 'the coordinates and the weight accumulated with a value are read at the position of that value', 6)
    ctx.run(P12, bound_roots(ctx.facts))
