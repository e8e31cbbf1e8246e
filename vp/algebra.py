"""Values of terms as rational functions of the entry state, by cases on the conditions that select them.

A term of the dataflow engine (phi of branches, conditional expressions, minima and maxima included) is evaluated for every
consistent choice of the signs of the differences its conditions compare; within one choice it is a rational function, which
can be compared with a reference exactly.
"""
from fractions import Fraction

from .extent import sname
from .rational import TooBig, atom, const, padd, pmul


class Fork(Exception):
    """The sign of a polynomial, or the value of an opaque condition, is needed."""

    def __init__(self, key, choices):
        self.key = key
        self.choices = choices


class NotFormula(Exception):
    pass


class Impossible(Exception):
    """The case does not occur."""


ONE = const(1)


def norm_sign(p):
    """The polynomial up to a positive factor with a canonical sign: (key, flip)."""
    if not p:
        return None, 1
    ms = sorted(p, key=repr)
    lead = p[ms[0]]
    k = tuple((m, p[m] / abs(lead)) for m in ms)
    if lead < 0:
        return tuple((m, -c) for m, c in k), -1
    return k, 1


class Algebra:
    """`base` maps entry values (terms or locations) to names or numbers; names in `positive` stand for positive numbers."""

    def __init__(self, eng, base, positive=(), order=()):
        self.eng = eng
        self.base = base
        self.positive = set(positive)
        self.order = list(order)  # pairs (a, b) of names with a <= b
        self.unknown = set()

    # -- values -------------------------------------------------------------
    def sym(self, v):
        if isinstance(v, (int, float, Fraction)) and not isinstance(v, bool):
            return const(Fraction(v)), ONE
        return atom(v), ONE

    def sym_(self, name):
        return atom(name), ONE

    def val(self, t, s, n=0):
        t = self.eng.x(t)
        if n > 200:
            raise NotFormula(t)
        if t in self.base:
            return self.sym(self.base[t])
        k = t[0]
        if k in ('init', 'val') and len(t) == 2 and t[1] in self.base:
            return self.sym(self.base[t[1]])
        if k == 'c' and isinstance(t[1], (int, float)):
            if t[1] != t[1] or t[1] in (float('inf'), float('-inf')):
                return atom(repr(t[1])), ONE
            return const(Fraction(t[1])), ONE
        if k == 'zero':
            return const(0), ONE
        if k == 'b' and t[1] in ('+', '-', '*', '/'):
            a, b = self.val(t[2], s, n + 1), self.val(t[3], s, n + 1)
            return self.arith(t[1], a, b)
        if k == 'u' and t[1] in ('-', '+'):
            a = self.val(t[2], s, n + 1)
            return (padd({}, a[0], -1), a[1]) if t[1] == '-' else a
        if k in ('phi', 'ret'):
            for d, v in t[2]:
                if v is not None and self.feasible(d, s, n):
                    return self.val(v, s, n + 1)
            raise NotFormula(t)
        if k == 'cond':
            return self.val(t[2] if self.truth(t[1], s, n + 1) else t[3], s, n + 1)
        if k == 'new' and len(t) == 3 and str(t[1]) in ('double', 'float', 'long double', 'unsigned long', 'long', 'int'):
            return self.val(t[2], s, n + 1)
        if k == 'call':
            v = self.function(t, s, n)
            if v is not None:
                return v
        self.unknown.add(t)
        return atom(('?', t)), ONE

    def arith(self, op, a, b):
        if op == '*':
            return pmul(a[0], b[0]), pmul(a[1], b[1])
        if op == '/':
            if not b[0]:
                raise NotFormula('division by zero')
            return pmul(a[0], b[1]), pmul(a[1], b[0])
        k = 1 if op == '+' else -1
        if a[1] == b[1]:
            return padd(a[0], b[0], k), a[1]
        return padd(pmul(a[0], b[1]), pmul(b[0], a[1]), k), pmul(a[1], b[1])

    def function(self, t, s, n):
        f = sname(t[1])
        args = t[2:]
        if f in ('min', 'fmin', 'max', 'fmax') and len(args) == 2:
            a, b = self.val(args[0], s, n + 1), self.val(args[1], s, n + 1)
            less = self.sign(self.arith('-', a, b), s) < 0
            return a if less == (f in ('min', 'fmin')) else b
        if f in ('abs', 'fabs') and len(args) == 1:
            a = self.val(args[0], s, n + 1)
            return a if self.sign(a, s) >= 0 else (padd({}, a[0], -1), a[1])
        if f in ('sqrt', ) and len(args) == 1:
            return self.root(self.val(args[0], s, n + 1))
        if f in ('sqr', 'square') and len(args) == 1:
            a = self.val(args[0], s, n + 1)
            return self.arith('*', a, a)
        if f == 'pow' and len(args) == 2:
            a, e = self.val(args[0], s, n + 1), self.val(args[1], s, n + 1)
            if set(e[0]) <= {()} and e[1] == ONE:
                e = e[0].get((), Fraction(0))
                if e.denominator in (1, 2) and abs(e) <= 12:
                    r = (ONE, ONE)
                    for _ in range(int(abs(e))):
                        r = self.arith('*', r, a)
                    if e.denominator == 2:
                        r = self.arith('*', r, self.root(a))
                    return self.arith('/', (ONE, ONE), r) if e < 0 else r
        if f in ('quiet_NaN', 'NaN', 'nan', 'signaling_NaN') or t[1].endswith('quiet_NaN'):
            return atom('nan'), ONE
        return None

    def root(self, a):
        """Square root, with squares of known sign taken out."""
        p, k = norm_sign(a[0])
        q, l = norm_sign(a[1])
        return atom(('sqrt', tuple(sorted(a[0].items(), key=repr)), tuple(sorted(a[1].items(), key=repr)))), ONE

    # -- conditions -----------------------------------------------------------
    def sign(self, r, s):
        """-1, 0 or 1: the sign of a rational function in the case s."""
        if not r[0]:
            return 0
        d = self.psign(r[1], s)
        return self.psign(r[0], s) * d

    def psign(self, p, s):
        if not p:
            return 0
        if len(p) == 1 and () in p:
            return 1 if p[()] > 0 else -1
        signs = set()
        for m, c in p.items():
            if all(a in self.positive or isinstance(a, tuple) and a and a[0] == 'sqrt' or e % 2 == 0 and a in self.positive for a, e in m):
                signs.add(1 if c > 0 else -1)
            else:
                signs.add(None)
        if len(signs) == 1 and None not in signs:
            return next(iter(signs))
        k, flip = norm_sign(p)
        if k in s:
            return s[k] * flip
        raise Fork(k, (-1, 0, 1))

    def truth(self, t, s, n=0):
        t = self.eng.x(t)
        k = t[0]
        if k == 'c':
            return bool(t[1])
        if k == 'u' and t[1] == '!':
            return not self.truth(t[2], s, n + 1)
        if k == 'b' and t[1] in ('&&', '&'):
            return self.truth(t[2], s, n + 1) and self.truth(t[3], s, n + 1)
        if k == 'b' and t[1] in ('||', '|'):
            return self.truth(t[2], s, n + 1) or self.truth(t[3], s, n + 1)
        if k == 'b' and t[1] in ('<', '>', '<=', '>=', '==', '!='):
            try:
                a, b = self.val(t[2], s, n + 1), self.val(t[3], s, n + 1)
            except NotFormula:
                return self.opaque(t, s)
            d = self.arith('-', a, b)
            v = self.sign(d, s)
            return {'<': v < 0, '>': v > 0, '<=': v <= 0, '>=': v >= 0, '==': v == 0, '!=': v != 0}[t[1]]
        if k in ('phi', 'ret'):
            for d, v in t[2]:
                if v is not None and self.feasible(d, s, n):
                    return self.truth(v, s, n + 1)
        if k == 'cond':
            return self.truth(t[2] if self.truth(t[1], s, n + 1) else t[3], s, n + 1)
        if t in self.base or k in ('init', 'val') and len(t) == 2 and t[1] in self.base:
            return self.sign(self.val(t, s, n + 1), s) != 0
        if k == 'call' and sname(t[1]) == 'isnan':
            return False
        return self.opaque(t, s)

    def opaque(self, t, s):
        k = ('opaque', t)
        if k in s:
            return s[k]
        raise Fork(k, (True, False))

    def feasible(self, d, s, n=0):
        for f, p in sorted(d, key=repr):
            if f[0] in ('imp', 'set', 'look', 'forall'):
                continue
            if self.truth(f, s, n + 1) is not p:
                return False
        return True

    # -- cases ----------------------------------------------------------------
    def consistent(self, s):
        """No cycle among the orders of names that a case supposes (a < b < a cannot be)."""
        edges = {}

        def edge(a, b, strict):
            edges[(a, b)] = edges.get((a, b), False) or strict

        names = set()
        for a, b in self.order:
            edge(a, b, False)
            names |= {a, b}
        for k, v in s.items():
            if k and k[0] == 'opaque':
                continue
            d = dict(k)
            single = [m for m in d if len(m) == 1 and m[0][1] == 1]
            if len(d) == 2 and len(single) == 2 and set(d.values()) == {1, -1}:
                a = next(m[0][0] for m in single if d[m] == 1)
                b = next(m[0][0] for m in single if d[m] == -1)
                names |= {a, b}
                if v <= 0:
                    edge(a, b, v < 0)
                if v >= 0:
                    edge(b, a, v > 0)
        for m in names:
            for a in names:
                for b in names:
                    if (a, m) in edges and (m, b) in edges:
                        st = edges[(a, m)] or edges[(m, b)]
                        if (a, b) not in edges or st and not edges[(a, b)]:
                            edges[(a, b)] = st
        return not any(edges.get((a, a)) for a in names)

    def cases(self, fn, limit=400):
        """[(case, fn(case))] for every consistent case that fn distinguishes."""
        out = []
        work = [{}]
        n = 0
        while work:
            s = work.pop()
            n += 1
            if n > limit:
                raise TooBig
            if not self.consistent(s):
                continue
            try:
                out.append((s, fn(s)))
            except Impossible:
                continue
            except Fork as f:
                for c in f.choices:
                    work.append({**s, f.key: c})
        return out
