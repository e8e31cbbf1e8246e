"""Extents of arrays as canonical keys, and the equalities between them that the branch facts establish."""
from __future__ import annotations

import re

VIEWS = {'unchecked', 'mutable_unchecked', 'array', 'matrix', 'derived', 'data', 'mutable_data', 'noalias', 'cast', 'begin',
         'transpose', 'move', 'forward', 'ref', 'request', 'ptr', 'array_proxy'}
# coefficient-wise operations: the result has the shape of their operand
WISE = {'isNaN', 'isFinite', 'isInf', 'array', 'matrix', 'operator!', 'operator-', 'abs', 'cwiseAbs', 'eval', 'derived'}
COUNTS = {'size': 'size', 'rows': 0, 'cols': 1, 'ndim': 'ndim', 'length': 'size', 'shape': None}


def sname(fn: str) -> str:
    """Last component of a qualified name without template arguments."""
    d = 0
    out = []
    for ch in fn:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    return ''.join(out).rsplit('::', 1)[-1].strip()


def vector_type(t: str):
    """0 / 1 when the type is a column / row vector, 'n' for an array of unknown rank, None otherwise."""
    m = re.search(r'Eigen::(?:Matrix|Array)<[^,<>]*(?:<[^<>]*>)?[^,<>]*, (-?\d+), (-?\d+)', t)
    if m:
        if m.group(2) == '1':
            return 0
        if m.group(1) == '1':
            return 1
        return 2
    if 'pybind11::array_t<' in t or t.endswith('pybind11::array') or 'pybind11::array &' in t:
        return 'n'
    return None


class Extents:
    """Union-find on extent keys, fed by the facts of a state."""

    def __init__(self, eng, types=None, rank=None):
        self.eng = eng
        self.types = types if types is not None else {}   # array term -> type
        self.rank = rank if rank is not None else {}       # array term -> proven rank
        self.par: dict = {}
        self.alls: list = []

    # -- canonical forms -----------------------------------------------------
    def full(self, t, n=0):
        t = self.eng.x(t)
        if t.__class__ is not tuple or not t or n > 14:
            return t
        if t[0] == 'new' and len(t) == 3 and t[1] in ('pybind11::ssize_t',):
            return self.full(t[2], n + 1)
        return tuple(self.full(x, n + 1) if x.__class__ is tuple else x for x in t)

    def array(self, t, n=0):
        """The array behind a view."""
        t = self.eng.x(t)
        while n < 12 and t.__class__ is tuple and t:
            n += 1
            if t[0] == 'call' and len(t) > 2 and sname(t[1]) in VIEWS:
                t = self.eng.x(t[2])
                continue
            if t[0] == 'f' and t[2] == 'data':
                d = self.eng.x(t[1])
                if d[0] == 'deref' and self.eng.x(d[1])[:2] == ('call', 'pybind11::detail::array_proxy'):
                    t = d[1]
                    continue
            if t[0] == 'deref' and self.eng.x(t[1])[0] == 'ptr':
                t = self.eng.x(self.eng.x(t[1])[1])
                continue
            if t[0] == 'deref' and self.eng.x(t[1])[0] == 'p':
                t = self.eng.x(t[1])
                continue
            if t[0] == 'some' and len(t) == 2:
                t = self.eng.x(t[1])
                continue
            if t[0] == 'new' and len(t) == 3 and t[1] in ('Eigen::Ref', 'Eigen::Map', 'pybind11::array_t', 'pybind11::array') \
                    and self.is_array(self.eng.x(t[2])):
                t = self.eng.x(t[2])
                continue
            break
        return self.full(t)

    def is_array(self, t):
        if t[0] == 'new' and t[1] in ('pybind11::array_t', 'pybind11::array'):
            return True
        return t[0] in ('p', 'val', 'f') and vector_type(self.types.get(self.full(t), '')) is not None

    def shape_args(self, t):
        """Extents given to the constructor of an array, or None."""
        t = self.eng.x(t)
        if t[0] != 'new':
            return None
        cls = t[1]
        if cls in ('pybind11::array_t', 'pybind11::array') and len(t) >= 3:
            a = self.eng.x(t[2])
            if a[0] == 'new' and 'any_container' in a[1] and len(a) == 3:
                a = self.eng.x(a[2])
            elif a[0] == 'new' and 'any_container' in a[1]:
                return list(a[2:])
            if a[0] == 'tuple':
                return list(a[1:])
            if a[0] == 'new' and a[1] in ('std::vector', 'std::initializer_list', 'std::array'):
                b = self.eng.x(a[2]) if len(a) > 2 else ('none',)
                return list(b[1:]) if b[0] == 'tuple' else list(a[2:])
            return [a]
        if cls in ('Eigen::Matrix', 'Eigen::Array', 'Eigen::Vector') and len(t) in (3, 4):
            if self.eng.x(t[2])[0] in ('p', 'val') and len(t) == 3 and self.is_array(self.eng.x(t[2])):
                return None
            if len(t) == 3 and self.operand(t[2]) is not None:
                return None
            return list(t[2:])
        if cls == 'std::vector' and len(t) >= 3:
            return [t[2]]
        return None

    def operand(self, t, n=0):
        """The array whose shape a coefficient-wise expression has, or None."""
        t = self.eng.x(t)
        if t[0] == 'call' and n < 8:
            if sname(t[1]) in WISE and len(t) == 3:
                u = self.eng.x(t[2])
                return u if self.is_array(u) or u[0] == 'new' else self.operand(u, n + 1)
        return None

    def extent(self, a, d, n=0):
        """Key of extent d of array a."""
        a = self.array(a)
        if a[0] == 'new' and a[1] in ('Eigen::Matrix', 'Eigen::Array') and len(a) == 3 and n < 8:
            o = self.operand(a[2])
            if o is not None:
                return self.extent(o, d, n + 1)
        sh = self.shape_args(a)
        if sh is not None:
            if d == 'size':
                if len(sh) == 1:
                    return self.key(sh[0], n + 1)
                return ('E', a, 'size')
            if d == 'ndim':
                return ('c', len(sh))
            if isinstance(d, int) and d < len(sh):
                return self.key(sh[d], n + 1)
            return ('E', a, d)
        if d in (0, 1, 'size'):
            r = self.rank.get(a)
            v = vector_type(self.types.get(a, ''))
            if r == 1 or v == 0:
                if d == 1:
                    return ('c', 1)
                return ('E', a, 'n')
            if v == 1:
                return ('c', 1) if d == 0 else ('E', a, 'n')
        return ('E', a, d)

    def key(self, t, n=0):
        t = self.eng.x(t)
        if t.__class__ is not tuple or not t or n > 12:
            return t
        if t[0] == 'call' and len(t) >= 3:
            s = sname(t[1])
            if s in COUNTS and len(t) == 3 and s != 'shape':
                return self.extent(t[2], COUNTS[s], n + 1)
            if s == 'shape' and len(t) == 4:
                i = self.eng.x(t[3])
                if i[0] == 'c':
                    return self.extent(t[2], i[1], n + 1)
                return ('E', self.array(t[2]), self.full(i))
            if s in ('operator long', 'operator unsigned long') and len(t) == 3:
                return self.key(t[2], n + 1)
        if t[0] == 'new' and len(t) == 3 and t[1].startswith('std::integral'):
            return self.key(t[2], n + 1)
        if t[0] in ('c', 'p', 'this', 'g', 'e'):
            return t
        return tuple(self.key(x, n + 1) if x.__class__ is tuple else x for x in t)

    # -- equalities ------------------------------------------------------------
    def find(self, k):
        while k in self.par:
            k = self.par[k]
        return k

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a != b:
            if a[0] == 'c':
                a, b = b, a
            self.par[a] = b

    def learn(self, facts):
        """Takes the equalities among the facts of a state."""
        eqs, alls = [], []
        facts = list(facts)
        have = set(facts)
        for t, pol in list(facts):
            if t[0] == 'imp' and (t[1], t[2]) in have:
                facts.append((t[3], True))
        for t, pol in facts:
            t = self.eng.x(t)
            if t[0] == 'b' and t[1] == '==' and pol:
                eqs.append((t[2], t[3]))
            elif t[0] == 'forall' and pol:
                y = self.eng.x(t[2])
                if y[0] == 'b' and y[1] == '==' and t[3]:
                    alls.append((t[1], y))
        for _ in range(2):
            for a, b in eqs:
                ka, kb = self.key(a), self.key(b)
                self.union(ka, kb)
                for x, y in ((ka, kb), (kb, ka)):
                    if x[0] == 'E' and x[2] == 'ndim' and y[0] == 'c':
                        self.rank.setdefault(x[1], y[1])
        # ranks through equal numbers of dimensions
        for k in list(self.par):
            if k[0] == 'E' and k[2] == 'ndim':
                r = self.find(k)
                if r[0] == 'c':
                    self.rank.setdefault(k[1], r[1])
        for a, b in eqs:
            self.union(self.key(a), self.key(b))
        for n, y in alls:
            kn = self.find(self.key(n))
            rank = kn[1] if kn[0] == 'c' else None
            for d in range(rank if rank is not None else 6):
                ka = self.key(self.inst(y[2], d))
                kb = self.key(self.inst(y[3], d))
                self.union(ka, kb)
            ka, kb = self.key(y[2]), self.key(y[3])
            if ka[0] == kb[0] == 'E' and ka[2] == kb[2] == ('bv',):
                na, nb = self.find(self.extent(ka[1], 'ndim')), self.find(self.extent(kb[1], 'ndim'))
                if na == nb and kn == na:
                    self.union(self.extent(ka[1], 'size'), self.extent(kb[1], 'size'))

    def inst(self, t, d):
        t = self.eng.x(t)
        if t == ('bv',):
            return ('c', d)
        if t.__class__ is not tuple:
            return t
        return tuple(self.inst(x, d) if x.__class__ is tuple else x for x in t)

    def same(self, a, b) -> bool:
        return self.find(a) == self.find(b)
