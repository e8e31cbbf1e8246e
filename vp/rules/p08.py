"""P08: each coordinate is used with its own axis and its own array dimension."""
from ..bindings import read
from ..engine import Rule, show
from ..extent import sname
from ..rational import atom, const, degree, equal, rational
from ..threads import short
from .p05 import bound_roots

ORDER = 'xyzu'
FIND = {'find_index', 'find_indexes', 'find_nearest_index'}
SAME = {'coordinate_value': 2, 'normalize_coordinate': 3, 'coordinate_repr': 2, 'normalize_angle': 2}
STOP = FIND | {'coordinate_value', 'coordinate_repr', 'is_angle', 'is_circle', 'evaluate', 'binning_2d', 'interpolate_'}
CORNERS = ((0, 0), (0, 1), (1, 0), (1, 1))      # order of the corner values in evaluate()
WEIGHTS = ((0, 0), (0, 1), (1, 1), (1, 0))      # order of the weights of binning_2d()
SCALAR = {'double', 'float', 'long', 'int', 'long double', 'unsigned long', 'int64_t'}


def plain(t):
    return t.replace('const', '').replace('&', '').strip()


def blend(fn):
    """A function (x, x0, x1, value at x0, value at x1)."""
    return len(fn['p']) == 5 and all(plain(p['t']) in SCALAR for p in fn['p'])


def role_of(name):
    """The axis that a name designates."""
    n = name.strip('_')
    if len(n) == 2 and n[0] == 'n' and n[1] in ORDER:
        return n[1]
    if n[:1] in ORDER and (len(n) == 1 or n in ('xi', 'yi', 'zi', 'ui') or n[1:].startswith('_')):
        return n[0]
    return None


def unwrap(eng, t):
    """The vector expression behind a temporary made from it."""
    t = eng.x(t)
    while t[0] == 'new' and t[1].startswith('Eigen::') and len(t) == 3 and eng.x(t[2])[0] == 'call' and \
            sname(eng.x(t[2])[1]) in ('col', 'row'):
        t = eng.x(t[2])
    return t


def matrix_of(eng, t):
    """The matrix that holds values, behind the pointers to it."""
    t = eng.x(t)
    while t[0] in ('deref', 'ptr'):
        t = eng.x(t[1])
    return t


def element(eng, t):
    """(array, positions) of an element read from an array, or None."""
    t = eng.x(t)
    if t[0] not in ('idx', 'sub') or len(t) < 3:
        return None
    if len(t) == 3 and isinstance(t[2], tuple) and t[2] and isinstance(t[2][0], tuple):
        return t[1], [eng.x(i) for i in t[2]]
    return t[1], [eng.x(i) for i in t[2:]]


class P08(Rule):
    names: dict = {}

    def start(self, eng, fn):
        self.label = fn.get('label') or short(fn['q'])
        self.learned = {}   # array -> roles of what it holds
        self.content = {}   # array -> how its elements were last computed
        self.loops = {}     # loop variable -> axis whose length bounds it
        self.later = []
        self.params = list(fn['p'])
        args = self.names.get(fn.get('id')) or []
        self.public = {}
        if args and len(args) <= len(self.params):
            for p, a in zip(self.params[len(self.params) - len(args):], args):
                self.public[p['n']] = a
        eng.run(fn)
        for f in self.later:
            f()

    def inline(self, eng, e, fn):
        return sname(fn['q']) not in STOP and not blend(fn)

    def put(self, rule, eng, e, tag, what, ok, detail=''):
        self.obs.append((rule, eng.where(e), f'{self.label}:{short(eng.funcname())}:{tag}', what, ok, '' if ok else detail))

    # -- roles ---------------------------------------------------------------------
    def array(self, eng, a):
        """What identifies an array, whatever was stored in it meanwhile."""
        a = eng.x(a)
        while a[0] == 'm' and len(a) > 2:
            a = eng.x(a[2])
        if a[0] == 'deref' and eng.x(a[1])[0] == 'ptr':
            a = ('deref', eng.x(eng.x(a[1])[1]))
        return a

    def place(self, eng, a, loc, st):
        """The same for an array held by value, designated by where it is."""
        k = self.array(eng, a)
        return ('at', eng.resolve(st, loc)) if k[0] == 'new' and loc is not None else k

    def roles(self, eng, t, n=0):
        """Axes whose coordinates or positions make up a term (not those its value was looked up with in data)."""
        out = set()
        t = eng.x(t)
        if not isinstance(t, tuple) or not t or n > 30:
            return out
        k = t[0]
        if k in ('p', 'lp') and isinstance(t[1], str):
            r = role_of(self.public.get(t[1], t[1]))
            return {r} if r else out
        if k == 'f':
            r = role_of(t[2]) if isinstance(t[2], str) and t[2].endswith('_') else None
            if r:
                return {r}
            return self.roles(eng, t[1], n + 1)
        key = self.array(eng, t)
        if key in self.learned:
            return set(self.learned[key])
        if k == 'idx':
            a = self.array(eng, t[1])
            if a in self.learned:
                return set(self.learned[a])
            if len(element(eng, t)[1]) > 1:
                return out              # a value of the grid
            r = self.roles(eng, a, n + 1)
            if r or a[0] != 'call':
                return r
            return r
        if k == 'call':
            s = sname(t[1])
            if s == 'size':
                return self.length(eng, t)
            if s in ('evaluate', 'interpolate_', 'binning_2d', 'size', 'is_angle'):
                return out
            for a in t[2:]:
                if isinstance(a, tuple):
                    out |= self.roles(eng, a, n + 1)
            return out
        if k == 'cond':
            return self.roles(eng, t[2], n + 1) | self.roles(eng, t[3], n + 1)
        if k in ('phi', 'ret'):
            for _, v in t[2]:
                if v:
                    out |= self.roles(eng, v, n + 1)
            return out
        if k == 'm' and len(t) > 2:
            return self.roles(eng, t[2], n + 1)
        if k == 'loop':
            return set(self.loops.get(t[1:3], ()))
        if k in ('c', 'val', 'r', 'v', 'size', 'has'):
            return out
        if k == 'b':
            return self.roles(eng, t[2], n + 1) | self.roles(eng, t[3], n + 1)
        for a in t[1:]:
            if isinstance(a, tuple):
                out |= self.roles(eng, a, n + 1)
        return out

    def length(self, eng, t):
        """The axis that a size is the length of."""
        t = eng.x(t)
        if t[0] == 'call' and sname(t[1]) == 'size' and 'axis' in t[1].lower() and len(t) == 3:
            return self.roles(eng, t[2])
        return set()

    def on_loop_enter(self, eng, s, site, ct, yes):
        c, pol = eng.norm(ct) if ct is not None else (None, None)
        c = eng.x(c) if c is not None else None
        if c is not None and c[0] == 'b' and c[1] == '<' and pol:
            v, n = eng.x(c[2]), eng.x(c[3])
            if v[0] == 'loop':
                self.loops[v[1:3]] = self.length(eng, n)

    def slot(self, eng, t):
        """Which of the bounds a position or coordinate comes from: (axis, rank)."""
        t = eng.x(t)
        r = self.roles(eng, t)
        if len(r) != 1:
            return None
        r = next(iter(r))
        if t[0] == 'cond':
            a, b = self.slot(eng, t[2]), self.slot(eng, t[3])
            return a if a == b else None
        if t[0] == 'get':
            return (r, t[2])
        if t[0] == 'call' and sname(t[1]) == 'coordinate_value' and len(t) == 4:
            return self.slot(eng, t[3])
        el = element(eng, t)
        if el is not None and len(el[1]) == 1:
            i = el[1][0]
            return (r, i[1]) if i[0] == 'c' else (r, i)
        return None

    def corner(self, eng, v):
        """Slot of each dimension of the grid that a value is read at, or None."""
        el = element(eng, v)
        if el is not None and len(el[1]) > 1:
            out = {}
            for d, i in enumerate(el[1]):
                s = self.slot(eng, i)
                if s is None or d >= 4 or s[0] != ORDER[d]:
                    return None
                out[s[0]] = s[1]
            return out
        return None

    def matrix(self, eng, q):
        """Slots of the dimensions beyond the second of a loaded matrix."""
        q = matrix_of(eng, q)
        el = element(eng, q)
        if el is None:
            return {}
        out = {}
        for d, i in enumerate(el[1]):
            out[ORDER[2 + d]] = i[1] if i[0] == 'c' else i
        return out

    def reads(self, eng, v, n=0):
        """The grid positions (or matrices) that a value is interpolated from."""
        v = eng.x(v)
        el = element(eng, v)
        if el is not None:
            if len(el[1]) > 1:
                yield self.corner(eng, v)
        elif v[0] == 'call' and n < 6:
            s = sname(v[1])
            if s == 'interpolate_':
                for a in v[2:]:
                    a = unwrap(eng, a)
                    if a[0] == 'call' and sname(a[1]) in ('col', 'row', 'interpolate_'):
                        if sname(a[1]) == 'interpolate_':
                            yield from self.reads(eng, a, n + 1)
                            continue
                        a = eng.x(a[2])
                    if a[0] == 'deref' and element(eng, matrix_of(eng, a)) is not None:
                        yield self.matrix(eng, a)
            else:
                for a in v[2:]:
                    if isinstance(a, tuple):
                        yield from self.reads(eng, a, n + 1)
        elif v[0] in ('phi', 'ret'):
            for _, x in v[2]:
                if x:
                    yield from self.reads(eng, x, n + 1)

    # -- where roles must agree ------------------------------------------------------
    def on_call(self, eng, e, fn, obj, oloc, args, locs, st):
        s = sname(fn) if fn else ''
        if not eng.mute:
            if s in FIND and obj is not None and args:
                self.search(eng, e, obj, args)
            elif s in SAME:
                terms = ([obj] if obj is not None else []) + [a for a in args[:SAME[s]] if a is not None]
                r = set()
                for a in terms:
                    r |= self.roles(eng, a)
                if r:
                    self.put('P08.axis', eng, e, s, f'in {self.label}, {s} combines an axis with its own coordinates', len(r) == 1,
                             'axes ' + ', '.join(sorted(r)))
            elif s == 'evaluate' and len(args) >= 7:
                self.cell(eng, e, [self.base(eng, a, l, st) for a, l in zip(args, locs)])
            elif s == 'binning_2d' and len(args) >= 3:
                self.points(eng, e, [self.base(eng, a, l, st) for a, l in zip(args[:3], locs)])
            elif s == 'operator()' and args and obj is not None:
                self.weight(eng, e, obj, args)
        if s == 'interpolate_' and len(args) in (3, 5):
            if not eng.mute:
                self.spline(eng, e, args, locs, st)
            k = self.place(eng, args[1], locs[1], st)
            if len(args) == 3 and k in self.content:
                args = [args[0], self.content[k], args[2]]
            return ('call', 'interpolate_') + tuple(args), None
        g = eng.lookup(e)
        if len(args) == 5 and (g is not None and blend(g) and e.get('repo') or s == 'operator()' and 'function<' in
                               str((e.get('obj') or {}).get('t'))):
            if not eng.mute:
                self.blend(eng, e, args)
            return ('call', 'blend') + tuple(args), None
        return None

    def search(self, eng, e, obj, args):
        a, c = self.roles(eng, obj), self.roles(eng, args[0])
        if not a or not c:
            return
        self.put('P08.axis', eng, e, 'find:' + '/'.join(sorted(a)), f'in {self.label}, a coordinate is searched in its own axis',
                 a == c and len(a) == 1, f'coordinate of {"/".join(sorted(c))} in axis {"/".join(sorted(a))}')
        if len(args) > 1:
            n = eng.x(args[1])
            where, key = eng.where(e), f'{self.label}:{short(eng.funcname())}:size:' + '/'.join(sorted(a))
            keys = [self.array(eng, t) for t in eng.subterms(n) if isinstance(t, tuple) and t and t[0] in ('m', 'f', 'deref')]

            def size():
                r = set()
                for k in keys:
                    x = role_of(str(k[2])) if k[0] == 'f' else None
                    r |= self.learned.get(k, {x} if x else set())
                if r:
                    ok = r == a
                    self.obs.append(('P08.frame', where, key, f'in {self.label}, the window searched in an axis has the size of the '
                                     'frame along that axis', ok,
                                     '' if ok else f'size along {"/".join(sorted(r))} for axis {"/".join(sorted(a))}'))
            if not eng.mute:
                self.later.append(size)

    def base(self, eng, p, loc, st):
        """The coordinates of a point kept in an object of a derived class."""
        p = eng.x(p)
        if p[0] == 'val' and loc is not None:
            return eng.x(st.env.get(('f', eng.resolve(st, loc), '#base'), p))
        return p

    def points(self, eng, e, pts):
        out = []
        for j, p in enumerate(pts):
            p = eng.x(p)
            if p[0] != 'new' or len(p) < 4:
                out.append(None)
                continue
            bad = ''
            slots = []
            for d, c in enumerate(p[2:]):
                r = self.roles(eng, c)
                if r != {ORDER[d]} if d < 4 else True:
                    bad = f'component {d} depends on {"/".join(sorted(r)) or "no axis"}'
                slots.append(self.slot(eng, c))
            self.put('P08.point', eng, e, f'p{j}', f'in {self.label}, the components of each point given to the interpolator follow '
                     'the order of the axes', not bad, bad)
            out.append(slots)
        return out

    def cell(self, eng, e, args):
        pts = self.points(eng, e, args[:3])
        if pts[1] is None or pts[2] is None:
            return
        bad = ''
        if any(s is None for s in pts[1] + pts[2]):
            bad = 'the bounds of the cell do not come from the search'
        rest = None
        for (a, b), q in zip(CORNERS, args[3:7]):
            c = self.corner(eng, q)
            if c is None:
                if element(eng, q) is not None:
                    bad = bad or f'value {a}{b} is read at positions of other axes: {show(q, 0, eng)[:120]}'
                continue
            if bad:
                continue
            for d, k in ((0, a), (1, b)):
                s = pts[1 + k][d]
                if c.get(s[0]) != s[1]:
                    bad = f'value {a}{b} is not the one at ({s[0]}{a}, y{b})' if d == 0 else                         f'value {a}{b} is not the one at (x{a}, {s[0]}{b})'
            others = {k: v for k, v in c.items() if k not in 'xy'}
            if rest is None:
                rest = others
            elif rest != others and not bad:
                bad = f'value {a}{b} is read at another position of the other axes'
        for d in (0, 1):
            if not bad and pts[1][d] == pts[2][d]:
                bad = 'both points are the same bound'
        tag = ','.join(f'{k}{v}' for k, v in sorted((rest or {}).items()))
        self.put('P08.corner', eng, e, 'corner:' + tag, f'in {self.label}, each corner value of the cell is given in its place', not bad, bad)

    def blend(self, eng, e, args):
        x, x0, x1, v0, v1 = args
        r = [self.roles(eng, t) for t in (x, x0, x1)]
        if not any(r):
            return
        bad = ''
        if not (r[0] == r[1] == r[2] and len(r[0]) == 1):
            bad = 'the coordinate and its bounds belong to different axes'
        else:
            ax = next(iter(r[0]))
            s = [self.slot(eng, t) for t in (x0, x1)]
            if s[0] is None or s[1] is None or s[0] == s[1]:
                bad = 'the bounds are not the two coordinates found'
            sets = []
            for k, v in ((0, v0), (1, v1)):
                rs = list(self.reads(eng, v))
                if not rs or any(c is None for c in rs):
                    bad = bad or 'the values are not read from the grid'
                    break
                if not bad and any(c.get(ax) != s[k][1] for c in rs):
                    bad = f'value {k} is not the one at {ax}{k}'
                sets.append({tuple(sorted((a, b) for a, b in c.items() if a != ax)) for c in rs})
            if not bad and sets[0] != sets[1]:
                bad = 'the two values are taken at different positions of the other axes'
        self.put('P08.blend', eng, e, 'blend:' + '/'.join(sorted(set().union(*r))),
                 f'in {self.label}, two values are combined with the coordinates they were read at', not bad, bad)

    def spline(self, eng, e, args, locs, st):
        bad = ''
        if len(args) == 5:
            for d in (0, 1):
                a, c = self.roles(eng, args[d]), self.roles(eng, args[3 + d])
                if a != {ORDER[d]} or c != a:
                    bad = bad or f'coordinates of {"/".join(sorted(c))} with abscissae of {"/".join(sorted(a))} in place {d}'
        else:
            a, c = self.roles(eng, args[0]), self.roles(eng, args[2])
            if not a and not c:
                return
            if a != c or len(a) != 1:
                bad = f'coordinate of {"/".join(sorted(c))} with abscissae of {"/".join(sorted(a))}'
            y = unwrap(eng, args[1])
            along = None
            if y[0] == 'call' and sname(y[1]) in ('col', 'row'):
                along = {'x' if sname(y[1]) == 'col' else 'y'}
            else:
                along = self.learned.get(self.place(eng, y, locs[1], st))
            if not bad and along is not None and along != a:
                bad = f'values along {"/".join(sorted(along))} with abscissae of {"/".join(sorted(a))}'
        self.put('P08.axis', eng, e, 'spline', f'in {self.label}, the one- and two-dimensional interpolators receive each coordinate '
                 'with the abscissae and values of its axis', not bad, bad)

    def weight(self, eng, e, obj, args):
        o = eng.x(obj)
        el = element(eng, o)
        for a in args[1:]:
            for t in eng.subterms(eng.x(a)):
                if isinstance(t, tuple) and t and t[0] == 'get':
                    c = eng.x(t[1])
                    if c[0] == 'call' and sname(c[1]) == 'binning_2d' and el is not None and len(el[1]) == 2 and t[2] < 4:
                        want = WEIGHTS[t[2]]
                        bad = ''
                        for d in (0, 1):
                            p = eng.x(c[3 + want[d]])
                            if p[0] != 'new' or self.slot(eng, p[2 + d]) is None or self.slot(eng, p[2 + d]) != self.slot(eng, el[1][d]):
                                bad = f'weight {t[2]} is that of corner {want[0]}{want[1]}'
                        self.put('P08.corner', eng, e, f'weight:{t[2]}', f'in {self.label}, each weight of the cell is accumulated at '
                                 'its corner', not bad, bad)

    def on_bin(self, eng, e, t, st):
        t = eng.x(t)
        if eng.mute or t[0] != 'b' or t[1] not in ('-', '/'):
            return
        a, b = self.roles(eng, t[2]), self.roles(eng, t[3])
        if len(a) == 1 and len(b) == 1:
            ok = a == b
            self.put('P08.axis', eng, e, 'difference', f'in {self.label}, only coordinates of one axis are subtracted or scaled', ok,
                     f'{"/".join(sorted(a))} {t[1]} {"/".join(sorted(b))}')

    def on_index(self, eng, e, a, ix, st, la):
        if eng.mute or len(ix) < 2:
            return
        rs = [self.roles(eng, i) for i in ix]
        if not any(rs):
            return
        bad = ''
        for d, r in enumerate(rs):
            if r and (d >= 4 or r != {ORDER[d]}):
                bad = bad or f'dimension {d} is addressed by {"/".join(sorted(r))}'
        self.put('P08.dim', eng, e, f'{len(ix)}', f'in {self.label}, a position found in an axis addresses the dimension of that axis',
                 not bad, bad)

    def on_assign(self, eng, e, loc, t, new, st):
        if loc is None or loc[0] != 'sub' or new is None:
            return
        v = eng.x(new)
        ix = [eng.x(i) for i in (loc[2] if isinstance(loc[2], tuple) and loc[2] and isinstance(loc[2][0], tuple) else (loc[2],))]
        key = self.place(eng, eng.read(st, loc[1]), loc[1], st) if loc[1] is not None else None
        along = None
        if len(ix) == 1 and key is not None and self.alone(key):
            r = self.roles(eng, v)
            if v[0] == 'call' and v[1] == 'interpolate_':
                y = unwrap(eng, v[3])
                if y[0] == 'call' and sname(y[1]) in ('col', 'row') and eng.x(y[-1]) == ix[0]:
                    along = {'y' if sname(y[1]) == 'col' else 'x'}
            if along:
                self.content[key] = v
                self.learned.setdefault(key, set()).update(along)
            elif r and not eng.mute:
                own = role_of(str(key[2])) if key[0] == 'f' else None
                self.learned.setdefault(key, set()).update(r)
                bad = ''
                if len(self.learned[key]) != 1 or own and r != {own}:
                    bad = f'the array of {own or "/".join(sorted(self.learned[key]))} receives coordinates of {"/".join(sorted(r))}'
                if not bad and not self.places(eng, v, ix[0]):
                    bad = 'the coordinate is not the one at that position of the window'
                self.put('P08.frame', eng, e, 'axis:' + '/'.join(sorted(r)), f'in {self.label}, the coordinates of a window are stored '
                         'in order in the array of their axis', not bad, bad)
        if eng.mute or along:
            return
        el = element(eng, v)
        if el is not None and len(el[1]) > 1:
            target = list(ix)
            b = element(eng, loc[1][1]) if loc[1][0] == 'deref' else None
            if b is not None:
                target += b[1]
            bad = ''
            if len(target) == len(el[1]) and any(self.roles(eng, i) for i in el[1]):
                for d, i in enumerate(el[1]):
                    p = element(eng, i)
                    if self.roles(eng, i) != {ORDER[d]} or p is None or p[1] != [target[d]]:
                        bad = bad or f'dimension {d} is not read at the position it is stored at'
                self.put('P08.frame', eng, e, 'values', f'in {self.label}, the values of a window are stored at the positions of their '
                         'coordinates', not bad, bad)
        rs = list(self.reads(eng, v))
        if rs and (v[0] in ('ret', 'phi', 'call', 'r')):
            bad = ''
            if any(r is None for r in rs):
                return
            seen = {tuple(sorted(r.items(), key=repr)) for r in rs}
            dims = {k for r in rs for k in r}
            if dims:
                if any(len({r.get(k) for r in rs}) != 2 for k in dims) or len(seen) != 2 ** len(dims):
                    bad = f'{len(seen)} values are read around the point, {2 ** len(dims)} expected'
                self.put('P08.corner', eng, e, 'all', f'in {self.label}, the result is interpolated from every corner of the cell', not bad, bad)

    def alone(self, key):
        return key[0] in ('f', 'deref', 'v', 'm', 'at')

    def places(self, eng, v, i):
        """A coordinate stored at i is the one at position i of the list found."""
        v = eng.x(v)
        if v[0] == 'cond':
            return self.places(eng, v[2], i) and self.places(eng, v[3], i)
        if v[0] == 'call' and sname(v[1]) == 'normalize_angle':
            return self.places(eng, v[2], i)
        if v[0] == 'call' and sname(v[1]) == 'coordinate_value':
            x = element(eng, v[3])
            if x is not None and self.roles(eng, v[3]):
                return x[1] == [i]
        return True


class Kernel(Rule):
    """The formulas themselves: which corner value is attached to which corner."""

    def start(self, eng, fn):
        self.fn = fn
        self.name = short(fn['q'])
        self.ps = [('p', p['n'], i) for i, p in enumerate(fn['p'])]
        self.kind = 'cell' if sname(fn['q']) == 'evaluate' else 'weights' if sname(fn['q']) == 'binning_2d' else 'pair'
        if self.kind == 'cell':
            self.vals = dict(zip(self.ps[3:7], CORNERS))
        elif self.kind == 'pair':
            self.vals = dict(zip(self.ps[3:5], ((0, ), (1, ))))
        eng.run(fn)

    def inline(self, eng, e, fn):
        return 'distance' not in sname(fn['q'])

    def put(self, eng, s, tag, what, bad):
        if bad is not None:
            self.obs.append(('P08.formula', eng.where(s), f'{self.name}:{tag}', what, not bad, bad))

    def bound(self, d, k):
        return ('get', self.ps[1 + k], d) if self.kind == 'cell' else self.ps[1 + k]

    def query(self, d):
        return ('get', self.ps[0], d) if self.kind == 'cell' else self.ps[0]

    def has(self, eng, t, x):
        return any(y == x for y in eng.subterms(t))

    def on_return(self, eng, s, t, st):
        if eng.mute or len(eng.stack) > 1 or t is None:
            return
        if self.kind == 'weights':
            self.weights(eng, s, eng.x(t))
        else:
            self.value(eng, s, t, st.facts)

    def value(self, eng, s, t, facts):
        t = eng.x(t)
        if t in self.vals:
            self.chosen(eng, s, t, facts)
            return
        if t[0] == 'cond':
            c, pol = eng.norm(t[1])
            self.value(eng, s, t[2], set(facts) | {(c, pol)})
            self.value(eng, s, t[3], set(facts) | {(c, not pol)})
            return
        if t[0] != 'b':
            return
        ds = [x for x in eng.subterms(t) if isinstance(x, tuple) and x and x[0] == 'call' and 'distance' in sname(x[1])]
        if ds:
            self.weighted(eng, s, t)
        elif any(self.has(eng, t, v) for v in self.vals):
            self.formula(eng, s, t)

    def formula(self, eng, s, t):
        dims = range(len(next(iter(self.vals.values()))))
        for v, corner in self.vals.items():
            sub = {self.query(d): self.bound(d, corner[d]) for d in dims}
            r = rational(eng, t, sub)
            tag = ''.join(map(str, corner))
            bad = None if r is None else '' if equal(r, (atom(v), const(1))) else f'the value there is not {v[1]}'
            self.put(eng, s, 'corner' + tag, f'{self.name} gives the value of corner {tag} at that corner', bad)
        r = rational(eng, t, {})
        if r is not None:
            bad = ''
            for v in self.vals:
                if degree(r[0], v) != 1 or degree(r[1], v):
                    bad = f'{v[1]} does not enter linearly'
            self.put(eng, s, 'linear', f'{self.name} is linear in the values it combines', bad)

    def corner_of(self, eng, d):
        """The corner whose distance to the query point a term is."""
        d = eng.x(d)
        if d[0] != 'call' or 'distance' not in sname(d[1]) or len(d) < 4:
            return None
        a, b = eng.x(d[2]), eng.x(d[3])
        if a != self.ps[0]:
            a, b = b, a
        if a != self.ps[0] or b[0] != 'new' or len(b) < 4:
            if a == self.ps[0] and b in self.ps[1:3]:
                k = self.ps.index(b) - 1
                return (k, k)
            return None
        out = []
        for i in (0, 1):
            c = eng.x(b[2 + i])
            k = [j for j in (0, 1) if c == self.bound(i, j)]
            if len(k) != 1:
                return ('?', '?')
            out.append(k[0])
        return tuple(out)

    def side(self, eng, t):
        """The bound or corner that a compared quantity is about."""
        got = set()
        for x in eng.subterms(eng.x(t)):
            if not isinstance(x, tuple) or not x:
                continue
            if self.kind == 'cell':
                c = self.corner_of(eng, x) if x[0] == 'call' else None
                if c is not None:
                    got.add(c)
            else:
                for k in (0, 1):
                    if x == self.bound(0, k):
                        got.add((k, ))
        return got

    def chosen(self, eng, s, v, facts):
        """A corner value is returned as it is: the comparisons that hold must be in favour of its corner."""
        want = self.vals[v]
        bad = None
        for f, p in facts:
            f = eng.x(f)
            if f[0] != 'b' or f[1] not in ('<', '=='):
                continue
            a, b = self.side(eng, f[2]), self.side(eng, f[3])
            if f[1] == '==' and p:
                near = a | b
                if len(near) == 1 and self.kind == 'pair' and (self.has(eng, f, self.query(0))):
                    bad = bad or ('' if near == {want} else f'{v[1]} is given at another corner')
                continue
            if f[1] != '<':
                continue
            # p: a < b, so a is nearer; not p: b <= a
            near, far = (a, b) if p else (b, a)
            if self.kind == 'cell' and not a and len(b) == 1 and not p:    # tiny distance
                near, far = b, set()
            elif not (len(a) == 1 and len(b) == 1):
                continue
            if near == {want}:
                bad = bad or ''
            elif far == {want} or not far and near != {want}:
                bad = f'{v[1]} is given where the point is nearer to another corner'
        self.put(eng, s, v[1], f'{self.name} gives a corner value alone only near that corner', bad)

    def on_call(self, eng, e, fn, obj, oloc, args, locs, st):
        if not eng.mute and self.kind == 'cell' and fn in ('std::make_tuple', 'std::make_pair') and len(args) == 2:
            for d, v in ((args[0], args[1]), (args[1], args[0])):
                v = eng.x(v)
                c = self.corner_of(eng, d)
                if v in self.vals and c is not None:
                    self.put(eng, e, 'with' + v[1], f'{self.name} keeps each corner value with the distance to its corner',
                             '' if c == self.vals[v] else f'{v[1]} goes with the distance to {c}')
        return None

    def weighted(self, eng, s, t):
        """A weighted mean: each value is multiplied by a function of the distance to its own corner."""
        r = None
        try:
            r = rational(eng, t, {})
        except Exception:  # noqa: BLE001
            return
        if r is None:
            return
        for v, c in self.vals.items():
            bad = ''
            if degree(r[0], v) != 1 or degree(r[1], v):
                bad = f'{v[1]} does not enter linearly'
            # the weight of v vanishes with its own distances only: every monomial of v has no factor 1/distance of another corner
            self.put(eng, s, 'linear' + v[1], f'{self.name} is a weighted mean of the corner values', bad)
        for x in eng.subterms(t):
            if isinstance(x, tuple) and x and x[0] == 'b' and x[1] in ('*', '/'):
                for a, b in ((x[2], x[3]), (x[3], x[2])):
                    a = eng.x(a)
                    if a in self.vals:
                        near = self.side(eng, b)
                        if near:
                            self.put(eng, s, 'weight' + a[1], f'{self.name} weights each corner value by the distance to its corner',
                                     '' if near == {self.vals[a]} else f'{a[1]} is weighted by the distance to {sorted(near)}')

    # -- areas -------------------------------------------------------------------------
    def weights(self, eng, s, t):
        if t[0] != 'tuple' or len(t) != 5:
            return
        low, high = self.ps[1], self.ps[2]
        pij = self.ps[0]

        def code(p):
            p = eng.x(p)
            if p == pij:
                return ('q', 'q')
            if p in (low, high):
                return (0, 0) if p == low else (1, 1)
            if p[0] == 'new' and len(p) == 4:
                out = []
                for d in (0, 1):
                    c = eng.x(p[2 + d])
                    out.append('q' if c == ('get', pij, d) else 0 if c == ('get', low, d) else 1 if c == ('get', high, d) else '?')
                return tuple(out)
            return None
        for k, corner in enumerate(WEIGHTS):
            w = eng.x(t[1 + k])
            rings = []
            num = eng.x(w[2]) if w[0] == 'b' and w[1] == '/' else w
            for x in eng.subterms(num):
                if isinstance(x, tuple) and x and x[0] == 'tuple' and len(x) == 6:
                    r = {code(p) for p in x[1:]}
                    if None not in r and r not in rings and ('q', 'q') in r:
                        rings.append(r)
            far = (1 - corner[0], 1 - corner[1])
            want = {('q', 'q'), ('q', far[1]), (far[0], 'q'), far}
            bad = None if not rings else '' if rings == [want] else f'weight {k} is not the area facing corner {corner[0]}{corner[1]}'
            self.put(eng, s, f'area{k}', f'{self.name}: the weight of a corner is the area opposite to it', bad)


def kernels(facts):
    for fs in facts.funcs.values():
        for f in fs:
            if not f.get('body') or not f['q'].startswith('pyinterp::'):
                continue
            s = sname(f['q'])
            if s == 'evaluate' and len(f['p']) == 7 or s == 'binning_2d' or blend(f) and plain(f.get('ret') or '') in SCALAR and \
                    '::math::' in f['q']:
                yield f
                break


def check(ctx):
    ctx.rule('P08.axis', 'a coordinate is searched in, normalised by and interpolated along its own axis', 8)
    ctx.rule('P08.dim', 'a position found in an axis only addresses the dimension of that axis', 6)
    ctx.rule('P08.point', 'the points given to the interpolators have one component per axis, in order', 6)
    ctx.rule('P08.corner', 'every corner of the cell is read once and used in its place', 6)
    ctx.rule('P08.blend', 'values are combined along an axis with the bounds they were read at', 4)
    ctx.rule('P08.frame', 'a window holds, in order, the coordinates of each axis and the values at these coordinates', 6)
    P08.names = {b.target: [a[0] for a in b.args] for b in read(ctx.facts) if b.target and b.args and all(a[0] for a in b.args)}
    ctx.run(P08, bound_roots(ctx.facts))
    ctx.rule('P08.formula', 'the formulas attach each corner value to its corner', 8)
    ctx.run(Kernel, kernels(ctx.facts))
