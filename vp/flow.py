"""Field-sensitive, flow-insensitive provenance of values, calls inlined.

A cell stands for an object; its atoms are the paths of the sources that may have reached it, and its fields are cells.
Only assignments count: a value reaches a cell through initialisation, assignment, arguments and returned values.
"""
from __future__ import annotations

from .engine import Engine, Rule, strip_ref
from .extent import sname

ALIAS = {'get', 'value', 'operator*', 'operator->', 'begin', 'end', 'cbegin', 'cend', 'data', 'mutable_data', 'unchecked',
         'mutable_unchecked', 'cast', 'array', 'matrix', 'ptr', 'derived', 'request', 'eval', 'release', 'inc_ref', 'value_or',
         'rows_iter', 'reshaped', 'noalias', 'c_str', 'str', 'view', 'back', 'front', 'model'}
PASS = {'move', 'forward', 'ref', 'cref', 'static_pointer_cast', 'dynamic_pointer_cast', 'addressof', 'as_const'}
MAKE = {'make_shared', 'make_unique'}
TUPLE = {'make_tuple', 'make_pair', 'tie', 'forward_as_tuple'}
GROW = {'push_back', 'emplace_back', 'append', 'insert', 'emplace', 'assign', 'push', 'add', 'packing', 'swap', 'reset', 'resize'}
ACCESS = {'min_corner': '#0', 'max_corner': '#1', 'outer': 'outer', 'inners': 'inners'}
LISTS = ('pybind11::list', 'std::vector', 'std::deque')
DEPTH = 5


class Cell:
    __slots__ = ('atoms', 'fields', 'lam', 'cls', 'const')
    changes = 0

    def __init__(self, atoms=()):
        self.atoms = set(atoms)
        self.fields = {}
        self.lam = None
        self.cls = None
        self.const = None

    def add(self, atoms):
        n = len(self.atoms)
        self.atoms |= atoms
        if len(self.atoms) != n:
            Cell.changes += 1

    def field(self, name):
        name = {'first': '#0', 'second': '#1'}.get(name, name)
        c = self.fields.get(name)
        if c is None:
            c = self.fields[name] = Cell()
            Cell.changes += 1
        if self.atoms:
            c.add({a + (name,) for a in self.atoms if len(a) < DEPTH and (not a or a[-1] != '~')} |
                  {a for a in self.atoms if a and a[-1] == '~'})
        return c

    def deep(self, n=0):
        out = set(self.atoms)
        if n < 6:
            for f in self.fields.values():
                out |= f.deep(n + 1)
        return out

    def leaves(self, path=(), n=0):
        yield path, self.atoms
        if n < 6:
            for k, f in self.fields.items():
                yield from f.leaves(path + (k,), n + 1)


def assign(dst, src, n=0):
    if dst is src or n > 6:
        return
    dst.add(src.atoms)
    if src.lam is not None:
        dst.lam = src.lam
    if src.const is not None:
        dst.const = src.const
    for k, f in list(src.fields.items()):
        assign(dst.field(k), f, n + 1)


def union(*cells):
    """A value computed from others."""
    c = Cell()
    for x in cells:
        c.add({a if a and a[-1] == '~' else a + ('~',) for a in x.deep()})
    return c


def copies(atoms):
    return {a for a in atoms if not any(x == '~' or x.endswith('()') for x in a)}


def plain(t):
    t = strip_ref(t)
    return t[6:] if t.startswith('const ') else t


def const_of(e):
    while isinstance(e, dict):
        if 'cv' in e:
            return e['cv']
        if e.get('k') in ('Cast', 'DefArg'):
            e = e['e']
            continue
        if e.get('k') == 'Int':
            return int(e['v'])
        return None
    return None


class Frame:

    def __init__(self, fn, this, env):
        self.fn = fn
        self.this = this
        self.env = env
        self.rets: list = []


class Flow:
    """Evaluates functions; `opaque(self, e, fn)` may return 'obj' or an argument index to stop at a call."""

    def __init__(self, facts, depth=14):
        self.f = facts
        self.eng = Engine(facts, Rule())
        self.depth = depth
        self.stack: list = []
        self.cases: list = []
        self.returns: list = []
        self.calls = 0
        self.functions: set = set()

    def opaque(self, e, fn, obj, args):
        return None

    def hook(self, e, obj, args):
        """Called for every call; a returned cell replaces its evaluation."""
        return None

    # -- functions -------------------------------------------------------------
    def run(self, fn, this, params, passes=4):
        ret = None
        fr = Frame(fn, this, {})
        for p, c in zip(fn['p'], params):
            fr.env[p['id']] = c
        self.stack.append(fr)
        try:
            for _ in range(passes):
                before = Cell.changes
                fr.rets = []
                for i in fn.get('inits', ()):
                    self.init(i, fr)
                self.stmt(fn.get('body'))
                if Cell.changes == before:
                    break
        finally:
            self.stack.pop()
        if len(fr.rets) == 1:
            ret = fr.rets[0][0]
        else:
            ret = Cell()
            for r, _ in fr.rets:
                assign(ret, r)
        self.last = fr.rets
        return ret

    def init(self, i, fr):
        if i.get('e') is None:
            return
        if 'm' in i:
            assign(fr.this.field(i['m']), self.ev(i['e']))
        else:
            e = i['e']
            while e.get('k') == 'Cast':
                e = e['e']
            if e.get('k') == 'Ctor':
                if (e.get('copy') or e.get('move')) and e['a']:
                    assign(fr.this.field('(' + sname(e['cls']) + ')'), self.ev(e['a'][0]))
                    return
                args = [self.ev(a) for a in e['a']]
                g = self.eng.lookup(e)
                if g is not None and g.get('body') is not None and self.may(g):
                    self.run(g, fr.this, args, 2)
                else:
                    for k, a in enumerate(args):
                        assign(fr.this.field('#%d' % k), a)

    def may(self, fn):
        return len(self.stack) < self.depth and all(f.fn is not fn for f in self.stack)

    # -- statements ----------------------------------------------------------------
    def stmt(self, s):
        if s is None:
            return
        if isinstance(s, list):
            for x in s:
                self.stmt(x)
            return
        k = s.get('k')
        if k == 'Return':
            if s.get('e') is not None:
                self.stack[-1].rets.append((self.ev(s['e']), tuple(self.cases)))
            return
        if k == 'Decl':
            for v in s['v']:
                self.var(v)
            return
        if k == 'RFor':
            self.stmt(s.get('init'))
            r = self.ev(s['r'])
            self.bindvar(s['v'], r)
            self.stmt(s['s'])
            return
        if k == 'Switch':
            self.ev(s['c'])
            n = len(self.cases)
            body = s['s']
            for x in (body['s'] if body.get('k') == 'Seq' else [body]):
                y = x
                if y.get('k') in ('Case', 'Default'):
                    del self.cases[n:]
                while isinstance(y, dict) and y.get('k') in ('Case', 'Default'):
                    self.cases.append(const_of(y['c']) if y['k'] == 'Case' else 'default')
                    y = y.get('s')
                self.stmt(y)
            del self.cases[n:]
            return
        if k == 'Throw':
            return
        if k in ('Case', 'Default'):
            self.stmt(s.get('s'))
            return
        for key in ('init', 'c', 'inc', 's', 'a', 'b', 'e', 'h'):
            v = s.get(key)
            if isinstance(v, dict):
                if v.get('k') in STMTS:
                    self.stmt(v)
                elif v.get('k') is None and ('s' in v or 'body' in v):
                    self.stmt(v.get('s') or v.get('body'))
                else:
                    self.ev(v)
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict):
                        if x.get('k') in STMTS:
                            self.stmt(x)
                        elif x.get('k') is None:
                            self.stmt(x.get('s') or x.get('body'))
                        else:
                            self.ev(x)

    def var(self, v):
        if v.get('init') is None:
            self.cell(v['id'])
            return
        self.bindvar(v, self.ev(v['init']))

    def bindvar(self, v, c):
        fr = self.stack[-1]
        if v.get('bind'):
            for k, b in enumerate(v['bind']):
                fr.env[b['id'] if isinstance(b, dict) else b] = c.field('#%d' % k)
        if v.get('id') is not None:
            old = fr.env.get(v['id'])
            if old is not None and old is not c:
                assign(c, old)
            fr.env[v['id']] = c

    def cell(self, vid):
        for fr in reversed(self.stack):
            if vid in fr.env:
                return fr.env[vid]
            if fr.fn.get('kind') != 'lambda':
                break
        c = self.stack[-1].env[vid] = Cell()
        return c

    # -- expressions -----------------------------------------------------------------
    def ev(self, e):
        if e is None:
            return Cell()
        k = e.get('k')
        m = getattr(self, 'x_' + str(k), None)
        c = m(e) if m else self.other(e)
        if 'cv' in e and c.const is None and not c.atoms and not c.fields:
            c.const = e['cv']
        return c

    def other(self, e):
        out = Cell()
        for key in ('a', 'b', 'c', 'e', 's'):
            v = e.get(key)
            if isinstance(v, dict) and v.get('k'):
                out.add(self.ev(v).deep())
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict) and x.get('k'):
                        out.add(self.ev(x).deep())
        return out

    def x_Ref(self, e):
        if e.get('d') in ('V', 'P', 'B') and e.get('id') is not None:
            return self.cell(e['id'])
        if e.get('id') is not None and e.get('d') != 'F':
            return self.cell(e['id'])
        return Cell()

    def x_Int(self, e):
        c = Cell()
        c.const = int(e['v'])
        return c

    def x_Mem(self, e):
        return self.ev(e['b']).field(e['n'])

    def x_This(self, e):
        for fr in reversed(self.stack):
            if fr.this is not None:
                return fr.this
            if fr.fn.get('kind') != 'lambda':
                break
        return Cell()

    def x_Cast(self, e):
        return self.ev(e['e'])

    x_DefArg = x_Cast

    def x_New(self, e):
        return self.ev(e['e']) if e.get('e') else Cell()

    def x_Un(self, e):
        c = self.ev(e['a'])
        return c if e['op'] in ('*', '&', '++', '--') else union(c)

    def x_Bin(self, e):
        a, b = self.ev(e['a']), self.ev(e['b'])
        return b if e['op'] == ',' else union(a, b)

    def x_Assign(self, e):
        a, b = self.ev(e['a']), self.ev(e['b'])
        assign(a, b)
        return a

    def x_Cond(self, e):
        self.ev(e['c'])
        a, b = self.ev(e['a']), self.ev(e['b'])
        c = Cell()
        assign(c, a)
        assign(c, b)
        return c

    def x_Sub(self, e):
        a = self.ev(e['a'])
        self.ev(e['b'])
        i = const_of(e['b'])
        return a.field('#%d' % i) if i is not None else a

    def x_Init(self, e):
        c = Cell()
        a = [self.ev(x) for x in e['a']]
        if len(a) == 1:
            return a[0]
        for k, x in enumerate(a):
            assign(c.field('#%d' % k), x)
        return c

    def x_Lambda(self, e):
        c = Cell()
        c.lam = (e, self.stack[-1])
        for cap in e['caps']:
            if cap.get('init') is not None:
                self.stack[-1].env[cap['id']] = self.ev(cap['init'])
        return c

    def invoke(self, lam, args):
        e, fr = lam
        if not e['specs'] or len(self.stack) >= self.depth:
            return Cell()
        sp = e['specs'][0]
        fn = {'kind': 'lambda', 'p': sp['p'], 'body': sp['body'], 'q': 'lambda'}
        if any(f.fn.get('body') is sp['body'] for f in self.stack):
            return Cell()
        saved = self.stack
        i = next((k for k, f in enumerate(saved) if f is fr), len(saved) - 1)
        self.stack = saved[:i + 1]
        pad = len(saved) - len(self.stack)
        self.depth -= pad
        try:
            return self.run(fn, None, args, 2)
        finally:
            self.stack = saved
            self.depth += pad

    def x_Ctor(self, e):
        args = [self.ev(a) for a in e['a'] if a.get('k') != 'DefArg']
        self.calls += 1
        h = self.hook(e, None, args)
        if h is not None:
            return h
        if (e.get('copy') or e.get('move')) and args:
            return args[0]
        g = self.eng.lookup(e)
        if g is not None and g.get('kind') == 'ctor' and g.get('body') is not None:
            return self.construct(g, args, e['cls'])
        r = self.eng.record(plain(e.get('t', ''))) if e['cls'].startswith('pyinterp') else None
        if r is not None and e.get('pt'):
            # inherited constructor
            todo = list(r['b'])
            while todo:
                b = todo.pop(0)
                for fs in self.f.funcs.values():
                    for f in fs:
                        if f.get('kind') == 'ctor' and f.get('clst') == b and [p['t'] for p in f['p']] == e['pt'] and \
                                f.get('body') is not None:
                            return self.construct(f, args, e['cls'])
                br = self.eng.record(b)
                if br is not None:
                    todo += br['b']
        return self.wrap(e['cls'], args)

    def wrap(self, cls, args):
        if len(args) == 1 or args and cls.startswith('Eigen::Map'):
            return args[0]
        c = Cell()
        c.cls = cls
        for k, a in enumerate(args):
            assign(c.field('#%d' % k), a)
        return c

    def construct(self, g, args, cls):
        c = Cell()
        c.cls = cls
        if self.may(g):
            self.note(g)
            self.run(g, c, args, 2)
            if not c.deep() and args:
                c.add(union(*args).atoms)
        return c

    def note(self, g):
        self.functions.add((g['q'], g['file'], g['l']))

    def ctor_of(self, t, n):
        """Constructor of class type t with n parameters."""
        t = strip_ref(t).replace('const ', '', 1)
        out = []
        for fs in self.f.funcs.values():
            for f in fs:
                if f.get('kind') == 'ctor' and f.get('clst') == t and len(f['p']) >= n and f.get('body') is not None and \
                        not (len(f['p']) == 1 and strip_ref(f['p'][0]['t']).replace('const ', '', 1) == t):
                    out.append(f)
        out.sort(key=lambda f: len(f['p']))
        return out[0] if out else None

    def x_Call(self, e):
        self.calls += 1
        fn = e.get('fn', '')
        s = sname(fn) if not sname(fn).startswith('operator') else sname(fn)
        obj = self.ev(e['obj']) if e.get('obj') is not None else None
        args = [self.ev(a) for a in e['a'] if a.get('k') != 'DefArg']
        h = self.hook(e, obj, args)
        if h is not None:
            return h
        if 'fn' not in e and e.get('ce') is not None:
            c = self.ev(e['ce'])
            if c.lam is not None:
                return self.invoke(c.lam, args)
            return union(c, *args)
        if obj is not None and obj.lam is not None and s == 'operator()':
            return self.invoke(obj.lam, args)
        g = self.eng.lookup(e)
        if g is not None and g.get('body') is not None and self.may(g):
            o = self.opaque(e, g, obj, args)
            if o is not None:
                return o
            self.note(g)
            ps = []
            for p, a in zip(g['p'], args):
                t = p['t']
                if t.endswith('&') or t.endswith('*'):
                    ps.append(a)
                else:
                    c = Cell()
                    assign(c, a)
                    ps.append(c)
            r = self.run(g, obj, ps, 2)
            if e.get('conv') and obj is not None and not r.deep():
                r.add(union(obj).atoms)
            return r
        if obj is not None and obj.lam is not None and e.get('op') is None and s == 'operator()':
            return self.invoke(obj.lam, args)
        if s in MAKE and len(args) == 1 and plain(e['a'][0].get('t', '')) == plain((e.get('ta') or [''])[0]):
            c = Cell()
            assign(c, args[0])
            return c
        if s in MAKE:
            g = self.ctor_of((e.get('ta') or [''])[0], len(args))
            if g is not None:
                return self.construct(g, args, (e.get('ta') or [''])[0])
            return self.wrap('', args) if args else Cell()
        if s == 'tie':
            c = Cell()
            c.cls = 'tie'
            for k, a in enumerate(args):
                c.fields['#%d' % k] = a
            return c
        if s in TUPLE:
            c = Cell()
            for k, a in enumerate(args):
                assign(c.field('#%d' % k), a)
            return c
        if s in PASS and len(args) == 1:
            return args[0]
        op = e.get('op')
        if obj is None and op and args:
            obj, args = args[0], args[1:]
        if op == '=' and obj is not None and args and obj.cls == 'tie':
            for k in obj.fields:
                assign(obj.fields[k], args[0].field(k))
            return obj
        if op == '=' and obj is not None and args:
            assign(obj, args[0])
            return obj
        if op in ('[]', '()') and obj is not None:
            i = const_of(e['a'][-1]) if e['a'] and not plain((e.get('obj') or e['a'][0]).get('t', '')).startswith(LISTS) else None
            return obj.field('#%d' % i) if i is not None else obj
        if op in ('++', '--', '<<', '>>', '+=', '-=', '*=', '/='):
            if op in ('>>',) and args:
                assign(args[0], obj)
            elif args:
                obj.add(union(*args).deep())
            return obj
        if s == 'get' and obj is None and args and e.get('ta') and str(e['ta'][0]).isdigit():
            return args[0].field('#%s' % e['ta'][0])
        if s in ('get', 'get_radius') and obj is not None and not args and e.get('ta') and str(e['ta'][0]).isdigit():
            return obj.field('#%s' % e['ta'][0])
        if s == 'set' and obj is not None and len(args) == 1 and e.get('ta') and str(e['ta'][0]).isdigit():
            assign(obj.field('#%s' % e['ta'][0]), args[0])
            return obj
        if s == 'set' and obj is None and len(args) == 2 and e.get('ta') and str(e['ta'][0]).isdigit():
            assign(args[0].field('#%s' % e['ta'][0]), args[1])
            return args[0]
        if obj is not None and s in ACCESS and not args:
            return obj.field(ACCESS[s])
        if s in ('read',) and obj is not None and len(args) == 2:
            assign(args[0], obj)
            return obj
        if s == 'write' and obj is not None and args:
            assign(obj, args[0])
            return obj
        if s == 'readview' and obj is not None:
            return obj
        if obj is not None and not args:
            if op in ('*', '->') or s in ALIAS or s == 'emplace_back':
                return obj
            c = Cell()
            nm = s + ('<%s>' % e['ta'][0] if e.get('ta') and str(e['ta'][0]).isdigit() else '') + '()'
            c.add({a + (nm,) for a in obj.deep() if len(a) < DEPTH and (not a or a[-1] != '~')})
            return c
        lams = [a for a in args if a.lam is not None]
        data = [a for a in args if a.lam is None]
        res = Cell()
        if obj is not None:
            if s in ALIAS:
                return obj
            if s in GROW or not e.get('cm'):
                if len(data) == 1:
                    assign(obj, data[0])
                else:
                    for k, a in enumerate(data):
                        assign(obj.field('#%d' % k), a)
            if s == 'emplace_back':
                return obj
            res.add(obj.deep())
        both = union(*data) if data else Cell()
        if lams:
            src = data[0] if data else Cell()
            for x in lams:
                sp = x.lam[0]['specs']
                n = len(sp[0]['p']) if sp else 0
                r = self.invoke(x.lam, [src] * n)
                res.add(r.deep())
        if s in ('copy', 'transform', 'copy_n', 'copy_if', 'move') and len(data) >= 3:
            data[2].add(union(data[0], res).deep())
        res.add(both.deep())
        return res


STMTS = {'Seq', 'Decl', 'Expr', 'If', 'Return', 'For', 'RFor', 'While', 'Do', 'Switch', 'Case', 'Default', 'Try', 'Break',
         'Continue', 'OtherS', 'Null_', 'Throw'}
