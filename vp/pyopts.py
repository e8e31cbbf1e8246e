"""Conditional constant propagation over the Python sources: where an option leads for each of its values."""
from __future__ import annotations

import ast
import os
import re


class Unknown:

    def __repr__(self):
        return '?'


UNK = Unknown()
CONSTS = (str, int, float, bool, type(None), list, tuple, dict, set)


class Path:
    """A dotted name starting at a module of the package."""

    def __init__(self, names):
        self.names = tuple(names)

    def __eq__(self, o):
        return isinstance(o, Path) and o.names == self.names

    def __hash__(self):
        return hash(self.names)

    def __repr__(self):
        return '.'.join(self.names)


class Pat:
    """A text of which some parts are not known ('*')."""

    def __init__(self, s):
        self.s = s

    def __eq__(self, o):
        return isinstance(o, Pat) and o.s == self.s

    def __hash__(self):
        return hash(self.s)

    def __repr__(self):
        return self.s


class Stop(Exception):
    pass


def known(v):
    return isinstance(v, CONSTS)


def sources(repo):
    """{module path: (file, tree)} of the package, tests excluded."""
    root = os.path.join(repo, 'src', 'pyinterp')
    out = {}
    for d, ds, fs in os.walk(root):
        ds[:] = sorted(x for x in ds if x not in ('tests', 'core', '__pycache__'))
        for f in sorted(fs):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                rel = os.path.relpath(p, os.path.join(repo, 'src'))
                mod = rel[:-3].replace(os.sep, '.')
                if mod.endswith('.__init__'):
                    mod = mod[:-9]
                out[mod] = (os.path.relpath(p, repo), ast.parse(open(p, encoding='utf-8').read()))
    return out


class Package:

    def __init__(self, repo):
        self.mods = sources(repo)
        self.funcs = {}         # qualified name -> (module, class or None, node)
        self.names = {}         # module -> {name: Path}
        self.consts = {}
        for m, (file, tree) in self.mods.items():
            names = self.names[m] = {}
            for n in tree.body:
                if isinstance(n, ast.FunctionDef):
                    self.funcs[f'{m}.{n.name}'] = (m, None, n)
                    names[n.name] = Path((m + '.' + n.name).split('.'))
                elif isinstance(n, ast.ClassDef):
                    names[n.name] = Path((m + '.' + n.name).split('.'))
                    for k in n.body:
                        if isinstance(k, ast.FunctionDef):
                            self.funcs[f'{m}.{n.name}.{k.name}'] = (m, n.name, k)
                elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    for t in ts:
                        if isinstance(t, ast.Name) and n.value is not None:
                            self.consts[m, t.id] = n.value
            for n in ast.walk(tree):
                if isinstance(n, ast.ImportFrom):
                    base = self.base(m, n)
                    for a in n.names:
                        names[a.asname or a.name] = Path((base + '.' + a.name).split('.'))
                elif isinstance(n, ast.Import):
                    for a in n.names:
                        names[a.asname or a.name.split('.')[0]] = Path((a.name if a.asname else a.name.split('.')[0]).split('.'))

    def base(self, m, n):
        if not n.level:
            return n.module or ''
        file = self.mods[m][0]
        parts = m.split('.') if file.endswith('__init__.py') else m.split('.')[:-1]
        parts = parts[:len(parts) - (n.level - 1)]
        return '.'.join(parts + ([n.module] if n.module else []))

    def lookup(self, path):
        """The function a path names, following the names re-exported by modules."""
        q = '.'.join(path.names)
        for _ in range(4):
            if q in self.funcs:
                return q
            mod, _, name = q.rpartition('.')
            p = self.names.get(mod, {}).get(name)
            if p is None:
                return None
            nq = '.'.join(p.names)
            if nq == q:
                return None
            q = nq
        return None


METHODS = {'capitalize', 'lower', 'upper', 'title', 'split', 'join', 'replace', 'strip', 'startswith', 'endswith', 'get',
           'format', 'keys', 'values', 'items', 'removeprefix', 'removesuffix', 'casefold', 'index'}
CALLS = {'len': len, 'str': str, 'list': list, 'tuple': tuple, 'set': set, 'sorted': sorted, 'dict': dict, 'bool': bool,
         'frozenset': set}


class Eval:
    """Evaluates a function for constant values of some of its parameters."""

    def __init__(self, pkg, depth=3):
        self.pkg = pkg
        self.depth = depth
        self.sinks = []       # (path, name or pattern, line)
        self.uses = []        # (callee path, position or keyword, value, line)
        self.returns = []
        self.nodes = []

    def run(self, q, env):
        m, _, fn = self.pkg.funcs[q]
        self.mod = m
        env = dict(env)
        for n in ast.walk(fn):
            if isinstance(n, ast.ImportFrom):
                pass
        return self.block(fn.body, env)

    # -- statements
    def block(self, body, env):
        out = set()
        for s in body:
            o = self.stmt(s, env)
            out |= o - {'fall'}
            if 'fall' not in o:
                return out
        return out | {'fall'}

    def stmt(self, s, env):
        self.nodes.append(s)
        try:
            return self.stmt_(s, env)
        except Stop:
            return {'raise'}

    def stmt_(self, s, env):
        if isinstance(s, ast.Raise):
            return {'raise'}
        if isinstance(s, ast.Return):
            v = self.ev(s.value, env) if s.value is not None else None
            self.returns.append(v)
            return {'return'}
        if isinstance(s, ast.If):
            c = self.truth(self.ev(s.test, env))
            if c is True:
                return self.block(s.body, env)
            if c is False:
                return self.block(s.orelse, env)
            e1, e2 = dict(env), dict(env)
            o1, o2 = self.block(s.body, e1), self.block(s.orelse, e2)
            live = [e for e, o in ((e1, o1), (e2, o2)) if 'fall' in o]
            self.joinenv(env, live)
            return o1 | o2
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return {'fall'}
            v = self.ev(s.value, env)
            for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                self.assign(t, v, env)
            return {'fall'}
        if isinstance(s, ast.AugAssign):
            v = self.ev(s.value, env)
            a = self.ev(s.target, env) if isinstance(s.target, ast.Name) else UNK
            r = self.add(a, v) if isinstance(s.op, ast.Add) else UNK
            self.assign(s.target, r, env)
            return {'fall'}
        if isinstance(s, ast.Expr):
            self.ev(s.value, env)
            return {'fall'}
        if isinstance(s, (ast.For, ast.While)):
            if isinstance(s, ast.For):
                self.ev(s.iter, env)
                self.assign(s.target, UNK, env)
            else:
                self.ev(s.test, env)
            e1 = dict(env)
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    e1[n.id] = UNK
                    env[n.id] = UNK
            o = self.block(s.body, e1)
            return o - {'break', 'continue', 'fall'} | {'fall'}
        if isinstance(s, ast.With):
            for i in s.items:
                self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.assign(i.optional_vars, UNK, env)
            return self.block(s.body, env)
        if isinstance(s, ast.Try):
            o = self.block(s.body, env)
            out = set(o)
            for h in s.handlers:
                out |= self.block(h.body, dict(env))
            if s.handlers:
                out.discard('raise') if 'raise' not in out else None
            if s.finalbody:
                self.block(s.finalbody, env)
            return out
        if isinstance(s, ast.Break):
            return {'break'}
        if isinstance(s, ast.Continue):
            return {'continue'}
        if isinstance(s, ast.Assert):
            return {'fall'}
        if isinstance(s, ast.Match):
            subj = self.ev(s.subject, env)
            out = set()
            for c in s.cases:
                t = self.pattern(c.pattern, subj)
                if c.guard is not None and t is True:
                    t = None
                if t is False:
                    continue
                out |= self.block(c.body, dict(env))
                if t is True:
                    return out
            return out | {'fall'}
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            env[s.name] = UNK
            return {'fall'}
        return {'fall'}

    def pattern(self, p, v):
        if isinstance(p, ast.MatchAs) and p.pattern is None:
            return True
        if isinstance(p, ast.MatchValue) and isinstance(p.value, ast.Constant) and known(v):
            return p.value.value == v
        if isinstance(p, ast.MatchOr):
            r = [self.pattern(x, v) for x in p.patterns]
            return True if True in r else False if all(x is False for x in r) else None
        return None

    def joinenv(self, env, live):
        if not live:
            return
        for k in set().union(*live):
            vs = [e.get(k, UNK) for e in live]
            env[k] = vs[0] if all(self.same(v, vs[0]) for v in vs) else UNK

    def same(self, a, b):
        return type(a) is type(b) and (a is b or a == b)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = list(v) if isinstance(v, (list, tuple)) and len(v) == len(t.elts) else [UNK] * len(t.elts)
            for x, y in zip(t.elts, vs):
                self.assign(x, y, env)
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
            env[t.value.id] = UNK

    # -- expressions
    def truth(self, v):
        return bool(v) if known(v) else None

    def add(self, a, b):
        if isinstance(a, (str, Pat)) or isinstance(b, (str, Pat)):
            if isinstance(a, str) and isinstance(b, str):
                return a + b
            return Pat(self.text(a) + self.text(b))
        if known(a) and known(b):
            try:
                return a + b
            except TypeError:
                return UNK
        return UNK

    def text(self, v):
        return v.s if isinstance(v, Pat) else str(v) if known(v) and not isinstance(v, (list, tuple, dict, set)) else '*'

    def ev(self, e, env):
        if e is None:
            return None
        if isinstance(e, ast.Constant):
            return e.value if known(e.value) else UNK
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            if (self.mod, e.id) in self.pkg.consts:
                return self.ev(self.pkg.consts[self.mod, e.id], {})
            p = self.pkg.names.get(self.mod, {}).get(e.id)
            return p if p is not None else UNK
        if isinstance(e, ast.Attribute):
            b = self.ev(e.value, env)
            return Path(b.names + (e.attr,)) if isinstance(b, Path) else UNK
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            vs = [self.ev(x, env) for x in e.elts]
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return UNK
            t = {ast.List: list, ast.Tuple: tuple, ast.Set: list}[type(e)]
            return t(vs)
        if isinstance(e, ast.Dict):
            if any(k is None for k in e.keys):
                return UNK
            ks, vs = [self.ev(k, env) for k in e.keys], [self.ev(v, env) for v in e.values]
            try:
                return dict(zip(ks, vs)) if all(known(k) for k in ks) else UNK
            except TypeError:
                return UNK
        if isinstance(e, ast.JoinedStr):
            s = ''
            for v in e.values:
                if isinstance(v, ast.Constant):
                    s += v.value
                else:
                    x = self.ev(v.value, env)
                    s += self.text(x) if v.conversion == -1 and v.format_spec is None else '*'
            return Pat(s) if '*' in s else s
        if isinstance(e, ast.BoolOp):
            last = UNK
            for x in e.values:
                last = self.ev(x, env)
                t = self.truth(last)
                if isinstance(e.op, ast.Or) and t is True or isinstance(e.op, ast.And) and t is False:
                    return last
                if t is None:
                    rest = [self.truth(self.ev(y, env)) for y in e.values[e.values.index(x) + 1:]]
                    stop = isinstance(e.op, ast.Or)
                    return stop if any(r is stop for r in rest) and isinstance(e.op, ast.And) else UNK
            return last
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand, env)
            if isinstance(e.op, ast.Not):
                t = self.truth(v)
                return UNK if t is None else not t
            if isinstance(e.op, ast.USub) and isinstance(v, (int, float)):
                return -v
            return UNK
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, env), self.ev(e.right, env)
            if isinstance(e.op, ast.Add):
                return self.add(a, b)
            if isinstance(e.op, ast.Mod) and isinstance(a, str):
                return Pat(re.sub(r'%\w', '*', a))
            return UNK
        if isinstance(e, ast.Compare):
            return self.compare(e, env)
        if isinstance(e, ast.IfExp):
            c = self.truth(self.ev(e.test, env))
            if c is not None:
                return self.ev(e.body if c else e.orelse, env)
            a, b = self.ev(e.body, env), self.ev(e.orelse, env)
            return a if self.same(a, b) else UNK
        if isinstance(e, ast.Subscript):
            b, i = self.ev(e.value, env), self.ev(e.slice, env) if not isinstance(e.slice, ast.Slice) else UNK
            if isinstance(b, dict) and known(i) and not isinstance(i, (list, dict, set)):
                if i in b:
                    return b[i]
                raise Stop
            if isinstance(b, (list, tuple)) and isinstance(i, int) and -len(b) <= i < len(b):
                return b[i]
            if isinstance(b, str) and isinstance(e.slice, ast.Slice):
                lo, hi = self.ev(e.slice.lower, env), self.ev(e.slice.upper, env)
                if e.slice.step is None and all(x is None or isinstance(x, int) for x in (lo, hi)):
                    return b[lo:hi]
            if isinstance(b, str) and isinstance(i, int) and -len(b) <= i < len(b):
                return b[i]
            return UNK
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            if len(e.generators) == 1:
                g = e.generators[0]
                it = self.ev(g.iter, env)
                if isinstance(it, (list, tuple, str)):
                    out = []
                    for x in it:
                        e1 = dict(env)
                        self.assign(g.target, x, e1)
                        ts = [self.truth(self.ev(c, e1)) for c in g.ifs]
                        if any(t is None for t in ts):
                            return UNK
                        if all(ts):
                            out.append(self.ev(e.elt, e1))
                    return out
            return UNK
        if isinstance(e, ast.Call):
            return self.call(e, env)
        if isinstance(e, ast.NamedExpr):
            v = self.ev(e.value, env)
            self.assign(e.target, v, env)
            return v
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, env)
        return UNK

    def compare(self, e, env):
        left = self.ev(e.left, env)
        res = True
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, env)
            v = UNK
            if isinstance(op, (ast.Is, ast.IsNot)) and right is None and (known(left) or isinstance(left, (Pat, Path))):
                v = (left is None) == isinstance(op, ast.Is)
            elif known(left) and known(right):
                try:
                    if isinstance(op, ast.Eq):
                        v = left == right
                    elif isinstance(op, ast.NotEq):
                        v = left != right
                    elif isinstance(op, (ast.In, ast.NotIn)):
                        if any(not known(x) for x in right) and left not in right:
                            v = UNK
                        else:
                            v = (left in right) == isinstance(op, ast.In)
                except TypeError:
                    v = UNK
            if not known(v):
                return UNK
            res = res and v
            left = right
        return res

    def call(self, e, env):
        f = e.func
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a, env) for a in e.args]
        kws = {k.arg: self.ev(k.value, env) for k in e.keywords}
        if isinstance(f, ast.Name) and f.id == 'getattr' and 'getattr' not in env and len(args) >= 2:
            if isinstance(args[0], Path) and isinstance(args[1], (str, Pat)):
                self.sinks.append((args[0], args[1], e.lineno))
                if isinstance(args[1], str):
                    return Path(args[0].names + (args[1],))
            return UNK
        if isinstance(f, ast.Attribute):
            if f.attr == 'join' and len(args) == 1:
                b = self.ev(f.value, env)
                if isinstance(b, str) and isinstance(args[0], (list, tuple)) and all(isinstance(x, str) for x in args[0]):
                    return b.join(args[0])
                return UNK
            b = self.ev(f.value, env)
            if f.attr in METHODS and isinstance(b, (str, dict)) and all(known(a) for a in args) and not kws:
                try:
                    r = getattr(b, f.attr)(*args)
                    return list(r) if f.attr in ('keys', 'values', 'items') else r
                except Exception:   # noqa
                    raise Stop from None
            if isinstance(b, str) and f.attr == 'format':
                return Pat(re.sub(r'\{[^}]*\}', '*', b))
            if isinstance(b, (list, dict, set)):
                if isinstance(f.value, ast.Name):
                    env[f.value.id] = UNK
                return UNK
        if isinstance(f, ast.Name) and f.id in CALLS and f.id not in env:
            if args and all(known(a) for a in args) and not kws:
                try:
                    r = CALLS[f.id](*args)
                    return list(r) if isinstance(r, (set, frozenset)) else r
                except Exception:   # noqa
                    return UNK
            return UNK
        p = self.ev(f, env)
        for i, a in enumerate(args):
            if isinstance(a, str):
                self.uses.append((p, i, a, e.lineno))
        for k, a in kws.items():
            if isinstance(a, str):
                self.uses.append((p, k, a, e.lineno))
        if isinstance(p, Path):
            q = self.pkg.lookup(p)
            if q and self.depth > 0 and any(known(a) for a in list(args) + list(kws.values())):
                return self.enter(q, args, kws)
        return UNK

    def enter(self, q, args, kws):
        fn = self.pkg.funcs[q][2]
        env = bind(fn, args, kws)
        r = Eval(self.pkg, self.depth - 1)
        out = r.run(q, env)
        self.sinks += r.sinks
        self.uses += r.uses
        if out <= {'raise'}:
            raise Stop
        vs = r.returns + ([None] if 'fall' in out else [])
        return vs[0] if vs and all(self.same(v, vs[0]) for v in vs) else UNK


def params(fn):
    a = fn.args
    return a.posonlyargs + a.args + a.kwonlyargs


def bind(fn, args, kws):
    a = fn.args
    pos = a.posonlyargs + a.args
    env = {p.arg: UNK for p in params(fn)}
    for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        if isinstance(d, ast.Constant):
            env[p.arg] = d.value
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if isinstance(d, ast.Constant):
            env[p.arg] = d.value
    for p, v in zip(pos, args):
        env[p.arg] = v
    for k, v in kws.items():
        if k in env:
            env[k] = v
    for x in (a.vararg, a.kwarg):
        if x is not None:
            env[x.arg] = UNK
    return env


def free(fn):
    """Environment in which nothing is known of the parameters."""
    env = {p.arg: UNK for p in params(fn)}
    for x in (fn.args.vararg, fn.args.kwarg):
        if x is not None:
            env[x.arg] = UNK
    return env


def literals(pkg, q):
    """{parameter: texts with which it may be compared}."""
    m, _, fn = pkg.funcs[q]
    ev = Eval(pkg, 0)
    ev.mod = m
    env = free(fn)
    lists = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            try:
                v = ev.ev(n.value, {**env, **lists})
            except Stop:
                continue
            if isinstance(v, (list, tuple, dict)):
                lists[n.targets[0].id] = v
    out = {}

    def put(p, v):
        for x in (v if isinstance(v, (list, tuple, dict, set)) else [v]):
            if isinstance(x, str):
                out.setdefault(p, [])
                if x not in out[p]:
                    out[p].append(x)

    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and isinstance(n.left, ast.Name) and n.left.id in env:
            for op, c in zip(n.ops, n.comparators):
                if isinstance(op, (ast.Eq, ast.NotEq, ast.In, ast.NotIn)):
                    try:
                        v = ev.ev(c, {**env, **lists})
                    except Stop:
                        continue
                    if isinstance(v, str) and isinstance(op, (ast.In, ast.NotIn)):
                        continue
                    put(n.left.id, v)
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Name) and n.slice.id in env and isinstance(n.value, ast.Name):
            v = lists.get(n.value.id)
            if v is None and (m, n.value.id) in pkg.consts:
                v = ev.ev(pkg.consts[m, n.value.id], {})
            if isinstance(v, dict):
                put(n.slice.id, v)
        if isinstance(n, ast.Match) and isinstance(n.subject, ast.Name) and n.subject.id in env:
            for c in ast.walk(n):
                if isinstance(c, ast.MatchValue) and isinstance(c.value, ast.Constant):
                    put(n.subject.id, c.value.value)
    return out


def documented(fn):
    """{parameter: names quoted in its description}."""
    doc = ast.get_docstring(fn) or ''
    out = {}
    cur, ind = None, None
    names = {p.arg for p in params(fn)}
    for line in doc.split('\n'):
        m = re.match(r'(\s*)(\w+)(?:\s*\([^)]*\))?:(.*)$', line)
        if m and m.group(2) in names and (ind is None or len(m.group(1)) == ind):
            cur, ind = m.group(2), len(m.group(1))
        elif re.match(r'\s*(Returns|Raises|Return|Yields|Examples?|Notes?|Args)\s*:', line) or \
                line.strip() and ind is not None and len(line) - len(line.lstrip()) <= ind and not (m and m.group(2) in names):
            cur = None
        if cur:
            for x in re.findall(r'``([^`]+)``', line):
                out.setdefault(cur, []).append(x)
    return out
