"""What a function reaches for each value of an option: conditional constant propagation over the syntax tree.

An option is an expression that the function compares with the enumerators of an enumeration or with texts. Its values
are propagated through the conditions; the statements that remain reachable tell what the value selects.
"""
from __future__ import annotations

import re

from .bindings import strip
from .engine import walk

KEEP = {'Cast', 'DefArg', 'Paren'}


def peel(e):
    """Removes casts and the constructors that only wrap a text."""
    while True:
        e = strip(e)
        if not isinstance(e, dict):
            return e
        if e.get('k') == 'Ctor' and len(e.get('a', [])) in (1, 2) and re.search(r'basic_string|string_view', e.get('t', '')):
            e = e['a'][0]
            continue
        return e


def key(e):
    e = peel(e)
    if not isinstance(e, dict):
        return None
    k = e.get('k')
    if k == 'Ref' and e.get('d') in ('P', 'V'):
        return ('r', e['id'])
    if k == 'This':
        return ('t',)
    if k == 'Mem':
        return ('m', e.get('n'), key(e['b']) if e.get('b') else None)
    if k == 'Call':
        if e.get('op') == '[]':
            i = peel(e['a'][0]) if e['a'] else None
            if isinstance(i, dict) and i.get('k') == 'Int':
                return ('i', key(e.get('obj') or e['a'][0]), str(i.get('v')))
            if len(e['a']) == 2:
                i = peel(e['a'][1])
                return ('i', key(e['a'][0]), str(i.get('v'))) if isinstance(i, dict) and i.get('k') == 'Int' else None
            return None
        if not e['a']:
            return ('c', e.get('fn'), key(e['obj']) if e.get('obj') else None)
    return None


def constant(e):
    e = peel(e)
    if isinstance(e, dict):
        if e.get('k') == 'Ref' and e.get('d') == 'E':
            return ('E', e['q'])
        if e.get('k') == 'Str':
            return ('S', e['v'])
    return None


def equality(e):
    """(left, right, positive) of a comparison."""
    e = strip(e)
    if not isinstance(e, dict):
        return None
    if e.get('k') == 'Bin' and e.get('op') in ('==', '!='):
        return e['a'], e['b'], e['op'] == '=='
    if e.get('k') == 'Call' and e.get('op') in ('==', '!='):
        xs = ([e['obj']] if e.get('obj') else []) + e['a']
        if len(xs) == 2:
            return xs[0], xs[1], e['op'] == '=='
    return None


class Reach:
    """One evaluation of a function for one value of an option."""

    def __init__(self, facts, depth=3):
        self.facts = facts
        self.depth = depth
        self.nodes = []
        self.calls = []

    # -- expressions: True/False/None or a constant
    def cond(self, e, env):
        e = strip(e)
        if not isinstance(e, dict):
            return None
        k = e.get('k')
        if k == 'Bool':
            return bool(e.get('v'))
        if k == 'Un' and e.get('op') == '!':
            v = self.cond(e['a'], env)
            return None if v is None else not v
        if k == 'Bin' and e.get('op') == '&&':
            a, b = self.cond(e['a'], env), self.cond(e['b'], env)
            return False if a is False or b is False else True if a and b else None
        if k == 'Bin' and e.get('op') == '||':
            a, b = self.cond(e['a'], env), self.cond(e['b'], env)
            return True if a or b else False if a is False and b is False else None
        q = equality(e)
        if q:
            a, b = self.const(q[0], env), self.const(q[1], env)
            if a is not None and b is not None and isinstance(a, tuple) and isinstance(b, tuple):
                return (a == b) == q[2]
            return None
        v = self.const(e, env)
        return v if isinstance(v, bool) else None

    def const(self, e, env):
        c = constant(e)
        if c is not None:
            return c
        k = key(e)
        return env.get(k) if k is not None else None

    def value(self, e, env):
        v = self.const(e, env)
        return v if v is not None else self.cond(e, env)

    # -- what an expression reaches
    def expr(self, e, env):
        """Records the nodes of an expression; returns True if its evaluation always throws."""
        if isinstance(e, list):
            return any([self.expr(x, env) for x in e])
        if not isinstance(e, dict):
            return False
        k = e.get('k')
        if k == 'Throw':
            return True
        if k in ('Bin', 'Call') and equality(e) and any(constant(x) for x in equality(e)[:2]):
            return any([self.expr(x, env) for x in equality(e)[:2] if constant(x) is None])
        if k == 'Cond':
            v = self.cond(e['c'], env)
            t = self.expr(e['c'], env)
            if v is True:
                return self.expr(e['a'], env) or t
            if v is False:
                return self.expr(e['b'], env) or t
            a, b = self.expr(e['a'], env), self.expr(e['b'], env)
            return t or a and b
        if k == 'Bin' and e.get('op') in ('&&', '||'):
            t = self.expr(e['a'], env)
            v = self.cond(e['a'], env)
            if v is not None and v == (e['op'] == '||'):
                return t
            self.expr(e['b'], env)
            return t
        if k == 'Lambda':
            for s in e.get('specs', []):
                for n in walk(s.get('body') or {}):
                    self.nodes.append(n)
            return False
        if 'k' in e:
            self.nodes.append(e)
        t = False
        for x, v in e.items():
            if x in ('pt', 'ta', 'enum'):
                continue
            if isinstance(v, (dict, list)):
                t = self.expr(v, env) or t
        if k in ('Call', 'Ctor') and self.depth > 0:
            t = self.call(e, env) or t
        return t

    def call(self, e, env):
        fs = self.facts.funcs.get(e.get('fid'))
        if not fs or not fs[0].get('body'):
            return False
        f = fs[0]
        sub = {}
        for p, a in zip(f['p'], e['a']):
            v = self.const(a, env)
            if isinstance(v, tuple):
                sub[('r', p['id'])] = v
        o = strip(e.get('obj')) if e.get('obj') else None
        if isinstance(o, dict) and o.get('k') == 'This':
            for kk, v in env.items():
                if kk[0] in ('m', 'c'):
                    sub[kk] = v
        if not sub:
            return False
        r = Reach(self.facts, self.depth - 1)
        out = r.run(f, sub)
        self.nodes.extend(r.nodes)
        return out <= {'throw'}

    # -- statements: the ways in which they end
    def block(self, ss, env):
        out = set()
        for s in ss:
            o = self.stmt(s, env)
            out |= o - {'fall'}
            if 'fall' not in o:
                return out
        return out | {'fall'}

    def stmt(self, s, env):
        if s is None or not isinstance(s, dict):
            return {'fall'}
        k = s.get('k')
        if k == 'Seq':
            return self.block(s['s'], env)
        if k in ('Case', 'Default'):
            return self.stmt(s.get('s'), env)
        if k == 'If':
            if s.get('init'):
                self.stmt(s['init'], env)
            v = self.cond(s['c'], env)
            if self.expr(s['c'], env):
                return {'throw'}
            if v is True:
                return self.stmt(s['a'], env)
            if v is False:
                return self.stmt(s.get('b'), env)
            return self.stmt(s['a'], dict(env)) | self.stmt(s.get('b'), dict(env))
        if k == 'Switch':
            return self.switch(s, env)
        if k in ('For', 'While', 'Do', 'RFor'):
            out = {'fall'}
            for x, v in s.items():
                if x in ('s', 'b', 'body'):
                    continue
                if isinstance(v, dict) and v.get('k') in ('Var', 'Decl', 'Seq'):
                    self.stmt(v, env)
                elif isinstance(v, (dict, list)):
                    self.expr(v, env)
            for x in ('s', 'b', 'body'):
                v = s.get(x)
                if isinstance(v, dict):
                    out |= self.stmt(v, env) - {'break', 'continue'}
            return out
        if k == 'Try':
            out = set()
            for x, v in s.items():
                for y in (v if isinstance(v, list) else [v]):
                    if isinstance(y, dict):
                        b = y.get('s') or y.get('b') or y
                        out |= self.stmt(b if isinstance(b, dict) else {'k': 'Seq', 's': b}, dict(env))
            return out | {'fall'}
        if k == 'Return':
            if s.get('e') is not None and self.expr(s['e'], env):
                return {'throw'}
            self.nodes.append({'k': 'Return', 'l': s.get('l')})
            self.returned = self.value(s['e'], env) if s.get('e') else None
            return {'return'}
        if k == 'Throw':
            return {'throw'}
        if k == 'Break':
            return {'break'}
        if k == 'Continue':
            return {'continue'}
        if k == 'Decl':
            t = False
            for d in s.get('d') or s.get('s') or s.get('vars') or []:
                t = self.stmt(d, env) == {'throw'} or t
            return {'throw'} if t else {'fall'}
        if k == 'Var':
            i = s.get('init') or s.get('e')
            if isinstance(i, dict):
                if self.expr(i, env):
                    return {'throw'}
                v = self.value(i, env)
                if v is not None and s.get('id'):
                    env[('r', s['id'])] = v
            return {'fall'}
        if k == 'Assign':
            kk = key(s.get('a'))
            if kk is not None:
                env.pop(kk, None)
        return {'throw'} if self.expr(s, env) else {'fall'}

    def switch(self, s, env):
        if s.get('init'):
            self.stmt(s['init'], env)
        self.expr(s['c'], env)
        v = self.const(s['c'], env)
        body = s['s']['s'] if s['s'].get('k') == 'Seq' else [s['s']]
        items = []
        for c in body:
            ls = []
            while isinstance(c, dict) and c.get('k') in ('Case', 'Default'):
                ls.append('default' if c['k'] == 'Default' else constant(c['c']))
                c = c.get('s')
            items.append((ls, c))
        known = [x for ls, _ in items for x in ls if x != 'default']
        starts = []
        if isinstance(v, tuple):
            at = [i for i, (ls, _) in enumerate(items) if v in ls]
            if not at:
                at = [i for i, (ls, _) in enumerate(items) if 'default' in ls]
            starts = at[:1]
            out = set() if starts else {'fall'}
        else:
            starts = [i for i, (ls, _) in enumerate(items) if ls]
            out = set() if any('default' in ls for ls, _ in items) or set(s.get('enum', ())) == {x[1] for x in known if x} \
                else {'fall'}
        for i in starts:
            o = self.block([c for _, c in items[i:]], env if len(starts) == 1 else dict(env))
            if 'break' in o:
                o = o - {'break'} | {'fall'}
            out |= o
        return out

    def run(self, f, env):
        out = set()
        env = dict(env)
        for i in f.get('inits') or []:
            if self.expr(i, env):
                return {'throw'}
        out |= self.stmt(f['body'], env)
        return out


class Subject:
    """An option of a function, with the values it is compared with."""

    def __init__(self, fn, k, node):
        self.fn = fn
        self.key = k
        self.node = node
        self.values = []
        self.mentioned = set()
        self.enum = None

    def name(self):
        e = peel(self.node)
        return e.get('n') or str(e.get('fn', '')).rsplit('::', 1)[-1] or '?'


def subjects(facts, fn):
    out = {}
    for n in walk(fn.get('body') or {}):
        if n.get('k') == 'Switch' and n.get('enum'):
            k = key(n['c'])
            if k is None:
                continue
            s = out.setdefault(k, Subject(fn, k, n['c']))
            s.enum = s.enum or [('E', q) for q in n['enum']]
            for c in walk(n['s']):
                if c.get('k') == 'Case':
                    v = constant(c['c'])
                    if v and v in s.enum:
                        s.mentioned.add(v)
            continue
        q = equality(n)
        if not q:
            continue
        for a, b in ((q[0], q[1]), (q[1], q[0])):
            c, k = constant(b), key(a)
            if c is not None and k is not None and constant(a) is None:
                s = out.setdefault(k, Subject(fn, k, a))
                s.mentioned.add(c)
                if c[0] == 'E' and s.enum is None:
                    for e in facts.enums.values():
                        pre = [x[0] for x in e['e']]
                        if c[1].rsplit('::', 1)[-1] in pre and enum_of(facts, c[1]) is e:
                            scope = c[1].rsplit('::', 1)[0]
                            s.enum = [('E', scope + '::' + x) for x in pre]
    for s in out.values():
        s.values = list(s.enum or []) or sorted(s.mentioned)
    return [s for s in out.values() if s.mentioned]


def enum_of(facts, q):
    """The enumeration of an enumerator (scoped or not)."""
    scope, name = q.rsplit('::', 1)
    if scope in facts.enums and any(x[0] == name for x in facts.enums[scope]['e']):
        return facts.enums[scope]
    for en, e in facts.enums.items():
        if en.rsplit('::', 1)[0] == scope and any(x[0] == name for x in e['e']):
            return e
    return None


def entities(nodes):
    """Names of what the nodes refer to: {name: line}."""
    out = {}

    def put(q, line):
        n = strip_targs(q).rsplit('::', 1)[-1]
        if n and n not in out:
            out[n] = line

    def types(t, line):
        """Every template named in a type."""
        for x in re.findall(r'([\w:]+)(?=<|[,>&* ]|$)', t or ''):
            put(x, line)

    for n in nodes:
        k = n.get('k')
        if k == 'Ref' and n.get('d') in ('F', 'E', 'G', 'V') and n.get('q'):
            put(n['q'], n.get('l'))
        elif k == 'Ref' and n.get('d') == 'F':
            put(n.get('fn') or n.get('n') or '', n.get('l'))
        elif k == 'Mem' and n.get('q'):
            put(n['q'], n.get('l'))
        elif k == 'Call':
            put(n.get('fn', ''), n.get('l'))
            for t in n.get('ta') or []:
                types(t, n.get('l'))
        elif k in ('Ctor', 'New'):
            put(n.get('cls') or '', n.get('l'))
            types(n.get('t'), n.get('l'))
        elif k == 'Str':
            out.setdefault('"' + n['v'], n.get('l'))
    return out


def strip_targs(t):
    depth, out = 0, []
    for c in t:
        if c == '<':
            depth += 1
        elif c == '>':
            depth -= 1
        elif depth == 0:
            out.append(c)
    return ''.join(out).replace('const ', '').strip(' &*')


def tokens(name):
    name = name.lstrip('"')
    if re.match(r'k[A-Z]', name):
        name = name[1:]
    out = []
    for part in re.split(r'[^A-Za-z0-9]+', name):
        out += re.findall(r'[A-Z]+(?![a-z])\d*|[A-Z][a-z0-9]*|[a-z][a-z0-9]*|\d+', part)
    return [t.lower()[:-1] if len(t) > 3 and t[-1] == 's' and not t.endswith('ss') else t.lower() for t in out]


def joined(name):
    return ''.join(tokens(name))


def bears(entity, option):
    """The entity's name contains the whole name of the option."""
    et, ot = tokens(entity), tokens(option)
    if not ot or not et:
        return False
    if set(ot) <= set(et):
        return True
    j = ''.join(ot)
    for a in range(len(et)):
        s = ''
        for b in range(a, len(et)):
            s += et[b]
            if s == j:
                return True
            if len(s) >= len(j):
                break
    return False


def best(entity, options):
    """The options whose names the entity bears best."""
    got = [(len(joined(o)), o) for o in options if bears(entity, o)]
    if not got:
        return []
    m = max(x for x, _ in got)
    return [o for x, o in got if x == m]
