"""Structured forward dataflow over value-numbered terms, with calls to
repository functions analysed in the context of their caller.

Terms are nested tuples.  A location is a tuple naming a variable, a field of a
location or the target of a pointer.  The state maps locations to terms, gives
every location a version that changes when the object may be modified, and
carries the set of branch atoms known to hold.  Because terms mention versions,
facts never need to be killed.
"""
from __future__ import annotations

import re

import sys
from typing import Any

sys.setrecursionlimit(20000)

THIS = ('this',)

# Non-const members of library classes that do not modify their object.
ACCESSORS = {
    'begin', 'end', 'rbegin', 'rend', 'cbegin', 'cend', 'data', 'operator[]', 'front', 'back', 'at', 'find',
    'lower_bound', 'upper_bound', 'operator*', 'operator->', 'value', 'get', 'operator()', 'block', 'row', 'col',
    'head', 'tail', 'segment', 'mutable_unchecked', 'mutable_data', 'mutable_at', 'unchecked', 'coeffRef', 'array',
    'matrix', 'middleRows', 'noalias', 'derived', 'value_or', 'has_value', 'diagonal', 'topRows', 'bottomRows',
    'leftCols', 'rightCols', 'size', 'empty', 'shape', 'request', 'outer', 'inners', 'top', 'real', 'imag', 'coeff',
    'topLeftCorner', 'reshaped', 'str', 'c_str', 'ref', 'cast', 'ptr', 'colwise', 'rowwise', 'transpose', 'leftRows',
    'rightRows', 'topLeft', 'asDiagonal', 'operator bool'
}
NEG = {'==': '!=', '!=': '=='}


class State:
    __slots__ = ('env', 'facts', 'dead')

    def __init__(self, env=None, facts=frozenset()):
        self.env: dict = env if env is not None else {}
        self.facts: frozenset = facts

    def copy(self) -> 'State':
        return State(dict(self.env), self.facts)


class Frame:
    __slots__ = ('fn', 'ctx', 'this', 'returns', 'callnode', 'depth', 'entry_facts', 'lam', 'breaks', 'continues',
                 'line', 'retref')

    def __init__(self, fn, ctx, this, callnode, depth):
        self.fn = fn
        self.ctx = ctx
        self.this = this
        self.callnode = callnode
        self.depth = depth
        self.returns: list = []
        self.entry_facts = frozenset()
        self.breaks: list = []
        self.continues: list = []
        self.line = 0
        self.retref = False


class Closure:
    """A lambda value; compared by identity of its node and context."""
    __slots__ = ('node', 'ctx', 'caps', 'frame')

    def __init__(self, node, ctx, caps, frame):
        self.node = node
        self.ctx = ctx
        self.caps = caps
        self.frame = frame


def strip_ref(t: str) -> str:
    t = t.strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    return t


def is_mutref(t: str) -> bool:
    t = t.strip()
    if t.endswith('&&'):
        return False
    if t.endswith('&'):
        b = t[:-1].strip()
        return not (b.startswith('const ') or b.endswith(' const'))
    if t.endswith('*'):
        b = t[:-1].strip()
        return not (b.startswith('const ') or b.endswith(' const'))
    return False


# conversions of a PyObject pointer: they only read it
NO_EFFECT = {'pybind11::detail::array_proxy', 'pybind11::detail::array_descriptor_proxy'}


class Engine:
    MAXDEPTH = 12
    MAXSTEPS = 400000

    def __init__(self, facts, rule):
        self.f = facts
        self.rule = rule
        self.stack: list[Frame] = []
        self.mute = 0
        self.closures: dict = {}
        self.loops: dict = {}
        self.loopstack: list = []
        self.trystack: list = []
        self.steps = 0
        self.node_ids: dict = {}
        self.truncated: list = []
        self.site_nodes: dict = {}
        self.inlined: set = set()
        self._members_cache: dict = {}
        # locations holding a reference to another location
        rule.engine = self
        self.names: list = []
        self.name_of: dict = {}
        self.loopmods: dict = {}
        self.ncalls = 0

    # -- hash consing of deep terms -----------------------------------------
    def compact(self, t):
        if t.__class__ is tuple and len(t) > 1 and _deep(t, LIM):
            n = self.name_of.get(t)
            if n is None:
                n = ('n', len(self.names), t[0])
                self.names.append(t)
                self.name_of[t] = n
            return n
        return t

    def x(self, t):
        """The term behind a name."""
        while t.__class__ is tuple and t and t[0] == 'n':
            t = self.names[t[1]]
        return t

    def subterms(self, t):
        stack = [t]
        seen = set()
        while stack:
            y = stack.pop()
            if isinstance(y, tuple):
                if y and y[0] == 'n':
                    if y[1] in seen:
                        continue
                    seen.add(y[1])
                    y = self.names[y[1]]
                yield y
                for v in y:
                    if isinstance(v, (tuple, frozenset)):
                        stack.append(v)
            elif isinstance(y, frozenset):
                stack.extend(y)

    def show(self, t, n=0):
        return show(t, n, self)

    # -- sites -------------------------------------------------------------
    def site(self, node, extra=''):
        """A compact identifier of a node in the current calling context."""
        k = id(node)
        n = self.node_ids.get(k)
        if n is None:
            n = len(self.node_ids) + 1
            self.node_ids[k] = n
            self.site_nodes[n] = (node, self.frame().fn if self.stack else None)
        ctx = self.stack[-1].ctx if self.stack else ()
        return (n, ctx, extra) if extra else (n, ctx)

    def frame(self) -> Frame:
        return self.stack[-1]

    def where(self, node=None) -> str:
        """file:line of a node in the function being analysed."""
        fr = self.stack[-1]
        f = fr.fn
        line = (node or {}).get('l') or fr.line or f.get('l')
        return f"src/pyinterp/core/{f['file']}:{line}"

    def chain(self) -> list[str]:
        out = []
        for fr in self.stack:
            out.append(fr.fn.get('q', 'lambda'))
        return out

    def funcname(self) -> str:
        for fr in reversed(self.stack):
            if fr.fn.get('kind') != 'lambda':
                return fr.fn.get('q', '?')
        return '?'

    # -- entry -------------------------------------------------------------
    def run(self, fn: dict, this=THIS, bind=None, state=None, ctx=()):
        """Analyses one function as a root with unknown arguments."""
        self.stack = []
        self.loopstack = []
        self.trystack = []
        self.steps = 0
        self.mute = 0
        st = state or State()
        fr = Frame(fn, ctx, this, None, 0)
        self.stack.append(fr)
        fr.entry_facts = st.facts
        for i, p in enumerate(fn['p']):
            loc = ('v', p['id'], fr.ctx)
            st.env[loc] = (bind or {}).get(p['n'], ('p', p['n'], i))
        if fn.get('kind') == 'ctor':
            self.ctor_inits(fn, st, this)
        out = self.exec(fn.get('body'), st)
        if out is not None:
            fr.returns.append((frozenset(), None, out, None, None))
        self.rule.on_exit(self, fn, fr.returns)
        self.stack.pop()
        return fr.returns

    # -- joins ---------------------------------------------------------------
    def join(self, states, node, conds=None):
        states = [s for s in states if s is not None]
        if not states:
            return None
        if len(states) == 1:
            return states[0]
        facts = states[0].facts
        for s in states[1:]:
            facts = facts & s.facts
        deltas = [s.facts - facts for s in states]
        if len(states) == 2:
            facts = facts | self.conditional(deltas[0], deltas[1]) | self.conditional(deltas[1], deltas[0])
        env = dict(states[0].env)
        keys = set(env)
        for s in states[1:]:
            keys |= set(s.env)
        first = states[0].env
        for k in keys:
            vals = [s.env.get(k, _MISSING) for s in states]
            v0 = vals[0]
            same = True
            for v in vals[1:]:
                if v is not v0 and v != v0:
                    same = False
                    break
            if same:
                continue
            if any(v is _MISSING for v in vals):
                if k[0] == 'ver':
                    env[k] = ('m', self.site(node), 'j')
                elif k[0] == 'v':
                    # variable scoped to one branch
                    env.pop(k, None)
                else:
                    alts = tuple((d, ('init', k) if v is _MISSING else v) for d, v in zip(deltas, vals))
                    env[k] = self.mkphi(node, k, alts)
                continue
            if k[0] == 'ver':
                env[k] = ('m', self.site(node), 'j')
            elif k[0] == 'ref':
                env[k] = ('phiref', tuple(vals))
            else:
                env[k] = self.mkphi(node, k, tuple(zip(deltas, vals)))
        return State(env, facts)

    def conditional(self, d, other):
        """The equalities that one branch established, kept as implications of its condition."""
        new = set()
        conds = [(c, p) for c, p in d if (c, not p) in other]
        if len(conds) != 1:
            return new
        for f, p in d:
            if (f, p) == conds[0] or not p:
                continue
            y = self.x(f)
            if y[0] == 'forall' or y[0] == 'b' and y[1] == '==' and self.x(y[2])[0] == 'call' and self.x(y[3])[0] in ('call', 'c'):
                new.add((('imp', conds[0][0], conds[0][1], f), True))
        return new

    def mkphi(self, node, key, alts):
        return self.compact(('phi', self.site(node), tuple(alts)))

    # -- facts ---------------------------------------------------------------
    def norm(self, t):
        """Canonical (atom, polarity) of a boolean term."""
        pol = True
        while True:
            if t[0] == 'n' and t[2] in ('u', 'b'):
                y = self.x(t)
                if (y[0] == 'u' and y[1] == '!') or (y[0] == 'b' and y[1] in ('>', '>=', '<=', '!=', '==')):
                    t = y
                else:
                    break
            if t[0] == 'u' and t[1] == '!':
                t = t[2]
                pol = not pol
                continue
            if t[0] == 'b':
                op, a, b = t[1], t[2], t[3]
                if op == '>':
                    t = ('b', '<', b, a)
                    continue
                if op == '>=':
                    t = ('b', '<', a, b)
                    pol = not pol
                    continue
                if op == '<=':
                    t = ('b', '<', b, a)
                    pol = not pol
                    continue
                if op == '!=':
                    t = ('b', '==', a, b)
                    pol = not pol
                    continue
                if op == '==':
                    if a[0] == 'c' and isinstance(a[1], bool):
                        a, b = b, a
                    if b[0] == 'c' and b[1] is True:
                        t = a
                        continue
                    if b[0] == 'c' and b[1] is False:
                        t = a
                        pol = not pol
                        continue
                    # canonical order of ==
                    if repr(b) < repr(a):
                        t = ('b', '==', b, a)
                    break
            break
        return t, pol

    def implied(self, t, pol, n=0):
        """Atoms that hold when the boolean term t evaluates to pol."""
        t, p = self.norm(t)
        if not p:
            pol = not pol
        t0 = t
        t = self.x(t)
        if n > 12:
            return frozenset([(t0, pol)])
        if t[0] == 'c':
            return frozenset()
        if t0 is not t:
            return self.implied_(t, pol, n) | {(t0, pol)}
        return self.implied_(t, pol, n)

    def implied_(self, t, pol, n):
        if t[0] == 'b' and t[1] in ('&&', '||', '&', '|'):
            conj = t[1] in ('&&', '&')
            if pol == conj:
                return self.implied(t[2], pol, n + 1) | self.implied(t[3], pol, n + 1) | {(self.compact(t), pol)}
            fa = self.implied(t[2], pol, n + 1)
            fb = self.implied(t[3], pol, n + 1)
            # a && b is false: either a is false, or a is true and b is false.
            fb = fb | self.implied(t[2], not pol, n + 1)
            return (fa & fb) | {(self.compact(t), pol)}
        if t[0] in ('phi', 'ret'):
            alts = t[2]
            res = None
            for d, v in alts:
                if v is not None and v[0] == 'c' and isinstance(v[1], bool) and v[1] != pol:
                    continue
                s = d | (self.implied(v, pol, n + 1) if v is not None else frozenset())
                if any((x, not q) in s for x, q in s):
                    continue
                res = s if res is None else res & s
            return (res or frozenset()) | {(self.compact(t), pol)}
        if t[0] == 'cond':
            res = None
            for cp, v in ((True, t[2]), (False, t[3])):
                if v[0] == 'c' and isinstance(v[1], bool) and v[1] != pol:
                    continue
                s = self.implied(t[1], cp, n + 1) | self.implied(v, pol, n + 1)
                res = s if res is None else res & s
            return (res or frozenset()) | {(self.compact(t), pol)}
        if t[0] == 'b' and t[1] == '==':
            # comparing a joined value with a constant selects its alternatives
            for a, b in ((self.x(t[2]), t[3]), (self.x(t[3]), t[2])):
                if a[0] in ('phi', 'ret') and b[0] in ('c', 'e'):
                    res = None
                    for d, v in a[2]:
                        if v is None:
                            continue
                        if v[0] in ('c', 'e'):
                            if (v == b) != pol:
                                continue
                            s = d
                        else:
                            s = d | {self._pol(('b', '==', v, b), pol)}
                        res = s if res is None else res & s
                    return (res or frozenset()) | {(self.compact(t), pol)}
                if a[0] == 'cond' and b[0] in ('c', 'e'):
                    res = None
                    for cp, v in ((True, a[2]), (False, a[3])):
                        v = self.x(v)
                        s = self.implied(a[1], cp, n + 1)
                        if v[0] in ('c', 'e'):
                            if (v == b) != pol:
                                continue
                        else:
                            s = s | {self._pol(('b', '==', v, b), pol)}
                        res = s if res is None else res & s
                    return (res or frozenset()) | {(self.compact(t), pol)}
        return frozenset([(self.compact(t), pol)])

    def _pol(self, t, pol):
        t, p = self.norm(self.compact(t))
        return (self.compact(t), pol if p else not pol)

    def assume(self, st: State, term, pol: bool):
        t, p = self.norm(term)
        if t[0] == 'c':
            if bool(t[1]) != (pol if p else not pol):
                return None
            return st
        new = self.implied(term, pol)
        neg = False
        for (x, q) in new:
            if (x, not q) in st.facts:
                neg = True
                break
        if neg:
            return None
        facts = st.facts | new
        for f, _ in st.facts:
            if f[0] == 'imp' and (f[1], f[2]) in new:
                facts = facts | {(f[3], True)}
        return State(dict(st.env), facts)

    def holds(self, st: State, term, pol=True) -> bool:
        t, p = self.norm(term)
        if not p:
            pol = not pol
        if t[0] == 'c':
            return bool(t[1]) == pol
        return (t, pol) in st.facts or (self.compact(t), pol) in st.facts

    # -- locations -------------------------------------------------------------
    def resolve(self, st, loc):
        """Follows references."""
        n = 0
        while loc is not None and n < 20:
            r = st.env.get(('ref', loc))
            if r is None:
                break
            loc = r
            n += 1
        if loc is not None and loc[0] == 'phiref':
            return loc
        return loc

    def read(self, st: State, loc):
        if loc is None:
            return None
        loc = self.resolve(st, loc)
        if loc[0] == 'phiref':
            alts = tuple((frozenset(), self.read(st, l)) for l in loc[1])
            return ('phi', ('ref', loc), alts)
        v = st.env.get(loc)
        if v is not None:
            return v
        if loc == THIS:
            return THIS
        if loc[0] == 'f':
            base = loc[1]
            bt = self.read(st, base)
            return self.read_field(st, bt, loc[2])
        if loc[0] == 'acc':
            bt = self.read(st, loc[1])
            return ('call', loc[2], bt) + tuple(loc[3])
        if loc[0] == 'sub':
            bt = self.read(st, loc[1])
            return ('idx', bt, loc[2])
        if loc[0] == 'deref':
            t = loc[1]
            if t[0] == 'addr':
                return self.read(st, t[1])
            return ('deref', t)
        ver = st.env.get(('ver', loc))
        return ('val', loc, ver) if ver is not None else ('val', loc)

    def read_field(self, st, bt, name):
        return self.compact(self.read_field_(st, bt, name))

    def read_field_(self, st, bt, name):
        b0 = bt
        bt = self.x(bt)
        if bt[0] == 'val':
            loc = bt[1]
            cur = st.env.get(('ver', loc))
            if (len(bt) > 2 and bt[2] == cur) or (len(bt) == 2 and cur is None):
                v = st.env.get(('f', loc, name))
                if v is not None:
                    return v
        if bt[0] == 'zero':
            return ('zero', name)
        if bt[0] in ('phi', 'ret'):
            alts = tuple((d, self.read_field(st, v, name) if v is not None else None) for d, v in bt[2])
            if all(a[1] == alts[0][1] for a in alts):
                return alts[0][1] if alts[0][1] is not None else ('f', bt, name)
            return (bt[0], bt[1] + ('.' + name,), alts)
        if bt[0] == 'new' and name.isidentifier():
            v = self.new_field(bt, name)
            if v is not None:
                return v
        return ('f', b0, name)

    def new_field(self, t, name):
        """Field of an aggregate or simple constructor result, if known."""
        cls = t[1]
        if cls in ('std::pair', ) and name in ('first', 'second') and len(t) >= 4:
            return t[2] if name == 'first' else t[3]
        return None

    def bump(self, st: State, loc, node):
        """The object at loc may have been modified."""
        if loc is None:
            return
        loc = self.resolve(st, loc)
        if loc[0] == 'phiref':
            for l in loc[1]:
                self.bump(st, l, node)
            return
        root = loc
        while root[0] in ('acc', 'sub'):
            root = self.resolve(st, root[1])
            if root is None or root[0] == 'phiref':
                return
        s = self.site(node)
        v = st.env.get(root)
        for k in [k for k in st.env if _under(k, root)]:
            st.env[k] = ('m', s, k)
        if root[0] in ('v', 'f', 'o', 'deref', 'this') or v is not None:
            if root != THIS:
                st.env[root] = ('m', s, root)
            st.env[('ver', root)] = s
            # anything containing it
            p = root
            while p[0] == 'f':
                p = p[1]
                st.env[('ver', p)] = s
                if p in st.env and p != THIS:
                    st.env[p] = ('val', p, s)

    def write(self, st: State, loc, value, node):
        if loc is None:
            return
        loc = self.resolve(st, loc)
        if loc[0] == 'phiref':
            self.bump(st, loc, node)
            return
        if loc[0] in ('acc', 'sub'):
            return
        for k in [k for k in st.env if _under(k, loc)]:
            del st.env[k]
        st.env[loc] = value
        if value is not None and value[0] == 'val':
            self.copy_fields(st, value[1], loc)
        p = loc
        if p[0] == 'f':
            s = self.site(node)
            while p[0] == 'f':
                p = p[1]
                st.env[('ver', p)] = s

    def copy_fields(self, st, src, dst):
        for k in [k for k in st.env if _under(k, src)]:
            if k[0] == 'f':
                nk = _rebase(k, src, dst)
                st.env[nk] = st.env[k]

    # -- statements ------------------------------------------------------------
    def exec(self, s, st):
        if s is None or st is None:
            return st
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise StepLimit(self.stack[0].fn['q'])
        k = s['k']
        fr = self.stack[-1]
        if s.get('l'):
            fr.line = s['l']
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(s, st)
        return st

    def s_Seq(self, s, st):
        for c in s['s']:
            st = self.exec(c, st)
            if st is None:
                return None
        self.rule.on_seq_end(self, s, st)
        return st

    def s_Expr(self, s, st):
        t, _ = self.ev(s['e'], st)
        if t == NORETURN:
            return None
        return st

    def s_Null_(self, s, st):
        return st

    def s_Decl(self, s, st):
        for v in s['v']:
            if not self.decl(v, st):
                return None
        return st

    def decl(self, v, st) -> bool:
        fr = self.stack[-1]
        loc = ('v', v['id'], fr.ctx)
        # forget a previous instance (loop)
        st.env.pop(('ref', loc), None)
        for k in [k for k in st.env if _under(k, loc)]:
            del st.env[k]
        init = v.get('init')
        if init is None:
            st.env[loc] = ('uninit', self.site(v))
            self.rule.on_decl(self, v, loc, None, st)
            return True
        if v.get('ref'):
            t, l = self.ev(init, st)
            if t == NORETURN:
                return False
            if l is not None:
                st.env[('ref', loc)] = self.resolve(st, l)
            else:
                st.env[loc] = t
                self.own(st, loc, t)
        else:
            t, l = self.ev(init, st, target=loc)
            if t == NORETURN:
                return False
            if t != ('built',):
                st.env[loc] = t
                self.own(st, loc, t)
            else:
                t = ('val', loc)
        if v.get('static'):
            st.env[loc] = ('static', v['id'])
        for b in v.get('bind', ()):
            bl = ('v', b['id'], fr.ctx)
            base = self.resolve(st, loc)
            if v.get('ref') and base != loc:
                st.env[('ref', bl)] = ('f', base, '#%d' % b['i'])
                t0 = self.read(st, base)
                st.env.pop(bl, None)
                g = self.get_elem(t0, b['i'], st)
                if g is not None:
                    st.env.pop(('ref', bl))
                    st.env[bl] = g
            else:
                st.env.pop(('ref', bl), None)
                t0 = st.env.get(loc, ('val', loc))
                st.env[bl] = self.get_elem(t0, b['i'], st) or ('get', t0, b['i'])
        self.rule.on_decl(self, v, loc, t, st)
        return True

    def own(self, st, loc, t):
        if t is not None and t[0] == 'val' and t[1] != loc:
            self.copy_fields(st, t[1], loc)

    def get_elem(self, t, i, st):
        """i-th element of a pair/tuple/aggregate term."""
        if t is None:
            return None
        t = self.x(t)
        if t[0] == 'tuple':
            return t[1 + i] if 1 + i < len(t) else None
        if t[0] == 'new' and (t[1].startswith('std::tuple') or t[1].startswith('std::pair')):
            return t[2 + i] if 2 + i < len(t) else None
        if t[0] in ('phi', 'ret'):
            alts = []
            for d, v in t[2]:
                g = self.get_elem(v, i, st) if v is not None else None
                alts.append((d, g if g is not None else ('get', v, i)))
            if all(a[1] == alts[0][1] for a in alts):
                return alts[0][1]
            return self.compact((t[0], t[1] + ('#%d' % i,), tuple(alts)))
        return None

    def cond(self, e, st):
        """Evaluates a condition; returns (term, true state, false state)."""
        k = e['k']
        if k == 'Bin' and e['op'] in ('&&', '||'):
            ta, at, af = self.cond(e['a'], st)
            if e['op'] == '&&':
                if at is None:
                    return ta, None, af
                tb, bt, bf = self.cond(e['b'], at)
                return ('b', '&&', ta, tb), bt, self.either(self.join([af, bf], e), ('b', '&&', ta, tb), False)
            if af is None:
                return ta, at, None
            tb, bt, bf = self.cond(e['b'], af)
            return ('b', '||', ta, tb), self.either(self.join([at, bt], e), ('b', '||', ta, tb), True), bf
        if k == 'Un' and e['op'] == '!':
            t, a, b = self.cond(e['a'], st)
            return ('u', '!', t), b, a
        t, _ = self.ev(e, st)
        if t == NORETURN:
            return t, None, None
        a = self.assume(st, t, True)
        b = self.assume(st, t, False)
        if a is st:
            a = st.copy()
        if b is st:
            b = st.copy()
        return t, a, b

    def either(self, st, t, pol):
        """Keeps the disjunction that holds after a join, for the rules that reason on cases."""
        if st is None or not self.rule.disjunctions:
            return st
        return State(st.env, st.facts | {(self.compact(t), pol)})

    def s_If(self, s, st):
        if s.get('init'):
            st = self.exec(s['init'], st)
            if st is None:
                return None
        if s.get('cv_'):
            if not self.decl(s['cv_'], st):
                return None
        if s.get('cx'):
            # if constexpr: the discarded branch is absent from the dump
            c = s['c'].get('cv')
            if c is None:
                t, _ = self.ev(s['c'], st)
            if c is not None:
                return self.exec(s['a'] if c else s.get('b'), st)
        t, a, b = self.cond(s['c'], st)
        self.rule.on_branch(self, s, t, st)
        ra = self.exec(s['a'], a) if a is not None else None
        rb = self.exec(s.get('b'), b) if b is not None else None
        return self.join([ra, rb], s)

    def s_Return(self, s, st):
        fr = self.stack[-1]
        t = None
        l = None
        if s.get('e') is not None:
            t, l = self.ev(s['e'], st)
            if t == NORETURN:
                return None
        delta = st.facts - fr.entry_facts
        self.rule.on_return(self, s, t, st)
        fr.returns.append((delta, t, st, l, s))
        return None

    def s_Break(self, s, st):
        self.stack[-1].breaks[-1].append(st)
        return None

    def s_Continue(self, s, st):
        fr = self.stack[-1]
        fr.continues[-1].append(st)
        return None

    def s_Try(self, s, st):
        entry = st.copy()
        self.trystack.append((s, self.stack[-1], len(self.loopstack)))
        self.rule.on_try(self, s, st)
        try:
            out = self.exec(s['s'], st)
        finally:
            self.trystack.pop()
        # Handler entry: anything changed in the body is unknown.
        changed = State(dict(entry.env), entry.facts)
        probe = out if out is not None else st
        for k, v in probe.env.items():
            if k in entry.env and entry.env[k] != v:
                changed.env[k] = ('m', self.site(s), k) if k[0] != 'ref' else v
        outs = [out]
        for h in s['h']:
            hs = changed.copy()
            if h.get('v'):
                hs.env[('v', h['v']['id'], self.stack[-1].ctx)] = ('exc', self.site(s))
            self.rule.on_handler(self, s, h, hs)
            nret = len(self.stack[-1].returns)
            ho = self.exec(h['s'], hs)
            self.rule.on_handler_end(self, s, h, ho, self.stack[-1].returns[nret:])
            outs.append(ho)
        return self.join(outs, s)

    def s_Switch(self, s, st):
        if s.get('init'):
            st = self.exec(s['init'], st)
        t, _ = self.ev(s['c'], st)
        self.rule.on_switch(self, s, t, st)
        fr = self.stack[-1]
        fr.breaks.append([])
        body = s['s']['s'] if s['s']['k'] == 'Seq' else [s['s']]
        cur = None
        base = st
        taken = []
        has_default = False
        # default label: everything not matched elsewhere
        cases = []

        def labels(c):
            ls = []
            while c is not None and c['k'] in ('Case', 'Default'):
                ls.append(c)
                c = c['s']
            return ls, c

        for c in body:
            ls, _ = labels(c)
            for x in ls:
                if x['k'] == 'Case':
                    cases.append(x)
        rest = base
        for x in cases:
            ct, _ = self.ev(x['c'], base)
            if rest is not None:
                rest = self.assume(rest, self.simp(('b', '==', t, ct)), False)
        for c in body:
            ls, stmt = labels(c)
            if ls:
                entries = [cur]
                for x in ls:
                    if x['k'] == 'Case':
                        ct, _ = self.ev(x['c'], base)
                        a = self.assume(base, self.simp(('b', '==', t, ct)), True)
                        entries.append(a.copy() if a is not None else None)
                    else:
                        has_default = True
                        entries.append(rest.copy() if rest is not None else None)
                cur = self.join(entries, c)
                cur = self.exec(stmt, cur)
            else:
                cur = self.exec(c, cur)
        outs = [cur] + fr.breaks.pop()
        exhaustive = False
        if s.get('enum'):
            got = {x['c'].get('q') or _strip(x['c']).get('q') for x in cases}
            exhaustive = set(s['enum']) <= got
        if not has_default and not exhaustive:
            outs.append(rest)
        return self.join(outs, s)

    # -- loops -----------------------------------------------------------------
    def loop(self, s, st, cond, inc, body, header=None, pre=None):
        """cond/inc/body are AST parts; header is run at each iteration start."""
        fr = self.stack[-1]
        site = self.site(s)

        def once(entry, record):
            fr.breaks.append([])
            fr.continues.append([])
            self.loopstack.append((site, s))
            try:
                cur = entry
                ct = None
                if cond is not None:
                    ct, yes, no = self.cond(cond, cur)
                else:
                    yes, no = cur, None
                if header is not None and yes is not None:
                    yes = header(yes)
                if record is not None:
                    self.rule.on_loop_enter(self, s, site, ct, yes)
                end = self.exec(body, yes) if yes is not None else None
                conts = fr.continues.pop()
                end = self.join([end] + conts, s)
                if record is not None:
                    self.rule.on_loop_end(self, s, site, end, conts)
                if end is not None and inc is not None:
                    self.ev(inc, end)
            finally:
                self.loopstack.pop()
            brk = fr.breaks.pop()
            return ct, no, end, brk

        # 1. find what the loop changes (remembered per loop and context)
        def mods(end):
            new = set()
            if end is not None:
                for k, v in end.env.items():
                    if k in st.env:
                        if st.env[k] is not v and st.env[k] != v:
                            new.add(k)
                    elif k[0] in ('ver', 'f', 'deref', 'this'):
                        new.add(k)
            return new

        changed = self.loopmods.get(site)
        nret = len(fr.returns)
        if changed is None:
            changed = set()
            self.mute += 1
            try:
                for _ in range(3):
                    probe = st.copy()
                    for k in changed:
                        self._havoc(probe, k, site, st)
                    ct, no, end, brk = once(probe, None)
                    new = mods(end)
                    if new <= changed:
                        break
                    changed |= new
            finally:
                self.mute -= 1
            del fr.returns[nret:]
            self.loopmods[site] = changed
        for _ in range(3):
            head = st.copy()
            for k in changed:
                self._havoc(head, k, site, st)
            ct, no, end, brk = once(head, True)
            new = mods(end)
            if new <= changed:
                break
            changed |= new
            del fr.returns[nret:]
        # induction variables
        info = {'node': s, 'cond': ct, 'vars': {}, 'init': {}, 'brk': len(brk), 'ret': len(fr.returns) - nret}
        if end is not None:
            for k in changed:
                if k[0] == 'v' or k[0] == 'f':
                    info['vars'][k] = end.env.get(k)
                    info['init'][k] = st.env.get(k)
        self.loops[site] = info
        if not self.mute:
            self.rule.on_loop(self, s, site, info, end)
        if no is not None and end is not None and ct is not None:
            self.forall(no, end, head, ct, info, site)
        outs = [no] + brk
        if cond is None and header is not None:
            # range-for: may run zero times
            outs.append(head.copy() if end is None else self.join([head.copy(), end.copy()], s))
        res = self.join(outs, s)
        if res is not None and not self.mute:
            self.rule.on_loop_exit(self, s, site, info, res)
        return res

    def forall(self, no, end, head, ct, info, site):
        """Facts established by every iteration of a counting loop: for all i < n, atom(i)."""
        c, pol = self.norm(ct)
        c = self.x(c)
        if not pol or c[0] != 'b' or c[1] not in ('<', '=='):
            return
        h = self.x(c[2])
        if h[0] != 'loop' or h[1] != site:
            return
        k = h[2]
        i, v = info['init'].get(k), info['vars'].get(k)
        if i != ('c', 0) or v is None:
            return
        v = self.x(v)
        if not (v[0] == 'b' and v[1] == '+' and self.x(v[2]) == h and v[3] == ('c', 1)):
            return
        n = self.subst(c[3], h, site, None)
        if n is None:
            return
        new = set()
        for a, p in end.facts - head.facts:
            if not isinstance(a, tuple):
                continue
            y = self.subst(a, h, site, ('bv',))
            if y is not None and y != a and ('bv',) in list(self.subterms(y)):
                new.add((('forall', n, y, p), True))
        if new:
            no.facts = no.facts | new

    def subst(self, t, h, site, to, n=0):
        """t with h replaced, or None when t depends on anything else that changes between iterations."""
        if n > 12:
            return None
        t = self.x(t)
        if t == h:
            return to
        if t.__class__ is not tuple or not t:
            return t
        if t[0] in ('m', 'r', 'x', 'loop', 'lp', 'elem') or (t[0] == 'val' and len(t) > 2 and _at(t[2], site)):
            if t[0] in ('loop', 'lp') and t[1] != site:
                return t
            return None
        if t[0] in ('phi', 'ret'):
            return None
        out = []
        for x in t:
            if x.__class__ is tuple:
                x = self.subst(x, h, site, to, n + 1)
                if x is None:
                    return None
            out.append(x)
        return tuple(out)

    def _havoc(self, st, k, site, old):
        if k[0] == 'ver':
            st.env[k] = ('m', site, 'l')
        elif k[0] == 'ref':
            st.env[k] = ('phiref', (old.env.get(k, k), ('unk', site)))
        else:
            st.env[k] = ('loop', site, k, old.env.get(k))

    def s_For(self, s, st):
        if s.get('init'):
            st = self.exec(s['init'], st)
            if st is None:
                return None
        return self.loop(s, st, s.get('c'), s.get('inc'), s['s'])

    def s_While(self, s, st):
        return self.loop(s, st, s.get('c'), None, s['s'])

    def s_Do(self, s, st):
        # the body runs at least once; treat as while with unknown first test
        return self.loop(s, st, None, None, {'k': 'Seq', 'l': s['l'], 's': [s['s'], {
            'k': 'If', 'l': s['l'], 'c': s['c'], 'a': {'k': 'Null_', 'l': s['l']},
            'b': {'k': 'Break', 'l': s['l']}
        }]} if id(s) not in self._dos else self._dos[id(s)])

    _dos: dict = {}

    def s_RFor(self, s, st):
        if s.get('init'):
            st = self.exec(s['init'], st)
        rt, rl = self.ev(s['r'], st)
        if rt == NORETURN:
            return None
        v = s['v']
        fr = self.stack[-1]
        site = self.site(s)

        def header(cur):
            loc = ('v', v['id'], fr.ctx)
            cur = cur.copy()
            cur.env.pop(('ref', loc), None)
            elem = ('elem', rt, site)
            if v.get('ref') and rl is not None:
                cur.env[('ref', loc)] = ('sub', self.resolve(cur, rl), ('iter', site))
                cur.env[('sub', self.resolve(cur, rl), ('iter', site))] = elem
                base = ('sub', self.resolve(cur, rl), ('iter', site))
            else:
                cur.env[loc] = elem
                base = loc
            for b in v.get('bind', ()):
                bl = ('v', b['id'], fr.ctx)
                cur.env[bl] = ('get', elem, b['i'])
            self.range_loc = None if rl is None else self.resolve(cur, rl)
            self.rule.on_range(self, s, rt, cur)
            return cur

        return self.loop(s, st, None, None, s['s'], header=header)

    # -- expressions -------------------------------------------------------------
    def ev(self, e, st, target=None):
        """Returns (term, location or None)."""
        if e is None:
            return ('none',), None
        self.steps += 1
        if self.steps > self.MAXSTEPS:
            raise StepLimit(self.stack[0].fn['q'])
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            for c in e.get('a', ()) or ():
                if isinstance(c, dict):
                    self.ev(c, st)
            return ('x', self.site(e)), None
        t, l = m(e, st, target)
        return self.compact(t), l

    def e_Ref(self, e, st, target=None):
        d = e['d']
        if d in ('E', ):
            return ('e', e['q']), None
        if d == 'F':
            return ('fn', e['q'], e.get('id')), None
        if d == 'G':
            if e.get('cv') is not None and 'const' in e['t']:
                return ('c', e['cv']), ('g', e['q'])
            return ('g', e['q']), ('g', e['q'])
        loc = self.varloc(e['id'], st)
        if loc is None:
            if e.get('cv') is not None:
                return ('c', e['cv']), None
            return ('unk', e['id']), ('unkv', e['id'])
        return self.read(st, loc), self.resolve(st, loc)

    def varloc(self, vid, st):
        fr = self.stack[-1]
        loc = ('v', vid, fr.ctx)
        if loc in st.env or ('ref', loc) in st.env:
            return loc
        # captured variable
        cl = fr.fn.get('_closure')
        while cl is not None:
            if vid in cl.caps:
                return cl.caps[vid]
            cl = cl.frame
        return None

    def e_Mem(self, e, st, target=None):
        if e.get('meth'):
            bt, bl = self.ev(e['b'], st)
            return ('bound', e['q'], bt), None
        bt, bl = self.ev(e['b'], st)
        if bt == NORETURN:
            return NORETURN, None
        self.rule.on_member(self, e, bt, bl, st)
        if e.get('arrow'):
            if bt == THIS:
                bl = self.stack[-1].this
                loc = ('f', bl, e['n'])
            else:
                self.rule.on_deref(self, e, bt, st)
                if bt[0] == 'addr':
                    loc = ('f', bt[1], e['n'])
                else:
                    loc = ('f', ('deref', bt), e['n'])
        elif bl is not None:
            loc = ('f', bl, e['n'])
        else:
            return self.read_field(st, bt, e['n']), None
        return self.read(st, loc), self.resolve(st, loc)

    def e_This(self, e, st, target=None):
        this = self.stack[-1].this
        return (THIS if this == THIS else ('addr', this)), None

    def e_Int(self, e, st, target=None):
        return ('c', int(e['v'])), None

    def e_Flt(self, e, st, target=None):
        v = e['v']
        return ('c', v), None

    def e_Bool(self, e, st, target=None):
        return ('c', bool(e['v'])), None

    def e_Str(self, e, st, target=None):
        return ('c', e.get('v', '')), None

    def e_Chr(self, e, st, target=None):
        return ('c', e['v']), None

    def e_Null(self, e, st, target=None):
        return ('c', None), None

    def e_Zero(self, e, st, target=None):
        return ('zero', e['t']), None

    def e_SizeOf(self, e, st, target=None):
        return ('c', e.get('cv')), None

    def e_DefArg(self, e, st, target=None):
        return self.ev(e['e'], st)

    def e_Cast(self, e, st, target=None):
        t, l = self.ev(e['e'], st)
        if t == NORETURN:
            return t, None
        self.rule.on_cast(self, e, t, st)
        ck = e.get('ck')
        if ck in ('FloatingToIntegral', ):
            return ('trunc', t), None
        if ck in ('IntegralToFloating', 'IntegralCast', 'FloatingCast'):
            return t, None
        if ck in ('ToVoid', ):
            return ('void',), None
        return t, l

    def e_Un(self, e, st, target=None):
        op = e['op']
        if op in ('++', '--'):
            t, l = self.ev(e['a'], st)
            new = self.simp(('b', '+' if op == '++' else '-', t, ('c', 1)))
            self.rule.on_assign(self, e, l, t, new, st)
            self.write(st, l, new, e)
            return (t if e.get('post') else new), (None if e.get('post') else l)
        if op == '&':
            t, l = self.ev(e['a'], st)
            if t[0] == 'fn' or t[0] == 'bound':
                return t, None
            if l is not None:
                return ('addr', l), None
            return ('addrt', t), None
        if op == '*':
            t, l = self.ev(e['a'], st)
            if t == NORETURN:
                return t, None
            if t[0] == 'addr':
                return self.read(st, t[1]), t[1]
            if t == THIS:
                th = self.stack[-1].this
                return self.read(st, th), th
            self.rule.on_deref(self, e, t, st)
            loc = ('deref', t)
            return self.read(st, loc), loc
        if e.get('cv') is not None and op in ('-', '+', '~'):
            return ('c', e['cv']), None
        if op == '!':
            t, a, b = self.cond(e, st)
            return t, None
        t, _ = self.ev(e['a'], st)
        if t == NORETURN:
            return t, None
        if op == '-' and t[0] == 'c' and isinstance(t[1], (int, float)):
            return ('c', -t[1]), None
        if op == '+':
            return t, None
        return ('u', op, t), None

    def e_Bin(self, e, st, target=None):
        op = e['op']
        if op in ('&&', '||'):
            ta, a, b = self.cond(e['a'], st)
            if op == '&&':
                sub = a
            else:
                sub = b
            if sub is None:
                return ta, None
            before = dict(sub.env)
            tb, _ = self.ev(e['b'], sub)
            # effects of the right operand may or may not happen
            for k, v in sub.env.items():
                if before.get(k) != v and k in st.env:
                    st.env[k] = ('m', self.site(e), k) if k[0] != 'ref' else v
                elif k not in st.env:
                    st.env[k] = v
            return ('b', op, ta, tb), None
        if op == ',':
            self.ev(e['a'], st)
            return self.ev(e['b'], st)
        ta, _ = self.ev(e['a'], st)
        tb, _ = self.ev(e['b'], st)
        if ta == NORETURN or tb == NORETURN:
            return NORETURN, None
        if e.get('cv') is not None and not _nonconst(ta) and not _nonconst(tb):
            return ('c', e['cv'] if not e['t'] == 'bool' else bool(e['cv'])), None
        if e.get('cv') is not None and ta[0] == 'c' and tb[0] == 'c':
            return ('c', e['cv'] if not e['t'] == 'bool' else bool(e['cv'])), None
        t = self.simp(('b', op, ta, tb))
        self.rule.on_bin(self, e, t, st)
        return t, None

    def simp(self, t):
        op, a, b = t[1], t[2], t[3]
        if a[0] == 'c' and b[0] == 'c':
            x, y = a[1], b[1]
            if isinstance(x, (int, float)) and isinstance(y, (int, float)) and not isinstance(x, bool):
                try:
                    if op == '+':
                        return ('c', x + y)
                    if op == '-':
                        return ('c', x - y)
                    if op == '*':
                        return ('c', x * y)
                    if op == '<':
                        return ('c', x < y)
                    if op == '>':
                        return ('c', x > y)
                    if op == '<=':
                        return ('c', x <= y)
                    if op == '>=':
                        return ('c', x >= y)
                    if op == '==':
                        return ('c', x == y)
                    if op == '!=':
                        return ('c', x != y)
                except OverflowError:
                    pass
        if op == '==' and a[0] == 'e' and b[0] == 'e':
            return ('c', a == b)
        if op == '!=' and a[0] == 'e' and b[0] == 'e':
            return ('c', a != b)
        if op == '+' and b == ('c', 0):
            return a
        if op == '+' and a == ('c', 0):
            return b
        if op == '-' and b == ('c', 0):
            return a
        # (x + c1) - c2 and friends
        if op in ('+', '-') and b[0] == 'c' and isinstance(b[1], int) and a[0] == 'b' and a[1] in ('+', '-') \
                and a[3][0] == 'c' and isinstance(a[3][1], int):
            n = (a[3][1] if a[1] == '+' else -a[3][1]) + (b[1] if op == '+' else -b[1])
            if n == 0:
                return a[2]
            return ('b', '+', a[2], ('c', n)) if n > 0 else ('b', '-', a[2], ('c', -n))
        if op == '+' and a[0] == 'c' and b[0] != 'c':
            return ('b', '+', b, a)
        return t

    def e_Assign(self, e, st, target=None):
        op = e['op']
        tb, lb = self.ev(e['b'], st)
        if tb == NORETURN:
            return tb, None
        ta, la = self.ev_lhs(e['a'], st)
        if op == '=':
            new = tb
        else:
            new = self.simp(('b', op[:-1], ta, tb))
        self.rule.on_assign(self, e, la, ta, new, st)
        self.write(st, la, new, e)
        return new, la

    def ev_lhs(self, e, st):
        self.rule.lhs += 1
        try:
            return self.ev(e, st)
        finally:
            self.rule.lhs -= 1

    def e_Cond(self, e, st, target=None):
        t, a, b = self.cond(e['c'], st)
        if a is None and b is None:
            return NORETURN, None
        va = vb = None
        la = lb = None
        if a is not None:
            va, la = self.ev(e['a'], a)
            if va == NORETURN:
                a = None
        if b is not None:
            vb, lb = self.ev(e['b'], b)
            if vb == NORETURN:
                b = None
        if a is None and b is None:
            return NORETURN, None
        j = self.join([a, b], e)
        st.env.clear()
        st.env.update(j.env)
        st.facts = j.facts if (a is None or b is None) else st.facts | j.facts
        if a is None:
            return vb, lb
        if b is None:
            return va, la
        if va == vb:
            return va, (la if la == lb else None)
        loc = None
        if la is not None and lb is not None:
            loc = la if la == lb else ('phiref', (la, lb))
        return ('cond', t, va, vb), loc

    def e_Sub(self, e, st, target=None):
        a, la = self.ev(e['a'], st)
        b, _ = self.ev(e['b'], st)
        if a == NORETURN or b == NORETURN:
            return NORETURN, None
        self.rule.on_index(self, e, a, (b,), st, la)
        loc = ('sub', la, b) if la is not None else None
        return ('idx', a, b), loc

    def e_Init(self, e, st, target=None):
        ts = []
        for c in e['a']:
            t, _ = self.ev(c, st)
            if t == NORETURN:
                return t, None
            ts.append(t)
        if len(ts) == 1 and not (e['t'].startswith('std::') or '[' in e['t']):
            return ts[0], None
        # aggregate of a repository class
        rec = self.record(e['t'])
        if rec is not None and target is not None:
            for f, t in zip(rec['f'], ts):
                st.env[('f', target, f['n'])] = t
            st.env[('ver', target)] = self.site(e)
            st.env[target] = ('val', target, st.env[('ver', target)])
            return ('built',), target
        if rec is not None:
            loc = ('o', self.site(e))
            for f, t in zip(rec['f'], ts):
                st.env[('f', loc, f['n'])] = t
            st.env[('ver', loc)] = self.site(e)
            return ('val', loc, st.env[('ver', loc)]), loc
        return ('tuple',) + tuple(ts), None

    def record(self, t: str):
        t = strip_ref(t)
        if t.startswith('const '):
            t = t[6:]
        if not hasattr(self, '_rec'):
            self._rec = {}
            for rs in self.f.recs.values():
                for r in rs:
                    self._rec[r['t']] = r
        return self._rec.get(t)

    def e_Throw(self, e, st, target=None):
        t = None
        if e.get('e') is not None:
            t, _ = self.ev(e['e'], st)
        self.rule.on_throw(self, e, t, st)
        return NORETURN, None

    def e_Lambda(self, e, st, target=None):
        fr = self.stack[-1]
        caps = {}
        thiscap = None
        for c in e['caps']:
            if c.get('this'):
                thiscap = c
                continue
            if c.get('init') is not None:
                t, l = self.ev(c['init'], st)
                loc = ('cap', self.site(e), c['id'])
                st.env[loc] = t
                caps[c['id']] = loc
                continue
            loc = self.varloc(c['id'], st)
            if loc is None:
                continue
            if c['ref']:
                caps[c['id']] = self.resolve(st, loc) if ('ref', loc) in st.env else loc
            else:
                nl = ('cap', self.site(e), c['id'])
                t = self.read(st, loc)
                st.env[nl] = t
                self.own(st, nl, t)
                caps[c['id']] = nl
        cl = Closure(e, self.site(e), caps, fr.fn.get('_closure'))
        key = ('lam', self.site(e))
        self.closures[key] = (cl, fr)
        self.rule.on_lambda(self, e, key, st)
        return key, None

    def e_New(self, e, st, target=None):
        if e.get('n'):
            self.ev(e['n'], st)
        t, _ = self.ev(e.get('e'), st)
        if t == NORETURN:
            return t, None
        return ('heap', self.site(e), t), None

    def e_Delete(self, e, st, target=None):
        self.ev(e.get('e'), st)
        return ('void',), None

    # -- constructors -------------------------------------------------------------
    def e_Ctor(self, e, st, target=None):
        args = []
        locs = []
        for a in e['a']:
            t, l = self.ev(a, st)
            if t == NORETURN:
                return t, None
            args.append(t)
            locs.append(l)
        self.rule.on_ctor(self, e, args, locs, st)
        if (e.get('copy') or e.get('move')) and len(args) == 1:
            return args[0], locs[0] if e.get('move') else None
        cls = e['cls']
        fn = self.lookup(e)
        if fn is not None and fn.get('kind') == 'ctor' and self.may_inline(fn) and self.rule.inline(self, e, fn):
            loc = target if target is not None else ('o', self.site(e))
            for k in [k for k in st.env if _under(k, loc)]:
                del st.env[k]
            st.env[('ver', loc)] = self.site(e)
            r = self.call_fn(e, fn, args, locs, st, this=loc)
            if r == NORETURN:
                return NORETURN, None
            v = ('val', loc, st.env.get(('ver', loc)))
            st.env[loc] = v
            return (('built',) if target is not None else v), loc
        if cls.startswith('std::optional') and len(args) == 1:
            if e['pt'] and 'nullopt' in e['pt'][0]:
                return ('nullopt',), None
            return ('some', args[0]), None
        if cls == 'std::optional' and not args:
            return ('nullopt',), None
        if cls in ('std::function', 'std::basic_string_view') and len(args) == 1:
            return args[0], None
        if cls in ('std::basic_string',) and len(args) >= 1 and args[0][0] == 'c':
            return args[0], None
        if cls == 'std::exception_ptr' or cls.endswith('exception_ptr'):
            if not args or args[0] == ('c', None):
                return ('c', None), None
        self.escape(e, args, locs, st)
        if cls in ('std::pair', 'std::tuple'):
            return ('tuple',) + tuple(args), None
        return ('new', cls) + tuple(args), None

    def ctor_inits(self, fn, st, this):
        for i in fn.get('inits', ()):
            if 'm' in i:
                loc = ('f', this, i['m'])
                t, l = self.ev(i['e'], st, target=loc)
                if t == ('built',):
                    continue
                if t == NORETURN:
                    continue
                st.env[loc] = t
                self.own(st, loc, t)
                self.rule.on_member_init(self, fn, i, t, st)
            elif 'base' in i or 'deleg' in i:
                e = i['e']
                if e and e['k'] == 'Ctor':
                    args, locs = [], []
                    for a in e['a']:
                        t, l = self.ev(a, st)
                        args.append(t)
                        locs.append(l)
                    g = self.lookup(e)
                    self.rule.on_base_init(self, fn, i, e, args, st)
                    if g is not None and self.may_inline(g):
                        self.call_fn(e, g, args, locs, st, this=this)
                    elif g is None and args:
                        st.env[('f', this, '#base')] = ('new', e.get('cls', '')) + tuple(args)

    # -- calls ---------------------------------------------------------------------
    def lookup(self, e):
        fid = e.get('fid')
        vs = self.f.funcs.get(fid)
        if not vs:
            return None
        if len(vs) == 1:
            return vs[0]
        pt = e.get('pt', [])
        cands = [v for v in vs if [p['t'] for p in v['p']] == pt]
        if len(cands) == 1:
            return cands[0]
        cands = cands or vs
        if e.get('ta') and len(cands) > 1:
            ta = [str(x) for x in e['ta']]
            c2 = [v for v in cands if v.get('targs') and _targs(v['targs']) == ta]
            if c2:
                cands = c2
        if e.get('obj') is not None and len(cands) > 1:
            ot = strip_ref(e['obj'].get('t', ''))
            if ot.endswith('*'):
                ot = ot[:-1].strip()
            if ot.startswith('const '):
                ot = ot[6:]
            c2 = [v for v in cands if v.get('clst') == ot]
            if c2:
                cands = c2
            else:
                rec = self.record(ot)
                if rec is not None:
                    c2 = [v for v in cands if v.get('clst') in rec['b']]
                    if c2:
                        cands = c2
        if e['k'] == 'Call' and e.get('obj') is None and len(cands) > 1:
            c2 = [v for v in cands if v.get('ret') == e.get('t')]
            if c2:
                cands = c2
        if e['k'] == 'Ctor' and len(cands) > 1:
            c2 = [v for v in cands if v.get('clst') == strip_ref(e['t']).replace('const ', '', 1)]
            if c2:
                cands = c2
        return cands[0]

    def may_inline(self, fn) -> bool:
        if fn.get('body') is None:
            return False
        if len(self.stack) > self.MAXDEPTH:
            return False
        for fr in self.stack:
            if fr.fn is fn or fr.fn.get('id') == fn.get('id') and fn.get('kind') != 'lambda' and \
                    len(fr.fn['p']) == len(fn['p']):
                return False
        return True

    def e_Call(self, e, st, target=None):
        self.ncalls += 1
        fn = e.get('fn', '')
        short = fn.rsplit('::', 1)[-1] if not fn.startswith('operator') else fn
        obj = oloc = None
        # structural operators first
        if e.get('obj') is not None:
            obj, oloc = self.ev(e['obj'], st)
            if obj == NORETURN:
                return obj, None
            if e.get('arrow') and obj == THIS:
                oloc = self.stack[-1].this
                obj = self.read(st, oloc)
            elif e.get('arrow'):
                if obj[0] == 'addr':
                    oloc = obj[1]
                    obj = self.read(st, oloc)
                else:
                    self.rule.on_deref(self, e, obj, st)
                    oloc = ('deref', obj)
                    obj = self.read(st, oloc)
        ce = None
        if 'fn' not in e and e.get('ce') is not None:
            ce, _ = self.ev(e['ce'], st)
        args, locs = [], []
        for a in e['a']:
            t, l = self.ev(a, st)
            if t == NORETURN:
                return t, None
            args.append(t)
            locs.append(l)
        op = e.get('op')
        r = self.rule.on_call(self, e, fn, obj, oloc, args, locs, st)
        if r is not None:
            return r
        # optional / iterator / pointer access
        if op in ('*', '->') and obj is not None and not args:
            if obj[0] == 'addr':
                return self.read(st, obj[1]), obj[1]
            if obj[0] == 'some':
                return obj[1], None
            self.rule.on_deref(self, e, obj, st)
            if op == '->':
                return ('ptr', obj) if obj[0] != 'addr' else obj, None
            loc = ('deref', obj)
            return self.read(st, loc), loc
        if op in ('==', '!=', '<', '>', '<=', '>=') and (len(args) == 2 or (obj is not None and len(args) == 1)) \
                and not (e.get('repo') and self.lookup(e) is not None and self.rule.inline_ops):
            a, b = (args[0], args[1]) if obj is None else (obj, args[0])
            return ('b', op, a, b), None
        if op in ('+', '-', '*', '/', '%') and not e.get('repo') and (len(args) == 2 or
                                                                      (obj is not None and len(args) == 1)):
            a, b = (args[0], args[1]) if obj is None else (obj, args[0])
            return self.simp(('b', op, a, b)), None
        if op == '=' and obj is not None and len(args) == 1 and not (e.get('repo') and self.lookup(e) is not None):
            val = args[0]
            self.rule.on_assign(self, e, oloc, obj, val, st)
            if oloc is not None:
                ol = self.resolve(st, oloc)
                if ol[0] in ('acc', 'sub'):
                    pass
                else:
                    self.write(st, oloc, val, e)
                    self.own(st, ol, val)
            return val, oloc
        if op in ('()', '[]') and obj is not None and obj[0] == 'lam':
            return self.call_lambda(e, obj, args, locs, st)
        if ce is not None and ce[0] == 'lam':
            return self.call_lambda(e, ce, args, locs, st)
        if op == '()' and obj is not None and obj[0] in ('phi',) and all(v and v[0] == 'lam' for _, v in obj[2]):
            return ('r', self.site(e)), None
        if op in ('()', '[]') and obj is not None and not (e.get('repo') and self.lookup(e) is not None):
            # the call of a function object, or an element access
            if _is_callable_type(e['obj'].get('t', '')):
                self.escape(e, args, locs, st)
                return ('r', self.site(e)), None
            self.rule.on_index(self, e, obj, tuple(args), st, oloc)
            loc = ('sub', oloc, args[0] if len(args) == 1 else tuple(args)) if oloc is not None else None
            return (('idx', obj) + tuple(args)), loc
        if e.get('conv') and short == 'operator bool':
            return ('has', obj), None
        if short == 'has_value' and not args:
            return ('has', obj), None
        if short == 'value' and fn.startswith('std::optional') and not args:
            return ('deref', obj) if obj[0] != 'some' else obj[1], (('deref', obj))
        if fn == 'std::get' and len(args) == 1 and e.get('ta'):
            ix = next((x for x in e['ta'] if isinstance(x, str) and x.isdigit()), None)
            if ix is not None:
                g = self.get_elem(args[0], int(ix), st)
                if g is not None:
                    return g, None
                return ('get', args[0], int(ix)), (('f', locs[0], '#' + ix) if locs[0] is not None else None)
        if fn == 'boost::geometry::get' and args and e.get('ta') and str(e['ta'][0]).isdigit():
            ix, t0 = int(e['ta'][0]), self.x(args[0])
            if t0[0] == 'val' and locs[0] is not None:
                t0 = self.x(st.env.get(('f', self.resolve(st, locs[0]), '#base'), t0))
            if t0[0] == 'new' and '::point' in t0[1] and 2 + ix < len(t0):
                return t0[2 + ix], None
            return ('get', t0, ix), None
        if fn in ('std::make_tuple', 'std::make_pair', 'std::tie', 'std::forward_as_tuple'):
            return ('tuple',) + tuple(args), None
        if fn in ('std::move', 'std::forward', 'std::ref', 'std::cref', 'std::as_const') and len(args) == 1:
            return args[0], locs[0]
        if fn == 'std::make_exception_ptr' or fn == 'std::current_exception':
            return ('exc', self.site(e)), None
        if fn in ('std::rethrow_exception', 'std::terminate', 'std::abort', 'std::exit'):
            self.rule.on_throw(self, e, args[0] if args else None, st)
            return NORETURN, None
        g = self.lookup(e)
        virt = e.get('virt') and not e.get('nonvirt')
        if g is not None and not virt and self.may_inline(g) and self.rule.inline(self, e, g):
            this = None
            if g['kind'] == 'method' and not g.get('static'):
                this = oloc
                if this is None:
                    this = ('o', self.site(e))
                    st.env[this] = obj if obj is not None else ('x', self.site(e))
                    self.own(st, this, obj)
            r = self.call_fn(e, g, args, locs, st, this=this)
            if r == NORETURN:
                return NORETURN, None
            return r
        if g is not None:
            self.rule.on_opaque(self, e, g, st)
        # opaque call
        pure = True
        if e.get('obj') is not None and not e.get('cm') and not e.get('sm'):
            if short not in ACCESSORS and not (op and op in ('[]', '()', '*', '->')):
                pure = False
        for i, t in enumerate(e.get('pt', [])):
            if i < len(locs) and is_mutref(t) and locs[i] is not None:
                pure = pure and _const_like(e, t)
        lam = any(a and a[0] == 'lam' for a in args)
        if fn in NO_EFFECT:
            return ('call', fn) + tuple(args), None
        self.escape(e, args, locs, st)
        if not pure and e.get('obj') is not None and not e.get('cm') and oloc is not None:
            self.rule.on_mutate(self, e, oloc, obj, st)
            self.bump(st, oloc, e)
        if lam:
            return ('r', self.site(e)), None
        name = fn
        if pure:
            t = ('call', name) + ((obj,) if obj is not None else ()) + tuple(args)
            loc = None
            if oloc is not None and (short in ACCESSORS or op in ('[]', '()')):
                loc = ('acc', oloc, name, tuple(args))
            return t, loc
        return ('r', self.site(e), name), None

    def escape(self, e, args, locs, st):
        """Objects passed by mutable reference or pointer to unknown code."""
        for i, t in enumerate(e.get('pt', [])):
            if i >= len(args):
                break
            if args[i] and args[i][0] == 'lam':
                self.lambda_escapes(e, args[i], st)
                continue
            if is_mutref(t):
                if _const_like(e, t):
                    continue
                loc = locs[i]
                if args[i][0] == 'addr':
                    loc = args[i][1]
                if loc is not None:
                    self.rule.on_mutate(self, e, loc, args[i], st)
                    self.bump(st, loc, e)

    def lambda_escapes(self, e, lam, st):
        """A closure handed to code that is not analysed: analyse its body once with unknown arguments."""
        got = self.closures.get(lam)
        if got is None:
            return
        cl, fr = got
        if not self.rule.enter_lambda(self, e, lam, st):
            return
        args = []
        spec = cl.node['specs'][0] if cl.node['specs'] else None
        if spec is None:
            return
        if any(f.fn.get('_lam') is cl.node for f in self.stack):
            return
        for i, p in enumerate(spec['p']):
            args.append(('lp', self.site(cl.node), p['n'], i))
        # it may run zero or more times
        before = st.copy()
        self.call_lambda(e, lam, args, [None] * len(args), st)
        j = self.join([before, st.copy()], e)
        st.env.clear()
        st.env.update(j.env)
        st.facts = j.facts

    def call_lambda(self, e, lam, args, locs, st):
        cl, fr = self.closures[lam]
        node = cl.node
        if not node['specs']:
            return ('r', self.site(e)), None
        if len(self.stack) > self.MAXDEPTH or any(f.fn.get('_lam') is node for f in self.stack):
            return ('r', self.site(e)), None
        spec = node['specs'][0]
        if len(node['specs']) > 1:
            pt = e.get('pt')
            for s in node['specs']:
                if pt and [p['t'] for p in s['p']] == pt:
                    spec = s
        fn = {
            'kind': 'lambda', 'q': fr.fn.get('q', '') + '::(lambda)', 'n': '(lambda)', 'file': node['file'],
            'l': node['l'], 'p': spec['p'], 'body': spec['body'], 'ret': spec['ret'], 'id': None, '_closure': cl,
            '_lam': node, 'el': spec.get('el', 0)
        }
        r = self.call_fn(e, fn, args, locs, st, this=fr.this)
        if r == NORETURN:
            return NORETURN, None
        return r

    def call_fn(self, e, fn, args, locs, st: State, this=None):
        """Analyses the body of fn in the current context; updates st."""
        ctx = (self.site(e)[0],) + (self.stack[-1].ctx if self.stack else ())
        fr = Frame(fn, ctx, this, e, len(self.stack))
        self.inlined.add(fn.get('id') or id(fn))
        for i, p in enumerate(fn['p']):
            loc = ('v', p['id'], ctx)
            for k in [k for k in st.env if _under(k, loc)]:
                del st.env[k]
            st.env.pop(('ref', loc), None)
            a = args[i] if i < len(args) else ('x', self.site(e), i)
            t = p['t'].strip()
            if t.endswith('&') and i < len(locs) and locs[i] is not None:
                st.env[('ref', loc)] = self.resolve(st, locs[i])
                st.env.pop(loc, None)
            else:
                st.env[loc] = a
                self.own(st, loc, a)
        self.stack.append(fr)
        saved_try = None
        work = State(st.env, st.facts)
        fr.entry_facts = st.facts
        self.rule.on_enter(self, e, fn, work)
        if fn.get('kind') == 'ctor':
            self.ctor_inits(fn, work, this)
        out = self.exec(fn['body'], work)
        if out is not None:
            fr.returns.append((out.facts - fr.entry_facts, None, out, None, None))
        self.stack.pop()
        rets = fr.returns
        self.rule.on_leave(self, e, fn, rets)
        if not rets:
            return NORETURN
        j = self.join([r[2] for r in rets], e) if len(rets) > 1 else rets[0][2]
        if len(rets) == 1:
            t, l = rets[0][1], rets[0][3]
        else:
            common = j.facts
            alts = tuple((r[2].facts - common, r[1]) for r in rets)
            if all(a[1] == alts[0][1] for a in alts):
                t = alts[0][1]
            else:
                t = self.compact(('ret', self.site(e), alts))
            ls = [r[3] for r in rets]
            l = ls[0] if all(x == ls[0] for x in ls) else None
        facts = j.facts
        if st.env is not j.env:
            env = dict(j.env)
            st.env.clear()
            st.env.update(env)
        st.facts = facts
        if not fn['ret'].rstrip().endswith('&'):
            l = None
        return (t if t is not None else ('void',)), l


def _at(ver, site):
    return ver.__class__ is tuple and len(ver) > 1 and (ver[0] == 'm' or ver[1] != site[1])


_MISSING = ('missing',)
NORETURN = ('noreturn',)


class StepLimit(Exception):
    pass


def _strip(e):
    while e is not None and e['k'] in ('Cast', 'DefArg'):
        e = e['e']
    return e


def _targs(s):
    return [re.sub(r'^(-?\d+)[UL]+$', r'\1', x.strip()) for x in s.split(';') if x.strip()]


def _nonconst(t):
    return t[0] in ('loop', )


def _const_like(e, t: str) -> bool:
    """Library functions that take a mutable reference without writing through it."""
    fn = e.get('fn', '')
    if e.get('cls') in ('std::thread', 'std::jthread', 'std::pair', 'std::tuple', 'std::lock_guard', 'std::unique_lock',
                        'std::scoped_lock', 'std::shared_lock'):
        return True
    s = fn.rsplit('::', 1)[-1]
    return s in ('begin', 'end', 'data', 'get', 'move', 'forward', 'ref', 'make_tuple', 'tie', 'make_pair', 'isnan', 'size',
                 'make_shared', 'make_unique', 'emplace', 'emplace_back', 'push_back', 'dynamic_pointer_cast',
                 'addressof', 'as_const')


_CALL = ('std::function', )


def _is_callable_type(t: str) -> bool:
    t = strip_ref(t)
    if t.startswith('const '):
        t = t[6:]
    return t.startswith('std::function') or '(lambda' in t or t.endswith(')') or '(*)' in t


def _under(k, loc) -> bool:
    """Is k a location strictly inside loc?"""
    if k[0] in ('ver', 'ref'):
        k2 = k[1]
        if k2 == loc:
            return False
        return _under(k2, loc)
    while k[0] in ('f', 'acc', 'sub'):
        k = k[1]
        if k is None:
            return False
        if k == loc:
            return True
    return False


def _rebase(k, src, dst):
    if k == src:
        return dst
    return (k[0], _rebase(k[1], src, dst)) + tuple(k[2:])


LIM = 5


def _deep(t, n) -> bool:
    """Is the term nested deeper than n levels?"""
    if n <= 0:
        return True
    for x in t:
        if x.__class__ is tuple:
            if x and x[0] == 'n':
                continue
            if _deep(x, n - 1):
                return True
        elif x.__class__ is frozenset:
            if x:
                if len(x) > 3:
                    return True
                for y in x:
                    if _deep(y, n - 1):
                        return True
    return False


class Rule:
    """Callbacks of the engine; a rule overrides what it needs."""
    inline_ops = True
    disjunctions = False

    def __init__(self):
        self.engine: Engine | None = None
        self.lhs = 0

    def inline(self, eng, e, fn):
        return True

    def enter_lambda(self, eng, e, lam, st):
        return True

    def on_call(self, eng, e, fn, obj, oloc, args, locs, st):
        return None

    def _nop(self, *a, **k):
        return None

    on_index = on_deref = on_assign = on_throw = on_return = on_branch = on_loop = on_loop_enter = on_loop_end = _nop
    on_decl = on_ctor = on_lambda = on_try = on_handler = on_switch = on_range = on_cast = on_bin = on_member = _nop
    on_seq_end = on_loop_exit = on_handler_end = on_member_init = on_base_init = on_opaque = on_mutate = on_enter = on_leave = on_exit = _nop


def walk(n):
    """Every dict node below n (n included)."""
    stack = [n]
    while stack:
        x = stack.pop()
        if isinstance(x, dict):
            yield x
            for v in x.values():
                if isinstance(v, (dict, list)):
                    stack.append(v)
        elif isinstance(x, list):
            for v in x:
                if isinstance(v, (dict, list)):
                    stack.append(v)


def subterms(t):
    stack = [t]
    seen = set()
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if id(x) in seen:
                continue
            seen.add(id(x))
            yield x
            for v in x:
                if isinstance(v, (tuple, frozenset)):
                    stack.append(v)
        elif isinstance(x, frozenset):
            for v in x:
                stack.append(v)


def show(t, n=0, eng=None) -> str:
    """Readable form of a term."""
    if eng is not None:
        t = eng.x(t)
    if not isinstance(t, tuple) or not t:
        return str(t)
    if n > 6:
        return '...'
    k = t[0]
    if k == 'c':
        return repr(t[1])
    if k == 'e':
        return str(t[1]).rsplit('::', 1)[-1]
    if k == 'p':
        return t[1]
    if k == 'lp':
        return str(t[2])
    if k == 'this':
        return 'this'
    if k == 'f':
        return show(t[1], n + 1, eng) + '.' + str(t[2])
    if k == 'call':
        return t[1].rsplit('::', 1)[-1] + '(' + ', '.join(show(x, n + 1, eng) for x in t[2:]) + ')'
    if k == 'idx':
        return show(t[1], n + 1, eng) + '[' + ', '.join(show(x, n + 1, eng) for x in t[2:]) + ']'
    if k == 'b':
        return '(' + show(t[2], n + 1, eng) + ' ' + t[1] + ' ' + show(t[3], n + 1, eng) + ')'
    if k == 'u':
        return t[1] + show(t[2], n + 1, eng)
    if k == 'get':
        return show(t[1], n + 1, eng) + '#' + str(t[2])
    if k in ('deref', 'has', 'some', 'trunc', 'ptr'):
        return k + '(' + show(t[1], n + 1, eng) + ')'
    if k in ('phi', 'ret'):
        return k + '{' + ' | '.join(show(v, n + 1, eng) if v else 'void' for _, v in t[2]) + '}'
    if k == 'loop':
        nm = t[2]
        while isinstance(nm, tuple) and len(nm) > 1 and nm[0] != 'v':
            nm = nm[1] if nm[0] != 'f' else ('v', str(nm[2]))
        return 'loop:' + str(nm[1] if isinstance(nm, tuple) and len(nm) > 1 else nm).rsplit(':', 1)[-1]
    if k in ('val', 'm', 'r', 'x'):
        x = t[1]
        if k == 'val':
            while isinstance(x, tuple) and x and x[0] == 'f':
                return 'val:' + str(x[2])
            if isinstance(x, tuple) and x and x[0] == 'v':
                return x[1].rsplit(':', 1)[-1]
        return k
    if k in ('new', 'tuple'):
        return k + '(' + ', '.join(show(x, n + 1, eng) for x in t[1:]) + ')'
    if k == 'cond':
        return '(' + show(t[1], n + 1, eng) + ' ? ' + show(t[2], n + 1, eng) + ' : ' + show(t[3], n + 1, eng) + ')'
    return str(k)
