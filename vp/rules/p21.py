"""P21: the precision of a geohash code is in range wherever it is used.

The entry points of the geohash modules are executed symbolically. At every shift of an integer by an amount that is not a constant, the facts
known on the path must imply, by linear arithmetic, that the amount is in [0, 63]; what an entry point accepts without an error must be in the
documented range; and what is written in the memory of the resulting codes must fit what was allocated.
"""
from ..bindings import read
from ..engine import Rule, State, THIS, walk
from ..extent import sname
from ..flow import plain
from ..linear import ONE, add, facts_rows, form, prove, scale

ALPHABET = '0123456789bcdefghjkmnpqrstuvwxyz'
LONGEST = 12      # characters of a code held by 64 bits
RANGES = {'int64': (1, 64), 'string': (1, 12), 'class': (0, 12)}


def place(fn):
    f = fn['file']
    return f"{f if f.startswith('src/') else 'src/pyinterp/core/' + f}:{fn['l']}"


def in_geohash(where):
    return 'geohash' in where


class P21(Rule):
    inline_ops = True
    disjunctions = True

    def __init__(self):
        super().__init__()
        self.obs = []
        self.codes = []       # lengths of the codes of the GeoHash that are built
        self.chars = None     # characters per item of the array being filled
        self.sure = 0

    # -- what is known of the values that are not arithmetic ----------------------
    def bounds(self, eng, t, n=0):
        """Linear constraints satisfied by an atom, and by the atoms they introduce."""
        t = eng.x(t)
        rows = [{t: 1}] if self.natural(eng, t) else []
        if n > 3:
            return rows
        if t[0] == 'get' or t[0] == 'item':
            pass
        d = self.decoded(eng, t)
        if d is not None:
            rows.append({t: 1})
            lim = self.lin(eng, d)
            rows.append(add(lim, {t: 1}, -1))
            for a in lim:
                if a != ONE and a != t:
                    rows += self.bounds(eng, a, n + 1)
        if t[0] == 'call' and sname(str(t[1])) in ('find', 'find_if') and len(t) >= 4:
            # find(first, last, x) is in [first, last]
            lo, hi = self.lin(eng, t[2]), self.lin(eng, t[3])
            rows += [add({t: 1}, lo, -1), add(hi, {t: 1}, -1)]
            for a in set(lo) | set(hi):
                if a != ONE and a != t:
                    rows += self.bounds(eng, a, n + 1)
        if t[0] == 'call' and sname(str(t[1])) in ('strnlen', 'strnlen_s') and len(t) == 4:
            lim = self.lin(eng, t[3])
            rows += [{t: 1}, add(lim, {t: 1}, -1)]
            for a in lim:
                if a != ONE and a != t:
                    rows += self.bounds(eng, a, n + 1)
        if self.stride(eng, t):
            rows.append({t: 1, ONE: -1})
        if self.code_length(eng, t):
            rows += [{t: 1}, {t: -1, ONE: LONGEST}]
        return rows

    def natural(self, eng, t):
        if t[0] == 'p' and getattr(self, 'unsigned', None) and t[1] in self.unsigned:
            return True
        return t[0] == 'call' and sname(str(t[1])) in ('size', 'length')

    def decoded(self, eng, t):
        """The number of characters that Base32::decode has read: the term of its limit."""
        if t[0] in ('tget', 'elem', 'get') or t[0] == 'f' or t[0] == 'i':
            for x in t[1:]:
                if isinstance(x, tuple):
                    x = eng.x(x)
                    if x[0] == 'call' and sname(str(x[1])) == 'decode' and len(x) >= 5 and (1 in t or '1' in t or ('c', 1) in t):
                        return x[-1]
        return None

    def stride(self, eng, t):
        """The length of the strings of a numpy array (kind 'S'), at least one byte."""
        if t[0] not in ('elem', 'index', 'at', 'i'):
            return False
        b = eng.x(t[1]) if isinstance(t[1], tuple) else None
        return b is not None and b[0] == 'f' and b[2] == 'strides'

    def code_length(self, eng, t):
        if t[0] != 'call' or sname(str(t[1])) not in ('size', 'length'):
            return False
        o = eng.x(t[2])
        return o == ('f', THIS, 'code_')

    def lin(self, eng, t):
        def atom(x):
            x = eng.x(x)
            # the size of a string is the one it was built with
            if x[0] == 'call' and sname(str(x[1])) in ('size', 'length') and len(x) == 3:
                n = self.built(eng, x[2])
                if n is not None:
                    return None, n
            return x, None

        def f(x, n=0):
            r = form(eng, x, lambda y: ('atom', eng.x(y)))
            out = {}
            for k, c in r.items():
                if k == ONE:
                    out = add(out, {ONE: c})
                    continue
                a, alt = atom(k[1])
                if alt is not None and n < 6:
                    out = add(out, scale(f(alt, n + 1), c))
                else:
                    out = add(out, {k[1]: c})
            return out
        return f(t)

    def built(self, eng, t):
        """The number of characters a string was built with."""
        t = eng.x(t)
        if t[0] == 'new' and 'basic_string' in str(t[1]) and len(t) >= 4:
            # (count, character) or (pointer, count)
            return t[2] if eng.x(t[3])[0] == 'c' else t[3]
        return None

    def rows(self, eng, st, goal):
        out = []
        atoms = set()
        for f, p in st.facts:
            f = eng.x(f)
            if f[0] != 'b' or f[1] not in ('<', '=='):
                continue
            a, b = self.lin(eng, f[2]), self.lin(eng, f[3])
            if len(a) > 4 or len(b) > 4:
                continue
            d = add(b, a, -1)
            if f[1] == '<':
                out.append(add(d, {ONE: -1}) if p else scale(d, -1))
            elif p:
                out += [d, scale(d, -1)]
            elif not p:
                # x != 0 for a natural x
                out.append(('ne', d))
        # only what is connected with the goal
        want = {x for x in goal if x != ONE}
        rows = [r for r in out if isinstance(r, dict)]
        keep = []
        for _ in range(4):
            new = []
            for r in rows:
                if r not in keep and want & set(r):
                    new.append(r)
            for a in list(want):
                if a not in atoms:
                    atoms.add(a)
                    new += self.bounds(eng, a)
            if not new:
                break
            keep += new
            for r in new:
                want |= {x for x in r if x != ONE}
            if len(want) > 12 or len(keep) > 60:
                break
        for r in out:
            if not isinstance(r, dict):
                d = r[1]
                names = [x for x in d if x != ONE]
                if len(names) >= 1 and all(x in want for x in names):
                    for s in (1, -1):
                        e = scale(d, s)
                        if prove(e, keep):
                            keep.append(add(e, {ONE: -1}))
        return keep

    def proved(self, eng, st, goal):
        if not set(goal) - {ONE}:
            return goal.get(ONE, 0) >= 0
        return prove(goal, self.rows(eng, st, goal))

    # -- shifts -------------------------------------------------------------------
    def shift(self, eng, e, amount, st):
        if eng.mute:
            return
        where = eng.where(e)
        a = eng.x(amount)
        if not in_geohash(where) or a[0] == 'c' and not isinstance(a[1], int):
            return
        f = self.lin(eng, a)
        lo = self.proved(eng, st, f)
        hi = self.proved(eng, st, add({ONE: 63}, f, -1))
        self.obs.append(('P21.shift', where, f'{sname(eng.funcname())}:{self.name}',
                         f'{eng.funcname().replace("pyinterp::", "")} called by {self.name} shifts by 0 to 63 bits', lo and hi,
                         'the amount can be ' + ' or '.join(x for x, y in (('negative', lo), ('more than 63', hi)) if not y)))

    def on_bin(self, eng, e, t, st):
        if e.get('op') in ('<<', '>>') and t[0] == 'b' and t[1] in ('<<', '>>') and integral(e.get('a')):
            self.shift(eng, e, t[3], st)

    def on_assign(self, eng, e, la, old, new, st):
        op = e.get('op')
        if op in ('<<=', '>>='):
            n = eng.x(new)
            if n[0] == 'b':
                self.shift(eng, e, n[3], st)
            return
        if op == '+=' and not eng.mute and self.chars is not None:
            # the position in the codes being written
            o, n = eng.x(old), eng.x(new)
            if n[0] == 'b' and n[1] == '+' and self.cursor(eng, o):
                ok = self.equal(eng, st, n[3], self.chars) or eng.x(n[2]) != o and self.equal(eng, st, n[2], self.chars)
                self.obs.append(('P21.room', eng.where(e), f'{sname(eng.funcname())}:{self.name}:step',
                                 f'{eng.funcname().replace("pyinterp::", "")} advances by the length of the codes', ok,
                                 'the position advances by another number of characters than the length of the allocated codes'))

    def equal(self, eng, st, a, b):
        d = add(self.lin(eng, a), self.lin(eng, b), -1)
        return self.proved(eng, st, d) and self.proved(eng, st, scale(d, -1))

    def cursor(self, eng, t):
        t = eng.x(t)
        for _ in range(4):
            if t[0] == 'loop':
                if len(t) < 4 or not isinstance(t[3], tuple):
                    return False
                t = eng.x(t[3])
            elif t[0] == 'phi':
                return any(self.cursor(eng, x) for x in t[1:] if isinstance(x, tuple))
            elif t[0] == 'b' and t[1] == '+':
                t = eng.x(t[2])
            else:
                break
        return t[0] == 'call' and sname(str(t[1])) == 'data' and not self.string(eng, t)

    def string(self, eng, t):
        return len(t) >= 3 and self.built(eng, t[2]) is not None

    # -- codes that are written ---------------------------------------------------
    def inline(self, eng, e, fn):
        return not (fn['q'].endswith('Base32::decode') or fn['q'].endswith('Base32::validate'))

    def on_call(self, eng, e, fn, obj, oloc, args, locs, st):
        n = e.get('fn', '')
        if n.endswith('string::allocate_array') and len(args) >= 2:
            self.chars = args[1]
        if n.startswith('std::') and sname(n) == 'resize' and 'basic_string' in n and oloc is not None and args:
            eng.write(st, oloc, eng.compact(('new', 'std::basic_string', args[0], ('c', 0), ('c', 0))), e)
            return ('c', 0), None
        if not eng.mute and (n.endswith(('int64::bounding_box', 'int64::decode', 'int64::neighbors')) and len(args) >= 2 and 'unsigned long' in (
                e.get('pt') or [''])[0] + '' or n.endswith('Base32::encode') and len(args) == 3):
            self.same_bits(eng, e, st, args[0], args[1] if len(args) == 2 or not n.endswith('Base32::encode') else None, args[-1])
        if n.endswith('Base32::encode') and len(args) == 3 and not eng.mute:
            buf = eng.x(args[1])
            where = eng.where(e)
            key = f'{sname(eng.funcname())}:{self.name}'
            text = f'{eng.funcname().replace("pyinterp::", "")} called by {self.name} writes codes in what was allocated for them'
            if buf[0] == 'call' and sname(str(buf[1])) == 'data' and self.string(eng, buf):
                room = self.built(eng, buf[2])
                ok = self.proved(eng, st, add(self.lin(eng, room), self.lin(eng, args[2]), -1))
                self.obs.append(('P21.room', where, key, text, ok, 'the string is shorter than the code'))
            elif self.chars is not None:
                ok = self.equal(eng, st, args[2], self.chars)
                self.obs.append(('P21.room', where, key, text, ok, 'the codes of the array have another length'))
                inside = any(x[0] == 'loop' for x in eng.subterms(buf) if isinstance(x, tuple) and x)
                if eng.loopstack:
                    self.obs.append(('P21.room', where, key + ':each', text + ', each at its place', self.cursor(eng, buf) and inside, 'the codes are written at the same place'))
        return None

    def same_bits(self, eng, e, st, code, bits, chars):
        """The number of bits an integer code is read with is the one it was built with."""
        made = self.origin(eng, code)
        if made is None:
            return
        want = self.lin(eng, bits) if bits is not None else scale(self.lin(eng, chars), 5)
        ok = True
        for m in made:
            d = add(want, self.lin(eng, m[1]) if m[0] == 'bits' else scale({eng.x(m[1]): 1}, 5), -1)
            ok = ok and self.proved(eng, st, d) and self.proved(eng, st, scale(d, -1))
        self.obs.append(('P21.bits', eng.where(e), f'{sname(eng.funcname())}:{sname(e["fn"])}:{self.name}',
                         f'{eng.funcname().replace("pyinterp::", "")} called by {self.name} reads a code with the number of bits it was built with',
                         ok, 'the code was built with another number of bits'))

    def origin(self, eng, t, n=0):
        """How a code was built: the numbers of bits, or the numbers of characters that were decoded."""
        t = eng.x(t)
        if n > 6:
            return None
        if t[0] == 'get' and len(t) >= 3:
            c = eng.x(t[1]) if isinstance(t[1], tuple) else None
            if c is not None and c[0] == 'call' and sname(str(c[1])) == 'decode' and len(c) >= 5:
                if t[2] not in (0, ('c', 0)):
                    return None
                return [('chars', eng.compact(('get', t[1], 1 if t[2] == 0 else ('c', 1))))]
        if t[0] == 'b' and t[1] == '>>':
            a = eng.x(t[3])
            if a[0] == 'b' and a[1] == '-' and eng.x(a[2]) == ('c', 64):
                return [('bits', a[3])]
            return None
        if t[0] in ('ret', 'phi', 'cond'):
            out = []
            for x in t[2:] if t[0] == 'cond' else [v for _, v in t[2] if v is not None]:
                out += self.origin(eng, x, n + 1) or []
            return out or None
        return None

    # -- codes that are kept --------------------------------------------------------
    def on_member_init(self, eng, fn, i, t, st):
        if fn.get('clst', '').endswith('geohash::GeoHash') and 'code_' in (i.get('n'), i.get('f'), i.get('m')):
            n = self.built(eng, t)
            self.codes.append((place(fn), n))

    def explore(self, eng, fn, kind, name):
        self.name = name
        self.unsigned = {p['n'] for p in fn['p'] if plain(p['t']).startswith('unsigned') or plain(p['t']) in ('uint32_t', 'size_t', 'uint64_t')}
        outs = list(eng.run(fn, state=State()))
        prec = [(k, p) for k, p in enumerate(fn['p']) if p['n'] == 'precision' and plain(p['t']).startswith('unsigned')]
        lo, hi = RANGES[kind]
        for k, p in prec:
            t = ('p', p['n'], k)
            bad = ''
            for r in outs:
                st = r[2]
                f = {t: 1}
                if not self.proved(eng, st, add(f, {ONE: -lo})):
                    bad = f'a precision lower than {lo} is accepted'
                if not self.proved(eng, st, add({ONE: hi}, f, -1)):
                    bad = f'a precision greater than {hi} is accepted'
            self.obs.append(('P21.range', place(fn), f'{name}:precision', f'{name} accepts a precision of {lo} to {hi} only', not bad, bad))
        for where, n in self.codes:
            ok = n is not None
            if ok:
                for r in outs:
                    if not self.proved(eng, r[2], add({ONE: LONGEST}, self.lin(eng, n), -1)):
                        ok = False
            self.obs.append(('P21.range', where, f'{name}:code', f'{name} builds codes of at most {LONGEST} characters', ok,
                             f'a code of more than {LONGEST} characters can be built'))
        return self.obs


def integral(e):
    t = (e or {}).get('t', '')
    return any(x in t for x in ('int', 'long', 'short', 'char', 'bool', 'size_t')) and 'ostream' not in t

class Table(Rule):
    """The codec of the alphabet: what one pass of its loops does, as a function of the number K of the pass."""
    inline_ops = True
    disjunctions = True

    def __init__(self):
        super().__init__()
        self.obs = []
        self.writes = []
        self.fills = []
        self.reads = []
        self.loops = []

    def on_call(self, eng, e, fn, obj, oloc, args, locs, st):
        if not eng.mute and sname(e.get('fn', '')) == 'fill' and oloc is not None:
            self.fills.append((oloc, eng.x(args[0]), len(self.writes)))
        return None

    def on_assign(self, eng, e, la, old, new, st):
        if not eng.mute and la is not None and la[0] in ('sub', 'deref', 'idx', 'elem'):
            self.writes.append((eng.where(e), la, eng.x(new), frozenset(st.facts)))
        elif not eng.mute and la is not None and la[0] == 'v' and sname(eng.funcname()) == 'decode':
            for t in eng.subterms(new):
                if isinstance(t, tuple) and t and t[0] in ('idx', 'elem', 'sub') and self.member(eng, t[1]) == 'decode_':
                    self.reads.append(any(self.valid(eng, f, p, eng.x(t)) for f, p in st.facts))

    def marker(self, eng, t):
        return eng.x(t) == ('c', 127) or self.member(eng, t) == 'kInvalid_'

    def valid(self, eng, f, p, t):
        f = eng.x(f)
        return not p and f[0] == 'b' and f[1] == '==' and any(eng.x(a) == t and self.marker(eng, b) for a, b in ((f[2], f[3]), (f[3], f[2])))

    def on_loop(self, eng, s, site, info, end):
        if not eng.mute:
            self.loops.append((eng.where(s), site, info))

    def heads(self, eng):
        """Loop variables by term: (initial value, step) when they advance by a constant."""
        out = {}
        for where, site, info in self.loops:
            for k, v in info['vars'].items():
                i = info['init'].get(k)
                if v is None or i is None:
                    continue
                head = ('loop', site, k, i)
                for cand in (head, eng.x(head)):
                    f = form(eng, v, lambda y: eng.x(y))
                    d = add(f, {eng.x(cand): 1}, -1)
                    if not set(d) - {ONE}:
                        out[eng.x(cand)] = (i, d.get(ONE, 0))
        return out

    def lin(self, eng, t, n=0):
        heads = self.known
        f = form(eng, t, lambda y: eng.x(y))
        out = {}
        for k, c in f.items():
            if k != ONE and k in heads and n < 4:
                i, s = heads[k]
                out = add(out, scale(add(self.lin(eng, i, n + 1), {'K': s}), c))
            elif k == ONE or not isinstance(k, tuple):
                out = add(out, {k: c})
            else:
                out = add(out, {self.atom(eng, k): c})
        return out

    def atom(self, eng, t):
        t = eng.x(t)
        if t == ('pass',):
            return 'K'
        if t[0] == 'p':
            return t[1]
        if t[0] == 'v' and t[1] in self.params:
            return self.params[t[1]]
        if t[0] == 'call' and sname(str(t[1])) == 'size' and self.member(eng, t[2]) == 'encode_':
            return 'SIZE'
        return t

    def member(self, eng, t):
        t = eng.x(t)
        if t[0] == 'f':
            return t[2]
        if t[0] == 'g':
            return t[1].rsplit('::', 1)[-1]
        return None

    def at(self, eng, t):
        """(array, position) of what is read or written."""
        t = eng.x(t)
        if t[0] == 'deref':
            return None, self.lin(eng, t[1])
        if t[0] in ('idx', 'sub', 'elem') and len(t) >= 3:
            i = t[2]
            if not (isinstance(i, tuple) and i and isinstance(i[0], str)):
                # the element of a pass of a range loop
                i = ('pass',)
            m = self.member(eng, t[1])
            if m is not None:
                return m, i
            return None, add(self.lin(eng, t[1]), self.lin(eng, i))
        return None, None

    def positive(self, eng, c, out=None):
        """The conditions of a loop as ('>', linear form) or ('!=', a, b)."""
        out = [] if out is None else out
        c = eng.x(c)
        neg = False
        while c[0] == 'u' and c[1] == '!':
            neg = not neg
            c = eng.x(c[2])
        if c[0] == 'b' and c[1] == '&&' and not neg:
            self.positive(eng, c[2], out)
            self.positive(eng, c[3], out)
        elif c[0] == 'b' and c[1] in ('<', '>', '<=', '>=', '!=', '=='):
            op = c[1]
            if neg:
                op = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '!=': '==', '==': '!='}[op]
            if op in ('<', '<='):
                out.append(('>', add(add(self.lin(eng, c[3]), self.lin(eng, c[2]), -1), {ONE: 1} if op == '<=' else {})))
            elif op in ('>', '>='):
                out.append(('>', add(add(self.lin(eng, c[2]), self.lin(eng, c[3]), -1), {ONE: 1} if op == '>=' else {})))
            elif op == '!=':
                out.append(('!=', eng.x(c[2]), eng.x(c[3])))
        elif not neg and c[0] in ('deref', 'idx', 'sub'):
            out.append(('!=', c, ('c', 0)))
        return out

    def goes_on(self, eng, info, left):
        """True when a loop goes on exactly while `left` is positive (whatever other condition it has)."""
        for c in self.positive(eng, info['cond']) if info['cond'] is not None else ():
            if c[0] == '>' and c[1] == left:
                return True
            if c[0] == '!=':
                d = add(self.lin(eng, c[1]), self.lin(eng, c[2]), -1)
                if d == left or scale(d, -1) == left:
                    return True
        return False

    def lookup(self, eng, t, table):
        """The index of a value read in one of the tables."""
        t = eng.x(t)
        for _ in range(3):
            if t[0] == 'cast' or t[0] == 'ret' and len(t) == 2:
                t = eng.x(t[-1])
        m, i = self.at(eng, t)
        return i if m == table else None

    def low(self, eng, t):
        """The value whose five lower bits t is."""
        t = eng.x(t)
        if t[0] == 'b' and (t[1] == '&' and ('c', 31) in (eng.x(t[2]), eng.x(t[3])) or t[1] == '%' and eng.x(t[3]) == ('c', 32)):
            return eng.x(t[2]) if eng.x(t[3]) in (('c', 31), ('c', 32)) else eng.x(t[3])
        return None

    def judge(self, eng, fn, add_ob):
        name = sname(fn['q'])
        self.params = {p['id']: p['n'] for p in fn['p'] if 'id' in p}
        self.known = self.heads(eng)
        if fn['kind'] == 'ctor':
            ok = bad = False
            for loc, v, n in self.fills:
                if loc == ('f', THIS, 'decode_') and n == 0 and self.marker(eng, v):
                    ok = True
            add_ob('fill', 'every byte is invalid until it is found in the alphabet', ok, 'the inverse table is not filled with the marker first')
            ok = len(self.writes) == 1 and len(self.loops) == 1
            if ok:
                _, la, new, _ = self.writes[0]
                m, i = self.at(eng, la)
                j = self.lookup(eng, i, 'encode_') if m == 'decode_' else None
                ok = j is not None and self.lin(eng, j) == {'K': 1} and self.lin(eng, new) == {'K': 1} and \
                    (self.goes_on(eng, self.loops[0][2], {'SIZE': 1, 'K': -1}) or self.goes_on(eng, self.loops[0][2], {ONE: 32, 'K': -1}) or
                     self.loops[0][2]['cond'] is None and eng.x(i)[0] == 'elem') and \
                    not self.loops[0][2].get('brk')
            add_ob('inverse', 'each character of the alphabet is decoded to its position', ok,
                   'the inverse table does not associate every character to its position')
        elif name == 'encode':
            ok = len(self.writes) == 1 and len(self.loops) == 1
            if ok:
                _, la, new, _ = self.writes[0]
                m, pos = self.at(eng, la)
                i = self.lookup(eng, new, 'encode_')
                h = self.low(eng, i) if i is not None else None
                place_ok = pos == {'buffer': 1, 'count': 1, 'K': -1, ONE: -1}
                ok = m is None and place_ok and h is not None and self.shifted(eng, h) and \
                    self.goes_on(eng, self.loops[0][2], {'count': 1, 'K': -1}) and not self.loops[0][2].get('brk')
            add_ob('encode', 'the five lower bits of the integer, shifted by five bits on each pass, are written from the last character to the first',
                   ok, 'the characters are not the groups of five bits of the integer')
        elif name == 'decode':
            add_ob('valid', 'a character that is not of the alphabet is refused', bool(self.reads) and all(self.reads),
                   'the position of a character is used without knowing that it is valid')
            ok = len(self.loops) == 1
            if ok:
                info = self.loops[0][2]
                found = False
                for k, v in info['vars'].items():
                    i = info['init'].get(k)
                    v = eng.x(v) if v is not None else None
                    if v is None or i is None or eng.x(i) != ('c', 0) or v[0] != 'b' or v[1] not in ('|', '+', '^'):
                        continue
                    head = eng.x(('loop', self.loops[0][1], k, i))
                    for a, b in ((v[2], v[3]), (v[3], v[2])):
                        a = eng.x(a)
                        if a[0] == 'b' and eng.x(a[2]) == head and (a[1], eng.x(a[3])) in (('<<', ('c', 5)), ('*', ('c', 32))):
                            j = self.lookup(eng, b, 'decode_')
                            if j is not None:
                                m, pos = self.at(eng, j)
                                found = found or m is None and pos == {'buffer': 1, 'K': 1}
                ok = found and self.goes_on(eng, info, {'count': 1, 'K': -1})
                ends = info.get('brk') or any(c[0] == '!=' and any(
                    self.at(eng, x)[1] == {'buffer': 1, 'K': 1} and y == ('c', 0) for x, y in ((c[1], c[2]), (c[2], c[1])))
                    for c in self.positive(eng, info['cond']))
                ok = ok and bool(ends)
                got = []
                for r in self.rets:
                    v = eng.x(r[1]) if r[1] is not None else None
                    while v is not None and v[0] == 'ret' and len(v) == 2:
                        v = eng.x(v[1])
                    got.append(v is not None and v[0] == 'tuple' and len(v) == 3 and self.lin(eng, v[2]) == {'K': 1})
                ok = ok and bool(got) and all(got)
            add_ob('decode', 'the positions of the characters, up to the first null one, are the groups of five bits of the integer, and their number is '
                   'returned with it', ok, 'the integer is not made of the positions of the characters, or their number is another one')

    def shifted(self, eng, h):
        """A loop variable that starts from the parameter and loses its five lower bits on each pass."""
        for _, site, info in self.loops:
            for k, v in info['vars'].items():
                i = info['init'].get(k)
                if v is None or i is None or eng.x(('loop', site, k, i)) != h:
                    continue
                v = eng.x(v)
                i = eng.x(i)
                return i[0] in ('p', 'ret') and v[0] == 'b' and eng.x(v[2]) == h and (v[1], eng.x(v[3])) in (('>>', ('c', 5)), ('/', ('c', 32)))
        return False

    def explore(self, eng, fn):
        self.rets = list(eng.run(fn, state=State()))

        def add_ob(key, text, ok, why):
            self.obs.append(('P21.table', place(fn), f'Base32:{key}', text, bool(ok), why))
        self.judge(eng, fn, add_ob)
        return self.obs


def letters(facts, obs):
    """The characters of the alphabet and the marker of the invalid ones."""
    def var(name):
        for k, g in facts.globals.items():
            if k.endswith(':' + name) and 'base32' in k:
                return g
        return None
    g = var('encode_')
    chars = ''.join(chr(n['v']) for n in order(g.get('init'))) if g else ''
    obs.append(('P21.table', 'src/pyinterp/core/lib/geohash/base32.cpp', 'Base32:alphabet', 'the 32 characters are those of the geohash alphabet, in order',
                chars == ALPHABET, f'the alphabet is {chars!r}'))
    g = var('kInvalid_')
    v = (g or {}).get('init') or {}
    while isinstance(v, dict) and v.get('k') in ('Cast', 'Paren') and v.get('cv') is None:
        v = v.get('e')
    n = v.get('cv', v.get('v')) if isinstance(v, dict) else None
    n = int(n) if isinstance(n, (int, str)) and str(n).lstrip('-').isdigit() else None
    obs.append(('P21.table', 'src/pyinterp/core/lib/geohash/base32.cpp', 'Base32:invalid', 'the marker of invalid characters is not a position of the alphabet',
                n is not None and not 0 <= n < 32, f'the marker is {n}'))


def order(e):
    """The character literals below an expression, in the order of the source."""
    if isinstance(e, dict):
        if e.get('k') == 'Chr':
            yield e
        else:
            for x in e.values():
                yield from order(x)
    elif isinstance(e, list):
        for x in e:
            yield from order(x)


class Task(Rule):
    """An entry point, or the codec of the alphabet."""

    def __init__(self, ctx):
        super().__init__()
        self.ctx = ctx

    def start(self, eng, task):
        from ..engine import Engine
        if task['what'] == 'letters':
            letters(self.ctx.facts, self.obs)
            return
        if task['what'] == 'table':
            rule = Table()
            e = Engine(self.ctx.facts, rule)
            self.obs += rule.explore(e, task['fn'])
        else:
            rule = P21()
            e = Engine(self.ctx.facts, rule)
            self.obs += rule.explore(e, task['fn'], task['what'], task['name'])
        self.ncalls = getattr(self, 'ncalls', 0) + e.ncalls


def targets(facts):
    for b in read(facts):
        if 'geohash' not in b.where and 'geohash' not in str(b.target or ''):
            continue
        kind = 'class' if b.cls else 'int64' if 'int64' in b.where else 'string'
        if b.target in facts.funcs:
            for f in facts.funcs[b.target]:
                yield f, kind, f"{sname(b.cls)}.{b.name}" if b.cls else b.name
        elif b.lam is not None and b.lam['specs']:
            sp = b.lam['specs'][0]
            yield {'kind': 'lambda', 'q': b.label(), 'n': 'l', 'file': b.lam['file'], 'l': b.lam['l'], 'p': sp['p'], 'body': sp['body'],
                   'ret': sp['ret'], 'id': None, 'label': b.label()}, kind, f'{kind}.{b.name}'
    for f in facts.all_funcs():
        if f['kind'] == 'ctor' and f.get('clst', '').endswith('geohash::GeoHash') and f.get('acc') == 'public' and len(f['p']) > 1:
            yield f, 'class', 'GeoHash.__init__'


def check(ctx):
    ctx.rule('P21.shift', 'integers are shifted by 0 to 63 bits', 10)
    ctx.rule('P21.range', 'precisions out of range are refused', 8)
    ctx.rule('P21.bits', 'a code is read with the number of bits it was built with', 8)
    ctx.rule('P21.room', 'codes are written in what was allocated for them', 8)
    ctx.rule('P21.table', 'the alphabet and its inverse', 6)
    facts = ctx.facts
    tasks = [dict(f, what=k, name=n, fn=f) for f, k, n in targets(facts)]
    seen = set()
    codec = [f for f in facts.all_funcs() if f.get('clst', '').endswith('geohash::Base32') and f.get('body')]
    for f in codec:
        if (f['kind'] == 'ctor' and not f['p'] or sname(f['q']) in ('encode', 'decode')) and f['l'] not in seen:
            seen.add(f['l'])
            tasks.append(dict(f, what='table', fn=f))
    tasks.append(dict(codec[0], what='letters', fn=codec[0]))
    ctx.run(lambda: Task(ctx), tasks)
