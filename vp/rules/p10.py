"""P10: pickling round trips restore every piece of state from the slot in which it was saved."""
import ast
import os

from ..bindings import read
from ..engine import strip_ref, walk
from ..extent import sname
from ..facts import REPO
from ..flow import ACCESS, Cell, Flow, assign, const_of, copies, plain

NOISE = {'size()', 'rows()', 'cols()', 'empty()', 'shape()', 'has_value()', 'length()', 'ndim()'}


class State(Flow):
    """Provenance within the pickling functions of one class; those of other classes are identities."""

    def __init__(self, facts, root):
        super().__init__(facts)
        self.root = root
        self.rets = None
        self.rootfn = None
        self.tuples = []    # (cell, types of the slots)
        self.casts = []     # (atoms, kind of state, type)

    def opaque(self, e, g, obj, args):
        if g['n'] in ('marshal', 'unmarshal') or g['n'].startswith('operator') and 'string' in g['n']:
            # compared by P10.stream
            for a in args[1:]:
                assign(a, args[0])
            return args[0] if args else obj
        if g['n'] not in ('getstate', 'setstate'):
            return None
        if strip_ref(g.get('clst') or g.get('cls') or '') == self.root and \
                not any(f.fn.get('n') in ('getstate', 'setstate') for f in self.stack):
            self.rootfn = g
            return None
        if g['n'] == 'getstate':
            o = e['obj']
            while o.get('k') == 'Cast':
                o = o['e']
            return obj.field('(' + sname(g['cls']) + ')') if o.get('k') == 'This' else obj
        return args[0] if args else None

    def hook(self, e, obj, args):
        if e['k'] == 'Call' and sname(e.get('fn', '')) == 'make_tuple' and \
                sum(f.fn.get('n') == 'getstate' for f in self.stack) <= 1:
            c = Cell()
            for k, a in enumerate(args):
                assign(c.field('#%d' % k), a)
            self.tuples.append((c, [a.get('t', '') for a in e['a']]))
            return c
        if e['k'] == 'Call' and sname(e.get('fn', '')) == 'cast' and obj is not None and e.get('ta'):
            self.casts.append((set(obj.atoms), self.cases[-1] if self.cases else None, e['ta'][0]))
        if e['k'] == 'Ctor' and sname(e['cls']) == 'isviewstream' and args:
            return args[0]
        if e['k'] == 'Ctor' and len(args) == 1 and 'string_view' in (e.get('pt') or [''])[0]:
            return args[0]
        return None

    def run(self, fn, this, params, passes=4):
        r = super().run(fn, this, params, passes)
        if fn is self.rootfn:
            self.rets = list(self.last)
        return r


def clean(atoms):
    return {a for a in atoms if not any(x in NOISE for x in a)}


def lookup(cell, path):
    """(atoms, remaining path) of the deepest cell along a path."""
    for k, p in enumerate(path):
        if p in cell.fields:
            cell = cell.fields[p]
        else:
            return cell, path[k:]
    return cell, ()


def sources(get, slot):
    """Paths of the object that the slot holds: (copies, derived)."""
    cell, rest = lookup(get, slot)
    cp, dv = set(), set()
    for a in clean(cell.atoms if rest else cell.deep()):
        if a and a[-1] == '~' or any(x.endswith('()') for x in a):
            dv.add(tuple(x for x in a if x != '~'))
        else:
            cp.add(a + rest)
    return cp, dv


def related(p, q):
    n = min(len(p), len(q))
    return p[:n] == q[:n]


def state_fields(facts, cls, inits, methods):
    """Fields of a class that take values from outside, directly or through methods."""
    out = set()
    for fn in inits + methods:
        fl = Flow(facts)
        this = Cell()
        fl.run(fn, this, [Cell({('A', 'p%d' % k)}) for k in range(len(fn['p']))], 2)
        for k, c in this.fields.items():
            if clean(c.deep()):
                out.add(k)
    return out


def members(facts, cls):
    """Fields of a class and of its bases, library containers included."""
    out = set(ACCESS.values()) - {'#0', '#1'}
    todo = [cls]
    while todo:
        t = todo.pop()
        for rs in facts.recs.values():
            for r in rs:
                if r['t'] == t:
                    out |= {x['n'] for x in r['f']}
                    todo += [b if isinstance(b, str) else b.get('t') for b in r['b']]
    return out


def variants(rets, get):
    """slot 0 constant -> cell."""
    out = {}
    for c, cases in rets:
        if get:
            f = c.fields.get('#0')
            k = f.const if f is not None and not f.atoms else None
        else:
            k = cases[-1] if cases else None
        out.setdefault(k, []).append(c)
    return out


def merged(cells):
    if len(cells) == 1:
        return cells[0]
    m = Cell()
    for c in cells:
        assign(m, c)
    return m


def ctor_fns(facts, cls, bs):
    out = []
    for fs in facts.funcs.values():
        for f in fs:
            if f.get('kind') == 'ctor' and f.get('clst') == cls and f['p'] and f.get('body') is not None and \
                    plain(f['p'][0]['t']) != cls and not (len(f['p']) == 1 and 'view' in f['p'][0]['t']):
                out.append(f)
    return out


def check_pair(ctx, b, get, sets, where, label, state):
    """Compares what the slots hold with what the fields are restored from."""
    dest = []
    for path, atoms in sets.leaves():
        atoms = clean(atoms)
        if path and atoms:
            dest.append((path, atoms))
    restored = {}
    good_slots = {}
    for path, atoms in dest:
        for s in {a[1:] for a in copies(atoms) if a[0] == 'S'}:
            c, d = sources(get, s)
            if any(related(path, q) for q in c | d):
                good_slots.setdefault(s[:1], set()).add(path[0])
    saved = tops(get)
    for path, atoms in dest:
        cp = {a[1:] for a in copies(atoms) if a[0] == 'S'}
        dv = {tuple(x for x in a[1:] if x != '~' and not x.endswith('()')) for a in atoms - copies(atoms) if a[0] == 'S'}
        restored.setdefault(path[0], set()).update({s[:1] for s in cp | dv})
        if not cp:
            continue
        bad = []
        good = False
        for s in sorted(cp):
            c, d = sources(get, s)
            if any(related(path, q) for q in c) or any(related(path, q) for q in d):
                good = True
            elif path[0] not in saved and good_slots.get(s[:1]):
                continue    # a view of another field
            elif c or d:
                bad.append((s, c or d))
        if not good and bad:
            s, q = bad[0]
            ctx.add('P10.slot', where, f'{label}:{".".join(path)}',
                    f'{label}: {".".join(path)} is restored from the slot in which it was saved', False,
                    f'restored from slot {"".join(s)} which holds {sorted(".".join(x) for x in q)[:2]}')
        elif good:
            ctx.add('P10.slot', where, f'{label}:{".".join(path)}',
                    f'{label}: {".".join(path)} is restored from the slot in which it was saved', True)
    return restored


def tops(get):
    """Top-level fields that the slots hold."""
    out = {}
    for path, atoms in get.leaves():
        for a in clean(atoms):
            if a:
                out.setdefault(a[0], set()).add(path[:1])
    return out


DIGITS = {'bool': 1, 'signed char': 7, 'char': 7, 'unsigned char': 8, 'short': 15, 'unsigned short': 16, 'int': 31,
          'unsigned int': 32, 'long': 63, 'long long': 63, 'unsigned long': 64, 'unsigned long long': 64, 'float': 24,
          'double': 53, 'long double': 64}


def scalar(t):
    """Scalar type of a value or of the elements of an array."""
    t = plain(t)
    for w in ('pybind11::array_t<', 'Eigen::Matrix<', 'std::vector<'):
        if t.startswith(w):
            t = plain(t[len(w):].split(',')[0].rstrip('>'))
    return t if t in DIGITS else None


def narrower(saved, restored):
    a, b = scalar(saved), scalar(restored)
    if a is None or b is None or a == b:
        return False
    fa, fb = a in ('float', 'double', 'long double'), b in ('float', 'double', 'long double')
    if fa and not fb:
        return True
    return not (fb and not fa) and DIGITS[b] < DIGITS[a]


def types_ok(ctx, fg, fs, rets, where, label):
    """A slot is not restored through a type that holds less than the type it was saved from."""
    for c, types in fg.tuples:
        if not any(c is r for r, _ in rets):
            continue
        k0 = c.fields['#0'].const if '#0' in c.fields and not c.fields['#0'].atoms else None
        for atoms, case, t in fs.casts:
            if case is not None and k0 is not None and case != k0:
                continue
            for a in atoms:
                if len(a) == 2 and a[0] == 'S' and a[1][1:].isdigit() and int(a[1][1:]) < len(types):
                    k = int(a[1][1:])
                    if scalar(types[k]) is None or scalar(t) is None:
                        continue
                    ctx.add('P10.type', where, f'{label}:{k0}:{k}', f'{label}: slot {k} is restored through a type that holds all its '
                            'values', not narrower(types[k], t), f'saved as {scalar(types[k])}, restored as {scalar(t)}')


def cpp(ctx):
    facts = ctx.facts
    bs = read(facts)
    done = set()
    by_cls = {}
    for b in bs:
        by_cls.setdefault(b.cls, []).append(b)
    for b in bs:
        if b.name != '__pickle__' or b.cls in done:
            continue
        done.add(b.cls)
        cls = b.cls
        label = short(cls)
        res, flows = [], []
        for j, lam in enumerate(b.pickle):
            fl = State(facts, cls)
            sp = lam['specs'][0]
            fn = {'kind': 'lambda', 'p': sp['p'], 'body': sp['body'], 'q': 'root', 'n': 'l', 'file': b.file, 'l': b.line}
            c = Cell({()} if j == 0 else {('S',)})
            r = fl.run(fn, None, [c])
            rets = fl.rets or [(r, ())]
            flows.append(fl)
            res.append((r, rets))
            ctx.functions |= fl.functions
            ctx.calls += fl.calls
        (g, grets), (s, srets) = res
        types_ok(ctx, flows[0], flows[1], grets, b.where, label)
        vg, vs = variants(grets, True), variants(srets, False)
        pairs = []
        if len(vg) > 1 or (len(vg) == 1 and None not in vg):
            for k, cells in vg.items():
                if k in vs:
                    pairs.append((merged(cells), merged(vs[k])))
                else:
                    ctx.add('P10.variant', b.where, f'{label}:{k}', f'{label}: every kind of state that is saved can be restored',
                            False, f'kind {k} is not restored')
            ctx.add('P10.variant', b.where, f'{label}', f'{label}: every kind of state that is saved can be restored', True)
        else:
            pairs.append((g, s))
        inits = ctor_fns(facts, cls, by_cls[cls])
        methods = []
        for m in by_cls[cls]:
            fs = facts.funcs.get(m.target) or []
            f = next((x for x in fs if x.get('clst') == cls), fs[0] if len(fs) == 1 else None)
            if f is not None and f.get('kind') == 'method' and not f.get('const') and not f.get('static') and \
                    f.get('body') is not None:
                methods.append(f)
        st = state_fields(facts, cls, inits, methods)
        restored, saved = {}, {}
        for gg, ss in pairs:
            for k, v in check_pair(ctx, b, gg, ss, b.where, label, st).items():
                restored.setdefault(k, set()).update(v)
            for k, v in tops(gg).items():
                saved.setdefault(k, set()).update(v)
            used = {a[1:2] for _, at in ss.leaves() for a in at if a[:1] == ('S',) and len(a) > 1}
            for k in sorted(gg.fields):
                c = gg.fields[k]
                if not k.startswith('#') or not clean(c.deep()):
                    continue
                ctx.add('P10.used', b.where, f'{label}:{k}', f'{label}: slot {k} of the state is used to restore the object',
                        (k,) in used, 'setstate ignores it')
        if ('S',) in {a for _, ss in pairs for _, at in ss.leaves() for a in at}:
            continue
        real = members(facts, cls)
        for f in sorted((st & real) | set(saved)):
            ok = f in restored
            ctx.add('P10.field', b.where, f'{label}:{f}', f'{label}: {f} is saved and restored', ok and (f in saved or f not in st or
                    derived(pairs, f)), 'it takes values from outside and is not in the state')


def derived(pairs, f):
    """A field computed from restored slots."""
    return any(p[0] == f and a for _, s in pairs for p, a in s.leaves() if p)


def short(c):
    out = c.replace('pyinterp::', '').replace('detail::geometry::', '')
    return out.replace('boost::geometry::model::point<double, 3, boost::geometry::cs::cartesian>', 'P3').replace(
        'boost::geometry::model::point<float, 3, boost::geometry::cs::cartesian>', 'P3')


# -- binary streams ------------------------------------------------------------

def accessor(e):
    """Name of the size that an expression gives, or the local variable that holds it."""
    e = strip(e)
    if e.get('k') == 'Call' and e.get('obj') is not None and not e['a']:
        return sname(e['fn'])
    return e.get('id') if e.get('k') == 'Ref' else None


def events(fn, facts, names):
    """Stream operations of a function in order: (loops, size, field, line, variable, index order)."""
    out = []
    inits = {v['id']: v['init'] for d in walk(fn.get('body') or {}) if d.get('k') == 'Decl' for v in d['v']
             if v.get('init') is not None}

    def bound(loop):
        c = strip(loop['c']) if loop.get('c') else {}
        if c.get('k') != 'Bin' or c['op'] not in ('<', '!=', '<='):
            return None
        r = accessor(c['b'])
        if r in inits and isinstance(accessor(inits[r]), str):
            return accessor(inits[r])
        return r

    def visit(n, loops):
        if isinstance(n, list):
            for x in n:
                visit(x, loops)
            return
        if not isinstance(n, dict):
            return
        if n.get('k') in ('For', 'RFor', 'While'):
            var = None
            if n['k'] == 'For' and (n.get('init') or {}).get('k') == 'Decl':
                var = n['init']['v'][0]['id']
            loops = loops + [(var, bound(n) if n['k'] == 'For' else None, n)]
        for v in n.values():
            if isinstance(v, (dict, list)):
                visit(v, loops)
        if n.get('k') == 'Call' and sname(n.get('fn', '')) in names and n.get('obj') is not None and \
                ('stream' in n['fn'] or 'stream' in n['obj'].get('t', '')):
            a = n['a']
            size = const_of(a[-1])
            field = next((x['n'] for x in walk(a[0]) if x.get('k') == 'Mem'), None) if len(a) > 1 else None
            var = next((x.get('id') for x in walk(a[0]) if x.get('k') == 'Ref' and x.get('d') == 'V'), None)
            if var in inits and isinstance(accessor(inits[var]), str) and not loops:
                var = accessor(inits[var])
            order = None
            if loops:
                ids = [x[0] for x in loops]
                for c in walk(loops[-1][2]):
                    if c.get('k') == 'Call' and c.get('op') in ('()', '[]') and c['a']:
                        idx = [strip(x).get('id') for x in c['a'][-len(ids):]]
                        if all(i in ids for i in idx):
                            order = tuple(ids.index(i) for i in idx)
                            break
            out.append(([x[1] for x in loops], size, field, n['l'], var, order))

    visit(fn.get('body'), [])
    for i in fn.get('inits', ()):
        visit(i.get('e'), [])
    return out


def streams(ctx):
    facts = ctx.facts
    seen = set()
    by_cls = {}
    for fs in facts.funcs.values():
        for f in fs:
            if f.get('body') is None or not f.get('cls'):
                continue
            w = events(f, facts, {'write'})
            r = events(f, facts, {'read', 'readview'})
            if w and f['kind'] != 'ctor':
                by_cls.setdefault(f['clst'] or f['cls'], [[], []])[0].append((f, w))
            if r:
                by_cls.setdefault(f['clst'] or f['cls'], [[], []])[1].append((f, r))
    for cls, (ws, rs) in sorted(by_cls.items()):
        if 'viewstream' in cls:
            continue
        label = short(cls)
        w = [x for x in ws]
        r = [x for x in rs]
        where = lambda f: f"src/pyinterp/core/{f['file']}:{f['l']}"  # noqa: E731
        if len(w) != 1 or len(r) != 1:
            ctx.add('P10.stream', where((w or r)[0][0]), label, f'{label}: what is written to the stream is read back', False,
                    f'{len(w)} writers and {len(r)} readers')
            continue
        (wf, we), (rf, re_) = w[0], r[0]
        bad = None
        if len(we) != len(re_):
            bad = f'{len(we)} items written, {len(re_)} read'
        else:
            for k, (x, y) in enumerate(zip(we, re_)):
                wl = [[z[4] for z in we if not z[0]].index(q) if q in [z[4] for z in we if not z[0]] else None for q in x[0]]
                rl = [[z[4] for z in re_ if not z[0]].index(q) if q in [z[4] for z in re_ if not z[0]] else None for q in y[0]]
                if len(x[0]) != len(y[0]):
                    bad = f'item {k} is written in a loop and read outside of it'
                elif None not in wl + rl and wl != rl:
                    bad = f'the loops around item {k} are bounded by the sizes {wl} when it is written, {rl} when it is read'
                elif x[5] and y[5] and x[5] != y[5]:
                    bad = f'item {k} is written in the order {x[5]} of the indices and read in the order {y[5]}'
                elif x[1] != y[1]:
                    bad = f'item {k} is written with {x[1]} bytes and read with {y[1]}'
                elif x[2] != y[2]:
                    bad = f'item {k} is written from {x[2]} and read into {y[2]}'
                if bad:
                    break
        ctx.add('P10.stream', where(rf), label, f'{label}: what is written to the stream is read back in the same order', not bad,
                bad or '')
        if any(x[2] for x in we):
            rec = next((x for q in facts.recs.values() for x in q if x['t'] == cls), None)
            for fld in (rec or {}).get('f', ()):
                ctx.add('P10.stream', where(wf), f'{label}:{fld["n"]}', f'{label}: {fld["n"]} is written to the stream',
                        any(x[2] == fld['n'] for x in we), 'it is not written')


# -- construction --------------------------------------------------------------

def reached(facts, eng, root):
    """Functions with a body reachable from a restoring lambda, within the repository."""
    out, todo, seen = [], [root], set()
    while todo:
        fn = todo.pop()
        out.append(fn)
        for c in list(walk(fn.get('body') or {})) + [x for i in fn.get('inits', ()) for x in walk(i.get('e') or {})]:
            if c.get('k') in ('Call', 'Ctor'):
                g = eng.lookup(c)
                if g is not None and g.get('body') is not None and id(g) not in seen and len(out) + len(todo) < 200:
                    seen.add(id(g))
                    todo.append(g)
    return out


def strip(e):
    while isinstance(e, dict) and e.get('k') in ('Cast', 'DefArg') or isinstance(e, dict) and e.get('k') == 'Ctor' and \
            (e.get('copy') or e.get('move')) and e['a']:
        e = e['a'][0] if e['k'] == 'Ctor' else e['e']
    return e


def optional(t):
    return plain(t).startswith('std::optional')


def conjuncts(e):
    e = strip(e)
    if e.get('k') == 'Bin' and e['op'] == '&&':
        return conjuncts(e['a']) + conjuncts(e['b'])
    return [e]


def construction(ctx):
    facts = ctx.facts
    eng = Flow(facts).eng
    done = set()
    for b in read(facts):
        if b.name != '__pickle__':
            continue
        lam = b.pickle[1]
        sp = lam['specs'][0]
        root = {'kind': 'lambda', 'p': sp['p'], 'body': sp['body'], 'file': b.file, 'l': b.line, 'q': short(b.cls)}
        for fn in reached(facts, eng, root):
            engaged(ctx, fn, done)
            for c in walk(fn.get('body') or {}):
                if c.get('k') == 'Ctor' and c['cls'].startswith('pyinterp') and not c.get('copy') and not c.get('move'):
                    accepted(ctx, eng, fn, c, short(b.cls), done)
                elif c.get('k') == 'Call' and sname(c.get('fn', '')) in ('make_shared', 'make_unique') and c['a']:
                    accepted(ctx, eng, fn, c, short(b.cls), done)


def engaged(ctx, fn, done):
    """The value of a local optional is assigned only after it was given one."""
    empty = {}
    for d in walk(fn.get('body') or {}):
        if d.get('k') == 'Decl':
            for v in d['v']:
                i = strip(v['init']) if v.get('init') is not None else None
                if optional(v.get('t', '')) and (i is None or i.get('k') == 'Ctor' and not i['a'] or i.get('k') == 'Init' and not i['a']):
                    empty[v['id']] = v
    for vid, v in empty.items():
        given, through = [], []
        for c in walk(fn['body']):
            if c.get('k') == 'Call' and c.get('obj') is not None or c.get('k') == 'Assign' or c.get('k') == 'Call' and c.get('op'):
                tgt = strip(c['a'] if c['k'] == 'Assign' else c.get('obj') if c.get('obj') is not None else c['a'][0] if c['a'] else {})
                if tgt.get('k') == 'Ref' and tgt.get('id') == vid:
                    s = c.get('op') or sname(c.get('fn', ''))
                    if s in ('=', 'emplace', 'operator='):
                        given.append(c['l'])
                    elif s in ('*', '->', 'operator*', 'operator->', 'value'):
                        through.append(c)
        key = f"{fn['file']}:{v['n']}"
        if (fn['file'], v['l']) in done:
            continue
        done.add((fn['file'], v['l']))
        bad = [c for c in through if not any(g < c['l'] for g in given)]
        ctx.add('P10.optional', f"src/pyinterp/core/{fn['file']}:{v['l']}", key,
                f"{v['n']} is given a value before its value is accessed", not bad,
                f"line {bad[0]['l']} accesses the value of an empty optional" if bad else '')


def accepted(ctx, eng, fn, c, label, done):
    """A constructor that excludes an optional argument and a flag is not given both."""
    if c['k'] == 'Call':
        cands = [f for fs in eng.f.funcs.values() for f in fs if f.get('kind') == 'ctor' and f.get('body') is not None and
                 f.get('clst') == plain((c.get('ta') or [''])[0]) and len(f['p']) == len(c['a'])]
        g = cands[0] if len(cands) == 1 else None
    else:
        g = eng.lookup(c)
    if g is None or g.get('body') is None:
        return
    ids = {p['id']: k for k, p in enumerate(g['p'])}
    for s in walk(g['body']):
        if s.get('k') != 'If' or not any(x.get('k') == 'Throw' for x in walk(s.get('a') or s.get('s') or {})):
            continue
        opts, flags = [], []
        for x in conjuncts(s['c']):
            y = x
            if y.get('k') == 'Call' and y.get('obj') is not None and sname(y['fn']) in ('has_value', 'operator bool'):
                o = strip(y['obj'])
                if o.get('k') == 'Ref' and o.get('id') in ids:
                    opts.append(ids[o['id']])
            elif y.get('k') == 'Ref' and y.get('id') in ids and y.get('t', '').endswith('bool'):
                flags.append(ids[y['id']])
        if not opts or not flags:
            continue
        key = (fn['file'], c['l'], g['q'])
        if key in done:
            continue
        done.add(key)
        bad = []
        for k in opts:
            a = c['a'][k]
            while a.get('k') in ('Cast', 'DefArg'):
                a = a['e']
            # a value converted to an optional is always present
            if a.get('k') == 'Ctor' and optional(a.get('t', '')) and a['a'] and not optional(strip(a['a'][0]).get('t', '')) and \
                    'nullopt' not in strip(a['a'][0]).get('t', '') or not optional(a.get('t', '')):
                bad.append(k)
        for k in flags:
            if const_of(c['a'][k]) == 0:
                bad = []
        ctx.add('P10.accept', f"src/pyinterp/core/{fn['file']}:{c['l']}", f'{label}', f'{label}: the state that is saved is accepted '
                'by the constructor that restores it', not bad,
                f"{g['p'][bad[0]]['n']} is always given, with {g['p'][flags[0]]['n']}" if bad else '')


# -- record types ----------------------------------------------------------------

def records(ctx):
    """Records exchanged with NumPy declare every member."""
    facts = ctx.facts
    for f in facts.all_funcs():
        for c in walk(f.get('body') or {}):
            if c.get('k') == 'Call' and c.get('fn', '').startswith('pybind11::detail::npy_format_descriptor<') and \
                    c['fn'].endswith('register_dtype'):
                t = c['fn'][len('pybind11::detail::npy_format_descriptor<'):]
                depth = 0
                for j, ch in enumerate(t):
                    if ch in '<(':
                        depth += 1
                    elif ch in '>)' or ch == ',' and depth == 0:
                        if depth == 0:
                            t = t[:j]
                            break
                        depth -= 1
                names = [x['v'] for x in walk(c['a']) if x.get('k') == 'Str']
                rec = next((r for q in facts.recs.values() for r in q if r['t'] == t), None)
                if rec is None:
                    continue
                fields = [x['n'] for x in rec['f']]
                miss = [x for x in fields if x.rstrip('_') not in {n.rstrip('_') for n in names}]
                ctx.add('P10.record', f"src/pyinterp/core/{f['file']}:{c['l']}", short(t),
                        f'{short(t)}: every member is part of the NumPy record', not miss, f'{miss} missing')


# -- Python ----------------------------------------------------------------------

def attr(n):
    return n.attr if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self' else None


def python(ctx):
    root = os.path.join(REPO, 'src/pyinterp')
    for d, dirs, files in os.walk(root):
        dirs[:] = [x for x in dirs if x not in ('tests', 'core', '__pycache__')]
        for fname in sorted(files):
            if not fname.endswith('.py'):
                continue
            path = os.path.join(d, fname)
            rel = os.path.relpath(path, REPO)
            tree = ast.parse(open(path, encoding='utf-8').read())
            for cls in [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
                fns = {n.name: n for n in cls.body if isinstance(n, ast.FunctionDef)}
                if '__getstate__' in fns and '__setstate__' in fns:
                    python_pair(ctx, rel, cls, fns)
                if '__reduce__' in fns and '__init__' in fns:
                    python_reduce(ctx, rel, cls, fns)


def python_reduce(ctx, rel, cls, fns):
    params = [a.arg for a in fns['__init__'].args.args[1:]]
    need = len(params) - len(fns['__init__'].args.defaults)
    for n in ast.walk(fns['__reduce__']):
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple) and len(n.value.elts) == 2 and \
                isinstance(n.value.elts[1], ast.Tuple):
            args = n.value.elts[1].elts
            bad = '' if need <= len(args) <= len(params) else f'{len(args)} arguments for {params}'
            for k, a in enumerate(args):
                for x in attrs_of(a):
                    if x in params and k < len(params) and params[k] != x:
                        bad = f'{x} is given as {params[k]}'
            ctx.add('P10.python', f'{rel}:{n.lineno}', f'{cls.name}:reduce', f'{cls.name}: __reduce__ gives each argument of the '
                    'constructor its own attribute', not bad, bad)


def slots_of(expr):
    """Positions of the attributes of self in a state expression."""
    while isinstance(expr, ast.Call):
        expr = expr.args[0] if expr.args else None
        if expr is None:
            return {}
    out = {}
    if isinstance(expr, ast.Tuple):
        if len(expr.elts) == 1:
            return slots_of(expr.elts[0]) if isinstance(expr.elts[0], (ast.Call, ast.Tuple)) else {0: attrs_of(expr.elts[0])}
        for i, x in enumerate(expr.elts):
            out[i] = attrs_of(x)
    elif isinstance(expr, ast.Dict):
        for k, v in zip(expr.keys, expr.values):
            out[ast.dump(k)] = attrs_of(v)
    return out


def attrs_of(e):
    return {attr(n) for n in ast.walk(e) if attr(n)}


def python_pair(ctx, rel, cls, fns):
    g, s, init = fns['__getstate__'], fns['__setstate__'], fns.get('__init__')
    state = s.args.args[1].arg
    local = {}
    for n in ast.walk(g):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            local[n.targets[0].id] = n.value
    ret = next((n.value for n in ast.walk(g) if isinstance(n, ast.Return) and n.value is not None), None)
    for _ in range(3):
        if isinstance(ret, ast.Name) and ret.id in local:
            ret = local[ret.id]
    saved = slots_of(ret) if ret is not None else {}
    where = f'{rel}:{s.lineno}'
    # values of setstate
    env = {state: {'*'}}
    restored = {}

    def val(e):
        if isinstance(e, ast.Name):
            return set(env.get(e.id, ()))
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant):
            v = val(e.value)
            if '*' in v:
                k = e.slice.value
                return {k if not isinstance(k, str) else ast.dump(e.slice)} if not single else {'*'}
            return v
        out = set()
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == 'self':
            return set(restored.get(e.attr, ()))
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                out |= val(c)
        return out

    # the whole state in one pickled slot
    single = isinstance(ret, ast.Tuple) and len(ret.elts) == 1 and isinstance(ret.elts[0], (ast.Call, ast.Tuple))

    def store(t, v):
        if attr(t):
            restored.setdefault(attr(t), set()).update(v)
        elif isinstance(t, ast.Name):
            env[t.id] = env.get(t.id, set()) | v
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            b = t
            while isinstance(b, (ast.Attribute, ast.Subscript)):
                b = b.value
            if isinstance(b, ast.Name):
                env[b.id] = env.get(b.id, set()) | v

    for n in ast.walk(s):
        if isinstance(n, ast.Assign):
            t = n.targets[0]
            if isinstance(t, ast.Tuple):
                if isinstance(n.value, ast.Tuple):
                    for x, y in zip(t.elts, n.value.elts):
                        store(x, val(y))
                else:
                    v = val(n.value)
                    for i, x in enumerate(t.elts):
                        store(x, {i} if '*' in v else v)
            else:
                for t in n.targets:
                    store(t, val(n.value))
        elif isinstance(n, ast.AnnAssign) and n.value is not None:
            store(n.target, val(n.value))
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            c = n.value
            if isinstance(c.func, ast.Attribute):
                b = c.func.value
                while isinstance(b, (ast.Attribute, ast.Subscript)):
                    b = b.value
                if isinstance(b, ast.Name) and b.id in env:
                    for a in c.args:
                        env[b.id] |= val(a)
                elif attr(c.func.value):
                    for a in c.args:
                        restored.setdefault(attr(c.func.value), set()).update(val(a))
    need = set()
    for n in ast.walk(init) if init is not None else ():
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                for x in (t.elts if isinstance(t, ast.Tuple) else [t]):
                    if attr(x):
                        need.add(attr(x))
    for v in saved.values():
        need |= {x for x in v if x in need or init is None}
    for a in sorted(need):
        mine = {k for k, v in saved.items() if a in v}
        got = restored.get(a)
        ok = bool(mine) and got is not None and bool(mine & got or '*' in got)
        ctx.add('P10.python', where, f'{cls.name}:{a}', f'{cls.name}: {a} is saved and restored from the same slot', ok,
                'not saved' if not mine else 'not restored' if not got else f'saved in {sorted(map(str, mine))}, restored from '
                f'{sorted(map(str, got))}')


def check(ctx):
    ctx.rule('P10.slot', 'a field is restored from the slot of the state in which it was saved', 60)
    ctx.rule('P10.field', 'every field that takes values from outside is part of the state', 60)
    ctx.rule('P10.used', 'every slot of the state is used to restore the object', 60)
    ctx.rule('P10.variant', 'every kind of state that is saved can be restored', 2)
    ctx.rule('P10.stream', 'what is written to a binary stream is read back in the same order, with the same sizes', 8)
    ctx.rule('P10.optional', 'the value of an optional is set before it is accessed while an object is restored', 1)
    ctx.rule('P10.accept', 'the constructor used to restore an object accepts every state that is saved', 2)
    ctx.rule('P10.type', 'a slot is restored through a type that holds every value saved in it', 20)
    ctx.rule('P10.record', 'a record exchanged with NumPy declares every member of its structure', 5)
    ctx.rule('P10.python', 'a Python class restores every attribute from the slot in which it was saved', 6)
    cpp(ctx)
    streams(ctx)
    construction(ctx)
    records(ctx)
    python(ctx)
