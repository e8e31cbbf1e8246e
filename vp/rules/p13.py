"""P13: every named option selects the implementation that bears its name."""
import ast
import os
import re

from .. import bindings, options as O, pyopts
from ..bindings import strip
from ..engine import walk
from ..extent import sname
from ..threads import short

UNITS = {'Y': 'year', 'M': 'month', 'W': 'week', 'D': 'day', 'h': 'hour', 'm': 'minute', 's': 'second', 'ms': 'millisecond',
         'us': 'microsecond', 'ns': 'nanosecond', 'ps': 'picosecond', 'fs': 'femtosecond', 'as': 'attosecond'}
SCALARS = {'float64': 'double', 'float32': 'float', 'uint8': 'unsigned char', 'int8': 'signed char'}
WORDS = {'none', 'true', 'false', 'nan', 'float', 'int', 'str', 'numpy'}
CORE = 'src/pyinterp/core/'


def at(fn, line):
    return f"{CORE}{fn['file']}:{line or fn['l']}"


def text(v):
    return v[1].rsplit('::', 1)[-1] if v[0] == 'E' else repr(v[1])


def plain(v):
    return v[1].rsplit('::', 1)[-1] if v[0] == 'E' else v[1]


def once(facts):
    seen = set()
    for f in facts.all_funcs():
        if f.get('body') and (f['file'], f['l'], f['n']) not in seen:
            seen.add((f['file'], f['l'], f['n']))
            yield f


# -- the enumerations seen from Python ---------------------------------------------
def registered(facts):
    """{enum type: (name, [(text, enumerator, where)])}."""
    out = {}
    for f in facts.all_funcs():
        for n in walk(f.get('body') or {}):
            if n.get('k') == 'Ctor' and n.get('cls') == 'pybind11::enum_':
                t = re.search(r'enum_<(.*)>', n.get('t', ''))
                s = next((x for x in map(O.peel, n['a']) if isinstance(x, dict) and x.get('k') == 'Str'), None)
                if t and s:
                    e = out.setdefault(t.group(1), {'name': s['v'], 'where': at(f, n['l']), 'values': []})
                    e['name'] = s['v']
            if n.get('k') == 'Call' and n.get('fn', '').startswith('pybind11::enum_<') and sname(n['fn']) == 'value':
                t = re.search(r'enum_<(.*)>::value$', n['fn']).group(1)
                s, v = O.peel(n['a'][0]), O.constant(n['a'][1])
                if isinstance(s, dict) and s.get('k') == 'Str' and v:
                    e = out.setdefault(t, {'name': t, 'where': at(f, n['l']), 'values': []})
                    e['values'].append((s['v'], v, at(f, s['l'])))
    return out


def enums(ctx, reg):
    for t, e in sorted(reg.items()):
        scope = t.rsplit('::', 1)[0]
        full = ctx.facts.enums.get(t)
        names = [x[0] for x in full['e']] if full else []
        seen = {}
        for s, v, where in e['values']:
            ok = O.joined(s) == O.joined(plain(v))
            ctx.add('P13.enum', where, f'{e["name"]}.{s}', f'the Python name {e["name"]}.{s} stands for the enumerator of that name',
                    ok and s not in seen, f'it stands for {plain(v)}' if not ok else 'it is defined twice')
            seen[s] = v
        missing = [x for x in names if x not in {plain(v) for _, v, _ in e['values']}]
        ctx.add('P13.enum', e['where'], e['name'], f'every enumerator of {short(t)} has a Python name', not missing,
                f'{scope}::{", ".join(missing)} has none')


# -- what an option selects in the core --------------------------------------------
def norm(options_, name):
    """Name used to compare: the unit codes of NumPy stand for their units."""
    n = name.lstrip('"')
    return UNITS.get(n, n) if options_ else n


def selection(ctx, fn, s, reg):
    facts = ctx.facts
    reach = {}
    for v in s.values + [('S', '<another name>')]:
        r = O.Reach(facts)
        out = r.run(fn, {s.key: v})
        reach[v] = (r, out, O.entities(r.nodes))
    live = [v for v in s.values if reach[v][1] != {'throw'}]
    where, name = at(fn, fn['l']), f'{short(fn["q"])}({s.name()})'
    strings = not s.enum
    units = strings and len({plain(v) for v in s.values} & set(UNITS)) >= 6 or \
        not strings and len({O.joined(plain(v)) for v in s.values} & set(UNITS.values())) >= 6
    if strings and len(s.values) >= 2:
        other = reach[('S', '<another name>')][1]
        ctx.add('P13.unknown', where, name, f'{name} rejects a name that is not one of its options', other <= {'throw'},
                'another name is accepted')
    if units and strings:
        missing = sorted(set(UNITS) - {plain(v) for v in s.values})
        ctx.add('P13.missing', where, name, f'{name} knows every unit of NumPy', not missing, ', '.join(missing))
    if len(s.values) < 2 or not live:
        return
    common = set.intersection(*[set(reach[v][2]) for v in live]) if len(live) > 1 else set()
    cand = [(norm(units, plain(v)), v) for v in s.values]
    own, chosen = {}, {}
    for v in live:
        for ent, line in reach[v][2].items():
            b = O.best(norm(units, ent), [c for c, _ in cand])
            if not b:
                continue
            bv = [w for c, w in cand if c in b]
            if v in bv:
                own.setdefault(v, ent)
            elif ent not in common:
                chosen.setdefault(v, []).append((ent, bv, line))
    if not own and not chosen:
        return
    for v in live:
        if v not in s.mentioned and v not in own and v not in chosen:
            continue
        bad, line = '', fn['l']
        for ent, bv, ln in chosen.get(v, []):
            # several entities may be reached: the wrong one must not come instead of, or with, the right one
            bad, line = f'{text(v)} selects {ent.lstrip(chr(34))}, which bears the name of {text(bv[0])}', ln
        same = [w for w in live if w != v and w in s.mentioned and v not in own and
                reach[w][2].keys() == reach[v][2].keys()]
        if not bad and same:
            bad = f'{text(v)} and {text(same[0])} select the same thing'
        if not bad and v not in own and 2 * len(own) > len(live):
            bad = f'nothing that {text(v)} selects bears its name'
        ctx.add('P13.select', where, f'{name}:{plain(v)}', f'in {name}, {text(v)} selects what bears its name', not bad, bad)
    t = s.enum and next((t for t, e in reg.items() if {x[1] for x in e['values']} & set(s.values)), None)
    if t:
        dead = [text(v) for v in s.values if reach[v][1] == {'throw'}]
        ctx.add('P13.missing', where, name, f'{name} handles every {reg[t]["name"]}', not dead, f'{", ".join(dead)} always fails')


# -- the three choices of cells to fill ----------------------------------------------
def cells(ctx, fn, s):
    """Residual conditions of a choice between undefined, defined and all values."""
    names = {O.joined(plain(v)): v for v in s.values}
    if not {'undefined', 'defined', 'all'} <= set(names):
        return
    nan = set()
    for n in walk(fn['body']):
        if n.get('k') == 'Var' and isinstance(n.get('init') or n.get('e'), dict):
            i = O.peel(n.get('init') or n.get('e'))
            if i.get('k') == 'Call' and sname(i.get('fn', '')) == 'isnan':
                nan.add(('r', n['id']))
    for n in walk(fn['body']):
        if n.get('k') != 'If':
            continue
        if not any(O.key(x) == s.key for x in walk(n['c']) if x.get('k') in ('Ref', 'Mem')):
            continue
        atoms = {O.key(x) for x in walk(n['c']) if x.get('k') == 'Ref'} & nan
        calls = [x for x in walk(n['c']) if x.get('k') == 'Call' and sname(x.get('fn', '')) == 'isnan']
        if len(atoms) != 1 or calls:
            continue
        a = atoms.pop()
        r = O.Reach(ctx.facts)
        got = {k: tuple(r.cond(n['c'], {s.key: v, a: b}) for b in (True, False)) for k, v in names.items()}
        want = {'undefined': (True, False), 'defined': (False, True), 'all': (True, True)}
        flip = {k: tuple(not x for x in w) for k, w in want.items()}
        if any(None in g for g in got.values()):
            continue
        bad = [k for k in want if got.get(k) != want[k]]
        if bad and all(got[k] == flip[k] for k in flip):
            bad = []
        ctx.add('P13.cells', at(fn, n['l']), f'{short(fn["q"])}', f'in {short(fn["q"])}, undefined, defined and all values are told apart '
                'by whether the value is NaN', not bad, f'wrong for {", ".join(bad)}')


# -- boundaries of a window --------------------------------------------------------
def linear(e, env):
    """(variables: coefficients, constant) of an integer expression, remainders by `len` ignored."""
    e = O.peel(e)
    if not isinstance(e, dict):
        return None
    k = e.get('k')
    if k == 'Int':
        return {}, int(e['v'])
    if k == 'Ref' or k == 'Mem':
        kk = O.key(e)
        return ({kk: 1}, 0) if kk else None
    if k == 'Un' and e.get('op') == '-':
        a = linear(e['a'], env)
        return a and ({x: -c for x, c in a[0].items()}, -a[1])
    if k == 'Bin' and e.get('op') in ('+', '-'):
        a, b = linear(e['a'], env), linear(e['b'], env)
        if a is None or b is None:
            return None
        sg = 1 if e['op'] == '+' else -1
        d = dict(a[0])
        for x, c in b[0].items():
            d[x] = d.get(x, 0) + sg * c
        return d, a[1] + sg * b[1]
    if k == 'Call' and sname(e.get('fn', '')) == 'remainder' and len(e['a']) == 2:
        env.add(O.key(e['a'][1]))
        return linear(e['a'][0], env)
    if k == 'Call' and not e['a'] and sname(e.get('fn', '')) == 'size':
        return {('size',): 1}, 0
    return None


def boundary(ctx, fn, s):
    names = {O.joined(plain(v)): v for v in s.values}
    if not {'expand', 'wrap', 'sym', 'undef'} <= set(names):
        return
    sets = {}
    for k, v in names.items():
        r = O.Reach(ctx.facts)
        r.run(fn, {s.key: v})
        sets[k] = {id(n): n for n in r.nodes if n.get('k') == 'Assign' and n.get('op', '=') == '='}
    for k in ('expand', 'wrap', 'sym'):
        mine = [n for i, n in sets[k].items() if sum(i in o for o in sets.values()) == 1]
        want = {'expand': {(0, 0), (0, -1)}, 'wrap': {(1, 0)}, 'sym': {(-1, 0), (-1, -2)}}[k]
        for n in mine:
            env = set()
            a, b = O.key(n['a']), linear(n['b'], env)
            if a is None or b is None:
                continue
            lens = {('size',)} | env
            coef = {x: c for x, c in b[0].items() if x != a and x not in lens}
            if coef:
                continue    # `len` of expand is only known by the other forms
            got = (b[0].get(a, 0), b[1])
            ok = got in want
            ctx.add('P13.boundary', at(fn, n['l']), f'{k}:{n["l"]}', f'beyond the end of an axis, {k} takes the index its name tells',
                    ok, f'index {"+" if got[0] >= 0 else "-"}{abs(got[0])}*i{got[1]:+d} modulo the size')


# -- data types and classes named by the module --------------------------------------
def types(ctx):
    facts = ctx.facts
    seen = set()
    families = {}
    suffixes = {}
    for f in facts.all_funcs():
        for n in walk(f.get('body') or {}):
            if n.get('k') != 'Call' or not n.get('ta') or n.get('fn', '').startswith(('std::', 'pybind11::', 'Eigen::')):
                continue
            lits = [x['v'] for x in map(O.peel, n['a']) if isinstance(x, dict) and x.get('k') == 'Str' and re.match(r'[\w]+$', x['v'])]
            if not lits or (f['file'], n['l'], n['fn']) in seen:
                continue
            seen.add((f['file'], n['l'], n['fn']))
            families.setdefault(n['fn'], []).append((f, n, lits))
            for lit in lits:
                m = re.search(r'(?i)(float64|float32|uint8|int8)', lit)
                if not m:
                    continue
                suffixes.setdefault(n['fn'], []).append((f, n, lit, SCALARS[m.group(1).lower()]))
    for fn, calls in suffixes.items():
        # the parameter of the template that the suffix names
        count = [sum(len(n['ta']) > i and n['ta'][i] == w for _, n, _, w in calls) for i in range(max(len(n['ta']) for _, n, _, _ in calls))]
        i = max(range(len(count)), key=lambda k: (count[k], k))
        if not count[i] or not any(n['ta'][i] in SCALARS.values() for _, n, _, _ in calls if len(n['ta']) > i):
            continue
        for f, n, lit, want in calls:
            ctx.add('P13.type', at(f, n['l']), f'{short(fn)}:{lit}', f'{short(fn)} is built with the type its suffix {lit} names',
                    len(n['ta']) > i and n['ta'][i] == want, f'{lit} with {", ".join(n["ta"])[:80]}')
    for fn, calls in families.items():
        for f, n, lits in calls:
            for lit in lits:
                j = O.joined(lit)
                mine = {O.joined(O.strip_targs(t).rsplit('::', 1)[-1]) for t in n['ta']}
                allt = {O.joined(O.strip_targs(t).rsplit('::', 1)[-1]) for _, m, _ in calls for t in m['ta']}
                if len(j) > 3 and any(t.startswith(j) for t in allt):
                    ctx.add('P13.type', at(f, n['l']), f'{short(fn)}:{lit}:{len(lits)}', f'{short(fn)} is built with the implementation that '
                            f'{lit} names', any(t.startswith(j) for t in mine), ', '.join(n['ta'])[:100])
                if j == 'temporal' and any('long' in m['ta'] or any('Temporal' in t for t in m['ta']) for _, m, _ in calls):
                    ctx.add('P13.type', at(f, n['l']), f'{short(fn)}:{lit}:{lits}', f'{short(fn)} is built with integer dates where it is '
                            'called temporal', any(re.search(r'\blong\b|Temporal', t) for t in n['ta']), ', '.join(n['ta'])[:100])
    # classes
    regs = []
    done = set()
    for f in facts.all_funcs():
        for n in walk(f.get('body') or {}):
            if n.get('k') == 'Ctor' and n.get('cls') == 'pybind11::class_' and len(n['a']) >= 2:
                cls = bindings.class_type({'fn': n['fn']}) if 'class_<' in n.get('fn', '') else ''
                lits = [x['v'] for x in walk(n['a'][1]) if x.get('k') == 'Str' and re.match(r'\w+$', x['v'])]
                if cls and lits and (f['file'], n['l'], cls) not in done:
                    done.add((f['file'], n['l'], cls))
                    regs.append((f, n, cls, lits))
    last = {O.joined(O.strip_targs(c).rsplit('::', 1)[-1]) for _, _, c, _ in regs}
    for f, n, cls, lits in regs:
        mine = O.joined(O.strip_targs(cls).rsplit('::', 1)[-1])
        for lit in lits:
            if O.joined(lit) in last:
                ctx.add('P13.type', at(f, n['l']), f'{lit}:{short(O.strip_targs(cls))}', f'the Python class {lit} is the core class of that name',
                        O.joined(lit) == mine, f'it is {short(cls)}')


# -- names that forward to other names -----------------------------------------------
def returned(body):
    """The expression of a body that only returns one (scopes that release the lock set aside)."""
    ss = [s for s in (body.get('s') or []) if isinstance(s, dict)]
    rest = []
    for s in ss:
        if s.get('k') in ('Decl', 'Var') and any('gil_scoped' in str(x.get('t', '')) for x in walk(s)):
            continue
        rest.append(s)
    if len(rest) == 1 and rest[0].get('k') == 'Return' and rest[0].get('e'):
        return rest[0]['e']
    if len(rest) == 1 and rest[0].get('k') in ('Call',):
        return rest[0]
    return None


def methods(facts):
    out = {}
    for f in facts.all_funcs():
        if f.get('cls'):
            out.setdefault(O.strip_targs(f['cls']), set()).add(f['n'])
    return out


def members(e):
    """(class, method, line) of the core methods an expression names."""
    for n in walk(e):
        q = None
        if n.get('k') == 'Call' and n.get('fn', '').startswith('pyinterp::'):
            q = n['fn']
        elif n.get('k') == 'Ref' and n.get('d') == 'F' and (n.get('fn') or n.get('q') or '').startswith('pyinterp::'):
            q = n.get('fn') or n.get('q')
        if q:
            cls, _, name = O.strip_targs(q).rpartition('::')
            yield cls, name, n.get('l')


def bases(facts, cls):
    out, todo = set(), [cls]
    recs = {}
    for q, r in facts.recs.items():
        recs.setdefault(O.strip_targs(q), r[0] if isinstance(r, list) else r)
    while todo:
        c = todo.pop()
        if c in out:
            continue
        out.add(c)
        for b in (recs.get(c) or {}).get('b') or []:
            todo.append(O.strip_targs(b if isinstance(b, str) else b.get('t') or b.get('q') or ''))
    return out


def forwards(ctx, label, where, n, e, meth, key):
    got = list(members(e))
    if any(m == n for _, m, _ in got):
        return
    for cls, m, line in got:
        own = set().union(*[meth.get(c, set()) for c in bases(ctx.facts, cls)])
        if m != n and n in own and m in own and not O.bears(m, n):
            ctx.add('P13.forward', where, key, f'{label} answers with the {n} it names', False, f'it calls {short(cls)}::{m}')
            return
    if got:
        own = set().union(*[meth.get(c, set()) for cls, _, _ in got for c in bases(ctx.facts, cls)])
        if n in own:
            ctx.add('P13.forward', where, key, f'{label} answers with the {n} it names', True)


def forward(ctx, binds):
    meth = methods(ctx.facts)
    for b in binds:
        if not b.name or b.name.startswith('__'):
            continue
        if b.lam is not None:
            for s in b.lam.get('specs', [])[:1]:
                e = returned(s.get('body') or {})
                if e is not None:
                    forwards_ok(ctx, b, e, meth)
        elif b.target in ctx.facts.funcs:
            f = ctx.facts.funcs[b.target][0]
            if f.get('cls'):
                own = set().union(*[meth.get(c, set()) for c in bases(ctx.facts, O.strip_targs(f['cls']))] or [set()])
                own |= meth.get(O.strip_targs(b.cls or ''), set())
                if b.name in own:
                    ctx.add('P13.forward', b.where, b.label(), f'{b.label()} is bound to the method it names', f['n'] == b.name or O.bears(f['n'], b.name),
                            f'it is bound to {f["n"]}')
    for f in once(ctx.facts):
        if not f.get('cls') or f['n'].startswith('operator'):
            continue
        e = returned(f['body'])
        if e is None:
            continue
        got = list(members(e))
        other = [x for x in got if x[0] != O.strip_targs(f['cls'])]
        if not other:
            continue
        if any(m == f['n'] for _, m, _ in other):
            ctx.add('P13.forward', at(f, f['l']), f'{short(f["q"])}', f'{short(f["q"])} answers with the {f["n"]} it names', True)
            continue
        for cls, m, line in other:
            own = meth.get(cls, set())
            if f['n'] in own and m in own and not m.startswith('operator') and not O.bears(m, f['n']):
                ctx.add('P13.forward', at(f, line), f'{short(f["q"])}', f'{short(f["q"])} answers with the {f["n"]} it names', False,
                        f'it calls {short(cls)}::{m}')


def forwards_ok(ctx, b, e, meth):
    forwards(ctx, b.label(), b.where, b.name, e, meth, b.label())


# -- the Python wrappers ---------------------------------------------------------------
def doc_names(fn, p, literals):
    """Names documented for an option of a function."""
    names = {a.arg for a in pyopts.params(fn)}
    got = []
    for x in pyopts.documented(fn).get(p, []):
        if re.fullmatch(r'[a-z][a-z0-9_]+', x) and x not in names and x not in WORDS and x not in got:
            got.append(x)
    return got if set(got) & set(literals) else []


def python(ctx, reg):
    repo = os.environ.get('VP_REPO', '/repo')
    pkg = pyopts.Package(repo)
    byname = {e['name']: [s for s, _, _ in e['values']] for e in reg.values()}
    options_ = {}
    for q in sorted(pkg.funcs):
        for p, vs in pyopts.literals(pkg, q).items():
            if len(vs) >= 2:
                options_[q, p] = vs
    cxx = [{plain(v) for v in s.values} for fn in once(ctx.facts) for s in O.subjects(ctx.facts, fn)
           if not s.enum and len(s.values) >= 2]
    for (q, p), vs in sorted(options_.items()):
        m, _, fn = pkg.funcs[q]
        file = pkg.mods[m][0]
        where, name = f'{file}:{fn.lineno}', f'{q}({p})'

        def run(v):
            env = pyopts.free(fn)
            env[p] = v
            e = pyopts.Eval(pkg)
            out = e.run(q, env)
            return e, out

        # the option selects something: an enumerator, a function, or a name given to the core
        results = {v: run(v) for v in vs}
        enum_sinks = {}
        other, oo = run('<another name>')
        if not any(e.sinks or e.uses for e, _ in results.values()):
            continue
        ctx.add('P13.unknown', where, name, f'{name} rejects a name that is not one of its options', oo <= {'raise'},
                'another name is accepted')
        for v in vs:
            e, out = results[v]
            bad = '' if out != {'raise'} else f'{v!r} is always refused'
            for path, s, line in e.sinks:
                t = path.names[-1]
                if t in byname:
                    enum_sinks.setdefault(t, set()).add(s)
                    if isinstance(s, str) and s not in byname[t]:
                        bad = f'{v!r} leads to {t}.{s}, which does not exist'
                    elif isinstance(s, str) and O.joined(s) != O.joined(v):
                        bad = f'{v!r} leads to {t}.{s}'
                else:
                    b = O.best(s if isinstance(s, str) else s.s.replace('*', '_'), vs)
                    if b and v not in b:
                        bad = f'{v!r} leads to {s!r}'
            ctx.add('P13.python', where, f'{name}:{v}', f'in {name}, {v!r} leads to what bears its name', not bad, bad)
        for t, got in enum_sinks.items():
            left = [s for s in byname[t] if s not in got]
            ctx.add('P13.missing', where, f'{name}:{t}', f'{name} gives access to every {t}', not left, ', '.join(left))
        given = [v for v in vs if any(a == v for _, _, a, _ in results[v][0].uses)]
        forwarded = any(isinstance(x, ast.Name) and x.id == p and isinstance(x.ctx, ast.Load) for n in ast.walk(fn)
                        if isinstance(n, (ast.Call, ast.List, ast.Tuple)) and not isinstance(getattr(n, 'ctx', None), ast.Store)
                        for x in (n.args if isinstance(n, ast.Call) else n.elts)) and not enum_sinks
        if forwarded or given:
            near = [c for c in cxx if c & set(vs)]
            # the core function is chosen by name: every text it may receive must be known by one of its readers
            best = [c for c in near if len(c & set(vs)) == max(len(x & set(vs)) for x in near)] if near else []
            union = set().union(*near) if near else set()
            if best and len(best[0] & set(vs)) >= 2:
                left = [v for v in vs if v not in union]
                ctx.add('P13.missing', where, f'{name}:core', f'the core knows every name accepted by {name}', not left, ', '.join(left))
    # documented names, directly or through the functions that pass their option on
    for q in sorted(pkg.funcs):
        m, _, fn = pkg.funcs[q]
        file = pkg.mods[m][0]
        for prm in pyopts.params(fn):
            targets = []
            if (q, prm.arg) in options_:
                targets.append((q, prm.arg))
            for c in ast.walk(fn):
                if not isinstance(c, ast.Call):
                    continue
                ev = pyopts.Eval(pkg, 0)
                ev.mod = m
                try:
                    path = ev.ev(c.func, pyopts.free(fn))
                except pyopts.Stop:
                    continue
                g = pkg.lookup(path) if isinstance(path, pyopts.Path) else None
                if not g:
                    continue
                gp = [a.arg for a in pyopts.params(pkg.funcs[g][2])]
                for i, a in enumerate(c.args):
                    if isinstance(a, ast.Name) and a.id == prm.arg and i < len(gp):
                        targets.append((g, gp[i]))
                for k in c.keywords:
                    if isinstance(k.value, ast.Name) and k.value.id == prm.arg:
                        targets.append((g, k.arg))
            for g, gprm in targets:
                vs = options_.get((g, gprm))
                if not vs:
                    continue
                docs = doc_names(fn, prm.arg, vs)
                if not docs:
                    continue
                gfn = pkg.funcs[g][2]
                left = []
                for d in docs:
                    env = pyopts.free(gfn)
                    env[gprm] = d
                    if pyopts.Eval(pkg).run(g, env) <= {'raise'}:
                        left.append(d)
                ctx.add('P13.missing', f'{file}:{fn.lineno}', f'{q}({prm.arg}):doc', f'every name documented for {q}({prm.arg}) is accepted',
                        not left, ', '.join(left))


def wrappers(ctx, binds):
    """Python methods that answer with another method of the core object."""
    repo = os.environ.get('VP_REPO', '/repo')
    pkg = pyopts.Package(repo)
    by_class = {}
    for b in binds:
        if b.name and b.cls:
            by_class.setdefault(b.cls, set()).add(b.name)
    for q in sorted(pkg.funcs):
        m, cls, fn = pkg.funcs[q]
        if cls is None or fn.name.startswith('_'):
            continue
        body = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if len(body) != 1 or not isinstance(body[0], (ast.Return, ast.Expr)):
            continue
        names = [x.attr for x in ast.walk(body[0]) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Attribute) and
                 x.value.attr == '_instance']
        if not names:
            continue
        cl = [s for s in by_class.values() if names[0] in s and fn.name in s]
        if cl:
            ctx.add('P13.forward', f'{pkg.mods[m][0]}:{fn.lineno}', q, f'{q} answers with the {fn.name} it names', fn.name in names,
                    f'it calls {names[0]}')


def check(ctx):
    ctx.rule('P13.enum', 'a Python name of an enumeration stands for the enumerator of that name, and each enumerator has one', 10)
    ctx.rule('P13.select', 'each value of an option reaches, in the core, what bears its name and nothing that bears the name of '
             'another value', 20)
    ctx.rule('P13.unknown', 'a text that is not one of the options is always rejected', 6)
    ctx.rule('P13.missing', 'every documented or registered name is handled', 6)
    ctx.rule('P13.python', 'each name accepted by a wrapper leads to the enumerator or function that bears it, which exists', 15)
    ctx.rule('P13.cells', 'the choice of the values to fill follows whether they are NaN', 0)
    ctx.rule('P13.boundary', 'each boundary takes the index its name tells', 0)
    ctx.rule('P13.type', 'functions and classes named after a type or an implementation are built with it', 20)
    ctx.rule('P13.forward', 'a method that forwards to an object having a method of the same name calls that method', 20)
    reg = registered(ctx.facts)
    enums(ctx, reg)
    n = 0
    for fn in once(ctx.facts):
        n += 1
        for s in O.subjects(ctx.facts, fn):
            selection(ctx, fn, s, reg)
            cells(ctx, fn, s)
            boundary(ctx, fn, s)
    ctx.functions |= {f['q'] for f in once(ctx.facts)}
    types(ctx)
    binds = bindings.read(ctx.facts)
    forward(ctx, binds)
    python(ctx, reg)
    wrappers(ctx, binds)
