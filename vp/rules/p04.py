"""P04: Python objects are never touched without the interpreter lock.

Regions without the lock: the statements that follow a gil_scoped_release variable up to the end of its scope, the functions
bound with call_guard<gil_scoped_release>, and everything handed to a thread.  Every function of the library reachable from a
region through calls, virtual overriders, lambdas and addresses of functions is searched for operations on Python objects."""
import re

from ..engine import walk, strip_ref
from ..facts import AnalysisError
from ..threads import PREFIX, short, thread_creation, takes_callable

OBJECTS = ('object', 'list', 'dict', 'tuple', 'str', 'bytes', 'bytearray', 'int_', 'float_', 'bool_', 'none', 'slice', 'capsule',
           'iterable', 'iterator', 'sequence', 'set', 'frozenset', 'function', 'cpp_function', 'module_', 'class_', 'array',
           'array_t', 'dtype', 'buffer', 'memoryview', 'args', 'kwargs', 'type', 'anyset', 'weakref', 'exception', 'staticmethod',
           'enum_', 'ellipsis', 'error_already_set')
PYTYPE = re.compile(r'\bpybind11::(?:' + '|'.join(OBJECTS) + r')\b(?!\s*::)')
ARRAY_READS = {'size', 'ndim', 'shape', 'strides', 'itemsize', 'nbytes', 'data', 'mutable_data', 'unchecked', 'mutable_unchecked',
               'at', 'mutable_at', 'index_at', 'offset_at', 'writeable', 'flags', 'owndata', 'ptr', 'is_none', 'check_', 'operator bool',
               'byte_offset', 'check_dimensions', 'fail_dim_check', 'check_writeable'}
ERRORS = ('value_error', 'index_error', 'key_error', 'type_error', 'stop_iteration', 'cast_error', 'import_error',
          'buffer_error', 'attribute_error', 'reference_cast_error', 'builtin_exception')


def plain_type(t):
    t = t.strip()
    return t


def by_value_python(t, holders) -> bool:
    """Is an object of type t, held by value, a Python object or a holder of one?"""
    t = t.strip()
    if t.endswith('&') or t.endswith('*'):
        return False
    if t.startswith('const '):
        t = t[6:]
    if t.startswith('pybind11::detail::unchecked_') or '(lambda' in t or '(*)' in t or ' (' in t:
        return False
    if t.startswith('std::function') or t.startswith('std::shared_ptr') or t.startswith('std::weak_ptr'):
        return False
    if t.startswith('std::vector<std::thread'):
        return False
    # references and pointers inside template arguments hold nothing
    t = re.sub(r'[\w:<>, ]*[&*]', '', t)
    if PYTYPE.search(t):
        return True
    return any(h == t or t.startswith('std::') and h in t for h in holders)


class Gil:

    def __init__(self, ctx):
        self.ctx = ctx
        self.f = ctx.facts
        self.holders = self.holding_types()
        self.over = {}
        for vs in self.f.funcs.values():
            for v in vs:
                for o in v.get('over', ()):
                    self.over.setdefault(o, []).append(v)
        self.done = set()
        self.todo = []
        self.spawners = self.spawner_ids()

    def holding_types(self):
        """Classes of the library that hold a Python object (transitively)."""
        held = set()
        base = set()
        recs = [r for rs in self.f.recs.values() for r in rs]
        while True:
            n = len(held)
            for r in recs:
                if r['t'] in held:
                    continue
                if any(by_value_python(x['t'], held) for x in r['f']) or any(b in held or PYTYPE.match(b) for b in r.get('b', ())):
                    held.add(r['t'])
            if len(held) == n:
                return held

    def spawner_ids(self):
        direct = set()
        callers = {}
        for fid, vs in self.f.funcs.items():
            for fn in vs:
                for n in walk(fn.get('body') or {}):
                    if n.get('k') in ('Call', 'Ctor'):
                        if thread_creation(n):
                            direct.add(fid)
                        if n.get('fid') in self.f.funcs:
                            callers.setdefault(n['fid'], set()).add(fid)
        seen = set()
        todo = [d for d in direct if all(takes_callable(v) for v in self.f.funcs[d])]
        while todo:
            d = todo.pop()
            if d in seen:
                continue
            seen.add(d)
            todo += [c for c in callers.get(d, ()) if all(takes_callable(v) for v in self.f.funcs[c])]
        return seen

    # -- regions ---------------------------------------------------------------
    @staticmethod
    def is_release(v):
        return 'gil_scoped_release' in v['t'] and 'call_guard' not in v['t']

    def regions(self):
        nscope = nguard = nthread = 0
        for fn in list(self.f.all_funcs()):
            body = fn.get('body')
            if body is None:
                continue
            lams = self.lambda_vars(fn)
            for n in walk(body):
                k = n.get('k')
                if k == 'Seq':
                    for i, s in enumerate(n['s']):
                        if s.get('k') == 'Decl' and any(self.is_release(v) for v in s['v']):
                            nscope += 1
                            j = next((i for i, v in enumerate(s['v']) if self.is_release(v)))
                            rest = n['s'][i + 1:]
                            where = f"{PREFIX}{fn['file']}:{s['l']}"
                            self.ctx.add('P04.scope', where, short(fn['q']), f"{short(fn['q'])} releases the lock here; nothing "
                                         'reached until the end of the scope touches a Python object', True)
                            for v in s['v'][j + 1:]:
                                if v.get('init'):
                                    rest = [{'k': 'Expr', 'l': s['l'], 'e': v['init']}] + rest
                            self.scan({'k': 'Seq', 'l': n['l'], 's': rest}, fn, lams, (f"{short(fn['q'])}",), where, 'P04.scope')
                elif k == 'Call':
                    if any('call_guard' in (a.get('t') or '') and 'gil_scoped_release' in a['t'] for a in n['a']):
                        nguard += 1
                        self.guard(n, fn, lams)
                    elif thread_creation(n) or n.get('fid') in self.spawners:
                        nthread += self.thread_args(n, fn, lams)
                elif k == 'Ctor' and thread_creation(n):
                    nthread += self.thread_args(n, fn, lams)
        return nscope, nguard, nthread

    def lambda_vars(self, fn):
        out = {}
        for n in walk(fn.get('body') or {}):
            if n.get('k') == 'Decl':
                for v in n['v']:
                    i = v.get('init')
                    if i is not None:
                        ls = [x for x in walk(i) if x.get('k') == 'Lambda']
                        if ls:
                            out[v['id']] = ls
        return out

    def thread_args(self, n, fn, lams):
        c = 0
        where = f"{PREFIX}{fn['file']}:{n['l']}"
        for a in n['a']:
            for x in walk(a):
                if x.get('k') == 'Lambda' or x.get('k') == 'Ref' and x.get('id') in lams:
                    c += 1
                    self.ctx.add('P04.thread', where, short(fn['q']), f"nothing run by the threads of {short(fn['q'])} touches a "
                                 'Python object', True)
                    for l in ([x] if x['k'] == 'Lambda' else lams[x['id']]):
                        self.scan(l, fn, lams, (short(fn['q']) + ' worker',), where, 'P04.thread')
        return c

    def target(self, n):
        """The function bound by a .def call."""
        for a in n['a']:
            for x in walk(a):
                if x.get('k') == 'Lambda':
                    return ('lam', x)
                if x.get('k') == 'Ref' and x.get('d') == 'F' and x.get('repo'):
                    return ('fn', x)
                if x.get('k') == 'Ref' and x.get('d') == 'F':
                    return ('ext', x)
                if x.get('k') == 'Ctor' and 'pybind11::arg' == x.get('cls'):
                    break
        for a in n['a']:
            if 'pybind11::detail::initimpl' in (a.get('t') or ''):
                return ('init', a)
            if re.search(r'pybind11::detail::op_', a.get('t') or ''):
                return ('op', a)
        return None

    def guard(self, n, fn, lams):
        name = next((a for a in n['a'] if a.get('k') == 'Str'), n)
        where = f"{PREFIX}{fn['file']}:{name['l']}"
        nm = name.get('v') or 'constructor'
        if nm == 'constructor':
            where = f"{PREFIX}{fn['file']}:{n['a'][0]['l']}"
        t = self.target(n)
        key = f"{fn['q'].rsplit('::', 1)[-1]}:{nm}"
        what = f"{nm}, bound in {short(fn['q'])} with the lock released, neither takes, returns nor touches a Python object"
        self.ctx.add('P04.guard', where, key, what, True)
        if t is None:
            raise AnalysisError(f'{where}: the function bound with call_guard is not recognised')
        kind, x = t
        ps, ret = [], ''
        if kind == 'lam':
            for sp in x['specs'][:1]:
                ps = sp['p']
                ret = sp['ret']
            self.scan(x, fn, lams, (key,), where, 'P04.guard')
        elif kind == 'fn':
            vs = self.variants(x)
            for v in vs:
                ps = v['p']
                ret = v['ret']
                self.enqueue(v, (key,), where, 'P04.guard')
        elif kind == 'init':
            cls = self.bound_class(n)
            m = re.search(r'constructor<(.*)>', x['t'])
            args = m.group(1) if m else ''
            ps = [{'n': 'argument', 't': y} for y in split_targs(args)]
            for v in self.f.all_funcs():
                if v.get('kind') == 'ctor' and v.get('clst') == cls and [strip_ref(p['t']).replace('const ', '') for p in v['p']] \
                        == [strip_ref(p['t']).replace('const ', '') for p in ps]:
                    self.enqueue(v, (key,), where, 'P04.guard')
        for p in ps:
            if by_value_python(p['t'], self.holders):
                self.ctx.add('P04.guard', where, key + ':param', f"{nm}: parameter {p['n']} holds a Python object and is "
                             'destroyed while the lock is released', False)
        if ret and by_value_python(ret, self.holders):
            self.ctx.add('P04.guard', where, key + ':return', f'{nm} creates the Python object it returns while the lock is '
                         'released', False)

    def bound_class(self, n):
        t = strip_ref((n.get('obj') or {}).get('t', ''))
        a = split_targs(t[t.find('<') + 1:t.rfind('>')]) if '<' in t else ['']
        return a[0]

    def variants(self, x):
        vs = self.f.funcs.get(x.get('fid') or x.get('id'), [])
        if len(vs) > 1 and x.get('pt') is not None:
            c = [v for v in vs if [p['t'] for p in v['p']] == x['pt']]
            if len(c) > 1 and x.get('clst'):
                c2 = [v for v in c if v.get('clst') == x['clst']]
                c = c2 or c
            vs = c or vs
        return vs

    # -- reachability --------------------------------------------------------------
    def enqueue(self, v, chain, where, rule):
        k = id(v)
        if k in self.done:
            return
        self.done.add(k)
        self.todo.append((v, chain, where, rule))

    def drain(self):
        while self.todo:
            v, chain, where, rule = self.todo.pop(0)
            self.ctx.functions.add((v['q'], v['file'], v['l']))
            c = chain + (short(v['q']),)
            for i in v.get('inits', ()):
                if i.get('e'):
                    self.scan(i['e'], v, {}, c, where, rule)
            if v.get('body') is not None:
                self.scan(v['body'], v, self.lambda_vars(v), c, where, rule)

    def bad(self, n, fn, chain, where, rule, what):
        at = f"{PREFIX}{fn['file']}:{n.get('l')}"
        f0 = short(fn['q'])
        self.ctx.add(rule, at, f'{chain[0]}:{f0}:{what}', f'{what} in {f0} while the lock is released (region at {where}'
                     + (', through ' + ' -> '.join(chain) if len(chain) > 1 else '') + ')', False)

    def scan(self, root, fn, lams, chain, where, rule):
        stack = [root]
        self.seen_lams = getattr(self, 'seen_lams', set())
        while stack:
            n = stack.pop()
            if isinstance(n, list):
                stack.extend(n)
                continue
            if not isinstance(n, dict):
                continue
            k = n.get('k')
            if k == 'Seq':
                ss = n['s']
                for i, s in enumerate(ss):
                    if s.get('k') == 'Decl' and any('gil_scoped_acquire' in v['t'] for v in s['v']):
                        ss = ss[:i]
                        break
                stack.extend(ss)
                continue
            self.check_node(n, fn, chain, where, rule)
            if k == 'Ref' and n.get('d') == 'V' and n.get('id') in lams:
                for l in lams[n['id']]:
                    if (id(l), 0) not in self.seen_lams:
                        self.seen_lams.add((id(l), 0))
                        stack.append(l)
            if k == 'Lambda':
                # one instance per instantiation
                stack.extend(s['body'] for s in n['specs'] if s.get('body'))
                stack.extend(c['init'] for c in n['caps'] if c.get('init'))
                if n is not root:
                    for c in n['caps']:
                        if not c.get('ref') and not c.get('this') and by_value_python(c.get('t') or '', self.holders):
                            self.bad(n, fn, chain, where, rule, f"capture by copy of {c.get('n')}")
                continue
            if k == 'Ref' and n.get('d') == 'F' and n.get('repo'):
                for v in self.variants(n):
                    self.enqueue(v, chain, where, rule)
            if k in ('Call', 'Ctor') and n.get('fid') in self.f.funcs:
                vs = self.variants(n)
                if n.get('obj') is not None and len(vs) > 1:
                    ot = strip_ref(n['obj'].get('t', '')).replace('const ', '', 1)
                    c = [v for v in vs if v.get('clst') == ot]
                    vs = c or vs
                for v in vs:
                    self.enqueue(v, chain, where, rule)
                if n.get('virt') and not n.get('nonvirt'):
                    for o in self.overriders(n['fid']):
                        self.enqueue(o, chain, where, rule)
            for v in n.values():
                if isinstance(v, (dict, list)):
                    stack.append(v)

    def overriders(self, fid):
        out, todo, seen = [], [fid], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            for o in self.over.get(x, ()):
                out.append(o)
                todo.append(o['id'])
        return out

    def check_node(self, n, fn, chain, where, rule):
        k = n.get('k')
        if k == 'Call':
            f = n.get('fn', '')
            base = f.rsplit('::', 1)[-1]
            if re.match(r'_?Py[A-Z_]', f) and not re.match(r'PyGILState_|PyEval_(Save|Restore)Thread', f):
                self.bad(n, fn, chain, where, rule, f'call of {f}')
                return
            if 'fn' not in n:
                ct = ((n.get('ce') or {}).get('t') or '')
                if 'PyObject' in ct or '_object' in ct:
                    self.bad(n, fn, chain, where, rule, 'call into the Python API')
                return
            if f.startswith('pybind11::'):
                if f.startswith('pybind11::detail::unchecked_') or f.startswith('pybind11::gil_'):
                    return
                cls = short_class(f)
                if base in ARRAY_READS:
                    return
                if cls in ERRORS:
                    return
                self.bad(n, fn, chain, where, rule, f'call of {short(f)}')
                return
            if n.get('op') in ('=', ) and n.get('obj') is not None and by_value_python(strip_ref(n['obj'].get('t', '')),
                                                                                       self.holders):
                self.bad(n, fn, chain, where, rule, 'assignment of a Python object')
                return
            t = n.get('t') or ''
            if not n.get('repo') and by_value_python(t, self.holders):
                self.bad(n, fn, chain, where, rule, f'creation of a Python object by {short(f)}')
                return
            if base in ('push_back', 'emplace_back', 'insert', 'emplace', 'assign', 'resize', 'clear', 'erase', 'pop_back') and \
                    n.get('obj') is not None and by_value_python(strip_ref(n['obj'].get('t', '')), self.holders):
                self.bad(n, fn, chain, where, rule, f'{base} on a container of Python objects')
        elif k == 'Ctor':
            if n.get('move'):
                return
            cls = n['cls']
            if cls.startswith('pybind11::detail::unchecked_') or cls.startswith('pybind11::gil_'):
                return
            if cls.startswith('pybind11::') and cls.split('<')[0].rsplit('::', 1)[-1] in ERRORS:
                return
            if by_value_python(n.get('t') or cls, self.holders) and not (n.get('fid') in self.f.funcs and not n.get('copy')):
                self.bad(n, fn, chain, where, rule, ('copy' if n.get('copy') else 'creation') + f' of a {short(cls)}')
        elif k == 'Decl':
            for v in n['v']:
                if not v.get('ref') and not v.get('static') and by_value_python(v['t'], self.holders):
                    self.bad(n, fn, chain, where, rule, f"destruction of {v['n']}, which holds a Python object,")


def short_class(f):
    parts = short(f).split('::')
    return parts[-2] if len(parts) > 1 else ''


def split_targs(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch in '<(':
            d += 1
        if ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def check(ctx):
    ctx.rule('P04.scope', 'no operation on a Python object is reachable from the scope of a gil_scoped_release', 40)
    ctx.rule('P04.guard', 'a function bound with call_guard<gil_scoped_release> neither receives nor returns Python objects by '
             'value and reaches no operation on them', 80)
    ctx.rule('P04.thread', 'no operation on a Python object is reachable from code handed to a thread', 20)
    g = Gil(ctx)
    g.regions()
    g.drain()
