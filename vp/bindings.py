"""The Python names the module defines and the core functions behind them, read from the pybind11 definitions."""
from __future__ import annotations

from .engine import walk

DEFS = {'def': 'method', 'def_static': 'static', 'def_property': 'property', 'def_property_readonly': 'property',
        'def_readonly': 'property', 'def_readwrite': 'property', 'def_property_readonly_static': 'property'}


def strip(e):
    while isinstance(e, dict) and e.get('k') in ('Cast', 'DefArg', 'Paren'):
        e = e['e']
    return e


class Binding:
    __slots__ = ('name', 'kind', 'cls', 'node', 'where', 'func', 'file', 'line', 'target', 'lam', 'args', 'guards', 'pickle',
                 'init', 'doc', 'targets', 'raw')

    def __init__(self):
        self.name = None
        self.target = None
        self.targets: list = []
        self.lam = None
        self.args: list = []
        self.guards: list = []
        self.pickle = None
        self.init = None
        self.doc = ''
        self.raw: list = []

    def params(self, facts):
        """Parameters of the C++ callable (without self), or None."""
        if self.lam is not None:
            ps = self.lam['specs'][0]['p'] if self.lam['specs'] else []
            return ps
        if self.target in facts.funcs:
            return facts.funcs[self.target][0]['p']
        return None

    def label(self):
        c = self.cls
        return (short_cls(c) + '.' if c else '') + str(self.name)


def short_cls(t: str) -> str:
    return t.replace('pyinterp::', '')


def class_type(node) -> str:
    """T of class_<T, ...> from the qualified name of the member called."""
    fn = node['fn']
    i = fn.index('class_<') + 7
    depth = 0
    for j in range(i, len(fn)):
        c = fn[j]
        if c in '<(':
            depth += 1
        elif c in '>)':
            if depth == 0:
                return fn[i:j]
            depth -= 1
        elif c == ',' and depth == 0:
            return fn[i:j]
    return fn[i:]


def lambda_of(e):
    e = strip(e)
    return e if isinstance(e, dict) and e.get('k') == 'Lambda' else None


def read(facts):
    out = []
    seen = set()
    for f in facts.all_funcs():
        for c in walk(f.get('body') or {}):
            if c.get('k') != 'Call':
                continue
            fn = c.get('fn', '')
            cls = ''
            if fn.startswith('pybind11::class_<'):
                kind = DEFS.get(fn.rsplit('::', 1)[-1])
                if kind is None:
                    continue
                cls = class_type(c)
            elif fn == 'pybind11::module_::def':
                kind = 'function'
            else:
                continue
            b = Binding()
            b.kind, b.cls, b.node, b.func, b.file = kind, cls, c, f, f['file']
            args = c['a']
            a0 = strip(args[0])
            b.line = a0.get('l') or c['l']
            rest = args
            if a0.get('k') == 'Str':
                b.name = a0['v']
                rest = args[1:]
            elif a0.get('k') == 'Call' and a0.get('fn') == 'pybind11::pickle':
                b.name = '__pickle__'
                b.pickle = (lambda_of(a0['a'][0]), lambda_of(a0['a'][1]))
                b.line = a0['l']
                rest = args[1:]
            elif 'pybind11::init' in (a0.get('fn') or a0.get('cls') or a0.get('t') or '') or \
                    'initimpl' in (a0.get('t') or ''):
                b.name = '__init__'
                b.init = a0
                rest = args[1:]
            else:
                b.name = None
                rest = args[1:]
            got = b.name in ('__pickle__', )
            for a in rest:
                x = strip(a)
                if not isinstance(x, dict):
                    continue
                t = x.get('t', '')
                if x.get('k') == 'Call' and x.get('fn') == 'pybind11::arg::operator=':
                    o = strip(x['obj'])
                    nm = next((strip(y) for y in o['a'] if strip(y).get('k') == 'Str'), None) if o.get('k') == 'Ctor' else None
                    b.args.append((nm['v'] if nm else None, x['a'][0]))
                    continue
                if x.get('k') == 'Call' and x.get('fn', '').startswith('pybind11::arg_v'):
                    b.args.append((None, x))
                    continue
                if x.get('k') == 'Ctor' and x.get('cls') == 'pybind11::arg':
                    nm = next((strip(y) for y in x['a'] if strip(y).get('k') == 'Str'), None)
                    b.args.append((nm['v'] if nm else None, None))
                    continue
                if x.get('k') == 'Ctor' and 'call_guard' in x.get('cls', ''):
                    b.guards.append(x)
                    continue
                if x.get('k') == 'Str':
                    b.doc += x['v']
                    continue
                if not got:
                    if x.get('k') == 'Lambda':
                        b.lam = x
                        got = True
                    elif x.get('k') == 'Un' and x.get('op') == '&':
                        y = strip(x['a'])
                        b.target = y.get('id') or y.get('fid')
                        b.targets.append(y)
                        got = True
                    elif x.get('k') == 'Ref' and x.get('d') == 'F':
                        b.target = x.get('id')
                        b.targets.append(x)
                        got = True
                    else:
                        b.raw.append(x)
                else:
                    b.raw.append(x)
            b.where = f"src/pyinterp/core/{b.file}:{b.line}"
            key = (b.file, b.line, b.cls, b.name, id(f))
            if key in seen:
                continue
            seen.add(key)
            out.append(b)
    return out
