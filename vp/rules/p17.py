"""P17: every failure that is reported is a standard exception that reaches a handler of the caller."""
import ast
import builtins
import os
import re

from ..engine import NORETURN, Rule, State, walk
from ..extent import sname
from ..facts import REPO

FATAL = {'abort', 'terminate', 'exit', '_Exit', '_exit', 'quick_exit', '__assert_fail', '__builtin_trap', '__builtin_abort', '__builtin_unreachable',
         'set_terminate', 'unexpected'}
PYERR = re.compile(r'^Py[A-Z]\w*_|^PyErr_|pybind11::slice::compute')


def site(fn, l):
    f = fn['file']
    return f"{f if f.startswith('src/') else 'src/pyinterp/core/' + f}:{l}"


def name_of(fn):
    return fn['q'].replace('pyinterp::', '')


def strip(e):
    while isinstance(e, dict) and e.get('k') in ('Cast', 'Paren', 'DefArg', 'Temp'):
        e = e.get('e')
    return e


def message(e, depth=0):
    """False when an exception is built with an empty message."""
    e = strip(e)
    if not isinstance(e, dict) or depth > 6:
        return True
    if e.get('k') == 'Str':
        return bool(e['v'].strip())
    if e.get('k') == 'Ctor':
        a = [x for x in e.get('a', ()) if isinstance(x, dict) and x.get('k') != 'DefArg']
        if not a:
            return not ('basic_string' in e.get('cls', '') or e.get('cls', '') in ('std::string', 'std::exception'))
        return message(a[0], depth + 1)
    return True


def throws(ctx):
    """Objects that are thrown, exceptions that are built and not thrown, calls that end the process."""
    facts = ctx.facts
    for fn in facts.all_funcs():
        body = fn.get('body')
        if not body or not fn['q'].startswith('pyinterp') and not fn['file'].startswith(('module', 'lib', 'include')):
            continue
        ctx.functions.add((fn['q'], fn['file'], fn['l']))
        for n in walk(body):
            k = n.get('k')
            if k == 'Throw' and n.get('e') is not None:
                t = n.get('tt') or (n['e'] or {}).get('t') or ''
                where = site(fn, n['l'])
                ctx.add('standard', where, f"{name_of(fn)}:{t}", f'{name_of(fn)} throws a standard exception', bool(n.get('std')),
                        f'it throws a {n.get("tt") or t}, which pybind11 cannot translate')
                if not t.endswith('error_already_set'):
                    ctx.add('message', where, f'{name_of(fn)}:{t}:{n["l"] - fn["l"]}', f'the {t} of {name_of(fn)} says what failed', message(n['e']),
                            'the message is empty')
            if k == 'Call' and sname(n.get('fn', '')) in FATAL and n.get('fn', '').split('::')[0] in ('std', sname(n['fn'])):
                ctx.add('fatal', site(fn, n['l']), f"{name_of(fn)}:{sname(n['fn'])}", f'{name_of(fn)} does not end the process', False,
                        f"it calls {n['fn']}")
        for s in statements(body):
            e = strip(s.get('e') if s.get('k') == 'Expr' else s)
            if isinstance(e, dict) and e.get('k') == 'Ctor' and re.search(r'(error|exception|invalid_argument|out_of_range|bad_alloc|failure)$', e.get('cls', '')):
                ctx.add('lost', site(fn, e.get('l') or fn['l']), f"{name_of(fn)}:{e['cls']}", f'{name_of(fn)} throws the exceptions it builds', False,
                        f"a {e['cls']} is built and dropped")
    ctx.add('fatal', 'src/pyinterp/core', 'core', 'no function of the core ends the process', True)
    ctx.add('lost', 'src/pyinterp/core', 'core', 'no exception is built and dropped', True)


def statements(n):
    """The expression statements of a body."""
    if isinstance(n, dict):
        if n.get('k') in ('Seq', 'Block', 'Compound'):
            for x in n.get('s') or n.get('b') or ():
                if isinstance(x, dict):
                    yield x
        for v in n.values():
            yield from statements(v)
    elif isinstance(n, list):
        for v in n:
            yield from statements(v)


class Escape(Rule):
    """A function that promises not to throw, with everything it calls."""
    inline_ops = True
    disjunctions = True

    def start(self, eng, fn):
        self.root = fn
        self.found = []
        eng.run(fn, state=State())
        ok = not self.found
        self.obs.append(('promise', site(fn, fn['l']), name_of(fn), f'{name_of(fn)} throws nothing, as it promises', ok,
                         'an exception leaves it (the process ends): ' + ', '.join(sorted(set(self.found)))[:200]))

    def inline(self, eng, e, fn):
        return True

    def handled(self, eng, t):
        return any(any(h.get('all') or (h.get('v') or {}).get('t', '').find('std::exception') >= 0 for h in s['h']) for s, _, _ in eng.trystack)

    def on_throw(self, eng, e, t, st):
        if not eng.mute and not self.handled(eng, e):
            self.found.append('throw at ' + eng.where(e))

    def on_call(self, eng, e, fn, obj, oloc, args, locs, st):
        if eng.mute or self.handled(eng, e) or e.get('nx'):
            return None
        n = sname(fn)
        if n in ('at', 'stoi', 'stol', 'stoll', 'stod', 'stof', 'rethrow_exception') and fn.startswith('std::') or fn.startswith('pybind11::') and \
                n == 'cast' or fn.startswith('pybind11::detail::object_api') or n == 'value' and fn.startswith('std::optional'):
            self.found.append(f'{n}() at ' + eng.where(e))
        return None


MARK = ('v', '#python-error', ())


class Pending(Rule):
    """A function that throws error_already_set."""
    inline_ops = True

    def start(self, eng, fn):
        self.root = fn
        eng.run(fn, state=State())

    def inline(self, eng, e, fn):
        return True

    def on_call(self, eng, e, fn, obj, oloc, args, locs, st):
        if PYERR.match(fn):
            st.env[MARK] = ('c', 1)
        return None

    def on_throw(self, eng, e, t, st):
        if (e.get('tt') or '').endswith('error_already_set') and not eng.mute:
            self.obs.append(('pending', eng.where(e), name_of(self.root), f'{name_of(self.root)} sets a Python error before it throws error_already_set',
                             MARK in st.env, 'no Python error is set on the way'))


def keeps(facts, body, depth=0):
    """Does a statement, or a function of the repository that it calls, take the exception in flight?"""
    for n in walk(body):
        if n.get('k') == 'Call':
            if sname(n.get('fn', '')) == 'current_exception':
                return True
            fs = facts.funcs.get(n.get('fid') or n.get('id'))
            if fs and depth < 3 and fs[0].get('body') and keeps(facts, fs[0]['body'], depth + 1):
                return True
    return False


class Handlers(Rule):
    """Each handler, in the function that has it."""
    inline_ops = False

    def start(self, eng, fn):
        self.root = fn
        eng.run(fn, state=State())

    def inline(self, eng, e, fn):
        return False

    def on_handler_end(self, eng, s, h, st, rets):
        got = keeps(eng.f, h['s'])
        out = [r for r in rets] + ([st] if st is not None else [])
        if eng.mute:
            return
        ok = not out or got
        line = h.get('l') or s.get('l') or self.root['l']
        self.obs.append(('handler', site(self.root, line), f'{name_of(self.root)}:{line - self.root["l"]}',
                         f'the handler of {name_of(self.root)} passes the failure on', ok, 'it ends normally and the caller is not told'))


def python(ctx):
    top = os.path.join(REPO, 'src/pyinterp')
    known = set()
    files = []
    for d, _, fs in sorted(os.walk(top)):
        if '/tests' in d or '/core' in d:
            continue
        for f in sorted(fs):
            if f.endswith('.py'):
                p = os.path.join(d, f)
                tree = ast.parse(open(p, encoding='utf-8').read())
                files.append((os.path.relpath(p, REPO), tree))
                known |= {c.name for c in ast.walk(tree) if isinstance(c, ast.ClassDef) and any(
                    isinstance(b, ast.Name) and is_exception(b.id) for b in c.bases)}
    for rel, tree in files:
        for fn in [x for x in ast.walk(tree) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))] + [tree]:
            python_function(ctx, rel, fn, known)


def is_exception(n):
    t = getattr(builtins, n, None)
    return isinstance(t, type) and issubclass(t, BaseException)


def own(fn):
    """The nodes of a function, nested functions excepted."""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            todo += list(ast.iter_child_nodes(n))


def exception_of(e, known):
    f = e.func if isinstance(e, ast.Call) else e
    if isinstance(f, ast.Name):
        return is_exception(f.id) or f.id in known
    return isinstance(f, ast.Attribute) and re.search(r'(Error|Exception)$', f.attr) is not None


def python_function(ctx, rel, fn, known):
    name = getattr(fn, 'name', '<module>')
    handlers = {id(x) for h in own(fn) if isinstance(h, ast.ExceptHandler) for x in ast.walk(h)}
    bound = {h.name for h in own(fn) if isinstance(h, ast.ExceptHandler) and h.name}
    for n in own(fn):
        if isinstance(n, ast.Raise):
            where = f'{rel}:{n.lineno}'
            if n.exc is None:
                ok = id(n) in handlers
                why = 'there is no error to raise again'
            else:
                ok = exception_of(n.exc, known) or isinstance(n.exc, ast.Name) and (n.exc.id in bound or n.exc.id.islower())
                why = f'{ast.unparse(n.exc)[:40]} is not an exception'
            ctx.add('raise', where, f'{name}:{ast.unparse(n)[:60]}', f'{name} raises an exception', ok, why)
            if ok and isinstance(n.exc, ast.Call) and n.exc.args and isinstance(n.exc.args[0], ast.Constant):
                ctx.add('raise', where, f'{name}:{n.lineno - getattr(fn, "lineno", 0)}:message', f'the error of {name} says what failed',
                        bool(str(n.exc.args[0].value).strip()), 'the message is empty')
        elif isinstance(n, ast.ExceptHandler) and not isinstance(fn, ast.Module):
            ok = ends(n.body)
            ctx.add('except', f'{rel}:{n.lineno}', f'{name}:{ast.unparse(n.type) if n.type else "all"}', f'the handler of {name} passes the failure on', ok,
                    'it ends normally and the caller is not told')
        elif isinstance(n, ast.ExceptHandler):
            ok = n.type is not None and 'ImportError' in ast.unparse(n.type) or n.type is not None and 'ModuleNotFound' in ast.unparse(n.type)
            ctx.add('except', f'{rel}:{n.lineno}', f'{name}:{ast.unparse(n.type) if n.type else "all"}', 'a module only tolerates a missing optional module', ok)
        elif isinstance(n, (ast.Expr, ast.Return)) and isinstance(n.value, ast.Call) and exception_of(n.value, known):
            ctx.add('raise', f'{rel}:{n.lineno}', f'{name}:{ast.unparse(n)[:60]}', f'{name} raises the exceptions it builds', False,
                    'the exception is built and not raised')
        elif isinstance(n, ast.With) and any('suppress' in ast.unparse(i.context_expr) for i in n.items):
            ctx.add('except', f'{rel}:{n.lineno}', f'{name}:suppress', f'{name} passes failures on', False, 'they are suppressed')
        elif isinstance(n, ast.Try) and any(isinstance(x, (ast.Return, ast.Break, ast.Continue)) for s in n.finalbody for x in ast.walk(s)):
            ctx.add('except', f'{rel}:{n.lineno}', f'{name}:finally', f'{name} passes failures on', False, 'the finally block leaves the function')


def ends(body):
    """Does every path through the statements raise?"""
    for s in body:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If) and s.orelse and ends(s.body) and ends(s.orelse):
            return True
        if isinstance(s, ast.With) and ends(s.body):
            return True
        if isinstance(s, (ast.Return, ast.Continue, ast.Break)):
            return False
    return False


def check(ctx):
    ctx.rule('standard', 'what is thrown derives from std::exception')
    ctx.rule('message', 'an exception is built with a message')
    ctx.rule('pending', 'error_already_set is thrown after a Python error has been set')
    ctx.rule('lost', 'an exception that is built is thrown')
    ctx.rule('fatal', 'nothing ends the process')
    ctx.rule('promise', 'no exception leaves a function or a destructor that promises not to throw')
    ctx.rule('handler', 'a handler rethrows, throws or keeps the failure')
    ctx.rule('raise', 'what Python code raises is an exception, with a message')
    ctx.rule('except', 'Python handlers pass the failure on')
    throws(ctx)
    quiet = [f for f in ctx.facts.all_funcs() if f.get('body') and (f.get('nx') or f.get('kind') == 'dtor' or '::~' in f['q'])]
    ctx.run(Escape, quiet)
    withtry = [f for f in ctx.facts.all_funcs() if f.get('body') and any(n.get('k') == 'Try' for n in walk(f['body']))]
    ctx.run(Handlers, withtry)
    ctx.run(Pending, [f for f in ctx.facts.all_funcs() if f.get('body') and any(
        n.get('k') == 'Throw' and (n.get('tt') or '').endswith('error_already_set') for n in walk(f['body']))])
    python(ctx)
