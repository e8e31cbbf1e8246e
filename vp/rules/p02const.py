"""The operations that are called concurrently on shared objects are the const ones: they must not change anything that the
object owns or that outlives the call."""
from ..engine import Rule, walk
from ..threads import PREFIX, short
from .p02 import P02


class Fake:
    ctx = ()
    key = ''


class Const(P02):
    """Analyses a const operation as if it ran in a worker; everything reached from the object is shared."""

    mutable: set = set()

    def start(self, eng, fn):
        self.fake = Fake()
        self.fake.key = short(fn['q'])
        self.fn = fn
        self.workers = [self.fake]
        self.ok = True
        eng.run(fn)
        self.add('P02.const', f"{PREFIX}{fn['file']}:{fn['l']}", short(fn['q']), f"{short(fn['q'])} const changes no state of its "
                 'object', self.ok)

    def shared_write(self, eng, e, loc, st, how):
        if eng.mute or loc is None:
            return
        loc = eng.resolve(st, loc)
        if loc[0] == 'phiref':
            for l in loc[1]:
                self.shared_write(eng, e, l, st, how)
            return
        base, idx = self.path_indices(loc)
        if base is None:
            return
        shared = base[0] == 'static' or base[0] == 'g' and base[1].startswith('pyinterp::')
        if base[0] == 'this':
            # the compiler keeps a const operation from changing a member unless it is mutable
            shared = any(n in self.mutable for n in self.fields(loc))
        if base[0] == 'deref':
            shared = self.member_pointer(eng, base[1])
        if base[0] == 'v' and eng.read(st, base)[0] == 'static':
            shared = True
        if not shared or self.locked(st):
            return
        nm = self.locname(eng, loc)
        self.add('P02.const', eng.where(e), f"{short(self.fn['q'])}:{nm}", f"{how} of {nm}, which concurrent calls of "
                 f"{short(self.fn['q'])} const share", False)

    def fields(self, loc):
        while loc is not None and loc[0] in ('f', 'sub', 'acc'):
            if loc[0] == 'f':
                yield loc[2]
            loc = loc[1]

    def member_pointer(self, eng, t):
        """A pointer held by a member of the object."""
        t = eng.x(t)
        while t[0] in ('ptr', 'idx', 'call') and len(t) > 1:
            if t[0] == 'call':
                if t[1].rsplit('::', 1)[-1] not in ('get', 'operator[]', 'operator()', 'at', 'front', 'back'):
                    return False
                t = eng.x(t[2]) if len(t) > 2 else ('x',)
            else:
                t = eng.x(t[1])
        return t[0] == 'f' and any(x == ('this',) for x in eng.subterms(t)) and not any(
            x[0] == 'call' for x in eng.subterms(t))

    def on_index(self, eng, e, a, idx, st, oloc=None):
        pass

    def on_enter(self, eng, e, fn, st):
        pass

    def on_leave(self, eng, e, fn, rets):
        self.unlock(fn, rets)

    def spawn(self, eng, e, args, locs, st):
        pass


def check_const(ctx):
    roots = [f for f in ctx.facts.all_funcs() if f.get('kind') == 'method' and f.get('const') and f.get('body') is not None]
    Const.mutable = {f['n'] for rs in ctx.facts.recs.values() for r in rs for f in r['f'] if f.get('mut')}
    ctx.run(Const, roots)
