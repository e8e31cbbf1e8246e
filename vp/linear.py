"""Linear integer arithmetic over terms: linear forms and Fourier-Motzkin elimination."""
from __future__ import annotations

from .extent import sname

ONE = 1


def form(eng, t, atom, n=0):
    """Linear form {atom: coefficient, 1: constant} of a term; atom(t) names what is not arithmetic."""
    t = eng.x(t)
    if t[0] == 'c' and isinstance(t[1], (int, bool)):
        return {ONE: int(t[1])}
    if n < 12:
        if t[0] == 'b' and t[1] in ('+', '-'):
            return add(form(eng, t[2], atom, n + 1), form(eng, t[3], atom, n + 1), 1 if t[1] == '+' else -1)
        if t[0] == 'b' and t[1] == '*':
            a, b = form(eng, t[2], atom, n + 1), form(eng, t[3], atom, n + 1)
            for x, y in ((a, b), (b, a)):
                if not set(x) - {ONE}:
                    return scale(y, x.get(ONE, 0))
        if t[0] == 'b' and t[1] == '<<':
            b = eng.x(t[3])
            if b[0] == 'c' and 0 <= b[1] < 32:
                return scale(form(eng, t[2], atom, n + 1), 1 << b[1])
        if t[0] == 'u' and t[1] in ('-', '+'):
            return scale(form(eng, t[2], atom, n + 1), -1 if t[1] == '-' else 1)
    return {atom(t): 1}


def add(a, b, k=1):
    out = dict(a)
    for x, c in b.items():
        out[x] = out.get(x, 0) + k * c
    return {x: c for x, c in out.items() if c}


def scale(a, k):
    return {x: c * k for x, c in a.items() if c * k}


def prove(goal, cs):
    """goal >= 0 follows from c >= 0 for every c in cs (integers)."""
    neg = add(scale(goal, -1), {ONE: -1})
    rows = {frozenset(r.items()) for r in [neg] + list(cs)}
    for _ in range(16):
        names = {x for r in rows for x, _ in r if x != ONE}
        if any(not [x for x, _ in r if x != ONE] and dict(r).get(ONE, 0) < 0 for r in rows):
            return True
        if not names:
            return False

        def cost(v):
            p = sum(1 for r in rows if dict(r).get(v, 0) > 0)
            q = sum(1 for r in rows if dict(r).get(v, 0) < 0)
            return p * q
        v = min(sorted(names, key=repr), key=cost)
        pos = [dict(r) for r in rows if dict(r).get(v, 0) > 0]
        negs = [dict(r) for r in rows if dict(r).get(v, 0) < 0]
        keep = {r for r in rows if not dict(r).get(v, 0)}
        if len(pos) * len(negs) > 3000:
            return False
        for a in pos:
            for b in negs:
                keep.add(frozenset(add(scale(a, -b[v]), scale(b, a[v])).items()))
        rows = keep
    return False


def facts_rows(eng, facts, atom):
    """Linear constraints that the facts of a state give."""
    out = []
    for f, p in facts:
        f = eng.x(f)
        if f[0] != 'b' or f[1] not in ('<', '=='):
            continue
        a, b = form(eng, f[2], atom), form(eng, f[3], atom)
        d = add(b, a, -1)   # b - a
        if f[1] == '<':
            out.append(add(d, {ONE: -1}) if p else scale(d, -1))
        elif p:
            out += [d, scale(d, -1)]
    return out


__all__ = ['form', 'add', 'scale', 'prove', 'facts_rows', 'sname']
