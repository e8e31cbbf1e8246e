"""Terms read as rational functions of their atoms (exact coefficients), to recognise an interpolation formula however it is written."""
from fractions import Fraction

LIMIT = 4000


class TooBig(Exception):
    pass


def const(c):
    return {(): Fraction(c)} if c else {}


def atom(a):
    return {((a, 1),): Fraction(1)}


def padd(a, b, k=1):
    out = dict(a)
    for m, c in b.items():
        v = out.get(m, 0) + k * c
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return out


def pmul(a, b):
    out = {}
    if len(a) * len(b) > LIMIT:
        raise TooBig
    for m, c in a.items():
        for n, d in b.items():
            e = dict(m)
            for x, k in n:
                e[x] = e.get(x, 0) + k
            key = tuple(sorted(e.items(), key=repr))
            v = out.get(key, 0) + c * d
            if v:
                out[key] = v
            else:
                out.pop(key, None)
    return out


def rational(eng, t, subst, depth=0):
    """(numerator, denominator) of a term; `subst` gives the value of some atoms. None when it is not a formula."""
    t = eng.x(t)
    if depth > 60:
        return None
    if t in subst:
        t = subst[t]
        if isinstance(t, (int, Fraction)):
            return const(t), const(1)
    k = t[0]
    if k == 'c' and isinstance(t[1], (int, float)) and not isinstance(t[1], bool):
        return const(Fraction(t[1])), const(1)
    if k == 'b' and t[1] in ('+', '-', '*', '/'):
        a, b = rational(eng, t[2], subst, depth + 1), rational(eng, t[3], subst, depth + 1)
        if a is None or b is None:
            return None
        if t[1] == '*':
            return pmul(a[0], b[0]), pmul(a[1], b[1])
        if t[1] == '/':
            return (pmul(a[0], b[1]), pmul(a[1], b[0])) if b[0] else None
        if a[1] == b[1]:
            return padd(a[0], b[0], 1 if t[1] == '+' else -1), a[1]
        return padd(pmul(a[0], b[1]), pmul(b[0], a[1]), 1 if t[1] == '+' else -1), pmul(a[1], b[1])
    if k == 'u' and t[1] == '-':
        a = rational(eng, t[2], subst, depth + 1)
        return None if a is None else (padd({}, a[0], -1), a[1])
    if k == 'u' and t[1] == '+':
        return rational(eng, t[2], subst, depth + 1)
    if k == 'trunc':
        return None
    return atom(t), const(1)


def equal(a, b):
    return a is not None and b is not None and bool(a[1]) and bool(b[1]) and not padd(pmul(a[0], b[1]), pmul(b[0], a[1]), -1)


def degree(p, a):
    return max((dict(m).get(a, 0) for m in p), default=0)


