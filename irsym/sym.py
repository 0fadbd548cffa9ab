"""Symbolic values: polynomials over named atoms with exact rational coefficients (reals) or integer
coefficients (ints), conditions over them, and the z3 back end that decides queries."""
import time, math, struct, hashlib
from fractions import Fraction
import z3


class Unsupported(Exception):
    pass


class Violation(Exception):
    def __init__(s, kind, msg, conds=()):
        s.kind, s.msg, s.conds = kind, msg, conds


class _Undef:
    __slots__ = ()

    def __repr__(s):
        return 'UNDEF'

    def _u(s, *a):
        return s
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __neg__ = _u

    def _use(s, *a):
        raise Violation('uninit', 'an uninitialised value is used in an address, a size or a decision')
    __lt__ = __le__ = __gt__ = __ge__ = __index__ = __int__ = __float__ = __floordiv__ = __rfloordiv__ = __mod__ = __rmod__ = _use
    __lshift__ = __rlshift__ = __rshift__ = __rrshift__ = __and__ = __rand__ = __or__ = __ror__ = __xor__ = __rxor__ = __truediv__ = __rtruediv__ = __abs__ = _use


UNDEF = _Undef()


def norm(c):
    if type(c) is Fraction and c.denominator == 1:
        return c.numerator
    return c


class Atom:
    __slots__ = ('id', 'name', 'isint', 'kind', 'z', 'defs', 'deps', 'wit', 'lo', 'hi', 'sq', 'quot', 'cutp')

    def __init__(s, id, name, isint, kind, wit):
        s.id, s.name, s.isint, s.kind, s.wit = id, name, isint, kind, wit
        s.z = z3.Int(name) if isint else z3.Real(name)
        s.defs = None      # callable -> list of z3 bools
        s.deps = ()
        s.lo = s.hi = None
        s.sq = None
        s.quot = None
        s.cutp = None


class Ctx:
    """per-path symbol context"""

    def __init__(s, cut=120):
        s.atoms = []
        s.quots = {}
        s.sqrts = {}
        s.cutmemo = {}
        s.cut = cut
        s.zcache = {}
        s.assumed_nonzero = 0

    def atom(s, name, isint, kind, wit):
        a = Atom(len(s.atoms), name, isint, kind, wit)
        s.atoms.append(a)
        return a

    def fresh(s, pre, isint, kind, wit):
        return s.atom('%s!%d' % (pre, len(s.atoms)), isint, kind, wit)


CTX = None


def setctx(c):
    global CTX
    CTX = c


def mmul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x = a[i]
        y = b[j]
        if x[0] == y[0]:
            r.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            r.append(x)
            i += 1
        else:
            r.append(y)
            j += 1
    r.extend(a[i:])
    r.extend(b[j:])
    return tuple(r)


def mdiv(a, b):
    """monomial a / b or None"""
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x:
            d[v] = x
        else:
            del d[v]
    return tuple(sorted(d.items()))


def mkey(m):
    return (sum(e for _, e in m), m)


class Poly:
    __slots__ = ('t', 'real', '_k', '_w')

    def __init__(s, t, real):
        s.t = t
        s.real = real
        s._k = None
        s._w = None

    def key(s):
        if s._k is None:
            s._k = (s.real, frozenset(s.t.items()))
        return s._k

    def __hash__(s):
        return hash(s.key())

    def same(s, o):
        return s is o or s.t == o.t

    def atoms(s):
        r = set()
        for m in s.t:
            for v, _ in m:
                r.add(v)
        return r

    def wit(s):
        if s._w is None:
            A = CTX.atoms
            tot = 0.0
            try:
                for m, c in s.t.items():
                    p = float(c)
                    for v, e in m:
                        p *= float(A[v].wit) ** e
                    tot += p
            except OverflowError:
                tot = float('nan')
            s._w = tot
        return s._w

    # arithmetic: other is int / Fraction / Poly (floats are lifted by the caller)
    def __neg__(s):
        return Poly({m: -c for m, c in s.t.items()}, s.real)

    def __add__(s, o):
        if type(o) is Poly:
            a, b = s.t, o.t
            if len(a) < len(b):
                a, b = b, a
            r = dict(a)
            for m, c in b.items():
                x = r.get(m)
                if x is None:
                    r[m] = c
                else:
                    x = x + c
                    if x:
                        r[m] = norm(x)
                    else:
                        del r[m]
            return mk(r, s.real or o.real)
        if o is UNDEF:
            return o
        if not o:
            return s
        r = dict(s.t)
        x = r.get((), 0) + o
        if x:
            r[()] = norm(x)
        else:
            r.pop((), None)
        return mk(r, s.real)
    __radd__ = __add__

    def __sub__(s, o):
        return s + (-o)

    def __rsub__(s, o):
        return (-s) + o

    def __mul__(s, o):
        if type(o) is Poly:
            r = {}
            need = False
            A = CTX.atoms
            if len(s.t) * len(o.t) > CTX.cut * 4:
                a, b = (s, o) if len(s.t) >= len(o.t) else (o, s)
                a = cutpoly(a)
                if len(a.t) * len(b.t) > CTX.cut * 4:
                    b = cutpoly(b)
                return a * b
            for m1, c1 in s.t.items():
                for m2, c2 in o.t.items():
                    m = mmul(m1, m2)
                    x = r.get(m, 0) + c1 * c2
                    if x:
                        r[m] = norm(x)
                    else:
                        r.pop(m, None)
            for m in r:
                for v, e in m:
                    if e >= 2 and A[v].sq is not None:
                        need = True
            p = mk(r, s.real or o.real)
            if need and type(p) is Poly:
                p = redsq(p)
            return p
        if o is UNDEF:
            return o
        if not o:
            return 0
        if o == 1:
            return s
        return Poly({m: norm(c * o) for m, c in s.t.items()}, s.real)
    __rmul__ = __mul__

    def z(s):
        k = s.key()
        r = CTX.zcache.get(k)
        if r is None:
            A = CTX.atoms
            terms = []
            anyreal = s.real or any(not A[v].isint for m in s.t for v, _ in m) or any(type(c) is Fraction for c in s.t.values())
            for m, c in sorted(s.t.items(), key=lambda x: mkey(x[0])):
                fs = []
                for v, e in m:
                    zz = A[v].z
                    if anyreal and A[v].isint:
                        zz = z3.ToReal(zz)
                    fs += [zz] * e
                if anyreal:
                    cz = z3.Q(c.numerator, c.denominator) if type(c) is Fraction else z3.RealVal(c)
                else:
                    cz = z3.IntVal(c)
                if not fs:
                    terms.append(cz)
                else:
                    x = fs[0]
                    for y in fs[1:]:
                        x = x * y
                    if c == 1:
                        terms.append(x)
                    else:
                        terms.append(cz * x)
            r = terms[0]
            if len(terms) > 1:
                r = z3.Sum(terms)
            CTX.zcache[k] = r
        return r

    def __repr__(s):
        A = CTX.atoms
        return ' + '.join('%s%s' % (c, ''.join('*%s%s' % (A[v].name, '' if e == 1 else '^%d' % e) for v, e in m))
                          for m, c in list(s.t.items())[:12]) + (' ...' if len(s.t) > 12 else '')

    def bounds(s):
        """interval (lo,hi) from atom bounds, None = unbounded"""
        A = CTX.atoms
        lo = hi = 0
        for m, c in s.t.items():
            if not m:
                l = h = c
            elif len(m) == 1 and m[0][1] == 1:
                a = A[m[0][0]]
                l, h = a.lo, a.hi
                if c >= 0:
                    l = None if l is None else c * l
                    h = None if h is None else c * h
                else:
                    l, h = (None if h is None else c * h), (None if l is None else c * l)
            else:
                l, h = None, None
                bl = bh = 1
                ok = True
                for v, e in m:
                    a = A[v]
                    if a.lo is None or a.hi is None:
                        ok = False
                        break
                    for _ in range(e):
                        c4 = [bl * a.lo, bl * a.hi, bh * a.lo, bh * a.hi]
                        bl, bh = min(c4), max(c4)
                if ok:
                    l, h = (c * bl, c * bh) if c >= 0 else (c * bh, c * bl)
            lo = None if lo is None or l is None else lo + l
            hi = None if hi is None or h is None else hi + h
        return lo, hi


def mk(t, real):
    if not t:
        return 0
    if len(t) == 1:
        c = t.get(())
        if c is not None:
            return c        # number (int/Fraction)
    p = Poly(t, real)
    if len(t) > CTX.cut:
        return cutpoly(p)
    return p


def cutpoly(p):
    k = p.key()
    a = CTX.cutmemo.get(k)
    if a is None:
        isint = not p.real and all(CTX.atoms[v].isint for v in p.atoms())
        a = CTX.fresh('c', isint, 'cut', p.wit())
        pz = p
        a.defs = lambda a=a, p=pz: [a.z == p.z()]
        a.deps = p.atoms()
        a.cutp = p
        CTX.cutmemo[k] = a
    return avar(a)


def avar(a):
    return Poly({((a.id, 1),): 1}, not a.isint)


def redsq(p):
    A = CTX.atoms
    out = 0
    for m, c in p.t.items():
        hit = None
        for v, e in m:
            if e >= 2 and A[v].sq is not None:
                hit = (v, e)
                break
        if hit is None:
            out = out + mk({m: c}, p.real) if not (type(out) is int and out == 0) else mk({m: c}, p.real)
        else:
            v, e = hit
            rest = tuple((x, y) for x, y in m if x != v)
            if e % 2:
                rest = mmul(rest, ((v, 1),))
            q = mk({rest: c}, True)
            sq = A[v].sq
            for _ in range(e // 2):
                q = sq * q if type(sq) is Poly else q * sq
            out = q + out if type(q) is Poly else (out + q)
    return out


def lift(x):
    """number -> exact rational (int/Fraction); Poly unchanged"""
    if type(x) is float:
        if x != x or x in (math.inf, -math.inf):
            raise Unsupported('non-finite constant in symbolic arithmetic')
        return norm(Fraction(x))
    return x


def lead(t):
    return max(t, key=mkey)


def scalepoly(p):
    """p = c * p' with leading coefficient of p' == 1"""
    c = p.t[lead(p.t)]
    if c == 1:
        return 1, p
    ic = Fraction(1) / c
    return c, Poly({m: norm(x * ic) for m, x in p.t.items()}, p.real)


def polydiv_exact(a, b):
    """exact polynomial quotient or None (b Poly, leading coeff 1)"""
    if len(a.t) > 200:
        return None
    lb = lead(b.t)
    # cheap necessary conditions
    q = {}
    r = dict(a.t)
    n = 0
    while r:
        n += 1
        if n > 150:
            return None
        lr = lead(r)
        m = mdiv(lr, lb)
        if m is None:
            return None
        c = r[lr]
        q[m] = norm(q.get(m, 0) + c)
        for mb, cb in b.t.items():
            mm = mmul(m, mb)
            x = r.get(mm, 0) - c * cb
            if x:
                r[mm] = norm(x)
            else:
                r.pop(mm, None)
    return q


def div(a, b, nonzero):
    """a / b over the reals; a Poly or rational; b Poly.  nonzero(b) is called to record b != 0."""
    nonzero(b)
    if type(a) is not Poly:
        if a == 0:
            return 0
        ca, a1 = a, None
    else:
        ca, a1 = scalepoly(a)
    cb, b1 = scalepoly(b)
    k = norm(Fraction(ca) / cb)
    if a1 is not None:
        if a1.t == b1.t:
            return k
        # common monomial factor
        g = None
        for m in list(a1.t) + list(b1.t):
            d = dict(m)
            g = d if g is None else {v: min(e, d[v]) for v, e in g.items() if v in d}
            if not g:
                break
        if g:
            gm = tuple(sorted(g.items()))
            a1 = mk({mdiv(m, gm): c for m, c in a1.t.items()}, True)
            b1 = mk({mdiv(m, gm): c for m, c in b1.t.items()}, True)
            if type(b1) is not Poly:
                return a1 * norm(Fraction(k) / b1) if type(a1) is Poly else norm(Fraction(a1) * k / b1)
            if type(a1) is not Poly:
                k = norm(Fraction(k) * a1)
                a1 = None
        if a1 is not None:
            q = polydiv_exact(a1, b1)
            if q is not None:
                r = mk(q, True)
                return r * k if type(r) is Poly else norm(Fraction(r) * k)
    if len(b1.t) > 8:
        pass
    key = (a1.key() if a1 is not None else 1, b1.key())
    at = CTX.quots.get(key)
    if at is None:
        wb = b1.wit()
        wa = a1.wit() if a1 is not None else 1.0
        at = CTX.fresh('q', False, 'quot', wa / wb if wb else float('nan'))
        num = a1 if a1 is not None else 1
        at.quot = (num, b1)
        at.defs = lambda at=at, num=num, b1=b1: [at.z * b1.z() == (num.z() if type(num) is Poly else z3.RealVal(1)), b1.z() != 0]
        at.deps = b1.atoms() | (a1.atoms() if a1 is not None else set())
        CTX.quots[key] = at
    v = avar(at)
    v = Poly(v.t, True)
    return v * k


def sqrt_(a, nonneg):
    if type(a) is not Poly:
        return math.sqrt(float(a))
    nonneg(a)
    k = a.key()
    at = CTX.sqrts.get(k)
    if at is None:
        w = a.wit()
        at = CTX.fresh('r', False, 'sqrt', math.sqrt(w) if w >= 0 else float('nan'))
        at.sq = a
        at.lo = 0
        at.defs = lambda at=at, a=a: [at.z >= 0, at.z * at.z == a.z()]
        at.deps = a.atoms()
        CTX.sqrts[k] = at
    return avar(at)


def narrow(a):
    """a converted to single precision: some value within 2^-24 of it (relatively); the same for equal arguments"""
    key = ('f32', a.key())
    at = CTX.quots.get(key)
    if at is None:
        w = a.wit()
        try:
            w = struct.unpack('<f', struct.pack('<f', float(w)))[0]
        except (OverflowError, ValueError):
            w = float('inf') if w > 0 else float('-inf')
        at = CTX.fresh('f', False, 'f32', w)

        def defs():
            z = a.z()
            e = z3.RealVal('1/16777216') * z3.If(z >= 0, z, -z)
            return [at.z - z <= e, z - at.z <= e]
        at.defs = defs
        at.deps = a.atoms()
        CTX.quots[key] = at
    return avar(at)


U = Fraction(1, 1 << 53)


def rounded(r):
    """r + w with a fresh rounding error |w| <= 2^-53 |r| (normal range, round to nearest)"""
    key = ('rnd', r.key())
    at = CTX.quots.get(key)
    if at is None:
        at = CTX.fresh('w', False, 'rnd', 0.0)

        def defs():
            z = r.z()
            u = z3.RealVal('1/9007199254740992')
            return [at.z <= u * z3.If(z >= 0, z, -z), -at.z <= u * z3.If(z >= 0, z, -z)]
        at.defs = defs
        at.deps = r.atoms()
        CTX.quots[key] = at
    return r + avar(at)


def ite(c, a, b, isint):
    """fresh atom v with (c -> v=a) and (not c -> v=b); a,b Poly or numbers"""
    if type(a) is Poly and type(b) is Poly and a.t == b.t:
        return a
    if type(a) is not Poly and type(b) is not Poly and a == b:
        return a
    wa = a.wit() if type(a) is Poly else float(a)
    wb = b.wit() if type(b) is Poly else float(b)
    at = CTX.fresh('i', isint, 'ite', wa if c.wit else wb)
    za = a if type(a) is Poly else None
    zb = b if type(b) is Poly else None

    def defs():
        va = za.z() if za is not None else num(a, isint)
        vb = zb.z() if zb is not None else num(b, isint)
        return [z3.If(c.z, at.z == va, at.z == vb)]
    at.defs = defs
    at.deps = set(c.atoms) | (za.atoms() if za is not None else set()) | (zb.atoms() if zb is not None else set())
    if isint:
        la, ha = a.bounds() if za is not None else (a, a)
        lb, hb = b.bounds() if zb is not None else (b, b)
        at.lo = None if la is None or lb is None else min(la, lb)
        at.hi = None if ha is None or hb is None else max(ha, hb)
    return avar(at)


class TooBig(Exception):
    pass


def _pmul(a, b, lim):
    if type(a) is Poly and type(b) is Poly and len(a.t) * len(b.t) > lim * 20:
        raise TooBig
    return a * b if type(a) is Poly else (b * a if type(b) is Poly else norm(a * b))


def clear(d, lim=6000, cuts=True):
    """numerator of d with every quotient and named value expanded (denominators are nonzero by definition):
    d == 0 iff the result == 0.  Raises TooBig."""
    A = CTX.atoms
    old = CTX.cut
    CTX.cut = 10 ** 9
    try:
        for _ in range(400):
            if type(d) is not Poly:
                return d
            v = max((x for m in d.t for x, _ in m if (A[x].kind == 'quot' and A[x].quot is not None) or (cuts and A[x].cutp is not None)), default=None)
            if v is None:
                return d
            at = A[v]
            parts = {}
            for m, c in d.t.items():
                e = 0
                rest = []
                for x, k in m:
                    if x == v:
                        e = k
                    else:
                        rest.append((x, k))
                parts.setdefault(e, {})[tuple(rest)] = c
            K = max(parts)
            if at.cutp is not None:
                nm, b = at.cutp, 1
            else:
                nm, b = at.quot
            npow, bpow = [1], [1]
            for k in range(K):
                npow.append(_pmul(npow[-1], nm, lim))
                bpow.append(_pmul(bpow[-1], b, lim))
            tot = 0
            for e, t in parts.items():
                x = mk(t, True)
                x = _pmul(_pmul(x, npow[e], lim), bpow[K - e], lim)
                tot = x + tot if type(x) is Poly else (tot + x)
                if type(tot) is Poly and len(tot.t) > lim:
                    raise TooBig
            d = tot
            if type(d) is Poly and type(b) is Poly and len(b.t) <= 40:
                for _ in range(K):
                    q = pdivx(d, b, lim)
                    if q is None:
                        break
                    d = q
                    if type(d) is not Poly:
                        break
        raise TooBig
    finally:
        CTX.cut = old


def pdivx(a, b, lim):
    if type(a) is not Poly:
        return None
    lb = lead(b.t)
    cb = b.t[lb]
    q = {}
    r = dict(a.t)
    n = 0
    import heapq
    while r:
        n += 1
        if n > 400:
            return None
        lr = lead(r)
        m = mdiv(lr, lb)
        if m is None:
            return None
        c = norm(Fraction(r[lr]) / cb)
        q[m] = c
        for mb, c2 in b.t.items():
            mm = mmul(m, mb)
            x = r.get(mm, 0) - c * c2
            if x:
                r[mm] = norm(x)
            else:
                r.pop(mm, None)
    return mk(q, True)


def num(a, isint):
    if isint:
        return z3.IntVal(int(a))
    a = lift(a)
    return z3.Q(a.numerator, a.denominator) if type(a) is Fraction else z3.RealVal(a)


class Cond:
    __slots__ = ('z', 'atoms', 'wit', 'key', '_neg', 'lin')

    def __init__(s, z, atoms, wit, key):
        s.z, s.atoms, s.wit, s.key = z, atoms, wit, key
        s._neg = None

    def neg(s):
        if s._neg is None:
            if s.key[0] == 'not':
                raise RuntimeError
            n = Cond(z3.Not(s.z), s.atoms, not s.wit, ('not', s.key))
            n._neg = s
            s._neg = n
        return s._neg

    def __repr__(s):
        return str(s.z)


def cand(a, b):
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return Cond(z3.And(a.z, b.z), a.atoms | b.atoms, a.wit and b.wit, ('and', a.key, b.key))


def cor(a, b):
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return Cond(z3.Or(a.z, b.z), a.atoms | b.atoms, a.wit or b.wit, ('or', a.key, b.key))


def cnot(a):
    if a is True:
        return False
    if a is False:
        return True
    return a.neg()


def cxor(a, b):
    if a is True:
        return cnot(b)
    if b is True:
        return cnot(a)
    if a is False:
        return b
    if b is False:
        return a
    return Cond(z3.Xor(a.z, b.z), a.atoms | b.atoms, a.wit != b.wit, ('xor', a.key, b.key))


def rel(p, op):
    """condition 'p op 0', op in <,<=,==; p Poly or number"""
    if type(p) is not Poly:
        return p < 0 if op == '<' else p <= 0 if op == '<=' else p == 0
    if not p.real:
        lo, hi = p.bounds()
        if op == '<':
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
        elif op == '<=':
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        else:
            if (lo is not None and lo > 0) or (hi is not None and hi < 0):
                return False
    else:
        # normalise by |leading coefficient|
        c = abs(p.t[lead(p.t)])
        if c != 1:
            p = p * norm(Fraction(1) / c)
    if op == '==':
        if p.t[lead(p.t)] < 0:
            p = -p
        w = p.wit()
        return Cond(p.z() == 0, frozenset(p.atoms()), abs(w) < 1e-12, ('==', p.key()))
    # p < 0  <->  not (-p <= 0): canonical form with positive leading coefficient
    w = p.wit()
    if p.t[lead(p.t)] > 0:
        if op == '<':
            return Cond(p.z() < 0, frozenset(p.atoms()), w < 0, ('<', p.key()))
        return Cond(p.z() <= 0, frozenset(p.atoms()), w <= 0, ('<=', p.key()))
    q = -p
    if op == '<':   # -q < 0 <-> not (q <= 0)
        return Cond(q.z() <= 0, frozenset(q.atoms()), -w <= 0, ('<=', q.key())).neg()
    return Cond(q.z() < 0, frozenset(q.atoms()), -w < 0, ('<', q.key())).neg()


class Stats:
    def __init__(s):
        s.q = 0
        s.t = 0.0
        s.unk = 0
        s.sat = 0
        s.unsat = 0


class Solver:
    """slicing front end to z3"""

    def __init__(s, ctx, stats):
        s.ctx = ctx
        s.pc = []            # list of Cond
        s.keys = set()
        s.st = stats
        s.cache = {}
        s.assume_n = 0
        s.witok = True
        s.sig = 0

    def add(s, c):
        if c is True:
            return
        if c.key in s.keys:
            return
        s.keys.add(c.key)
        s.pc.append(c)
        s.sig = hash((s.sig, c.key))
        if not c.wit:
            s.witok = False

    def mark(s):
        return len(s.pc), set(s.keys), s.sig, s.witok

    def restore(s, m):
        del s.pc[m[0]:]
        s.keys, s.sig, s.witok = set(m[1]), m[2], m[3]

    def holds(s, c):
        """syntactic: True/False/None"""
        if c is True or c is False:
            return c
        if c.key in s.keys:
            return True
        if c.neg().key in s.keys:
            return False
        return None

    def closure(s, atoms, usedefs=True):
        A = s.ctx.atoms
        todo = list(atoms)
        seen = set(todo)
        conds = []
        done = [False] * len(s.pc)
        # definitions only pull in their dependencies when used
        changed = True
        while changed:
            changed = False
            while todo:
                v = todo.pop()
                if usedefs and not (usedefs == 'mid' and A[v].kind == 'cut'):
                    for d in A[v].deps:
                        if d not in seen:
                            seen.add(d)
                            todo.append(d)
            for i, c in enumerate(s.pc):
                if usedefs == 'mid':
                    if not done[i] and c.atoms <= seen:
                        done[i] = True
                        conds.append(c)
                    continue
                if not done[i] and (c.atoms & seen):
                    done[i] = True
                    conds.append(c)
                    for v in c.atoms:
                        if v not in seen:
                            seen.add(v)
                            todo.append(v)
                            changed = True
            if todo:
                changed = True
        return seen, conds

    def formula(s, conds, usedefs=True, full=False):
        A = s.ctx.atoms
        at = set()
        for c in conds:
            at |= c.atoms
        if full:
            for c in s.pc:
                at |= c.atoms
        seen, pcs = s.closure(at, usedefs)
        hascut = False
        fs = [c.z for c in conds] + [c.z for c in pcs]
        for v in sorted(seen):
            a = A[v]
            if usedefs and a.defs is not None:
                if usedefs == 'mid' and a.kind == 'cut':
                    hascut = True
                else:
                    fs += a.defs()
            if not usedefs and a.kind == 'sqrt':
                fs.append(a.z >= 0)
            if a.kind == 'in' and a.isint:
                if a.lo is not None:
                    fs.append(a.z >= a.lo)
                if a.hi is not None:
                    fs.append(a.z <= a.hi)
        s.hascut = hascut
        return fs, seen

    def _run(s, fs, timeout, tac=None):
        t = time.time()
        sol = z3.Solver() if tac is None else tac.solver()
        sol.set('timeout', int(timeout * 1000))
        sol.add(fs)
        r = sol.check()
        s.st.q += 1
        s.st.t += time.time() - t
        return r, sol

    def check(s, conds, timeout=2.0, usedefs=True, want_model=False, full=False):
        """satisfiability of PC & conds -> 'sat','unsat','unknown' (, model dict)"""
        conds = [c for c in conds if c is not True]
        if any(c is False for c in conds):
            return ('unsat', None) if want_model else 'unsat'
        key = (tuple(sorted(map(hash, (c.key for c in conds)))), s.sig, usedefs)
        if not want_model and key in s.cache:
            return s.cache[key]
        fs, seen = s.formula(conds, usedefs, full)
        real = any(not s.ctx.atoms[v].isint for v in seen)
        r = z3.unknown
        sol = None
        if not real:
            r, sol = s._run(fs, timeout)
        else:
            linear = all(len(m) <= 1 and all(e == 1 for _, e in m) for m in ())
            plan = [(None, timeout * 0.25), (NRA(), timeout * 0.5), (None, timeout * 0.25)]
            for tac, to in plan:
                try:
                    r, sol = s._run(fs, to, tac)
                except z3.Z3Exception:
                    continue
                if r != z3.unknown:
                    break
        res = str(r)
        if res == 'sat':
            s.st.sat += 1
        elif res == 'unsat':
            s.st.unsat += 1
        else:
            s.st.unk += 1
        if not want_model:
            s.cache[key] = res
            return res
        m = None
        if res == 'sat':
            m = {}
            zm = sol.model()
            for v in seen:
                a = s.ctx.atoms[v]
                if a.kind != 'in':
                    continue
                x = zm.eval(a.z, model_completion=True)
                m[a.name] = zval(x)
        return res, m


_nra = []


def NRA():
    if not _nra:
        _nra.append(z3.Then(z3.With('simplify', som=True), 'propagate-values', 'solve-eqs', 'elim-uncnstr',
                            z3.With('simplify', som=True), 'smt' if False else 'qfnra-nlsat'))
    return _nra[0]


def zval(x):
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_rational_value(x):
        return norm(Fraction(x.numerator_as_long(), x.denominator_as_long()))
    if z3.is_algebraic_value(x):
        a = x.approx(20)
        return norm(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return 0
