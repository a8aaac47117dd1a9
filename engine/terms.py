"""Terms of the verification conditions: polynomials with integer or rational
coefficients over atoms.  An atom is an integer or real variable, or the floor
quotient Div(p, c) of a polynomial by a positive constant.  Machine integers are
*exact* integers here: a w-bit value is a polynomial congruent to it modulo 2^w,
and wrap-around is made explicit with Div, so machine arithmetic is never
treated as mathematical arithmetic."""
from fractions import Fraction
from math import gcd, floor, ceil

class Atom:
    __slots__ = ('id', 'kind', 'name', 'lo', 'hi', 'real', 'p', 'c', 'deps', 'z')

ATOMS = []
DIVS = {}
GPB = {}          # bounds of primitive polynomials that hold globally

def new_atom(name, lo=None, hi=None, real=False, kind='v'):
    a = Atom()
    a.id = len(ATOMS); a.kind = kind; a.name = '%s.%d' % (name, a.id); a.lo = lo; a.hi = hi; a.real = real
    a.p = a.c = None; a.deps = frozenset((a.id,)); a.z = None
    ATOMS.append(a)
    return a

def var(name, lo=None, hi=None, real=False):
    return Poly({(new_atom(name, lo, hi, real).id,): 1})

class Poly:
    __slots__ = ('t', '_h', '_a', '_i', '_s')
    def __init__(s, t):
        s.t = t; s._h = None; s._a = None; s._i = None; s._s = None
    def __hash__(s):
        if s._h is None:
            s._h = hash(frozenset(s.t.items()))
        return s._h
    def __eq__(s, o):
        return isinstance(o, Poly) and s.t == o.t
    def __ne__(s, o):
        return not s == o
    def atoms(s):
        """closure of atoms (including those inside Div)"""
        if s._a is None:
            r = set()
            for m in s.t:
                for a in m:
                    r |= ATOMS[a].deps
            s._a = frozenset(r)
        return s._a
    def isint(s):
        if s._i is None:
            s._i = all(not ATOMS[a].real for m in s.t for a in m)
        return s._i
    def const(s):
        return s.t.get((), 0)
    def __add__(s, o): return add(s, o)
    __radd__ = __add__
    def __sub__(s, o): return sub(s, o)
    def __rsub__(s, o): return sub(o, s)
    def __mul__(s, o): return mul(s, o)
    __rmul__ = __mul__
    def __neg__(s): return scale(s, -1)
    def __repr__(s):
        def c2(c): return str(c)
        out = []
        for m, c in sorted(s.t.items(), key=lambda x: (len(x[0]), x[0])):
            if m == (): out.append(c2(c))
            else:
                n = '*'.join(aname(a) for a in m)
                out.append(n if c == 1 else '%s*%s' % (c2(c), n))
        return ' + '.join(out) or '0'

def aname(a):
    a = ATOMS[a]
    if a.kind == 'div':
        return 'div(%r, %d)' % (a.p, a.c) if len(repr(a.p)) < 80 else 'div(#%d, %d)' % (a.id, a.c)
    return a.name

def mk(t):
    if not t: return 0
    if len(t) == 1 and () in t:
        c = t[()]
        if isinstance(c, Fraction) and c.denominator == 1: c = int(c)
        return c
    return Poly(t)

def add(a, b):
    if not isinstance(a, Poly):
        if not isinstance(b, Poly): return a + b
        a, b = b, a
    t = dict(a.t)
    if not isinstance(b, Poly):
        if b == 0: return a
        c = t.get((), 0) + b
        if c: t[()] = c
        else: t.pop((), None)
        return mk(t)
    for m, c in b.t.items():
        c2 = t.get(m, 0) + c
        if c2: t[m] = c2
        else: t.pop(m, None)
    return mk(t)

def scale(a, k):
    if not isinstance(a, Poly): return a * k
    if k == 0: return 0
    if k == 1: return a
    r = {}
    for m, c in a.t.items():
        c = c * k
        if isinstance(c, Fraction) and c.denominator == 1: c = int(c)
        r[m] = c
    return Poly(r)

def sub(a, b):
    return add(a, scale(b, -1))

def mul(a, b):
    if not isinstance(a, Poly): return scale(b, a)
    if not isinstance(b, Poly): return scale(a, b)
    t = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
            c = t.get(m, 0) + c1 * c2
            if c: t[m] = c
            else: t.pop(m, None)
    return mk(t)

def isint(a):
    return a.isint() if isinstance(a, Poly) else (isinstance(a, int) or a.denominator == 1)

def prim(p):
    """p = g * q + k with q primitive, positive leading coefficient -> (q, g, k)"""
    k = p.t.get((), 0)
    t = {m: c for m, c in p.t.items() if m != ()}
    den = 1
    for c in t.values():
        if isinstance(c, Fraction): den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for c in t.values():
        g = gcd(g, abs(int(c * den)))
    lead = t[min(t)]
    if lead < 0: g = -g
    if g == 1 and den == 1:
        return (p if k == 0 else Poly(t)), 1, k
    q = Poly({m: int(c * den) // g for m, c in t.items()})
    gg = Fraction(g, den)
    if gg.denominator == 1: gg = int(gg)
    return q, gg, k

NEG, POS = None, None   # unbounded ends are None

def iadd(x, y):
    return (None if x[0] is None or y[0] is None else x[0] + y[0],
            None if x[1] is None or y[1] is None else x[1] + y[1])

def iscale(x, k):
    if k == 0: return (0, 0)
    lo = None if x[0] is None else x[0] * k
    hi = None if x[1] is None else x[1] * k
    return (lo, hi) if k > 0 else (hi, lo)

def imeet(x, y):
    lo = x[0] if y[0] is None else y[0] if x[0] is None else max(x[0], y[0])
    hi = x[1] if y[1] is None else y[1] if x[1] is None else min(x[1], y[1])
    return (lo, hi)

def imul(x, y):
    if x[0] is not None and x[1] is not None and y[0] is not None and y[1] is not None:
        v = (x[0] * y[0], x[0] * y[1], x[1] * y[0], x[1] * y[1])
        return (min(v), max(v))
    # non-negative operands
    if x[0] is not None and x[0] >= 0 and y[0] is not None and y[0] >= 0:
        return (x[0] * y[0], None)
    return (None, None)

class Bounds:
    """path-local bounds"""
    __slots__ = ('ab', 'pb')
    def __init__(s, ab=None, pb=None):
        s.ab = ab if ab is not None else {}
        s.pb = pb if pb is not None else {}
    def copy(s):
        return Bounds(dict(s.ab), dict(s.pb))
    def atom(s, a):
        r = s.ab.get(a)
        A = ATOMS[a]
        if r is None:
            if A.kind == 'div':
                return s.divb(A)
            return (A.lo, A.hi)
        if A.kind == 'div':
            return imeet(r, s.divb(A))
        return imeet(r, (A.lo, A.hi))
    def divb(s, A):
        l, h = s.iv(A.p, 3)
        return (None if l is None else l // A.c, None if h is None else h // A.c)
    def mono(s, m):
        r = s.atom(m[0])
        for a in m[1:]:
            r = imul(r, s.atom(a))
        if len(m) == 2 and m[0] == m[1]:
            r = imeet(r, (0, None))
        return r
    def iv(s, p, depth=0):
        if not isinstance(p, Poly): return (p, p)
        k = p.t.get((), 0)
        lo = hi = k
        for m, c in p.t.items():
            if m == (): continue
            l, h = s.mono(m)
            if c < 0: l, h = h, l
            lo = None if lo is None or l is None else lo + l * c
            hi = None if hi is None or h is None else hi + h * c
            if lo is None and hi is None: break
        r = (lo, hi)
        if len(p.t) - (() in p.t) >= 2:
            q, g, kk = prim(p)
            for tab in (s.pb, GPB):
                b = tab.get(q)
                if b is not None:
                    b = iscale(b, g)
                    r = imeet(r, iadd(b, (kk, kk)))
            if depth < 3:
                for m, c in p.t.items():
                    if len(m) == 1:
                        A = ATOMS[m[0]]
                        if A.kind == 'div' and c % A.c == 0:
                            kq = c // A.c
                            # c*q = kq*(P - r), r in [0, C-1]
                            rest = add(sub(p, Poly({m: c})), scale(A.p, kq))
                            n2 = len(rest.t) if isinstance(rest, Poly) else 0
                            if n2 < len(p.t) + 1:
                                r2 = iadd(s.iv(rest, depth + 1), iscale((0, A.c - 1), -kq))
                                r = imeet(r, r2)
        return r

def subst(p, mp):
    """mp: atom id -> value"""
    if not isinstance(p, Poly): return p
    if not any(a in mp for m in p.t for a in m):
        if not any(ATOMS[a].kind == 'div' and not mp.keys().isdisjoint(ATOMS[a].deps) for m in p.t for a in m):
            return p
    r = 0
    for m, c in p.t.items():
        v = c
        for a in m:
            if a in mp: f = mp[a]
            else:
                A = ATOMS[a]
                if A.kind == 'div' and not mp.keys().isdisjoint(A.deps):
                    f = div(subst(A.p, mp), A.c)
                else:
                    f = Poly({(a,): 1})
            v = mul(f, v)
        r = add(r, v)
    return r

NOB = Bounds()

def div(p, c, b=NOB):
    """floor(p / c), c a positive integer constant, p integer valued"""
    if c == 1: return p
    if not isinstance(p, Poly): return p // c
    A = {}; B = {}
    for m, k in p.t.items():
        q, r = divmod(k, c)
        if m == ():
            if q: A[m] = q
            if r: B[m] = r
        else:
            if r == 0: A[m] = q
            else: 
                B[m] = k
    A = mk(A); B = mk(B)
    if not isinstance(B, Poly):
        return add(A, B // c)
    lo, hi = b.iv(B)
    if lo is not None and hi is not None and lo // c == hi // c:
        return add(A, lo // c)
    g = c
    for m, k in B.t.items():
        if m != (): g = gcd(g, k)
    if g > 1:
        B = Poly({m: (k // g) for m, k in B.t.items() if m != () or k // g})
        return add(A, div(B, c // g, b))
    # div of div
    if len(B.t) == 1:
        (m, k), = B.t.items()
        if k == 1 and len(m) == 1 and ATOMS[m[0]].kind == 'div':
            X = ATOMS[m[0]]
            return add(A, div(X.p, X.c * c, b))
    key = (B, c)
    a = DIVS.get(key)
    if a is None:
        lo, hi = NOB.iv(B)
        a = new_atom('q', None if lo is None else lo // c, None if hi is None else hi // c, kind='div')
        a.p = B; a.c = c; a.deps = frozenset((a.id,)) | B.atoms()
        DIVS[key] = a
        q, g, k = prim(sub(B, Poly({(a.id,): c})))
        # g*q + k in [0, c-1]
        lo, hi = Fraction(-k, g), Fraction(c - 1 - k, g)
        if g < 0: lo, hi = hi, lo
        GPB[q] = (ceil(lo), floor(hi))
    return add(A, Poly({(a.id,): 1}))

def mod(p, c, b=NOB):
    return sub(p, scale(div(p, c, b), c))

# ------------------------------------------------------------ conditions
# True | False | (op, poly) op in ge, gt (real only), eq, ne | ('and'|'or', tuple)
def _norm(p):
    """integer polynomial: clear denominators"""
    den = 1
    for c in p.t.values():
        if isinstance(c, Fraction): den = den * c.denominator // gcd(den, c.denominator)
    if den != 1: p = scale(p, den)
    return p

def ge0(p):
    if not isinstance(p, Poly): return p >= 0
    p = _norm(p)
    g = 0
    for m, c in p.t.items():
        if m != (): g = gcd(g, c)
    if g > 1:
        k = p.t.get((), 0)
        if p.isint(): k2 = k // g
        else:
            k2 = Fraction(k, g)
            if k2.denominator == 1: k2 = int(k2)
        t = {m: c // g for m, c in p.t.items() if m != ()}
        if k2: t[()] = k2
        p = Poly(t)
    return ('ge', p)

def gt0(p):
    if not isinstance(p, Poly): return p > 0
    p = _norm(p)
    if p.isint(): return ge0(sub(p, 1))
    return ('gt', p)

def eq0(p):
    if not isinstance(p, Poly): return p == 0
    p = _norm(p)
    q, g, k = prim(p)
    if p.isint():
        if k % g: return False
        return ('eq', add(q, k // g))
    return ('eq', p)

def ne0(p): return neg(eq0(p))
def ge(a, b): return ge0(sub(a, b))
def le(a, b): return ge0(sub(b, a))
def gt(a, b): return gt0(sub(a, b))
def lt(a, b): return gt0(sub(b, a))
def eq(a, b): return eq0(sub(a, b))
def ne(a, b): return neg(eq0(sub(a, b)))

def neg(c):
    if c is True: return False
    if c is False: return True
    o = c[0]
    if o == 'ge': return gt0(scale(c[1], -1))
    if o == 'gt': return ge0(scale(c[1], -1))
    if o == 'eq': return ('ne', c[1])
    if o == 'ne': return ('eq', c[1])
    if o == 'and': return Or(*[neg(x) for x in c[1]])
    if o == 'or': return And(*[neg(x) for x in c[1]])
    raise AssertionError(o)

def And(*cs):
    out = []
    for c in cs:
        if c is False: return False
        if c is True: continue
        if c[0] == 'and': out.extend(c[1])
        else: out.append(c)
    if not out: return True
    if len(out) == 1: return out[0]
    return ('and', tuple(out))

def Or(*cs):
    out = []
    for c in cs:
        if c is True: return True
        if c is False: continue
        if c[0] == 'or': out.extend(c[1])
        else: out.append(c)
    if not out: return False
    if len(out) == 1: return out[0]
    return ('or', tuple(out))

def Implies(a, b): return Or(neg(a), b)

def catoms(c):
    if c is True or c is False: return frozenset()
    if c[0] in ('and', 'or'):
        r = frozenset()
        for x in c[1]: r |= catoms(x)
        return r
    return c[1].atoms()

def peval(p, mdl):
    """value under a total model of the variable atoms (dict, defaults allowed)"""
    if not isinstance(p, Poly): return p
    r = 0
    for m, c in p.t.items():
        v = c
        for a in m:
            v = v * aeval(a, mdl)
        r += v
    return r

def aeval(a, mdl):
    v = mdl.get(a)
    if v is not None: return v
    A = ATOMS[a]
    if A.kind == 'div':
        v = floor(Fraction(peval(A.p, mdl)) / A.c)
    else:
        v = 0
        if A.lo is not None and v < A.lo: v = A.lo
        if A.hi is not None and v > A.hi: v = A.hi
    mdl[a] = v
    return v

def ceval(c, mdl):
    if c is True or c is False: return c
    o = c[0]
    if o == 'and': return all(ceval(x, mdl) for x in c[1])
    if o == 'or': return any(ceval(x, mdl) for x in c[1])
    v = peval(c[1], mdl)
    return v >= 0 if o == 'ge' else v > 0 if o == 'gt' else v == 0 if o == 'eq' else v != 0

def cstr(c):
    if c is True or c is False: return str(c)
    if c[0] in ('and', 'or'):
        return '(' + (' %s ' % c[0]).join(cstr(x) for x in c[1]) + ')'
    return '%r %s 0' % (c[1], {'ge': '>=', 'gt': '>', 'eq': '==', 'ne': '!='}[c[0]])
