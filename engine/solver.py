"""Path contexts and the SMT back ends (z3 first, cvc5 for what z3 leaves open)."""
import time, os
from fractions import Fraction
from math import floor, ceil
import z3
from terms import *

class Stats:
    z3_q = 0; z3_t = 0.0; cvc5_q = 0; cvc5_t = 0.0; unknown = 0; iv = 0; mdl = 0
ST = Stats()

Z = z3.main_ctx()
_mono = {}

def tnum(c, real):
    if c < 0: return '(- %s)' % tnum(-c, real)
    return '%d.0' % c if real else '%d' % c

def tmono(m, nl):
    """-> (text, is_real, [(name, is_real)])"""
    k = (m, nl)
    v = _mono.get(k)
    if v is None:
        real = any(ATOMS[a].real for a in m)
        if len(m) == 1 or nl:
            ns = [('r%d' if ATOMS[a].real else 'i%d') % a for a in m]
            ds = [(n, n[0] == 'r') for n in ns]
            if len(m) == 1: t = ns[0]
            else: t = '(* %s)' % ' '.join('(to_real %s)' % n if real and n[0] == 'i' else n for n in ns)
            v = (t, real, ds)
        else:
            nm = ('p' if real else 'm') + '_'.join(map(str, m))
            v = (nm, real, [(nm, real)])
        _mono[k] = v
    return v

def tpoly(p, nl, decls, real=None):
    """text of a positive multiple of p (an integer multiple that clears denominators); -> (text, is_real)"""
    if not isinstance(p, Poly):
        if real is None: real = False
        return tnum(p.numerator, real) if isinstance(p, Fraction) else tnum(p, real), real
    key = (nl, real)
    r = p._s
    if r is not None and r[0] == key:
        decls.update(r[3])
        return r[1], r[2]
    den = 1
    for c in p.t.values():
        if isinstance(c, Fraction): den = den * c.denominator // gcd(den, c.denominator)
    rl = real if real is not None else not p.isint()
    ts = []; ds = []
    for m, c in p.t.items():
        c = c * den
        if isinstance(c, Fraction): c = c.numerator
        if m == (): ts.append(tnum(c, rl)); continue
        t, r, d = tmono(m, nl)
        ds += d
        if rl and not r: t = '(to_real %s)' % t
        ts.append(t if c == 1 else '(* %s %s)' % (tnum(c, rl), t))
    txt = ts[0] if len(ts) == 1 else '(+ %s)' % ' '.join(ts)
    p._s = (key, txt, rl, ds)
    decls.update(ds)
    return txt, rl

OPS = {'ge': '>=', 'gt': '>', 'eq': '='}
def tcond(c, nl, decls):
    if c is True: return 'true'
    if c is False: return 'false'
    o = c[0]
    if o in ('and', 'or'): return '(%s %s)' % (o, ' '.join([tcond(x, nl, decls) for x in c[1]])) if c[1] else ('true' if o == 'and' else 'false')
    t, r = tpoly(c[1], nl, decls)
    z = '0.0' if r else '0'
    if o == 'ne': return '(not (= %s %s))' % (t, z)
    return '(%s %s %s)' % (OPS[o], t, z)

def monos_of(conds, atoms):
    ms = set()
    def walk(c):
        if c is True or c is False: return
        if c[0] in ('and', 'or'):
            for x in c[1]: walk(x)
        else:
            ms.update(m for m in c[1].t if len(m) > 1)
    for c in conds: walk(c)
    for a in atoms:
        A = ATOMS[a]
        if A.kind == 'div':
            ms.update(m for m in A.p.t if len(m) > 1)
    return ms

def background(conds, atoms, b, nl, decls):
    """constraints that define / bound the atoms"""
    out = []
    def bound(t, r, lo, hi):
        # lo <= t <= hi
        for v, op in ((lo, '>='), (hi, '<=')):
            if v is None: continue
            if isinstance(v, Fraction) and v.denominator != 1:
                out.append('(%s (* %s %s) %s)' % (op, tnum(v.denominator, r), t, tnum(v.numerator, r)))
            else: out.append('(%s %s %s)' % (op, t, tnum(int(v), r)))
    for a in sorted(atoms):
        A = ATOMS[a]
        lo, hi = b.atom(a)
        t, r, d = tmono((a,), nl)
        decls.update(d)
        if A.kind == 'div':
            p, pr = tpoly(sub(A.p, Poly({(a,): A.c})), nl, decls)
            out.append('(>= %s 0)' % p); out.append('(<= %s %s)' % (p, tnum(A.c - 1, pr)))
        bound(t, r, lo, hi)
    for m in monos_of(conds, atoms):
        l, h = b.mono(m)
        t, r, d = tmono(m, nl)
        decls.update(d)
        bound(t, r, l, h)
        if not nl and len(m) == 2:   # McCormick envelopes
            (xl, xh), (yl, yh) = b.atom(m[0]), b.atom(m[1])
            X, Y, M = Poly({(m[0],): 1}), Poly({(m[1],): 1}), Poly({m: 1})
            def c(x, y, s):
                if x is not None and y is not None and set((m[0], m[1])) <= set(atoms):
                    # s*(X-x)*(Y-y) >= 0
                    e = scale(M - scale(Y, x) - scale(X, y) + x * y, s)
                    out.append(tcond(('ge', e), nl, decls))
            c(xl, yl, 1); c(xh, yh, 1); c(xl, yh, -1); c(xh, yl, -1)
    return out

def query(conds, b, nl):
    atoms = frozenset()
    for c in conds: atoms |= catoms(c)
    decls = {}
    cs = background(conds, atoms, b, nl, decls) + [tcond(c, nl, decls) for c in conds]
    txt = ''.join('(declare-const %s %s)\n' % (n, 'Real' if r else 'Int') for n, r in decls.items()) + ''.join('(assert %s)\n' % c for c in cs)
    return txt, atoms

def zval(v):
    if z3.is_int_value(v): return v.as_long()
    if z3.is_rational_value(v): return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        v = v.approx(30)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return None

def solve(conds, b, timeout=4000, nl=False, want_model=True):
    """-> ('unsat', None) | ('sat', model) | ('unknown', reason)"""
    t0 = time.time()
    txt, atoms = query(conds, b, nl)
    s = z3.Solver() if nl else z3.SimpleSolver()
    s.set('timeout', timeout)
    s.from_string(txt)
    r = s.check()
    ST.z3_q += 1; ST.z3_t += time.time() - t0
    if r == z3.unsat: return 'unsat', None
    if r == z3.sat:
        m = s.model()
        vals = {}
        for d in m: vals[d.name()] = m[d]
        mdl = {}
        for a in atoms:
            if ATOMS[a].kind == 'v':
                n = ('r%d' if ATOMS[a].real else 'i%d') % a
                v = vals.get(n)
                v = zval(v) if v is not None else 0
                if v is not None: mdl[a] = v
        return 'sat', mdl
    ST.unknown += 1
    return 'unknown', s.reason_unknown()

def relaxed(conds, b, timeout=1500):
    """are the conditions unsatisfiable even over the reals?  (sound for 'unsat', fast in the presence of divisions)"""
    t0 = time.time()
    txt, atoms = query(conds, b, False)
    if not any(ATOMS[a].kind == 'div' for a in atoms): return False
    s = z3.SolverFor('QF_LRA')
    s.set('timeout', timeout)
    s.from_string(txt.replace(' Int)', ' Real)').replace('(to_real ', '(+ 0.0 '))
    r = s.check()
    ST.z3_q += 1; ST.z3_t += time.time() - t0
    return r == z3.unsat

def solve_cvc5(conds, b, nl=False, timeout=20000):
    """second opinion of cvc5 on the same constraints (SMT-LIB text)"""
    import subprocess
    txt = '(set-logic ALL)\n' + query(conds, b, nl)[0] + '(check-sat)\n'
    t0 = time.time()
    try:
        p = subprocess.run(['cvc5', '--lang=smt2', '--tlimit=%d' % timeout], input=txt, capture_output=True, text=True, timeout=timeout / 1000 + 5)
        out = p.stdout.strip().split('\n')[-1]
    except Exception as e:
        out = 'unknown'
    ST.cvc5_q += 1; ST.cvc5_t += time.time() - t0
    return out if out in ('sat', 'unsat') else 'unknown'

class Ctx:
    """facts of one path"""
    __slots__ = ('facts', 'b', 'model', 'seen', 'gen')
    def __init__(s):
        s.facts = []; s.b = Bounds(); s.model = {}; s.seen = set(); s.gen = 0
    def copy(s):
        c = Ctx.__new__(Ctx)
        c.facts = list(s.facts); c.b = s.b.copy(); c.model = s.model; c.seen = set(s.seen); c.gen = s.gen
        return c
    # -- adding facts
    def assume(s, c):
        """returns False if it is contradictory at once"""
        if c is True: return True
        if c is False: return False
        o = c[0]
        if o == 'and':
            for x in c[1]:
                if not s.assume(x): return False
            return True
        t = s.tri(c)
        if t is True:
            # keep multi-atom facts that are implied by intervals out
            return True
        if t is False: return False
        if o == 'or':
            if c in s.seen: return True
            rest = [x for x in c[1] if s.tri(x) is not False]
            if len(rest) < len(c[1]): s.seen.add(c)
            if len(rest) == 1: return s.assume(rest[0])
            c = ('or', tuple(rest))
        if c in s.seen: return True
        s.seen.add(c); s.gen += 1
        s.facts.append(c)
        if o in ('ge', 'gt', 'eq'): s.tighten(c[1], o)
        elif o == 'ne': s.tighten_ne(c[1])
        if s.model is not None:
            if not ceval(c, dict(s.model)): s.model = None
        return True
    def tighten(s, p, o):
        q, g, k = prim(p)
        # g*q + k >= 0
        isint = q.isint()
        v = Fraction(-k) / g
        if o == 'eq':
            new = (v, v)
            if isint and v.denominator != 1: return
        elif g > 0: new = (ceil(v) if isint else v, None)
        else: new = (None, floor(v) if isint else v)
        new = tuple(int(x) if isinstance(x, Fraction) and x.denominator == 1 else x for x in new)
        if len(q.t) == 1:
            (m, c), = q.t.items()
            if len(m) == 1:
                s.b.ab[m[0]] = imeet(s.b.ab.get(m[0], (None, None)), new)
                return
        s.b.pb[q] = imeet(s.b.pb.get(q, (None, None)), new)
    def tighten_ne(s, p):
        if not p.isint(): return
        q, g, k = prim(p)
        if k % g: return
        v = -k // g
        lo, hi = s.b.iv(q)
        if lo == v or hi == v:
            new = (v + 1, None) if lo == v else (None, v - 1)
            if len(q.t) == 1:
                (m, c), = q.t.items()
                if len(m) == 1:
                    s.b.ab[m[0]] = imeet(s.b.ab.get(m[0], (None, None)), new)
                    # other disequalities might become adjacent now
                    for f in s.facts:
                        if f[0] == 'ne' and f[1] is not p and len(f[1].t) <= 2 and m in f[1].t:
                            q2, g2, k2 = prim(f[1])
                            if q2 == q and -k2 // g2 in s.b.iv(q): return s.tighten_ne(f[1])
                    return
            s.b.pb[q] = imeet(s.b.pb.get(q, (None, None)), new)
    def resolve(s, p):
        """constant value of p if the bounds or an equation give one, else p"""
        lo, hi = s.b.iv(p)
        if lo is not None and lo == hi: return lo
        q, g, k = prim(p)
        if g != 1 or k:
            lo, hi = s.b.iv(q)
            if lo is not None and lo == hi:
                r = lo * g + k
                return int(r) if isinstance(r, Fraction) and r.denominator == 1 else r
        return p
    # -- deciding
    def tri(s, c):
        """interval decision"""
        if c is True or c is False: return c
        o = c[0]
        if o == 'and':
            r = True
            for x in c[1]:
                t = s.tri(x)
                if t is False: return False
                if t is None: r = None
            if r is None and neg(c) in s.seen: return False
            return r
        if o == 'or':
            if c in s.seen: return True
            r = []
            for x in c[1]:
                t = s.tri(x)
                if t is True: return True
                if t is None: r.append(x)
            if not r: return False
            if len(r) < len(c[1]) and ('or', tuple(r)) in s.seen: return True
            return None
        if c in s.seen: return True
        lo, hi = s.b.iv(c[1])
        if lo is not None and hi is not None and lo > hi:
            return True if o != 'ne' else True   # contradictory path: anything goes
        if o == 'ge':
            if lo is not None and lo >= 0: return True
            if hi is not None and hi < 0: return False
        elif o == 'gt':
            if lo is not None and lo > 0: return True
            if hi is not None and hi <= 0: return False
        elif o == 'eq':
            if lo is not None and lo > 0 or hi is not None and hi < 0: return False
            if lo == hi == 0: return True
            if ('ne', c[1]) in s.seen: return False
        elif o == 'ne':
            if lo is not None and lo > 0 or hi is not None and hi < 0: return True
            if lo == hi == 0: return False
        return None
    def cone(s, c):
        at = set(catoms(c))
        todo = [(f, catoms(f)) for f in s.facts]
        out = []
        ch = True
        while ch:
            ch = False
            rest = []
            for f, a in todo:
                if not at.isdisjoint(a):
                    out.append(f); at |= a; ch = True
                else: rest.append((f, a))
            todo = rest
        return out
    def try_model(s, c):
        """does the current model satisfy c?"""
        if s.model is None: return None
        return ceval(c, dict(s.model))
    def sat(s, c, timeout=3000):
        """True / False / None(unknown); keeps a model"""
        t = s.tri(c)
        if t is False: return False
        if s.model is not None and ceval(c, dict(s.model)):
            ST.mdl += 1
            return True
        fs = s.cone(c)
        r, m = solve(fs + [c], s.b, timeout)
        if r == 'unsat': return False
        if r == 'sat':
            return True
        return None
    def model_for(s, c, timeout=3000):
        """a (total, verified) model of facts and c, or None"""
        if s.model is not None and ceval(c, dict(s.model)): return s.model
        r, m = solve(s.cone(c) + [c], s.b, timeout)
        if r == 'sat':
            return s.complete(m, c)
        return None
    def complete(s, m, c):
        base = dict(s.model) if s.model is not None else {}
        mm = {k: v for k, v in base.items() if ATOMS[k].kind == 'v'}
        mm.update(m)
        d = dict(mm)
        if all(ceval(f, d) for f in s.facts) and ceval(c, d) and s.inb(d): return mm
        # facts outside of the cone
        r, m2 = solve(list(s.facts) + [c], s.b, 4000)
        if r == 'sat':
            d = dict(m2)
            if all(ceval(f, d) for f in s.facts) and ceval(c, d): return m2
        return None
    def inb(s, d):
        for a, (lo, hi) in s.b.ab.items():
            v = aeval(a, d)
            if lo is not None and v < lo or hi is not None and v > hi: return False
        return True
    def feasible(s):
        """is the path feasible (unknown counts as feasible)?"""
        if s.model is not None: return True
        r, m = solve(list(s.facts), s.b, 4000)
        if r == 'unsat': return False
        if r == 'sat':
            d = dict(m)
            if all(ceval(f, d) for f in s.facts): s.model = m
        return True
    def branch(s, c):
        """-> list of (truth, ctx) of feasible outcomes; s itself must not be used afterwards"""
        t = s.tri(c)
        if t is not None:
            return [(t, s)]
        n = neg(c)
        mv = None
        if s.model is not None:
            mv = ceval(c, dict(s.model))
        out = []
        for truth, cond in ((True, c), (False, n)):
            if mv is truth:
                k = s.copy()
                if k.assume(cond): out.append((truth, k))
                continue
            fs = s.cone(cond) + [cond]
            if relaxed(fs, s.b): continue
            r, m = solve(fs, s.b, 3000)
            if r == 'unsat': continue
            k = s.copy()
            if not k.assume(cond): continue
            if r == 'sat' and k.model is None:
                k.model = s.complete(m, cond)
            elif r != 'sat': pass
            out.append((truth, k))
        if not out:
            # contradictory path
            return []
        return out
    def prove(s, c, timeout=20000, nl=True):
        """-> ('proved', how) | ('refuted', model) | ('unknown', reason)"""
        t = s.tri(c)
        if t is True:
            ST.iv += 1
            return 'proved', 'interval'
        n = neg(c)
        if s.model is not None and ceval(n, dict(s.model)):
            return 'refuted', s.model
        fs = s.cone(c)
        if relaxed(fs + [n], s.b): return 'proved', 'z3-lra'
        r, m = solve(fs + [n], s.b, timeout)
        if r == 'unsat': return 'proved', 'z3'
        hasnl = bool(monos_of(fs + [n], frozenset().union(*[catoms(x) for x in fs + [n]])))
        if r == 'sat':
            mm = s.complete(m, n)
            if mm is not None: return 'refuted', mm
            if not hasnl: 
                # the path itself may be infeasible outside of the cone
                if not s.feasible(): return 'proved', 'z3'
                return 'refuted', m
        if hasnl and nl:
            r, m = solve(fs + [n], s.b, timeout, nl=True)
            if r == 'unsat': return 'proved', 'z3-nl'
            if r == 'sat':
                return 'refuted', m
        r2 = solve_cvc5(fs + [n], s.b, nl=hasnl)
        if r2 == 'unsat': return 'proved', 'cvc5'
        if not s.feasible(): return 'proved', 'z3'
        return 'unknown', 'z3: %s, cvc5: %s' % (r, r2)
