"""The parsed string and its meaning.  The string S of symbolic length L (S[k] != 0 for k < L, S[L] == 0) is read
character by character; the ghost automaton of the documented grammar runs over the characters the code has
consumed and keeps the exact value of the number read so far."""
from fractions import Fraction
from terms import *
from exec import Ptr, EndPath, Unsupported, Fork

class DryRead(Exception):
    def __init__(s, off): s.off = off

LETTERS = ((48, 57), (65, 90), (95, 95), (97, 122))
def isin(c, rs):
    return Or(*[And(ge(c, a), le(c, b)) if a != b else eq(c, a) for a, b in rs])
def letter(c, l): return isin(c, ((ord(l), ord(l)), (ord(l) - 32, ord(l) - 32)))
DIG = ((48, 57),)

COLS = ('q', 'end', 'V', 'z', 'F', 'e', 'W', 'Z', 'EX')
MODES = ('phase', 'n', 'full', 'neg', 'eneg', 'accepted', 'sat', 'xdig')

KEEP = ('S', 'G', 'M', 'A1', 'A2')
# classes of characters that are told apart in what is remembered of a character read ahead
CLASSES = (('0', ((48, 48),)), ('d', ((49, 57),)), ('.', ((46, 46),)), ('+', ((43, 43),)), ('-', ((45, 45),)), ('e', ((101, 101), (69, 69))),
           ('n', ((110, 110), (78, 78))), ('i', ((105, 105), (73, 73))))

class SGhost:
    def __init__(s, L, es, rng, kappa, exp, eslimit=None):
        s.L, s.es, s.rng, s.kappa, s.exp = L, es, rng, kappa, exp
        s.pk = []
        s.hist = {}           # characters behind the frontier that were read since the last cut
        s.q = 0; s.phase = 'S'; s.end = 0; s.accepted = False
        s.n = 0; s.V = 0; s.z = 0; s.F = 0; s.e = 0; s.W = 0; s.full = False; s.Z = 0
        s.neg = False; s.eneg = False; s.EX = 0; s.sat = False; s.xdig = False
        s.T = None
        s.exlimit = None      # digits of the exponent are followed exactly below this value
        s.light = False       # only positions are followed
    def copy(s):
        n = SGhost.__new__(SGhost)
        n.__dict__.update(s.__dict__)
        n.pk = list(s.pk); n.hist = dict(s.hist)
        return n
    # -- reading
    def rel(s, ex, st, off):
        """character offset relative to the frontier"""
        if isinstance(off, Poly):
            if s.es > 1:
                t = {}
                for m, c in off.t.items():
                    if not isinstance(c, int) or c % s.es: raise Unsupported('unaligned string access')
                    t[m] = c // s.es
                off = mk(t)
        else: off //= s.es
        return off
    def load(s, ex, st, o, off, size):
        if size != s.es: raise Unsupported('string access of %d bytes' % size)
        a = s.rel(ex, st, off)
        if st.dry is not None: raise DryRead(a)
        st.sread += 1
        k = sub(a, s.q)
        if isinstance(k, Poly):
            k = st.ctx.resolve(k)
        if isinstance(k, Poly):
            lo, hi = st.ctx.b.iv(k)
            if hi is not None and hi <= -1: return s.back(ex, st, a, k)
            if lo is not None and hi is not None and hi - lo <= 8: k = ex.conc(st, k)
            else:
                # at most a few characters ahead, or somewhere behind
                raise Fork([le(k, -4), eq(k, -3), eq(k, -2), eq(k, -1), eq(k, 0), eq(k, 1), eq(k, 2), eq(k, 3), ge(k, 4)])
        if k < 0: return s.back(ex, st, a, k)
        if k > 64: raise Unsupported('read far ahead')
        if k < len(s.pk): 
            return s.pk[k]
        ex.require(st, le(a, s.L), 'string: nothing is read behind the terminating NUL')
        while len(s.pk) < k: s.fresh(ex, st, len(s.pk))
        if ex.decide(st, eq(a, s.L)):
            s.pk.append(0)
            return 0
        return s.fresh(ex, st, k)
    def fresh(s, ex, st, k):
        c = var('c', s.rng[0], s.rng[1])
        if not st.ctx.assume(And(le(add(add(s.q, k), 1), s.L), ne(c, 0))): raise EndPath()
        s.pk.append(c)
        return c
    def back(s, ex, st, a, k):
        ex.require(st, ge0(a), 'string: nothing is read before its beginning')
        j = scale(k, -1)
        key = st.ctx.resolve(a) if isinstance(a, Poly) else a
        c = s.hist.get(key)
        if c is not None: return c
        if ex.valid(st, le(j, s.Z)):
            c = s.hist[key] = var('c', 46, 48)
            if not st.ctx.assume(ne(c, 47)): raise EndPath()
            return c
        c = s.hist[key] = var('c', s.rng[0], s.rng[1])
        if not st.ctx.assume(ne(c, 0)): raise EndPath()
        return c
    def classes(s, ex, st, x):
        """classes that character x is known not to be in"""
        return tuple(n for n, rs in CLASSES if st.ctx.tri(isin(x, rs)) is False)
    def restore(s, cls):
        fs = []
        for i, x in enumerate(s.pk):
            if isinstance(x, Poly):
                fs.append(And(ge(x, s.rng[0]), le(x, s.rng[1]), ne(x, 0), le(add(add(s.q, i), 1), s.L)))
                for n, rs in CLASSES:
                    if n in cls[i]: fs.append(neg(isin(x, rs)))
            elif x == 0: fs.append(eq(add(s.q, i), s.L))
        return And(*fs)
    # -- the automaton
    def advance_to(s, ex, st, a):
        """consume the characters before position a"""
        k = sub(a, s.q)
        if isinstance(k, Poly): k = st.ctx.resolve(k)
        if isinstance(k, Poly):
            lo, hi = st.ctx.b.iv(k)
            if lo is None or lo != hi:
                if hi is not None and hi <= 0: return False
                if lo is not None and hi is not None and hi - lo <= 8: k = ex.conc(st, k)
                else: return False
            else: k = lo
        if k < 0: return False
        if k > len(s.pk): return False
        for _ in range(k): s.step(ex, st)
        return True
    def finish(s, ex, st):
        """consume until the automaton is dead; True if it is"""
        while s.phase != 'X':
            if s.phase in ('F8', 'N5'): s.phase = 'X'; break
            if not s.pk: return False
            s.step(ex, st, stop=True)
        return True
    def step(s, ex, st, stop=False):
        c = s.pk[0]
        if s.light:
            if stop: s.phase = 'X'; return
            s.pk.pop(0); s.q = add(s.q, 1)
            return
        D = lambda cond: ex.decide(st, cond)
        ph = s.phase
        nx = None
        act = None
        dot = ph in ('P', 'J')
        if isinstance(c, int) and c == 0 or ph == 'X': nx = 'X'
        elif ph in ('S', 'G', 'I', 'P', 'J'):
            if D(isin(c, DIG)):
                act = s.digit(ex, st, c, dot)
                nx = 'J' if dot else 'I'
            elif not dot and D(eq(c, 46)): nx = 'J' if ph == 'I' else 'P'
            elif ph == 'S' and D(isin(c, ((43, 43), (45, 45)))):
                neg_ = D(eq(c, 45))
                nx = 'G'
                def act(): s.neg = neg_
            elif ph in ('S', 'G') and D(letter(c, 'n')): nx = 'N1'
            elif ph in ('S', 'G') and D(letter(c, 'i')): nx = 'F1'
            elif s.exp and ph in ('I', 'J') and D(letter(c, 'e')): nx = 'A1'
            else: nx = 'X'
        elif ph == 'M':      # a mantissa ends here
            nx = 'A1' if D(letter(c, 'e')) else 'X'
        elif ph[0] == 'A':
            if ph != 'A1' or not D(isin(c, ((43, 43), (45, 45)))):
                if D(isin(c, DIG)):
                    act = s.edigit(ex, st, c)
                    nx = 'A3'
                else: nx = 'X'
            else:
                n_ = D(eq(c, 45))
                nx = 'A2'
                def act(): s.eneg = n_
        elif ph == 'N3': nx = 'N4' if D(eq(c, 40)) else 'X'
        elif ph == 'N4': nx = 'N4' if D(isin(c, LETTERS)) else 'N5' if D(eq(c, 41)) else 'X'
        elif ph in ('N1', 'N2'): nx = 'N' + chr(ord(ph[1]) + 1) if D(letter(c, {'1': 'a', '2': 'n'}[ph[1]])) else 'X'
        elif ph[0] == 'F' and ph != 'F8': nx = 'F' + chr(ord(ph[1]) + 1) if D(letter(c, 'nfinity'[int(ph[1]) - 1])) else 'X'
        else: nx = 'X'
        back = nx != 'X' and ph != 'X' and D(isin(c, ((46, 46), (48, 48))))
        # all decisions are made
        if act is not None: act()
        if stop and nx == 'X':
            s.phase = 'X'
            return
        s.pk.pop(0)
        s.q = add(s.q, 1)
        s.Z = add(s.Z, 1) if back else 0
        s.phase = nx
        if nx in ('I', 'J', 'A3', 'N3', 'N5', 'F3', 'F8'):
            s.end = s.q
            if nx == 'A3': s.xdig = True
            s.accepted = {'A3': s.accepted, 'I': 'num', 'J': 'num', 'N3': 'nan', 'N5': 'nan', 'F3': 'inf', 'F8': 'inf'}[nx]
    def digit(s, ex, st, c, dot):
        kappa = s.kappa
        d = sub(c, 48)
        zero = ex.decide(st, eq(c, 48))
        f = 1 if dot else 0
        if zero:
            def act():
                s.F = add(s.F, f)
                if s.full: s.e = add(s.e, 1)
                elif s.n: s.z = add(s.z, 1)
            return act
        if s.full:
            def act(): s.F = add(s.F, f); s.e = add(s.e, 1)
            return act
        if s.n == 0:
            def act(): s.F = add(s.F, f); s.n = 1; s.V = d
            return act
        room = kappa - s.n - 1          # pending zeros that still fit
        if room >= 0 and ex.decide(st, le(s.z, room)):
            z = ex.conc(st, s.z)
            def act():
                s.F = add(s.F, f); s.V = add(scale(s.V, 10 ** (z + 1)), d); s.n += z + 1; s.z = 0
            return act
        m = kappa - s.n
        z2 = sub(s.z, m)
        if ex.decide(st, ge(z2, 4)): z2c = None
        else: z2c = ex.conc(st, z2)
        la = []
        for x in s.pk[1:4]:
            if st.ctx.tri(isin(x, DIG)) is True: la.append(sub(x, 48))
            else: break
        def act():
            s.F = add(s.F, f)
            s.V = scale(s.V, 10 ** m); s.n = kappa; s.full = True
            s.e = add(z2, 1); s.z = 0
            if z2c is None:
                s.W = var('W', 0, Fraction(1, 10 ** 4), real=True)
                st.ctx.assume(gt0(s.W)); st.ctx.assume(lt(s.W, Fraction(1, 10 ** 4)))
            else:
                T = var('T', 0, 1, real=True)
                st.ctx.assume(lt(T, 1))
                lead = 0
                for i, x in enumerate(la):
                    lead = add(scale(lead, 10), x)
                    sc = 10 ** (i + 1)
                    st.ctx.assume(And(ge(scale(T, sc), lead), lt(scale(T, sc), add(lead, 1))))
                s.W = scale(add(d, T), Fraction(1, 10 ** (z2c + 1)))
        return act
    def edigit(s, ex, st, c):
        d = sub(c, 48)
        if s.sat:
            return None
        v = add(scale(s.EX, 10), d)
        big = ex.decide(st, ge(v, s.exlimit))
        def act():
            if big: s.sat = True; s.EX = s.exlimit
            else: s.EX = v
        return act
