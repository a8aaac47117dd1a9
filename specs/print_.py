"""Contracts of the printer (diy_fp::boundaries, grisu.h, prettify.h, ftoa.h)."""
from base import *
from units import unit
import arith as A

def bufsize(env, k): return env.c('maxbuf_' + k)

def buf_obj(ex, env, st, k, ch, shift=0):
    es = CH[ch][1]
    o = st.alloc('buffer', bufsize(env, k) * es, 'ext')
    return Ptr(o.id, shift * es)

def text_cells(ex, st, p, es, i):
    """i-th character behind p"""
    c = ex.load(st, at(p, i * es), es)
    defined(c)
    return ex.U(st, c, 8 * es)

# ---------------------------------------------------------------- boundaries
def bound_post(fp, E, M, mi, pl, mie, ple):
    """M+ = (2 m + 1) 2^(e-1), M- = (2 m - 1) 2^(e-1) or (4 m - 1) 2^(e-2) at the powers of two; exact, normalised, same exponent"""

@unit('bound', fp='df', kind='ns', sign='pm')
def u_bound(env, res, fp, kind, sign):
    fp = FPS[fp]
    def setup(ex, st):
        b = A.bits_of(ex, st, fp, kind)
        st.ctx.assume(eq(ex.s, 0 if sign == 'p' else 1))
        ex.o = Ptr(st.alloc('out', env.c('size_bp_' + fp.k), 'ext').id, 0)
        ex.call(st, 'e_bound_' + fp.k, [b, ex.o])
    def fin(ex, st, v):
        fm, em = fp_get(ex, env, st, fp, at(ex.o, env.c('off_bp_%s_a' % fp.k)))
        f_, e_ = fp_get(ex, env, st, fp, at(ex.o, env.c('off_bp_%s_b' % fp.k)))
        if kind == 'n': m, e = add(2 ** fp.mb, ex.M), add(ex.E, fp.qmin - 1)
        else: m, e = ex.M, fp.qmin
        ex.require(st, eq(em, e_), 'boundaries: same exponent')
        ex.require(st, ge(f_, 2 ** (fp.W - 1)), 'boundaries: upper boundary is normalised')
        # f_ 2^e_ == (2m + 1) 2^(e-1)
        k = ex.conc(st, sub(sub(e, 1), e_))
        ex.require(st, 1 <= k < fp.W and eq(f_, scale(add(scale(m, 2), 1), 2 ** max(k, 0))), 'boundaries: upper boundary is exact')
        for c in bound_width(fp, f_, fm): ex.require(st, c, 'boundaries: width of the interval')
        if kind == 'n':
            ex.require(st, ge(fm, 2 ** (fp.W - 2) + 8), 'boundaries: lower boundary of a normal number')
            ex.require(st, narrow(fp, f_, fm), 'boundaries: width of the interval of a normal number')
        half = sub(scale(m, 2), 1)
        ex.require(st, Or(And(ne(m, 2 ** fp.mb), eq(fm, scale(half, 2 ** k))), And(eq(m, 2 ** fp.mb), eq(scale(fm, 2), scale(sub(scale(m, 4), 1), 2 ** k)))), 'boundaries: lower boundary is exact')
    verify(res, env, setup, fin, describe=A.bin_inputs(fp))

# ---------------------------------------------------------------- digit generation
def gen_pre(ex, st, fp, e):
    """operands of digit_gen: exponent in the window, M+ of at least 2^(W-2) - 1, wide enough interval"""
    W = fp.W
    ex.fp_ = var('fp', 2 ** (W - 2) - 1, 2 ** W - 1)
    ex.fm_ = var('fm', 0, 2 ** W - 1)
    ex.e = e
    for c in gen_require(fp, ex.fp_, ex.fm_): st.ctx.assume(c)

def gen_require(fp, p, m):
    d = sub(p, m)
    return [ge(p, 2 ** (fp.W - 2) - 1), ge(d, 1), ge(scale(d, 2 ** fp.p), sub(p, 4 * 2 ** fp.p))]

def gen_inputs(ex, m):
    return {'fp': str(peval(ex.fp_, m)), 'fm': str(peval(ex.fm_, m)), 'e': str(ex.e)}

@unit('gen', k='df', ch='cwxy', e='0123')
def u_gen(env, res, k, ch, e):
    """D 10^K in [M-, M+], D has at most 17 (9) digits, is the largest such multiple; if the interval is shorter
    than one no coarser decimal lies in it"""
    fp = FPS[k]
    es = CH[ch][1]
    e = fp.alpha + int(e)
    K0 = 0
    def setup(ex, st):
        gen_pre(ex, st, fp, e)
        ex.p = fp_obj(ex, env, st, fp, ex.fp_, e, 'Mp'); ex.mm = fp_obj(ex, env, st, fp, ex.fm_, e, 'Mm')
        ex.b = buf_obj(ex, env, st, k, ch, 1)
        ex.len = Ptr(st.alloc('len', 4, 'ext').id, 0); ex.K = Ptr(st.alloc('K', 4, 'ext').id, 0)
        ex.K0 = var('K0', -1000, 1000)
        ex.store(st, ex.K, 4, ex.K0)
        ex.call(st, 'e_gen_%s%s' % (k, ch), [ex.p, ex.mm, ex.b, ex.len, ex.K])
    def fin(ex, st, v):
        n, K = ex.load(st, ex.len, 4), ex.load(st, ex.K, 4)
        defined(n, K)
        n = ex.conc(st, ex.S(st, n, 32))
        kappa = ex.conc(st, sub(ex.S(st, K, 32), ex.K0))
        ex.require(st, 1 <= n <= fp.maxd, 'digits: at most %d' % fp.maxd)
        ds = [sub(text_cells(ex, st, ex.b, es, i), 48) for i in range(n)]
        ex.require(st, And(*[And(ge(d, 0), le(d, 9)) for d in ds]), 'digits: decimal digits')
        ex.require(st, ge(ds[0], 1), 'digits: the first one is not zero')
        ex.require(st, ge(ds[-1], 1), 'digits: the last one is not zero')
        ex.require(st, GEN_LO[k] <= n + kappa <= GEN_HI[k], 'digits: order of magnitude')
        D = 0
        for d in ds: D = add(scale(D, 10), d)
        # X = D 10^kappa in units of 2^e
        u = Fraction(10) ** kappa * 2 ** -e
        X = scale(D, u)
        ex.require(st, And(ge(X, ex.fm_), le(X, ex.fp_)), 'digits: inside of the interval')
        ex.require(st, gt(add(X, u), ex.fp_), 'digits: largest decimal of its length')
        short = lt(sub(X, scale(ds[-1], u)), ex.fm_)
        ex.require(st, Or(ge(sub(ex.fp_, ex.fm_), 2 ** -e), short), 'digits: no shorter decimal in the interval')
    verify(res, env, setup, fin, describe=gen_inputs)

# decimal order of the scaled values: M+ 2^e in [2^(W-2+alpha) - 1, 2^(W+gamma))
GEN_LO = {k: len(str(2 ** (FPS[k].W - 2 + FPS[k].alpha) - 1)) - (0 if k == 'd' else 0) for k in 'df'}
GEN_HI = {k: len(str(2 ** (FPS[k].W + FPS[k].gamma) - 1)) for k in 'df'}

# ---------------------------------------------------------------- grisu2
class PGhost:
    """(p + eps) 2^q = 10^k is the power in use; X 2^e' is the decimal that digit_gen wrote"""
    def __init__(s, ex, st, fp):
        s.fp = fp
        s.k = s.ke = s.p = s.X = s.res = None
        st.ghost = s
    def copy(s):
        n = PGhost.__new__(PGhost)
        n.__dict__.update(s.__dict__)
        return n
    def on_power(s, ex, st, k, f, e):
        ex.require(st, s.k is not None and eq(k, s.k), 'grisu: the selected power is used')
        s.p, s.q = f, e
        s.eps = var('eps', Fraction(-1, 2), Fraction(1, 2), real=True)
        x = add(add(s.ke, e), s.fp.W)
        st.ctx.assume(And(ge(x, s.fp.alpha), le(x, s.fp.gamma)))

def c_kcomp(env, fp):
    name = env.find('floaxie::k_comp_exp<%d, ' % fp.alpha, '>')
    lo, hi = A.power_range(env, fp)
    elo, ehi = A.grisu_exponents(fp)
    def c(ex, st, v):
        e = ex.S(st, v[0], 32)
        ex.require(st, And(ge(e, elo), le(e, ehi)), 'power selection: exponent of the boundary is in range')
        k = var('k', lo, hi)
        st.ghost.k, st.ghost.ke = k, e
        return k
    return name, c

def c_bound(env, fp):
    name = env.fn('%s::boundaries' % fp.cls)
    elo, ehi = A.grisu_exponents(fp)
    def c(ex, st, v):
        g = st.ghost
        ex.require(st, eq(ex.U(st, v[-1], fp.W), ex.bits), 'grisu: boundaries of the printed value')
        a, b = env.c('off_bp_%s_a' % fp.k), env.c('off_bp_%s_b' % fp.k)
        f, e = env.c('off_fp_%s_f' % fp.k), env.c('off_fp_%s_e' % fp.k)
        return ret_struct(ex, st, ex.m.funcs[name], v, env.c('size_bp_' + fp.k), {a + f: (fp.B, ex.fm_), a + e: (4, ex.e_), b + f: (fp.B, ex.fp_), b + e: (4, ex.e_)})
    return name, c

def grisu_names(env, k, ch):
    suf = ', %s, %s>' % (FPS[k].name, CH[ch][0])
    return env.find('floaxie::grisu2<', suf), env.find('floaxie::digit_gen<', suf)

def c_gen(env, k, ch):
    fp, es = FPS[k], CH[ch][1]
    name = grisu_names(env, k, ch)[1]
    def c(ex, st, v):
        g = st.ghost
        n = ex.conc(st, ex.n)
        fp_, e = fp_get(ex, env, st, fp, v[0])
        fm_, em = fp_get(ex, env, st, fp, v[1])
        ex.require(st, And(ge(e, fp.alpha), le(e, fp.gamma), eq(e, em)), 'digit generation: exponents are in the window')
        for q in gen_require(fp, fp_, fm_): ex.require(st, q, 'digit generation: wide enough interval')
        g.lo, g.hi, g.e = fm_, fp_, e
        g.X = var('X', 0, 2 ** fp.W, real=True)
        g.kappa = var('kappa', -fp.W, 10)
        st.ctx.assume(And(ge(g.X, fm_), le(g.X, fp_), ge(add(g.kappa, n), GEN_LO[k]), le(add(g.kappa, n), GEN_HI[k])))
        K = ex.load(st, v[4], 4)
        defined(K)
        ex.store(st, v[4], 4, add(K, g.kappa))
        ex.store(st, v[3], 4, n)
        room(ex, st, v[2], (bufsize(env, k) - 1) * es)
        g.digits = [var('d', 48 + (i == 0 or i == n - 1), 57) for i in range(n)]
        for i, d in enumerate(g.digits): ex.store(st, at(v[2], i * es), es, d)
        return None
    return name, c

def room(ex, st, p, n):
    """the callee may write n bytes"""
    o, off = ex.access(st, p, n, True)
    ex.clear(st, st.w(o.id), off, n)

def grisu_range(env, k):
    """decimal order (digits + exponent) of what grisu2 returns"""
    lo, hi = A.power_range(env, FPS[k])
    return GEN_LO[k] - hi, GEN_HI[k] - lo

@unit('grisu', k='df', ch='cwxy', kind='ns')
def u_grisu(env, res, k, ch, kind):
    fp, es = FPS[k], CH[ch][1]
    name = grisu_names(env, k, ch)[0]
    elo, ehi = A.grisu_exponents(fp)
    dlo, dhi = grisu_range(env, k)
    def setup(ex, st):
        PGhost(ex, st, fp)
        ex.normal = kind == 'n'
        ex.bits = var('bits', 0, 2 ** fp.W - 1)
        ex.fp_ = var('fp', 2 ** (fp.W - 1), 2 ** fp.W - 1); ex.fm_ = var('fm', 2 ** (fp.W - 2) + 8 if kind == 'n' else 0, 2 ** fp.W - 1); ex.e_ = var('e', elo, ehi)
        ex.n = var('n', 1, fp.maxd)
        d = sub(ex.fp_, ex.fm_)
        for c in bound_width(fp, ex.fp_, ex.fm_): st.ctx.assume(c)
        if kind == 'n': st.ctx.assume(narrow(fp, ex.fp_, ex.fm_))
        ex.b = buf_obj(ex, env, st, k, ch, 1)
        ex.len = Ptr(st.alloc('len', 4, 'ext').id, 0); ex.K = Ptr(st.alloc('K', 4, 'ext').id, 0)
        ex.call(st, name, [ex.bits, ex.b, ex.len, ex.K])
    def fin(ex, st, v):
        g = st.ghost
        n, K = ex.load(st, ex.len, 4), ex.load(st, ex.K, 4)
        defined(n, K)
        n, K = ex.S(st, n, 32), ex.S(st, K, 32)
        ex.require(st, g.X is not None and g.p is not None, 'grisu: digits are generated from the scaled boundaries')
        nn = len(g.digits)
        ex.require(st, eq(n, nn), 'grisu: number of digits')
        for i, d in enumerate(g.digits):
            c = ex.load(st, at(ex.b, i * es), es)
            defined(c)
            ex.require(st, eq(ex.U(st, c, 8 * es), d), 'grisu: the digits are left as generated')
        ex.require(st, eq(K, sub(g.kappa, g.k)), 'grisu: decimal exponent')
        ex.require(st, eq(g.e, add(add(ex.e_, g.q), fp.W)), 'grisu: binary exponent')
        S = 2 ** fp.W
        hi = add(mul(ex.fp_, g.p), mul(ex.fp_, g.eps)); lo = add(mul(ex.fm_, g.p), mul(ex.fm_, g.eps))
        X = scale(g.X, S)
        ex.require(st, And(lt(X, hi), gt(X, lo)), 'grisu: strictly between the boundaries')
        ex.require(st, And(le(sub(hi, scale(g.hi, S)), 2 * S), le(sub(scale(g.lo, S), lo), 2 * S)), 'grisu: the interval is narrowed by two units at most')
        if ex.normal:
            ex.require(st, ge(lo, S * 2 ** (fp.W - 3)), 'grisu: size of the unit')
            # what is inside by a relative distance of 2^-(W-4) is in the narrowed interval, which is shorter than one
            r = Fraction(1, 2 ** (fp.W - 4))
            ex.require(st, And(ge(add(lo, scale(lo, r)), scale(g.lo, S)), le(sub(hi, scale(hi, r)), scale(g.hi, S))), 'grisu: decimals well inside of the interval are considered')
            ex.require(st, lt(sub(g.hi, g.lo), 2 ** -fp.gamma), 'grisu: the interval of a normal number is shorter than one')
        ex.require(st, And(ge(add(n, K), dlo), le(add(n, K), dhi)), 'grisu: order of magnitude')
    cs = dict([c_kcomp(env, fp), c_bound(env, fp), c_gen(env, k, ch), A.c_table(env, fp)])
    m = '%s::operator*=' % fp.cls
    if env.has(m): cs[env.fn(m)] = A.c_mul(env, fp)
    verify(res, env, setup, fin, contracts=cs)

def bound_width(fp, p, m):
    d = sub(p, m)
    return [ge(d, 2), ge(scale(d, 2 ** fp.p), p)]

def narrow(fp, p, m): return le(scale(sub(p, m), 2 ** fp.mb), p)

# ---------------------------------------------------------------- prettify
def layout(n, k):
    """text of d_0 ... d_(n-1) 10^k: characters, or digit indices as 1-tuples"""
    D = [(i,) for i in range(n)]
    dot = n + k
    if max(dot, -k) <= 16:
        if k >= 0: return D + ['0'] * k
        if dot > 0: return D[:dot] + ['.'] + D[dot:]
        return ['0', '.'] + ['0'] * -dot + D
    e = dot - 1
    return D[:1] + (['.'] + D[1:] if n > 1 else []) + list('e%s%02d' % ('-' if e < 0 else '', abs(e)))

def pretty_name(env, ch): return env.find('floaxie::prettify<16', ', %s>' % CH[ch][0])

def digit_vars(n): return [var('d', 48 + (i == 0 or i == n - 1), 57) for i in range(n)]

@unit('pretty', k='df', ch='cwxy', g='0123')
def u_pretty(env, res, k, ch, g):
    """exactly the documented text, inside of the buffer that is left behind a sign"""
    fp, es = FPS[k], CH[ch][1]
    name = pretty_name(env, ch)
    dlo, dhi = grisu_range(env, k)
    for n in range(1 + int(g), fp.maxd + 1, 4):
        for dot in range(dlo, dhi + 1):
            kk = dot - n
            txt = layout(n, kk)
            def setup(ex, st):
                ex.b = buf_obj(ex, env, st, k, ch, es and 1)
                ex.d = digit_vars(n)
                for i, d in enumerate(ex.d): ex.store(st, at(ex.b, i * es), es, d)
                ex.call(st, name, [ex.b, n, wrap32(kk)])
            def fin(ex, st, v):
                defined(v)
                w = 'prettify: '
                ex.require(st, eq(ex.U(st, v, 64), len(txt)), w + 'returned length')
                for i, c in enumerate(txt):
                    ex.require(st, eq(text_cells(ex, st, ex.b, es, i), ex.d[c[0]] if type(c) is tuple else ord(c)), w + 'text')
                ex.require(st, eq(text_cells(ex, st, ex.b, es, len(txt)), 0), w + 'NUL')
            verify(res, env, setup, fin, describe=lambda ex, m: {'digits': ''.join(chr(int(peval(d, m))) for d in ex.d), 'k': str(kk)})

def wrap32(x): return x & 0xffffffff

# ---------------------------------------------------------------- ftoa
class FGhost:
    """what has been written behind the sign"""
    def __init__(s, st):
        s.at = s.n = s.K = s.digits = s.text = s.len = None
        st.ghost = s
    def copy(s):
        n = FGhost.__new__(FGhost)
        n.__dict__.update(s.__dict__)
        return n

def c_grisu(env, k, ch):
    """digits and exponent of the magnitude, in front of which everything is left alone"""
    fp, es = FPS[k], CH[ch][1]
    dlo, dhi = grisu_range(env, k)
    def c(ex, st, v):
        g = st.ghost
        n = ex.conc(st, ex.n)
        ex.require(st, g.at is None and eq(ex.U(st, v[0], fp.W), ex.bits), 'printing: digits of the value')
        room(ex, st, v[1], (bufsize(env, k) - 1) * es)
        g.n, g.digits = n, digit_vars(n)
        g.at = v[1]
        dot = var('dot', dlo, dhi)
        g.K = sub(dot, n)
        for i, d in enumerate(g.digits): ex.store(st, at(v[1], i * es), es, d)
        for p, x in ((v[2], n), (v[3], g.K)): ex.store(st, p, 4, x)
    return grisu_names(env, k, ch)[0], c

def c_prettify(env, k, ch):
    fp, es = FPS[k], CH[ch][1]
    def c(ex, st, v):
        g = st.ghost
        w = 'printing: digits and exponent are formatted as generated'
        ex.require(st, g.at is not None and g.text is None and isinstance(v[0], Ptr) and v[0].o == g.at.o and eq(v[0].off, g.at.off), w)
        ex.require(st, And(eq(ex.U(st, v[1], 32), g.n), eq(ex.S(st, v[2], 32), g.K)), w)
        for i, d in enumerate(g.digits): ex.require(st, eq(text_cells(ex, st, v[0], es, i), d), w)
        N = bufsize(env, k) - 1
        room(ex, st, v[0], N * es)
        g.text = [var('t', 0, 127) for i in range(N)]
        g.len = var('len', 1, N - 1)
        for i, t in enumerate(g.text): ex.store(st, at(v[0], i * es), es, t)
        return g.len
    return pretty_name(env, ch), c

SPECIAL = {'i': 'inf', 'a': 'nan', 'z': '0'}

@unit('ftoa', k='df', ch='cwxy', kind='nsiza', sign='pm')
def u_ftoa(env, res, k, ch, kind, sign):
    fp, es = FPS[k], CH[ch][1]
    neg = sign == 'm'
    def setup(ex, st):
        FGhost(st)
        if kind in 'ns': A.bits_of(ex, st, fp, kind)
        else: ex.mag = {'i': fp.INF, 'z': 0}[kind] if kind != 'a' else var('nan', fp.INF + 1, 2 ** (fp.W - 1) - 1)
        ex.s = int(neg)
        ex.bits = add(ex.mag, neg * 2 ** (fp.W - 1))
        ex.n = var('n', 1, fp.maxd)
        ex.b = buf_obj(ex, env, st, k, ch)
        ex.call(st, 'e_ftoa_%s%s' % (k, ch), [ex.bits, ex.b])
    def fin(ex, st, v):
        g = st.ghost
        defined(v)
        v = ex.U(st, v, 64)
        if kind in SPECIAL:
            t = ('-' if neg and kind == 'i' else '') + SPECIAL[kind]
            ex.require(st, g.at is None and eq(v, len(t)), 'special values: returned length')
            for i, c in enumerate(t + '\0'): ex.require(st, eq(text_cells(ex, st, ex.b, es, i), ord(c)), 'special values: text')
            return
        ex.require(st, g.text is not None and g.at.o == ex.b.o and eq(g.at.off, neg * es), 'printing: text starts behind the sign')
        if neg: ex.require(st, eq(text_cells(ex, st, ex.b, es, 0), 45), 'printing: sign')
        for i, t in enumerate(g.text): ex.require(st, eq(text_cells(ex, st, ex.b, es, neg + i), t), 'printing: text is left as formatted')
        ex.require(st, eq(v, add(g.len, int(neg))), 'printing: returned length')
    def d(ex, m): return {'bits': hex(int(peval(ex.bits, m)))}
    verify(res, env, setup, fin, contracts=dict([c_grisu(env, k, ch), c_prettify(env, k, ch)]), describe=d)

# ---------------------------------------------------------------- string wrappers
@unit('tostr', k='df', ch='cwxy')
def u_tostr(env, res, k, ch):
    """the string is the text that ftoa wrote for the value, whatever its length"""
    fp, es = FPS[k], CH[ch][1]
    N = bufsize(env, k)
    name = 'floaxie::ftoa<%s, %s>' % (fp.name, CH[ch][0])
    def c_ftoa(ex, st, v):
        L = ex.conc(st, ex.L)
        ex.require(st, eq(ex.U(st, v[0], fp.W), ex.bits) and st.ghost.text is None, 'wrapper: prints the value once')
        room(ex, st, v[1], N * es)
        st.ghost.text = [var('t', 1, 127) for i in range(L)]
        st.ghost.len = L
        for i, t in enumerate(st.ghost.text + [0]): ex.store(st, at(v[1], i * es), es, t)
        return L
    def setup(ex, st):
        FGhost(st)
        ex.bits = var('bits', 0, 2 ** fp.W - 1)
        ex.L = var('L', 1, N - 1)
        ex.o = Ptr(st.alloc('string', 32, 'ext').id, 0)
        ex.call(st, 'e_tostr_%s%s' % (k, ch), [ex.o, ex.bits])
    def fin(ex, st, v):
        g = st.ghost
        p, n = ex.load(st, ex.o, 8), ex.load(st, at(ex.o, 8), 8)
        defined(p, n)
        ex.require(st, g.text is not None and eq(ex.U(st, n, 64), g.len), 'wrapper: length')
        for i, t in enumerate(g.text + [0]): ex.require(st, eq(text_cells(ex, st, p, es, i), t), 'wrapper: characters')
        left = [o for o in st.mem.values() if o.kind == 'heap' and o.id != p.o]
        ex.require(st, not left, 'wrapper: no memory is lost')
    verify(res, env, setup, fin, contracts={env.fn(name): c_ftoa}, describe=lambda ex, m: {'bits': hex(int(peval(ex.bits, m)))})

# ---------------------------------------------------------------- narrow and wide characters
@unit('sgen', k='df', ch='wxy', e='0123')
def u_sgen(env, res, k, ch, e):
    """the digit generators of the two character types write the same"""
    fp, es = FPS[k], CH[ch][1]
    e = fp.alpha + int(e)
    def setup(ex, st):
        gen_pre(ex, st, fp, e)
        ex.p = fp_obj(ex, env, st, fp, ex.fp_, e, 'Mp'); ex.mm = fp_obj(ex, env, st, fp, ex.fm_, e, 'Mm')
        ex.K0 = var('K0', -1000, 1000)
        same_out(ex, env, st, k, ch)
        for p in ex.K: ex.store(st, p, 4, ex.K0)
        ex.call(st, 'e_sgen_%s%s' % (k, ch), [ex.p, ex.mm] + ex.args)
    verify(res, env, setup, lambda ex, st, v: same_post(ex, st, es), describe=gen_inputs)

def same_out(ex, env, st, k, ch):
    ex.b = [buf_obj(ex, env, st, k, c, 1) for c in ('c', ch)]
    ex.len = [Ptr(st.alloc('len', 4, 'ext').id, 0) for i in (0, 1)]
    ex.K = [Ptr(st.alloc('K', 4, 'ext').id, 0) for i in (0, 1)]
    ex.args = [ex.b[0], ex.len[0], ex.K[0], ex.b[1], ex.len[1], ex.K[1]]

def same_post(ex, st, es):
    n = [ex.load(st, p, 4) for p in ex.len]
    K = [ex.load(st, p, 4) for p in ex.K]
    defined(*n, *K)
    n = [ex.S(st, x, 32) for x in n]
    ex.require(st, And(eq(*n), eq(ex.S(st, K[0], 32), ex.S(st, K[1], 32))), 'character types: same number of digits and exponent')
    for i in range(ex.conc(st, n[0])):
        ex.require(st, eq(text_cells(ex, st, ex.b[0], 1, i), text_cells(ex, st, ex.b[1], es, i)), 'character types: same digits')

@unit('sgrisu', k='df', ch='wxy')
def u_sgrisu(env, res, k, ch):
    """both call digit_gen with the same operands (the functions below that do not depend on the character type: equal
    arguments give equal results) and leave its output alone"""
    fp = FPS[k]
    elo, ehi = A.grisu_exponents(fp)
    lo, hi = A.power_range(env, fp)
    W = fp.W
    w = 'character types: same call of '
    def same(ex, st, key, args, make):
        """results of the call with these arguments"""
        l = st.ghost.memo.setdefault(key, ())
        for a, r in l:
            if all(type(p) is int and type(q) is int and p == q or ex.valid(st, eq(p, q)) for p, q in zip(a, args)): return r
        r = make(st)
        st.ghost.memo[key] = l + ((args, r),)
        return r
    def k_kcomp(ex, st, v):
        return same(ex, st, 'k', (ex.S(st, v[0], 32),), lambda st: var('k', lo, hi))
    def k_bound(ex, st, v):
        b = ex.U(st, v[-1], W)
        a = same(ex, st, 'b', (b,), lambda st: (var('fm', 0, 2 ** W - 1), var('e_', elo, ehi), var('fp', 2 ** (W - 1), 2 ** W - 1), var('e_', elo, ehi)))
        o = env.c('off_bp_%s_a' % k), env.c('off_bp_%s_b' % k)
        f, e = env.c('off_fp_%s_f' % k), env.c('off_fp_%s_e' % k)
        return ret_struct(ex, st, ex.m.funcs[c_bound(env, fp)[0]], v, env.c('size_bp_' + k), {o[0] + f: (fp.B, a[0]), o[0] + e: (4, a[1]), o[1] + f: (fp.B, a[2]), o[1] + e: (4, a[3])})
    def k_table(ex, st, v):
        a = same(ex, st, 't', (ex.S(st, v[-1], 32),), lambda st: (var('pow', 2 ** (W - 1), 2 ** W - 1), var('powe', -1200, 1200)))
        return ret_struct(ex, st, ex.m.funcs[A.c_table(env, fp)[0]], v, env.c('size_fp_' + k), {env.c('off_fp_%s_f' % k): (fp.B, a[0]), env.c('off_fp_%s_e' % k): (4, a[1])})
    def k_mul(ex, st, v):
        f1, e1 = fp_get(ex, env, st, fp, v[0])
        f2, e2 = fp_get(ex, env, st, fp, v[1])
        r = same(ex, st, 'm', (f1, f2), lambda st: var('prod', 2 ** 10, 2 ** W - 2 ** 10))
        fp_set(ex, env, st, fp, v[0], r, add(add(e1, e2), W))
        return v[0]
    def k_gen(which):
        es = CH[which][1]
        def c(ex, st, v):
            n = ex.conc(st, ex.n)
            a = fp_get(ex, env, st, fp, v[0]) + fp_get(ex, env, st, fp, v[1])
            g = st.ghost
            if 'g' in g.memo:
                ex.require(st, And(*[eq(p, q) for p, q in zip(g.memo['g'][0], a)]), w + 'digit_gen')
            else: g.memo['g'] = (a, digit_vars(n), var('kappa', -W, 10))
            ds, kappa = g.memo['g'][1:]
            K = ex.load(st, v[4], 4)
            defined(K)
            ex.store(st, v[4], 4, add(K, kappa))
            ex.store(st, v[3], 4, n)
            room(ex, st, v[2], (bufsize(env, k) - 1) * es)
            for i, d in enumerate(ds): ex.store(st, at(v[2], i * es), es, d)
        return c
    def setup(ex, st):
        st.ghost = Memo()
        ex.bits = var('bits', 0, 2 ** W - 1)
        ex.n = var('n', 1, fp.maxd)
        same_out(ex, env, st, k, ch)
        ex.call(st, 'e_sgrisu_%s%s' % (k, ch), [ex.bits] + ex.args)
    cs = {c_kcomp(env, fp)[0]: k_kcomp, c_bound(env, fp)[0]: k_bound, A.c_table(env, fp)[0]: k_table,
          grisu_names(env, k, 'c')[1]: k_gen('c'), grisu_names(env, k, ch)[1]: k_gen(ch)}
    m = '%s::operator*=' % fp.cls
    if env.has(m): cs[env.fn(m)] = k_mul
    verify(res, env, setup, lambda ex, st, v: same_post(ex, st, CH[ch][1]), contracts=cs)

class Memo:
    """calls of functions that do not depend on the character type"""
    def __init__(s): s.memo = {}
    def copy(s):
        n = Memo(); n.memo = dict(s.memo)
        return n

# ---------------------------------------------------------------- lemmas over the text that prettify is proved to write
import re
from solver import Ctx
@unit('text', k='df')
def u_text(env, res, k):
    """layout(n, k) is in the documented format, denotes D 10^k, and is in the grammar of the parser as a whole"""
    fp = FPS[k]
    dlo, dhi = grisu_range(env, k)
    for n in range(1, fp.maxd + 1):
        for dot in range(dlo, dhi + 1):
            kk = dot - n
            t = layout(n, kk)
            s = ''.join(c if type(c) is str else '7' for c in t)
            m = re.fullmatch(r'(0|[1-9]\d*)(?:\.(\d+))?(?:e(-?)(\d\d|[1-9]\d\d))?', s)
            res.need('text: documented format', bool(m))
            if not m: continue
            w = 'text: %s'
            plain = m.group(4) is None
            res.need(w % 'plain exactly up to 16 digits before and behind the point', plain == (max(dot, -kk) <= 16))
            # value: weight of every digit
            x = 0 if plain else int(m.group(3) + m.group(4))
            ip = len(m.group(1))
            ok = True
            seen = 0
            pos = 0
            for c in t[:ip + 1 + len(m.group(2)) if m.group(2) else ip]:
                if c == '.': continue
                p = ip - 1 - pos + x
                pos += 1
                if type(c) is tuple:
                    ok = ok and c[0] == seen and p == kk + n - 1 - seen
                    seen += 1
                elif c != '0': ok = False
            res.need(w % 'denotes the generated decimal', ok and seen == n)
            # no padding zero at the end of the fraction; all of the exponent's sign and digits
            res.need(w % 'no superfluous zeros', (m.group(2) is None or type(t[ip + len(m.group(2))]) is tuple) and (plain or len(m.group(1)) == 1 and m.group(1) != '0') and not (m.group(3) == '-' and x == 0))
            res.need(w % 'fits in the documented buffer', 1 + len(t) + 1 <= bufsize(env, k))
            res.need(w % 'differs from the special values', s not in ('0', 'nan', 'inf') and s[0].isdigit() and (len(s) > 1 or seen == 1))
            res.need(w % 'is a number of the parser\'s grammar as a whole', bool(re.fullmatch(r'[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?', '-' + s)) and len(s) <= 2047)
    res.reach['lemma'] = 1

@unit('short', k='df')
def u_short(env, res, k):
    """what digit_gen and grisu2 guarantee implies that no shorter decimal is in [M-, M+] when M+ - M- is less than one.
    Scaled by 10^-kappa the generated decimal is the integer D, so that lengths do not depend on kappa."""
    fp = FPS[k]
    def lemma(name, hyp, goal):
        c = Ctx()
        for h in hyp: c.assume(h)
        if not c.feasible(): return res.need(name + ' (premises)', False)
        how, note = c.prove(goal)
        if how != 'proved': return res.need(name, False, how)
        res.need(name, True)
        res.how[note] = res.how.get(note, 0) + 1
    for n in range(1, fp.maxd + 1):
        t = var('t', 0, 10 ** n)
        d = var('d', 0, 9)
        D = add(scale(t, 10), d)
        lo, hi, x = (var(v, 0, 10 ** (n + 1), real=True) for v in ('lo', 'hi', 'x'))
        # post-condition of digit_gen
        post = [ge(D, 10 ** (n - 1)), lt(D, 10 ** n), ge(D, lo), le(D, hi), gt(add(D, 1), hi), lt(sub(D, d), lo)]
        inside = [ge(x, lo), le(x, hi)]
        # D' 10^j, j >= 1: an integer multiple of ten
        for u in (var('u', -10 ** n, 0), var('u', 1, 10 ** (n + 1))):
            y = scale(add(t, u), 10)
            lemma('short: no multiple of a coarser power is in the interval', post, Or(lt(y, lo), gt(y, hi)))
        # D' 10^j, j <= 0, with fewer digits than n: less than 10^(n-1)
        if n > 1: lemma('short: no decimal below the order of magnitude is in the interval', post + inside, ge(x, 10 ** (n - 1)))
    # relative distance of a decimal x from the ends lo, hi of the real interval => inside of the narrowed one [l, h]
    S = 2 ** fp.W
    lo, hi, l, h, x = (var(v, 0, 2 * S, real=True) for v in ('lo', 'hi', 'l', 'h', 'x'))
    r = Fraction(1, 2 ** (fp.W - 4))
    lemma('short: a decimal well inside of the rounding interval is considered', [ge(add(lo, scale(lo, r)), l), le(sub(hi, scale(hi, r)), h), ge(x, add(lo, scale(lo, r))), le(x, sub(hi, scale(hi, r)))], And(ge(x, l), le(x, h)))
    res.reach['lemma'] = 1
