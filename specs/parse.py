"""Contracts of the parser (krosh.h, fraction.h, atof.h, default_fallback.h)."""
from base import *
from units import unit
from ghost import SGhost, isin
import loops as L
import arith as A

LMAX = 1 << 60
EXACT_EX = 10 ** 4        # exponents are followed exactly below this value
EX_BOUND = 2 ** 30

def string(ex, st, ch, kappa, exp, maxlen=LMAX, minlen=0):
    o = st.alloc('S', None, 'str')
    n = var('L', minlen, maxlen)
    g = SGhost(n, CH[ch][1], CHB[ch], kappa, exp)
    g.exlimit = EXACT_EX
    st.ghost = g
    ex.So = o.id
    ex.L = n
    return o.id

def pos_of(ex, st, p, es):
    """character position of a pointer into the string"""
    if not isinstance(p, Ptr) or p.o != ex.So: return None
    return st.ghost.rel(ex, st, p.off)

Q4 = Fraction(1, 4000)
FRAC_HI = Fraction(109, 1000)

def conv_post(x, r):
    """x / 10^4 and r / 128 agree"""
    d = sub(scale(x, 128), scale(r, 10 ** 4))         # (x/10^4 - r/128) * 128 * 10^4
    return And(ge(r, 0), le(r, 127), ge(d, -320), le(d, 10496))

@unit('convert')
def u_convert(env, res):
    name = env.fn('floaxie::convert_numerator<4ul, 7ul, unsigned int>')
    def setup(ex, st):
        ex.x = var('x', 0, 9999)
        ex.call(st, name, [ex.x])
    def fin(ex, st, v):
        defined(v)
        r = ex.U(st, v, 32)
        ex.require(st, conv_post(ex.x, r), 'fraction: decimal and binary fraction agree')
    verify(res, env, setup, fin, describe=lambda ex, m: 'convert_numerator(%s)' % ev(ex.x, m))

def c_convert(ex, st, v):
    x = ex.U(st, v[0], 32)
    ex.require(st, le(x, 9999), 'fraction: numerator is in range')
    r = var('frac', 0, 127)
    st.ctx.assume(conv_post(x, r))
    return r

def digit_cands(names, kinds, modes):
    """-1/4000 <= W - c/128 <= 0.109 for the columns of the code"""
    w = [i for i, n in enumerate(names) if n == ('g', 'W')]
    out = []
    n = modes.get('n', 0)
    for i, x in enumerate(names):
        if x == ('g', 'V') and n:
            out.append((lambda A, i=i: sub(10 ** n - 1, A[i]), 'V < 10^%d' % n))
            out.append((lambda A, i=i: sub(A[i], 10 ** (n - 1)), 'V >= 10^%d' % (n - 1)))
    for wi in w:
        for i, k in enumerate(kinds):
            if k != 'int': continue
            def lo(A, i=i): return add(sub(A[wi], scale(A[i], Fraction(1, 128))), Q4)
            def hi(A, i=i): return sub(FRAC_HI, sub(A[wi], scale(A[i], Fraction(1, 128))))
            out.append((lo, 'W - %r/128 >= -1/4000' % (names[i],)))
            out.append((hi, 'W - %r/128 <= 0.109' % (names[i],)))
        out.append((lambda A: A[wi], 'W >= 0'))
        out.append((lambda A: sub(1, A[wi]), 'W <= 1'))
    return out

KMAX = 2100
KLONG = 10 ** 6
def parse_contracts(env):
    c = {}
    n = 'floaxie::convert_numerator<4ul, 7ul, unsigned int>'
    if env.has(n): c[env.fn(n)] = c_convert
    return c

def special(g): return {'nan': 1, 'inf': 2}.get(g.accepted, 0)

@unit('digits', k='df', ch='cw', first='pmuoz', len='nl')
def u_digits(env, res, k, ch, first, len):
    fp = FPS[k]
    name = env.fn('floaxie::parse_digits<%s, %s>' % (fp.name, CH[ch][0]))
    es = CH[ch][1]
    pre = 'off_dp_%s%s_' % (k, ch)
    spec = {'value': (env.c(pre + 'value'), fp.B), 'K': (env.c(pre + 'K'), 4), 'end': (env.c(pre + 'end'), 8), 'frac': (env.c(pre + 'frac'), env.c('size_frac_%s%s' % (k, ch))),
            'trunc': (env.c(pre + 'trunc'), 1), 'special': (env.c(pre + 'special'), 1), 'sign': (env.c(pre + 'sign'), 1)}
    size = env.c('size_dp_%s%s' % (k, ch))
    full = len == 'n'
    if first == 'z' and not full: return
    def setup(ex, st):
        if first == 'z': S = string(ex, st, ch, fp.kappa, False, 0)
        else:
            S = string(ex, st, ch, fp.kappa, False, 2048 if full else LMAX, 1)
            c = st.ghost.fresh(ex, st, 0)
            f = {'p': eq(c, 43), 'm': eq(c, 45), 'u': isin(c, ((46, 46), (48, 57))), 'o': neg(isin(c, ((43, 43), (45, 46), (48, 57))))}[first]
            st.ctx.assume(f)
        ex.o = push(ex, st, name, [Ptr(S, 0)], size)
    def fin(ex, st, v):
        r = result(ex, st, name, v, ex.o, size, spec)
        g = st.ghost
        defined(*r.values())
        K = ex.S(st, r['K'], 32)
        end = pos_of(ex, st, r['end'], es)
        kmax = KMAX if full else KLONG
        ex.require(st, And(ge(K, -kmax), le(K, kmax)), 'digits: decimal exponent is bounded')
        ex.require(st, end is not None and And(ge0(end), le(end, ex.L)), 'digits: end pointer is in the string')
        sp = ex.conc(st, ex.U(st, r['special'], 8))
        frac = ex.U(st, r['frac'], 8)
        trunc = ex.U(st, r['trunc'], 8)
        val = ex.U(st, r['value'], fp.W)
        ex.require(st, le(frac, 127), 'digits: fraction has 7 bits')
        ex.require(st, And(le(trunc, 1), le(ex.U(st, r['sign'], 8), 1)), 'digits: flags are booleans')
        ex.require(st, 0 <= sp <= 2, 'digits: special value is recognised')
        if not full:
            ex.require(st, Or(eq(frac, 0), ge(val, 10 ** (fp.kappa - 1))), 'digits: a fraction only behind all the digits')
            return
        if __import__('os').environ.get('DBG') and not g.copy().finish(ex, st): print('NOTFIN', g.phase, g.pk, g.q, st.ctx.facts, [x for x in st.trace][-12:])
        ex.require(st, g.finish(ex, st), 'digits: the whole number is read')
        ex.require(st, eq(end, g.end if g.accepted else 0), 'digits: the reported end is the end of the number')
        ex.require(st, sp == special(g), 'digits: special value is recognised')
        if g.accepted:
            ex.require(st, eq(ex.U(st, r['sign'], 8), 0 if g.neg else 1), 'digits: sign')
        if not g.accepted: ex.require(st, eq(val, 0), 'digits: no value without digits')
        if g.accepted == 'num':
            ex.require(st, eq(val, g.V), 'digits: value of the digits')
            ex.require(st, And(ge(g.V, 10 ** (fp.kappa - 1)) if g.full else True, lt(g.V, 10 ** fp.kappa), ge(g.W, 0), le(g.W, 1)), 'digits: range of the value')
            ex.require(st, eq(trunc, 1 if g.full else 0), 'digits: truncation is reported')
            if g.n: ex.require(st, eq(K, sub(g.e if g.full else g.z, g.F)), 'digits: decimal exponent')
            if g.full:
                d = sub(g.W, scale(frac, Fraction(1, 128)))
                ex.require(st, And(ge(d, -Q4), le(d, FRAC_HI)), 'digits: fraction of the dropped digits')
            else: ex.require(st, eq(frac, 0), 'digits: no fraction without dropped digits')
    verify(res, env, setup, fin, contracts=parse_contracts(env), cands=digit_cands)

@unit('expo', ch='cw')
def u_expo(env, res, ch):
    name = env.fn('floaxie::parse_exponent<%s>' % CH[ch][0])
    es = CH[ch][1]
    size = env.c('size_ep_d' + ch)
    spec = {'value': (env.c('off_ep_d%s_value' % ch), 4), 'end': (env.c('off_ep_d%s_end' % ch), 8)}
    def setup(ex, st):
        S = string(ex, st, ch, 19, True)
        p = var('p', 0, LMAX)
        st.ctx.assume(le(p, ex.L))
        g = st.ghost
        g.q = g.end = p; g.phase = 'M'
        ex.p = p
        ex.o = push(ex, st, name, [Ptr(S, scale(p, es))], size)
    def fin(ex, st, v):
        r = result(ex, st, name, v, ex.o, size, spec)
        defined(*r.values())
        g = st.ghost
        end = pos_of(ex, st, r['end'], es)
        ex.require(st, end is not None and g.finish(ex, st), 'exponent: the whole exponent part is read')
        ex.require(st, eq(end, g.end), 'exponent: the reported end is the end of the exponent part')
        val = ex.S(st, r["value"], 32)
        if not g.xdig: ex.require(st, eq(val, 0), 'exponent: zero without an exponent part')
        else:
            if g.eneg: val = scale(val, -1)
            if g.sat: ex.require(st, And(ge(val, EXACT_EX), lt(val, EX_BOUND)), 'exponent: value is large enough')
            else: ex.require(st, eq(val, g.EX), 'exponent: exact value')
    verify(res, env, setup, fin)

# ---------------------------------------------------------------- the number behind a string, as the callers of parse_digits see it
class NGhost:
    """kind: e(xact digits), t(runcated digits), z(ero), a nan, i(nf), x nothing, l(ong string: only bounds are known)
    number: +-(V + W) 10^(K + EX)"""
    light = True
    def __init__(s, ex, st, fp, ch, kind):
        s.fp, s.kind, s.es = fp, kind, CH[ch][1]
        s.L = var('L', 0, LMAX)
        s.S = st.alloc('S', None, 'str').id
        s.neg = var('neg', 0, 1)
        s.V = s.W = s.K = s.EX = 0
        s.end = 0
        if kind in 'et': s.V = var('V', 10 ** (fp.kappa - 1) if kind == 't' else 1, 10 ** fp.kappa - 1)
        if kind == 't': s.W = var('W', 0, 1, real=True)
        if kind in 'et': s.K = var('K', -KMAX, KMAX)
        if kind == 'l':
            s.K = var('K', -KLONG, KLONG)
            s.V = var('V', 0, 2 ** fp.W - 1)
        if kind != 'x':
            s.end = var('mend', 1 if kind != 'l' else 0, LMAX)
            st.ctx.assume(le(s.end, s.L))
        s.special = {'a': 1, 'i': 2}.get(kind, 0)
        if kind == 'l': s.special = var('special', 0, 2)
        s.xend = s.end
        s.f = s.e = s.dl = s.p = s.q = s.eps = s.pk = None
        s.res = None
        st.ghost = s
    def copy(s):
        n = NGhost.__new__(NGhost)
        n.__dict__.update(s.__dict__)
        return n
    def load(s, ex, st, o, off, size):
        if size != s.es: raise Unsupported('string access of %d bytes' % size)
        a = SGhost.rel(s, ex, st, off)
        ex.require(st, And(ge0(a), le(a, s.L)), 'string: nothing is read outside of it')
        c = var('c', *CHB['c' if size == 1 else 'w'])
        st.ctx.assume(Or(And(eq(a, s.L), eq(c, 0)), And(lt(a, s.L), ne(c, 0))))
        return c
    def at(s, ex, st, p):
        if not isinstance(p, Ptr) or p.o != s.S: return None
        return SGhost.rel(s, ex, st, p.off)
    def ptr(s, k): return Ptr(s.S, scale(k, s.es))

def offs(env, pre, spec):
    return {n: (env.c(pre + n), z) for n, z in spec.items()}

def c_digits(env, k, ch):
    fp = FPS[k]
    name = env.fn('floaxie::parse_digits<%s, %s>' % (fp.name, CH[ch][0]))
    of = offs(env, 'off_dp_%s%s_' % (k, ch), dict(value=fp.B, K=4, end=8, frac=env.c('size_frac_%s%s' % (k, ch)), trunc=1, special=1, sign=1))
    size = env.c('size_dp_%s%s' % (k, ch))
    def c(ex, st, v):
        g = st.ghost
        ex.require(st, g.at(ex, st, v[-1]) == 0, 'mantissa: the digits are read from the beginning')
        frac = trunc = 0
        if g.kind == 't':
            trunc = 1
            frac = var('frac', 0, 127)
            d = sub(g.W, scale(frac, Fraction(1, 128)))
            st.ctx.assume(And(ge(d, -Q4), le(d, FRAC_HI)))
        sign = sub(1, g.neg)
        if g.kind == 'l':
            trunc = var('trunc', 0, 1); frac = var('frac', 0, 127)
            st.ctx.assume(Or(eq(frac, 0), ge(g.V, 10 ** (fp.kappa - 1))))
        if g.kind in 'xail': sign = var('sign', 0, 1)
        if g.kind in 'ai': sign = sub(1, g.neg)
        val = dict(value=g.V if g.kind not in 'ai' else var('value', 0, 2 ** fp.W - 1), K=g.K if g.kind in 'etl' else var('K', -KMAX, KMAX), end=g.ptr(g.end), frac=frac if g.kind not in 'xai' else var('frac', 0, 127),
                   trunc=trunc if g.kind not in 'xai' else var('trunc', 0, 1), special=g.special, sign=sign)
        return ret_struct(ex, st, ex.m.funcs[name], v, size, {of[n][0]: (of[n][1], x) for n, x in val.items()})
    return name, c

ERRLIM = 15
def mp_fields(env, k, ch):
    fp = FPS[k]
    pre = 'off_mp_%s%s_' % (k, ch)
    of = offs(env, pre, dict(K=4, end=8, special=1, sign=1))
    of['error'] = (env.c(pre + 'error'), env.c('size_err_%s%s' % (k, ch)))
    v = env.c(pre + 'value')
    of['f'] = (v + env.c('off_fp_%s_f' % k), fp.B); of['e'] = (v + env.c('off_fp_%s_e' % k), 4)
    return of

@unit('pmant', k='df', ch='cw', kind='etzaixl')
def u_pmant(env, res, k, ch, kind):
    fp = FPS[k]
    name = env.fn('floaxie::parse_mantissa<%s, %s>' % (fp.name, CH[ch][0]))
    of = mp_fields(env, k, ch)
    size = env.c('size_mp_%s%s' % (k, ch))
    def setup(ex, st):
        g = NGhost(ex, st, fp, ch, kind)
        ex.o = push(ex, st, name, [Ptr(g.S, 0)], size)
    def fin(ex, st, v):
        g = st.ghost
        r = result(ex, st, name, v, ex.o, size, of)
        defined(r['end'], r['special'], r['sign'])
        sign = ex.U(st, r['sign'], 8)
        ex.require(st, eq(g.at(ex, st, r['end']), g.end), 'mantissa: the end of the digits is passed on')
        sp = ex.U(st, r['special'], 8)
        ex.require(st, eq(sp, g.special), 'mantissa: special value is passed on')
        if kind in 'etzai': ex.require(st, eq(sign, sub(1, g.neg)), 'mantissa: sign is passed on')
        else: ex.require(st, le(sign, 1), 'mantissa: sign is passed on')
        if kind in 'ai': return
        if kind == 'l' and not ex.decide(st, eq(sp, 0)): return
        defined(r['f'], r['e'], r['K'])
        f, e, K = ex.U(st, r['f'], fp.W), ex.S(st, r['e'], 32), ex.S(st, r['K'], 32)
        if kind in 'zx':
            ex.require(st, eq(f, 0), 'mantissa: zero')
            return
        defined(r['error'])
        err = ex.U(st, r['error'], 8 * of['error'][1])
        ex.require(st, eq(K, g.K), 'mantissa: decimal exponent is passed on')
        ex.require(st, le(err, ERRLIM), 'mantissa: small error')
        if kind == 'l' and ex.decide(st, eq(f, 0)): return
        ex.require(st, ge(f, 2 ** (fp.W - 1)), 'mantissa: normalised')
        ex.require(st, And(ge(e, 1 - fp.W), le(e, 1)), 'mantissa: binary exponent')
        if kind == 'l': return
        ec = ex.conc(st, e)
        d = sub(scale(add(g.V, g.W), Fraction(2) ** -ec), f)
        ex.require(st, And(le(d, err), ge(d, scale(err, -1))), 'mantissa: the number is within the error')
    n, c = c_digits(env, k, ch)
    verify(res, env, setup, fin, contracts={n: c})

# ---------------------------------------------------------------- krosh
def xpart(ctx, a, L):
    """what is read behind the mantissa: (reported value, its end, exact value); nothing at all is zero, too"""
    val, end, true = var('ex', 1 - EX_BOUND, EX_BOUND - 1), var('xend', 0, LMAX), var('EX')
    ctx.assume(And(ge(end, a), le(end, L)))
    ctx.assume(Or(And(eq(true, val), gt(val, -EXACT_EX), lt(val, EXACT_EX)), And(ge(val, EXACT_EX), ge(true, EXACT_EX)), And(le(val, -EXACT_EX), le(true, -EXACT_EX))))
    return val, end, true

def c_exponent(env, k, ch):
    name = env.fn('floaxie::parse_exponent<%s>' % CH[ch][0])
    of = offs(env, 'off_ep_%s%s_' % (k, ch), dict(value=4, end=8))
    size = env.c('size_ep_%s%s' % (k, ch))
    def c(ex, st, v):
        g = st.ghost
        a = g.at(ex, st, v[-1])
        ex.require(st, a is not None and And(ge0(a), le(a, g.L)), 'exponent: read inside of the string')
        if g.kind in 'nz': ex.require(st, eq(a, g.end), 'exponent: read right behind the mantissa')
        if g.kind in 'nz': val, end = g.ex
        else: val, end = xpart(st.ctx, a, g.L)[:2]
        return ret_struct(ex, st, ex.m.funcs[name], v, size, {of['value'][0]: (4, val), of['end'][0]: (8, g.ptr(end))})
    return name, c

class KGhost(NGhost):
    """(V + W) 10^K = (f + dl) 2^e, |dl| <= err;  10^(K + EX) = (p + eps) 2^q"""
    def __init__(s, ex, st, fp, ch, kind):
        NGhost.__init__(s, ex, st, fp, ch, 'e' if kind == 'n' else kind)
        s.kind = kind
        s.ex = None; s.p = None
        if kind in 'nz':        # fixed by the string, whether the code looks at it or not
            val, s.xend, s.EX = xpart(st.ctx, s.end, s.L)
            s.ex = val, s.xend
        if kind in 'nl':
            s.f = var('f', 2 ** (fp.W - 1), 2 ** fp.W - 1); s.e = var('e', 1 - fp.W, 1); s.err = var('err', 0, ERRLIM)
            s.dl = var('delta', -ERRLIM, ERRLIM, real=True)
            st.ctx.assume(And(le(s.dl, s.err), ge(s.dl, scale(s.err, -1))))
            if kind == 'l': s.zero = var('zero', 0, 1)
    def copy(s):
        n = KGhost.__new__(KGhost)
        n.__dict__.update(s.__dict__)
        return n
    def on_power(s, ex, st, k, f, e):
        if s.kind != 'n': return
        ex.require(st, eq(k, add(s.K, s.EX)), 'krosh: the power of ten is the decimal exponent of the number')
        s.p, s.q = f, e
        s.eps = var('eps', Fraction(-1, 2), Fraction(1, 2), real=True)
    def on_down(s, ex, st, f, e, err):
        if s.kind != 'n': return
        if s.p is None:
            ex.require(st, eq(add(s.K, s.EX), 0), 'krosh: the number is multiplied by the power of ten')
            x, t = add(s.f, s.dl), s.e
        else:
            # (f + dl)(p + eps) = f p + dl p + f eps + dl eps
            x = add(mul(s.f, s.p), add(mul(s.dl, s.p), add(mul(s.f, s.eps), mul(s.dl, s.eps))))
            t = add(s.e, s.q)
        d = sub(t, e)
        d = st.ctx.resolve(d) if isinstance(d, Poly) else d
        if isinstance(d, Poly):
            ex.require(st, And(ge(d, -2 * s.fp.W), le(d, 2 * s.fp.W)), 'krosh: exponent of the product')
            d = ex.conc(st, d)
        x = sub(scale(x, Fraction(2) ** d), f)
        ex.require(st, And(le(x, err), ge(x, scale(err, -1))), 'krosh: the number is within the error bound')

def c_pmant(env, k, ch):
    fp = FPS[k]
    name = env.fn('floaxie::parse_mantissa<%s, %s>' % (fp.name, CH[ch][0]))
    of = mp_fields(env, k, ch)
    size = env.c('size_mp_%s%s' % (k, ch))
    def c(ex, st, v):
        g = st.ghost
        ex.require(st, g.at(ex, st, v[-1]) == 0, 'krosh: the mantissa is read from the beginning')
        if g.kind == 'l':
            sp = ex.conc(st, g.special)
            if sp == 0: z = ex.conc(st, g.zero)
        else: sp = g.special
        val = dict(end=g.ptr(g.end), special=sp, sign=sub(1, g.neg) if g.kind not in 'xl' else var('sign', 0, 1))
        if sp == 0:
            val['K'] = g.K if g.kind in 'nl' else var('K', -KMAX, KMAX)
            if g.kind in 'xz' or g.kind == 'l' and z: val.update(f=0, e=0)
            else: val.update(f=g.f, e=g.e, error=g.err)
            if 'error' not in val: val['error'] = 0
        return ret_struct(ex, st, ex.m.funcs[name], v, size, {of[n][0]: (of[n][1], x) for n, x in val.items()})
    return name, c

def ten_limits(fp):
    """(largest t with 10^t <= half of the least positive number, least t with 10^t >= middle of the maximum and 2^emax)"""
    half, top = Fraction(2) ** (fp.qmin - 1), Fraction(2) ** fp.emax - Fraction(2) ** (fp.emax - fp.p - 1)
    t = 0
    while Fraction(10) ** t > half: t -= 1
    u = 0
    while Fraction(10) ** u < top: u += 1
    return t, u

def signed(fp, neg_, n): return add(scale(neg_, 2 ** (fp.W - 1)), n)

def kr_fields(env, k, ch):
    return offs(env, 'off_kr_%s%s_' % (k, ch), dict(value=FPS[k].B, end=8, status=1, acc=1))

def is_nan(fp, v):
    m = 2 ** (fp.W - 1)
    return Or(And(gt(v, fp.INF), lt(v, m)), gt(v, m + fp.INF))

@unit('krosh', k='df', ch='cw', kind='nzaixl')
def u_krosh(env, res, k, ch, kind):
    fp = FPS[k]
    name = env.fn('floaxie::krosh<%s, %s>' % (fp.name, CH[ch][0]))
    of = kr_fields(env, k, ch)
    size = env.c('size_kr_%s%s' % (k, ch))
    tlo, thi = ten_limits(fp)
    def setup(ex, st):
        g = KGhost(ex, st, fp, ch, kind)
        ex.o = push(ex, st, name, [Ptr(g.S, 0)], size)
    def fin(ex, st, v):
        g = st.ghost
        r = result(ex, st, name, v, ex.o, size, of)
        defined(r['end'], r['acc'])
        end = g.at(ex, st, r['end'])
        ex.require(st, end is not None and And(ge0(end), le(end, g.L)), 'krosh: end pointer is in the string')
        acc = ex.U(st, r['acc'], 8)
        ex.require(st, le(acc, 1), 'krosh: the flag is a boolean')
        if kind == 'l':
            if ex.decide(st, eq(acc, 1)): defined(r['value'], r['status'])
            return
        if kind == 'x':
            ex.require(st, eq(end, 0), 'krosh: nothing is consumed without a number')
            return
        ex.require(st, eq(end, g.xend), 'krosh: the reported end is the end of the number')
        if kind in 'zai': ex.require(st, eq(acc, 1), 'krosh: no fallback for zero and special values')
        if not ex.decide(st, eq(acc, 1)): return
        defined(r['value'], r['status'])
        val, status = ex.U(st, r['value'], fp.W), ex.U(st, r['status'], 8)
        if kind == 'a':
            ex.require(st, is_nan(fp, val), 'krosh: NaN')
        if kind == 'i': ex.require(st, eq(val, signed(fp, g.neg, fp.INF)), 'krosh: infinity with its sign')
        if kind == 'z': ex.require(st, eq(val, signed(fp, g.neg, 0)), 'krosh: zero with its sign')
        if kind in 'zai':
            ex.require(st, eq(status, 0), 'krosh: status of zero and special values')
            return
        if g.res is not None:
            n, s, a = g.res
            ex.require(st, eq(a, 1), 'krosh: flagged accurate only if the rounding is')
            ex.require(st, eq(val, signed(fp, g.neg, n)), 'krosh: the rounded value with its sign')
            ex.require(st, eq(status, s), 'krosh: status of the rounding')
        else:
            # 1 <= V + W <= 10^kappa
            x = add(g.K, g.EX)
            mag = sub(val, signed(fp, g.neg, 0))
            ex.require(st, Or(And(eq(mag, fp.INF), eq(status, 2), ge(x, thi)), And(eq(mag, 0), eq(status, 1), le(add(x, fp.kappa), tlo))), 'krosh: out of range for sure')
    cs = dict([c_pmant(env, k, ch), c_exponent(env, k, ch), A.c_table(env, fp), A.c_down(env, fp)])
    n = '%s::operator*=' % fp.cls
    if env.has(n): cs[env.fn(n)] = A.c_mul(env, fp)
    verify(res, env, setup, fin, contracts=cs)

# ---------------------------------------------------------------- atof and its callers
class AGhost(KGhost):
    def __init__(s, ex, st, fp, ch, kind):
        KGhost.__init__(s, ex, st, fp, ch, kind)
        if kind == 'l':
            s.xend = var('xend', 0, LMAX)
            st.ctx.assume(le(s.xend, s.L))
        s.calls = ()
        if kind == 'n':
            # the correctly rounded magnitude and its status
            s.n, s.st = var('exact', 0, fp.INF), var('status', 0, 2)
            st.ctx.assume(Or(And(eq(s.n, fp.INF), eq(s.st, 2)), And(ge(s.n, 1), lt(s.n, fp.INF), eq(s.st, 0)), And(eq(s.n, 0), eq(s.st, 1))))
            s.acc = var('acc', 0, 1)
        elif kind == 'l': s.acc = var('acc', 0, 1)
        else: s.acc = 1
    def copy(s):
        n = AGhost.__new__(AGhost)
        n.__dict__.update(s.__dict__)
        return n

def c_krosh(env, k, ch):
    fp = FPS[k]
    name = env.fn('floaxie::krosh<%s, %s>' % (fp.name, CH[ch][0]))
    of = kr_fields(env, k, ch)
    size = env.c('size_kr_%s%s' % (k, ch))
    def c(ex, st, v):
        g = st.ghost
        ex.require(st, g.at(ex, st, v[-1]) == 0, 'parse: the string is read from its beginning')
        acc = ex.conc(st, g.acc)
        val = {'acc': acc, 'end': g.ptr(g.xend)}
        if acc:
            val['status'] = 0
            if g.kind == 'n': val.update(value=signed(fp, g.neg, g.n), status=g.st)
            elif g.kind == 'l': val.update(value=var('value', 0, 2 ** fp.W - 1), status=var('status', 0, 2))
            elif g.kind == 'x': val.update(value=var('value', 0, 2 ** fp.W - 1))
            elif g.kind == 'a':
                x = var('nan', 0, 2 ** fp.W - 1)
                st.ctx.assume(is_nan(fp, x))
                g.nan = x
                val.update(value=x)
            else: val.update(value=signed(fp, g.neg, fp.INF if g.kind == 'i' else 0))
        return ret_struct(ex, st, ex.m.funcs[name], v, size, {of[n][0]: (of[n][1], x) for n, x in val.items()})
    return name, c

ERANGE = 34
def h_strto(fp, ch):
    """strtod, strtof, wcstod, wcstof: assumed correctly rounded, ERANGE on overflow, underflow and (maybe) subnormal results"""
    def h(ex, st, v, args=None):
        g = st.ghost
        ok = ex.decide(st, eq(g.st, 0)) if g.kind == 'n' else None
        called(ex, st, v)
        if g.kind != 'n':
            st.w(ex.errno_obj(st)).cells[0] = (4, var('errno', 0, 200))
            end = var('fend', 0, LMAX)
            st.ctx.assume(le(end, g.L))
            n = var('value', 0, 2 ** fp.W - 1)
        else:
            o = ex.errno_obj(st)
            if ok:
                sub_ = st.ctx.tri(ge(g.n, 2 ** fp.mb))
                old = st.mem[o].cells[0][1]
                if sub_ is not True:
                    e = var('errno', -(1 << 31), (1 << 31) - 1)
                    st.ctx.assume(Or(eq(e, ex.S(st, old, 32)), And(eq(e, ERANGE), lt(g.n, 2 ** fp.mb))))
                    st.w(o).cells[0] = (4, e)
            else: st.w(o).cells[0] = (4, ERANGE)
            end = g.xend
            n = signed(fp, g.neg, g.n)
        p = v[1]
        if not (isinstance(p, Ptr) and p.o == 0): ex.store(st, p, 8, g.ptr(end))
        return n
    return h

def called(ex, st, v):
    g = st.ghost
    ex.require(st, len(g.calls) == 0, 'fallback: called at most once')
    ex.require(st, g.kind in 'nl', 'fallback: called only for a decimal number')
    g.calls += ((v[0], v[1]),)
    ex.require(st, v[0] == Ptr(g.S, 0), "fallback: gets the caller's string")
    if ex.exact: ex.require(st, v[1] == ex.endp, "fallback: gets the caller's end pointer")
    elif v[1] is UNDEF: raise X.UseUndef()
    elif v[1] != NULL: ex.access(st, v[1], 8, True)       # somewhere to put the end

def h_user(fp):
    def h(ex, st, v, args=None):
        called(ex, st, v)
        st.w(ex.errno_obj(st)).cells[0] = (4, var('errno', -(1 << 31), (1 << 31) - 1))
        g = st.ghost
        g.user = var('user', 0, 2 ** fp.W - 1)
        if isinstance(v[1], Ptr) and v[1].o:
            g.uend = Ptr(g.S, var('uend', -LMAX, LMAX))
            ex.store(st, v[1], 8, g.uend)
        return g.user
    return h

FORMS = {'e': 'e_atof_', '0': 'e_atof_', 'n': 'e_atofn_', 'c': 'e_atofc_', 'q': 'e_atofc_', 's': 'e_fromstr_', 't': 'e_fromstrc_'}
@unit('atof', k='df', ch='cw', form='e0ncqst', kind='nzaixl')
def u_atof(env, res, k, ch, form, kind):
    fp = FPS[k]
    name = FORMS[form] + k + ch
    of = offs(env, 'off_vs_%s_' % k, dict(value=fp.B, status=1))
    custom = form in 'cqt'
    def setup(ex, st):
        g = AGhost(ex, st, fp, ch, kind)
        ex.out = Ptr(st.alloc('out', env.c('size_vs_' + k), 'ext').id, 0)
        ex.errno_obj(st)
        s = Ptr(g.S, 0)
        ex.endp = NULL; ex.exact = custom and form not in 'st'
        if form in 'ec': ex.endp = Ptr(st.alloc('end', 8, 'ext').id, 0)
        if form in 'st':
            o = st.alloc('string', 32, 'const')
            o.cells = {0: (8, s), 8: (8, g.L)}
            s = Ptr(o.id, 0)
        a = [s] + ([ex.endp] if form in 'e0cq' else []) + [ex.out] + ([Ptr('fn:floaxie_user_fallback', 0)] if custom else [])
        ex.call(st, name, a)
    def fin(ex, st, v):
        g = st.ghost
        r = fields(ex, st, ex.out, of)
        defined(*r.values())
        val, status = ex.U(st, r['value'], fp.W), ex.U(st, r['status'], 8)
        end = ex.load(st, ex.endp, 8) if ex.endp.o else None
        if ex.endp.o: defined(end)
        if g.calls and custom and getattr(g, 'user', None) is None: ex.require(st, False, "fallback: the caller's one is called"); return
        if g.calls and custom:
            ex.require(st, eq(val, g.user), 'fallback: its value is returned verbatim')
            if end is not None: ex.require(st, end == g.uend, 'fallback: the end pointer is left as the fallback set it')
            return
        if end is not None:
            a = g.at(ex, st, end)
            ex.require(st, a is not None and And(ge0(a), le(a, g.L)), 'parse: the end pointer is in the string')
            if kind != 'l': ex.require(st, eq(a, g.xend), 'parse: the reported end is the end of the number')
        ex.require(st, le(status, 2), 'parse: status is one of the three')
        if kind == 'l': return
        if kind == 'n':
            ex.require(st, eq(val, signed(fp, g.neg, g.n)), 'parse: correctly rounded value with its sign')
            ex.require(st, eq(status, g.st), 'parse: status is exact')
            return
        ex.require(st, eq(status, 0), 'parse: status is success')
        if kind == 'a': ex.require(st, is_nan(fp, val), 'parse: NaN')
        else: ex.require(st, eq(val, signed(fp, g.neg, fp.INF) if kind == 'i' else signed(fp, g.neg, 0) if kind == 'z' else 0), 'parse: infinity and zero with their sign, zero without a number')
    hooks = {'floaxie_user_fallback': h_user(fp)}
    hooks[{'dc': 'strtod', 'fc': 'strtof', 'dw': 'wcstod', 'fw': 'wcstof'}[k + ch]] = h_strto(fp, ch)
    n, c = c_krosh(env, k, ch)
    ex = verify(res, env, setup, fin, contracts={n: c}, hooks=hooks)
    if not custom and kind in 'nl': res.trust.add({'dc': 'strtod', 'fc': 'strtof', 'dw': 'wcstod', 'fw': 'wcstof'}[k + ch] + ' (correctly rounded, same end of the number)')
