"""Contracts of the extended-precision arithmetic (diy_fp.h, bit_ops.h, cached_power.h, k_comp.h)."""
from base import *
from units import unit

EMAX = 1 << 20        # |exponent| of any operand; the library itself stays within +-5000

def operands(ex, env, st, fp, alias=False, lo=0, lo2=0):
    ex.f1 = var('f1', lo, 2 ** fp.W - 1); ex.e1 = var('e1', -EMAX, EMAX)
    ex.a = fp_obj(ex, env, st, fp, ex.f1, ex.e1, 'lhs')
    if alias: ex.f2, ex.e2, ex.b = ex.f1, ex.e1, ex.a
    else:
        ex.f2 = var('f2', lo2, 2 ** fp.W - 1); ex.e2 = var('e2', -EMAX, EMAX)
        ex.b = fp_obj(ex, env, st, fp, ex.f2, ex.e2, 'rhs')
    ex.o = fp_obj(ex, env, st, fp, name='out')

def desc(*names):
    def d(st, mdl):
        return {}
    return d

def inputs(ex, mdl):
    return {n: str(peval(getattr(ex, n), mdl)) for n in ('f1', 'e1', 'f2', 'e2', 'err') if hasattr(ex, n)}

def frame(ex, env, st, fp, p, f, e, what):
    g, h = fp_get(ex, env, st, fp, p)
    ex.require(st, And(eq(g, f), eq(h, e)), '%s: operand is left unchanged' % what)

@unit('mul', fp='df', form='asn')
def u_mul(env, res, fp, form):
    """|f' - f1 f2 / 2^W| <= 1/2, e' = e1 + e2 + W (so nothing wraps around)"""
    fp = FPS[fp]
    def setup(ex, st):
        operands(ex, env, st, fp, form == 's')
        if form == 'n': ex.call(st, 'e_mul2_' + fp.k, [ex.a, ex.b, ex.o])
        else: ex.call(st, 'e_mul_' + fp.k, [ex.a, ex.b])
    def fin(ex, st, v):
        f, e = fp_get(ex, env, st, fp, ex.o if form == 'n' else ex.a)
        d = sub(scale(f, 2 ** fp.W), mul(ex.f1, ex.f2))
        ex.require(st, And(le(d, 2 ** (fp.W - 1)), ge(d, -2 ** (fp.W - 1))), 'product: within half a unit of the last place')
        ex.require(st, eq(e, add(add(ex.e1, ex.e2), fp.W)), 'product: exponent')
        if form != 's': frame(ex, env, st, fp, ex.b, ex.f2, ex.e2, 'product')
        if form == 'n': frame(ex, env, st, fp, ex.a, ex.f1, ex.e1, 'product')
    verify(res, env, setup, fin, describe=inputs)

@unit('sub', fp='df', form='an')
def u_sub(env, res, fp, form):
    fp = FPS[fp]
    def setup(ex, st):
        operands(ex, env, st, fp)
        st.ctx.assume(eq(ex.e1, ex.e2)); st.ctx.assume(ge(ex.f1, ex.f2))
        if form == 'n': ex.call(st, 'e_sub2_' + fp.k, [ex.a, ex.b, ex.o])
        else: ex.call(st, 'e_sub_' + fp.k, [ex.a, ex.b])
    def fin(ex, st, v):
        f, e = fp_get(ex, env, st, fp, ex.o if form == 'n' else ex.a)
        ex.require(st, And(eq(f, sub(ex.f1, ex.f2)), eq(e, ex.e1)), 'difference: exact')
        frame(ex, env, st, fp, ex.b, ex.f2, ex.e2, 'difference')
        if form == 'n': frame(ex, env, st, fp, ex.a, ex.f1, ex.e1, 'difference')
    verify(res, env, setup, fin, describe=inputs)

@unit('cmp', fp='df', form='en')
def u_cmp(env, res, fp, form):
    """== and != compare both components and change nothing"""
    fp = FPS[fp]
    def setup(ex, st):
        operands(ex, env, st, fp)
        ex.call(st, ('e_eq_' if form == 'e' else 'e_ne_') + fp.k, [ex.a, ex.b])
    def fin(ex, st, v):
        same = And(eq(ex.f1, ex.f2), eq(ex.e1, ex.e2))
        r = ex.decide(st, v if not isinstance(v, (int, Poly)) else eq(v, 1))
        ex.require(st, same if r == (form == 'e') else neg(same), 'comparison: of both components')
        frame(ex, env, st, fp, ex.a, ex.f1, ex.e1, 'comparison')
        frame(ex, env, st, fp, ex.b, ex.f2, ex.e2, 'comparison')
    verify(res, env, setup, fin, describe=inputs)

@unit('isnorm', fp='df')
def u_isnorm(env, res, fp):
    """the top bit of a mantissa that is not zero"""
    fp = FPS[fp]
    def setup(ex, st):
        ex.f1 = var('f', 1, 2 ** fp.W - 1); ex.e1 = var('e', -EMAX, EMAX)
        ex.a = fp_obj(ex, env, st, fp, ex.f1, ex.e1)
        ex.call(st, 'e_isnorm_' + fp.k, [ex.a])
    def fin(ex, st, v):
        r = ex.decide(st, v if not isinstance(v, (int, Poly)) else eq(v, 1))
        top = ge(ex.f1, 2 ** (fp.W - 1))
        ex.require(st, top if r else neg(top), 'is_normalized: the top bit')
        frame(ex, env, st, fp, ex.a, ex.f1, ex.e1, 'is_normalized')
    verify(res, env, setup, fin, describe=inputs)

@unit('inc', fp='df', form='ap')
def u_inc(env, res, fp, form):
    """exactly one unit is added; at the maximum the value is re-scaled instead of wrapping"""
    fp = FPS[fp]
    MAX = 2 ** fp.W - 1
    def setup(ex, st):
        operands(ex, env, st, fp)
        ex.call(st, 'e_pinc_' + fp.k if form == 'p' else 'e_inc_' + fp.k, [ex.a, ex.o] if form == 'p' else [ex.a])
    def fin(ex, st, v):
        f, e = fp_get(ex, env, st, fp, ex.a)
        # re-scaled maximum: (2^W - 1)/2 rounded down plus one unit of the new scale is 2^(W-1)
        ex.require(st, Or(And(lt(ex.f1, MAX), eq(f, add(ex.f1, 1)), eq(e, ex.e1)), And(eq(ex.f1, MAX), eq(f, 2 ** (fp.W - 1)), eq(e, add(ex.e1, 1)))),
                   'increment: exactly one unit, re-scaled at the maximum')
        if form == 'p': frame(ex, env, st, fp, ex.o, ex.f1, ex.e1, 'postfix increment')
    verify(res, env, setup, fin, describe=inputs)

@unit('dec', fp='df', form='ap')
def u_dec(env, res, fp, form):
    """exactly one unit of the possibly re-scaled value is subtracted (values are non-zero)"""
    fp = FPS[fp]
    def setup(ex, st):
        operands(ex, env, st, fp, lo=1)
        ex.call(st, 'e_pdec_' + fp.k if form == 'p' else 'e_dec_' + fp.k, [ex.a, ex.o] if form == 'p' else [ex.a])
    def fin(ex, st, v):
        f, e = fp_get(ex, env, st, fp, ex.a)
        d = sub(ex.e1, e)     # number of bits the value was re-scaled by
        ex.require(st, Or(And(eq(d, 0), eq(f, sub(ex.f1, 1))), And(eq(d, 1), eq(f, sub(scale(ex.f1, 2), 1)))), 'decrement: exactly one unit of the possibly re-scaled value')
        ex.require(st, ge(f, 1), 'decrement: the result is not zero')
        ex.require(st, Or(le(ex.f1, 1), eq(d, 0)), 'decrement: not re-scaled without need')
        if form == 'p': frame(ex, env, st, fp, ex.o, ex.f1, ex.e1, 'postfix decrement')
    verify(res, env, setup, fin, describe=inputs)

@unit('norm', fp='df')
def u_norm(env, res, fp):
    fp = FPS[fp]
    def setup(ex, st):
        operands(ex, env, st, fp, lo=1)
        ex.call(st, 'e_norm_' + fp.k, [ex.a])
    def fin(ex, st, v):
        f, e = fp_get(ex, env, st, fp, ex.a)
        k = ex.conc(st, sub(ex.e1, e))
        ex.require(st, And(k >= 0, k < fp.W, eq(f, scale(ex.f1, 2 ** max(k, 0)))), 'normalisation: value is unchanged')
        ex.require(st, ge(f, 2 ** (fp.W - 1)), 'normalisation: highest bit is set')
    verify(res, env, setup, fin, describe=inputs)

# ---------------------------------------------------------------- cached powers
def nearest(fp, k):
    """all (f, e) with 2^(W-1) <= f < 2^W and |f 2^e - 10^k| <= 2^e / 2"""
    W = fp.W
    x = Fraction(10) ** k
    e = 0
    n, d = x.numerator, x.denominator
    e = n.bit_length() - d.bit_length() - W
    out = []
    for q in (e - 1, e, e + 1):
        t = x / Fraction(2) ** q
        fl = t.numerator // t.denominator
        for f in (fl, fl + 1):
            if 2 ** (W - 1) <= f < 2 ** W and abs(f - t) <= Fraction(1, 2): out.append((f, q))
    return out

def power_range(env, fp):
    return env.c('pow_lo_' + fp.k), env.c('pow_hi_' + fp.k)

@unit('table', fp='df')
def u_table(env, res, fp):
    """every entry reachable through cached_power(): the argument range is symbolic, the access enumerates it"""
    fp = FPS[fp]
    lo, hi = power_range(env, fp)
    res.extra['range'] = [lo, hi]
    def setup(ex, st):
        ex.k = var('k', lo, hi)
        ex.o = fp_obj(ex, env, st, fp, name='out')
        ex.call(st, 'e_cached_' + fp.k, [scale(ex.k, 1), ex.o])
    def fin(ex, st, v):
        f, e = fp_get(ex, env, st, fp, ex.o)
        k = ex.conc(st, ex.k)
        f = ex.conc(st, f); e = ex.conc(st, e)
        ok = (f, e) in nearest(fp, k)
        ex.require(st, ok, 'cached power: normalised and nearest to the true power', '10^%d: f=%s e=%s' % (k, f, e))
        ex.seen = getattr(ex, 'seen', set()) | {k}
    ex = verify(res, env, setup, fin, describe=lambda ex, m: {'k': str(peval(ex.k, m))})
    res.need('cached power: whole range covered', ex.seen == set(range(lo, hi + 1)) or bool(res.fail))

def grisu_exponents(fp):
    """exponents of the normalised upper boundary for all finite non-zero values"""
    # M+ = (2f+1) 2^(e-1); f in [2^mb, 2^p) for normal numbers, f in [1, 2^mb) with e = qmin otherwise
    # 2f+1 has from 2 to p+1 bits
    return (fp.qmin - 1 + 2 - fp.W, fp.qmax - 1 + fp.p + 1 - fp.W)

@unit('kcomp', fp='df')
def u_kcomp(env, res, fp):
    """the selected power scales every upper boundary into the window of digit_gen"""
    fp = FPS[fp]
    lo, hi = power_range(env, fp)
    elo, ehi = grisu_exponents(fp)
    res.extra['exponents'] = [elo, ehi]
    def setup(ex, st):
        ex.e1 = var('e', elo, ehi)
        ex.call(st, 'e_kcomp_' + fp.k, [ex.conc(st, ex.e1)])
    n = set()
    for e in range(elo, ehi + 1):
        def setup(ex, st):
            ex.call(st, 'e_kcomp_' + fp.k, [e & 0xffffffff])
        def fin(ex, st, v):
            k = ex.conc(st, ex.S(st, v, 32))
            ex.require(st, lo <= k <= hi, 'power selection: inside of the table', 'e=%d k=%d' % (e, k))
            es = {q for f, q in nearest(fp, k)}
            ok = all(fp.alpha <= e + q + fp.W <= fp.gamma for q in es)
            ex.require(st, ok, 'power selection: scales into the window', 'e=%d k=%d' % (e, k))
            n.add(e)
        verify(res, env, setup, fin, describe=lambda ex, m: {'e': e})
    res.need('power selection: all exponents covered', len(n) == ehi - elo + 1 or bool(res.fail))

# ---------------------------------------------------------------- conversion from and to the floating point types
def bits_of(ex, st, fp, kind):
    """symbolic value: kind n(ormal), s(ubnormal)"""
    ex.s = var('s', 0, 1)
    if kind == 'n':
        ex.E = var('E', 1, 2 * fp.emax - 2); ex.M = var('M', 0, 2 ** fp.mb - 1)
    else:
        ex.E = 0; ex.M = var('M', 1, 2 ** fp.mb - 1)
    ex.mag = add(scale(ex.E, 2 ** fp.mb), ex.M)
    return add(scale(ex.s, 2 ** (fp.W - 1)), ex.mag)

def bin_inputs(fp):
    return lambda ex, m: {'bits': hex(peval(add(scale(ex.s, 2 ** (fp.W - 1)), ex.mag), m))}

@unit('ctor', fp='df', kind='ns')
def u_ctor(env, res, fp, kind):
    fp = FPS[fp]
    def setup(ex, st):
        b = bits_of(ex, st, fp, kind)
        ex.o = fp_obj(ex, env, st, fp, name='out')
        ex.call(st, 'e_ctor_' + fp.k, [b, ex.o])
    def fin(ex, st, v):
        f, e = fp_get(ex, env, st, fp, ex.o)
        if kind == 'n':
            # value = (2^mb + M) 2^(E + qmin - 1)
            ex.require(st, And(eq(f, add(2 ** fp.mb, ex.M)), eq(e, add(ex.E, fp.qmin - 1))), 'conversion: exact')
        else:
            ex.require(st, And(eq(f, ex.M), eq(e, fp.qmin)), 'conversion: exact')
    verify(res, env, setup, fin, describe=bin_inputs(fp))

@unit('roundtrip', fp='df', kind='ns')
def u_rt(env, res, fp, kind):
    fp = FPS[fp]
    def setup(ex, st):
        b = bits_of(ex, st, fp, kind)
        ex.o = Ptr(st.alloc('out', env.c('size_ds_' + fp.k), 'ext').id, 0)
        ex.call(st, 'e_round_trip_' + fp.k, [b, ex.o])
    def fin(ex, st, v):
        r = ds_fields(ex, env, st, fp, ex.o)
        ex.require(st, eq(r['value'], ex.mag), 'round trip: the magnitude is returned')
        ex.require(st, eq(r['status'], 0), 'round trip: status is success')
        ex.require(st, eq(r['acc'], 1), 'round trip: flagged accurate')
    verify(res, env, setup, fin, describe=bin_inputs(fp))

def ds_fields(ex, env, st, fp, p):
    r = fields(ex, st, p, {n: (env.c('off_ds_%s_%s' % (fp.k, n)), z) for n, z in (('value', fp.B), ('status', 1), ('acc', 1))})
    if UNDEF in r.values(): raise X.UseUndef()
    return {n: ex.U(st, x, fp.W if n == 'value' else 8) for n, x in r.items()}

ERRMAX = 63

@unit('down', fp='df', part=('norm', 'over', 'under', 'sub0', 'sub1', 'sub2', 'sub3'))
def u_down(env, res, fp, part):
    """value/status/is_accurate against the exact rounding of every real within the error bound"""
    fp = FPS[fp]
    W, p = fp.W, fp.p
    # binary order of the value: 2^(W-1+e) <= x < 2^(W+e)
    n_lo, n_hi = fp.emin - W, fp.emax - W              # e of normal results
    s_lo = fp.emin - fp.mb - W                          # e of the values handled by the subnormal branch
    def setup(ex, st):
        ex.f1 = var('f', 2 ** (W - 1), 2 ** W - 1)
        if part == 'norm': ex.e1 = var('e', n_lo, n_hi)
        elif part == 'over': ex.e1 = var('e', n_hi + 1, EMAX)
        elif part == 'under': ex.e1 = var('e', -EMAX, s_lo - 1)
        else:
            n = n_lo - s_lo
            q = (n + 3) // 4
            a = s_lo + q * int(part[3])
            ex.e1 = var('e', a, min(a + q, n_lo) - 1)
        ex.err = var('err', 0, ERRMAX)
        ex.o = Ptr(st.alloc('out', env.c('size_ds_' + fp.k), 'ext').id, 0)
        ex.a = fp_obj(ex, env, st, fp, ex.f1, ex.e1)
        ex.call(st, 'e_down_' + fp.k, [ex.a, ex.err, ex.o])
    def fin(ex, st, v):
        r = ds_fields(ex, env, st, fp, ex.o)
        f, e, err = ex.f1, ex.e1, ex.err
        n = r['value']
        ex.require(st, le(n, fp.INF), 'rounding: a non-negative number or infinity')
        ex.require(st, Or(eq(r['acc'], 0), eq(r['acc'], 1)), 'rounding: the flag is a boolean')
        ex.require(st, Or(And(eq(n, fp.INF), eq(r['status'], 2)), And(ge(n, 1), lt(n, fp.INF), eq(r['status'], 0)), And(eq(n, 0), eq(r['status'], 1))),
                   'rounding: overflow and underflow are reported exactly')
        if not ex.decide(st, eq(r['acc'], 1)): return
        # every x in [f - err, f + err] 2^e rounds to n
        lo, hi = sub(f, err), add(f, err)
        if part == 'over':
            # x >= 2^(e+W-1) - 63 2^e >= the middle between the maximum and its successor 2^emax
            ex.require(st, eq(n, fp.INF), 'rounding: correct for every real in the error bound')
            # (2^(W-1) - err) 2^e with e >= emax - W + 1 is not below 2^emax - 2^(emax-p-1)
            ex.require(st, ge(lo, 2 ** (W - 1) - 2 ** (W - p - 2)), 'rounding: correct for every real in the error bound')
        elif part == 'under':
            ex.require(st, eq(n, 0), 'rounding: correct for every real in the error bound')
            # x <= (f + err) 2^e must be below the half of the least subnormal, 2^(qmin-1)
            # 2^e <= 2^(s_lo - 1); the flag must exclude exponents for which it is not
            ex.require(st, le(e, fp.qmin - 1 - W - 1), 'rounding: correct for every real in the error bound')
        elif part == 'norm':
            # n = (E << mb) + m - 2^mb with E = e - n_lo + 1; m = rounded f / 2^lsb in [2^mb, 2^p]
            lsb = 2 ** (W - p)
            m = add(sub(n, scale(add(e, 1 - n_lo), 2 ** fp.mb)), 2 ** fp.mb)
            half = lsb // 2
            ex.require(st, And(ge(m, 2 ** fp.mb), le(m, 2 ** p)), 'rounding: exponent of the result')
            c = scale(m, lsb)
            # all the reals are inside of the open rounding interval of m (lower half is narrower at the power of two)
            ex.require(st, And(lt(hi, add(c, half)), Or(gt(lo, sub(c, half)), False)), 'rounding: correct for every real in the error bound')
            ex.require(st, Or(gt(m, 2 ** fp.mb), gt(lo, sub(c, half // 2))), 'rounding: correct for every real in the error bound')
        else:
            q = fp.qmin - ex.conc(st, e)      # unit of the subnormals in units of the mantissa is 2^q
            c = scale(n, 2 ** q)
            ex.require(st, And(lt(hi, add(c, 2 ** (q - 1))), gt(lo, sub(c, 2 ** (q - 1)))), 'rounding: correct for every real in the error bound')
            ex.require(st, le(n, 2 ** fp.mb), 'rounding: exponent of the result')
    verify(res, env, setup, fin, describe=inputs)

# ---------------------------------------------------------------- the contracts above, as the callers see them
def c_mul(env, fp):
    """diy_fp::operator*= ; tells the ghost (hook on_mul) which product was computed"""
    def c(ex, st, v):
        a, b = v[0], v[1]
        f1, e1 = fp_get(ex, env, st, fp, a)
        f2, e2 = fp_get(ex, env, st, fp, b)
        ex.require(st, And(ge(e1, -EMAX), le(e1, EMAX), ge(e2, -EMAX), le(e2, EMAX)), 'product: exponents are in range')
        f = var('prod', 0, 2 ** fp.W - 1)
        m = mul(f1, f2)
        d = sub(scale(f, 2 ** fp.W), m)
        st.ctx.assume(And(le(d, 2 ** (fp.W - 1)), ge(d, -2 ** (fp.W - 1))))
        lo, hi = imul(st.ctx.b.iv(f1) if isinstance(f1, Poly) else (f1, f1), st.ctx.b.iv(f2) if isinstance(f2, Poly) else (f2, f2))
        st.ctx.assume(And(ge(scale(f, 2 ** fp.W), lo - 2 ** (fp.W - 1)), le(scale(f, 2 ** fp.W), hi + 2 ** (fp.W - 1))))
        fp_set(ex, env, st, fp, a, f, add(add(e1, e2), fp.W))
        return a
    return c

def c_table(env, fp):
    """cached_power(k): nearest normalised pair.  f 2^e (1 + ...) = 10^k is kept as (f + eps) 2^e = 10^k, |eps| <= 1/2"""
    lo, hi = power_range(env, fp)
    ex_ = [q for k in (lo, hi) for f, q in nearest(fp, k)]
    name = env.fn('floaxie::cached_power<%s>' % fp.name)
    of = {env.c('off_fp_%s_f' % fp.k): fp.B, env.c('off_fp_%s_e' % fp.k): 4}
    def c(ex, st, v):
        k = ex.S(st, v[-1], 32)
        ex.require(st, And(ge(k, lo), le(k, hi)), 'cached power: argument is in range')
        f = var('pow', 2 ** (fp.W - 1), 2 ** fp.W - 1)
        e = var('powe', min(ex_), max(ex_))
        if st.ghost is not None: st.ghost.on_power(ex, st, k, f, e)
        return ret_struct(ex, st, ex.m.funcs[name], v, env.c('size_fp_' + fp.k), {env.c('off_fp_%s_f' % fp.k): (fp.B, f), env.c('off_fp_%s_e' % fp.k): (4, e)})
    return name, c

def c_down(env, fp):
    name = env.fn('%s::downsample' % fp.cls)
    of = {n: (env.c('off_ds_%s_%s' % (fp.k, n)), z) for n, z in (('value', fp.B), ('status', 1), ('acc', 1))}
    def c(ex, st, v):
        p = v[1] if ex.m.funcs[name].sret else v[0]
        f, e = fp_get(ex, env, st, fp, p)
        err = ex.U(st, v[-1], fp.W)
        ex.require(st, ge(f, 2 ** (fp.W - 1)), 'rounding: the argument is normalised')
        ex.require(st, And(ge(e, -EMAX), le(e, EMAX)), 'rounding: the exponent is in range')
        ex.require(st, le(err, ERRMAX), 'rounding: the error bound is in range')
        if st.ghost is not None: st.ghost.on_down(ex, st, f, e, err)
        n, s, a = var('rounded', 0, fp.INF), var('status', 0, 2), var('acc', 0, 1)
        st.ctx.assume(Or(And(eq(n, fp.INF), eq(s, 2)), And(ge(n, 1), lt(n, fp.INF), eq(s, 0)), And(eq(n, 0), eq(s, 1))))
        if st.ghost is not None: st.ghost.res = (n, s, a)
        return ret_struct(ex, st, ex.m.funcs[name], v, env.c('size_ds_' + fp.k), {of[n_][0]: (of[n_][1], x) for n_, x in (('value', n), ('status', s), ('acc', a))})
    return name, c
