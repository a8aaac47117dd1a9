"""Shared by the specification files: floating point parameters, structure access, unit runner."""
import time
from fractions import Fraction
import irparse, front
from irparse import T, Unsupported, parse_global
from terms import *
from solver import ST
import exec as X
from exec import Exec, Ptr, NULL, UNDEF, Mix, Fork, EndPath, Failure, NeedInv, Budget

class FP:
    def __init__(s, k):
        s.k = k
        if k == 'd':
            s.name, s.W, s.p, s.emax, s.kappa, s.maxd = 'double', 64, 53, 1024, 19, 17
        else:
            s.name, s.W, s.p, s.emax, s.kappa, s.maxd = 'float', 32, 24, 128, 9, 9
        s.mb = s.p - 1
        s.emin = 3 - s.emax                    # std::numeric_limits::min_exponent
        s.INF = (2 * s.emax - 1) << s.mb       # encoding of +infinity
        s.qmin = s.emin - s.p                  # exponent of the least subnormal: -1074 / -149
        s.qmax = s.emax - s.p                  # exponent of the unit of the largest numbers
        s.B = s.W // 8
        s.eb = s.W - s.p                       # exponent bits
        s.alpha, s.gamma = (-35, -32) if k == 'd' else (-19, -16)
        s.T = irparse.DBL if k == 'd' else irparse.FLT
        s.cls = 'floaxie::diy_fp<%s, floaxie::diy_fp_traits<%s>>' % (s.name, s.name)
        s.int = 'unsigned long' if k == 'd' else 'unsigned int'
D, F = FP('d'), FP('f')
FPS = {'d': D, 'f': F}
CH = {'c': ('char', 1), 'w': ('wchar_t', 4), 'x': ('char16_t', 2), 'y': ('char32_t', 4)}
CHB = {'c': (-128, 127), 'w': (-(1 << 31), (1 << 31) - 1), 'x': (0, 65535), 'y': (0, (1 << 32) - 1)}

TIER = 'quick'
DEADLINE = None
class Missing(Exception): pass

class Env:
    """the module under verification"""
    def __init__(s, txt=None, defs=(), strict=True):
        s.txt = txt if txt is not None else front.build(defs, strict=strict)
        s.m = front.load(s.txt)
        s._c = {}
    def c(s, name):
        v = s._c.get(name)
        if v is None:
            try: v = s._c[name] = front.sconst(s.m, name)
            except KeyError: raise Missing('the constant %s of the harness does not compile' % name)
        return v
    def fn(s, base, arity=None):
        """mangled name of the function with this demangled qualified name"""
        l = s.m.byname.get(base, [])
        if arity is not None:
            l = [x for x in l if len(s.m.funcs[x].params) == arity]
        if len(l) != 1: raise Missing('function %s not found (%d candidates)' % (base, len(l)))
        return l[0]
    def find(s, prefix, suffix):
        """mangled name of the only function whose name starts and ends like this (some template arguments are free)"""
        l = [x for b, v in s.m.byname.items() if b.startswith(prefix) and b.endswith(suffix) for x in v]
        if len(l) != 1: raise Missing('function %s ... %s not found (%d candidates)' % (prefix, suffix, len(l)))
        return l[0]
    def has(s, base): return bool(s.m.byname.get(base))

def fp_obj(ex, env, st, fp, f=None, e=None, name='fp'):
    o = st.alloc(name, env.c('size_fp_' + fp.k), 'ext')
    if f is not None: o.cells[env.c('off_fp_%s_f' % fp.k)] = (fp.B, f)
    if e is not None: o.cells[env.c('off_fp_%s_e' % fp.k)] = (4, e)
    return Ptr(o.id, 0)

def at(p, off): return Ptr(p.o, add(p.off, off))

def fp_get(ex, env, st, fp, p):
    f = ex.load(st, at(p, env.c('off_fp_%s_f' % fp.k)), fp.B)
    e = ex.load(st, at(p, env.c('off_fp_%s_e' % fp.k)), 4)
    if f is UNDEF or e is UNDEF: raise X.UseUndef()
    return ex.U(st, f, fp.W), ex.S(st, e, 32)

def fp_set(ex, env, st, fp, p, f, e):
    if f is not None: ex.store(st, at(p, env.c('off_fp_%s_f' % fp.k)), fp.B, f)
    if e is not None: ex.store(st, at(p, env.c('off_fp_%s_e' % fp.k)), 4, e)

def ret_struct(ex, st, f, args, size, cells):
    """return a structure the way the ABI of function f does: through sret or in registers"""
    if f.sret:
        p = args[0]
        o, off = ex.access(st, p, size, True)
        o = st.w(o.id)
        ex.clear(st, o, off, size)
        for co, (sz, v) in cells.items(): o.cells[off + co] = (sz, v)
        return None
    tmp = X.Obj(-1, 'ret', size + 8, 'stack', st.own)
    tmp.cells = dict(cells)
    t = f.ret
    if t.k == 'struct':
        out = []
        for i, e in enumerate(t.e):
            out.append(gather(ex, st, tmp, irparse.offsets(t)[i], irparse.size_of(e)))
        return out
    return gather(ex, st, tmp, 0, irparse.size_of(t))

def gather(ex, st, o, off, size):
    c = o.cells.get(off)
    if c is not None and c[0] == size: return c[1]
    return ex.gather(st, o, off, size)

def fields(ex, st, p, spec):
    """spec: name -> (offset, size); returns values (no definedness check)"""
    return {n: ex.load(st, at(p, o), z) for n, (o, z) in spec.items()}

class Result:
    def __init__(s, name):
        s.name = name
        s.obl = {}; s.fail = []; s.how = {}; s.used = set(); s.called = set(); s.trust = set(); s.inv = []; s.paths = 0; s.steps = 0
        s.time = 0; s.error = None; s.assume = []; s.extra = {}; s.stat = {}
        s.reach = {}; s.skipped = None
    def need(s, name, ok, note=''):
        """an obligation about the verification itself (coverage)"""
        if ok: s.obl[name] = s.obl.get(name, 0) + 1
        else: s.fail.append(Failure(name, s.name, 'refuted', note, 'false', (), note))
    def merge_exec(s, ex):
        for k, v in ex.obl.items(): s.obl[k] = s.obl.get(k, 0) + v
        s.fail.extend(ex.fail.values())
        for k, v in ex.how.items(): s.how[k] = s.how.get(k, 0) + v
        s.used |= {ex.dem(n) for n in ex.used}; s.called |= {ex.dem(n) for n in ex.called}
        s.trust |= ex.trust
        s.paths += ex.paths; s.steps += ex.steps

import loops as L
import json, os, lzma, ast
HDIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'hints')
SAVE_HINTS = os.environ.get('SAVE_HINTS')
USE_HINTS = not os.environ.get('NO_HINTS')
def load_hints(name):
    """loop invariants found by an earlier run, as proposals"""
    try:
        if not USE_HINTS: return {}
        h = json.loads(lzma.open(os.path.join(HDIR, name + '.xz'), 'rt').read())
        for k in ('inv', 'demote', 'keep'): h[k] = [ast.literal_eval(x) for x in h[k]]
        return h
    except FileNotFoundError: return {}
def save_hints(name, ex, inv, demote, keep):
    os.makedirs(HDIR, exist_ok=True)
    h = {'inv': sorted(map(repr, inv)), 'demote': sorted(map(repr, demote)), 'keep': sorted(map(repr, keep)),
         'entries': {e.hash(): ex.loops.give(e) for e in ex.loops.entries.values()}}
    f = os.path.join(HDIR, name + '.xz')
    with lzma.open(f + '.tmp', 'wt') as o: o.write(json.dumps(h, sort_keys=True))
    os.replace(f + '.tmp', f)

def verify(res, env, setup, finish, contracts=None, hooks=None, budget=None, ghost_consts=(), cands=None, describe=None, prep=None):
    """run one verification unit: setup(ex, st) pushes the frame; finish(ex, st, value) states the post-condition.
    Loops that do not end by unrolling are restarted with invariants."""
    h = load_hints(res.name)
    inv, demote, keep = set(h.get('inv', ())), set(h.get('demote', ())), set(h.get('keep', ()))
    def fin(ex, q, v):
        finish(ex, q, v)
        # vacuity guard: some path that satisfies the pre-condition reaches the post-condition
        if not ex.reach and (q.ctx.model is not None or q.ctx.feasible() and q.ctx.model is not None): ex.reach = True
    for attempt in range(60):
        if budget is None and DEADLINE is not None: budget = max(1, DEADLINE - time.time())
        ex = Exec(env.m, contracts, budget)
        ex.env = env
        ex.inv = set(inv); ex.demote = set(demote); ex.keep = set(keep)
        ex.loops = L.Loops(ex, ghost_consts, cands, h.get('entries'))
        if hooks: ex.hooks.update(hooks)
        ex.describe_hook = (lambda q, m: describe(ex, m)) if describe else None
        if prep: prep(ex)
        st = ex.new_state()
        try:
            setup(ex, st)
            ex.loops.begin(st)
            ex.cur = ex.loops.start
            ex.run(st, lambda q, v: fin(ex, q, v))
            ex.loops.solve()
        except NeedInv as n:
            inv.add(n.key)
            continue
        except X.NeedKeep as n:
            keep.add(n.name)
            continue
        except L.Demote as d:
            demote |= d.cols
            continue
        except Budget as b:
            if not ex.fail: raise
        break
    else:
        raise Unsupported('loop analysis does not stabilise')
    ex.loops.collect()
    if SAVE_HINTS and ex.loops.entries and not ex.fail: save_hints(res.name, ex, inv, demote, keep)
    res.merge_exec(ex)
    if ex.reach: res.reach['post-condition reached'] = res.reach.get('post-condition reached', 0) + 1
    elif not ex.fail: res.fail.append(Failure('vacuity: the post-condition is reachable', res.name, 'refuted', '', 'false', ()))
    res.inv.extend(sorted('%s @ %s' % (ex.dem(a), b) for a, b in inv))
    return ex

def push(ex, st, name, args, size):
    """push a call of a function that returns a structure of this size; -> pointer of the sret object or None"""
    f = ex.m.funcs[name]
    irparse.parse_body(ex.m, f)
    if f.sret:
        o = Ptr(st.alloc('ret', size, 'ext').id, 0)
        ex.call(st, name, [o] + args)
        return o
    ex.call(st, name, args)
    return None

def result(ex, st, name, v, out, size, spec):
    """fields of the returned structure: spec name -> (offset, size)"""
    f = ex.m.funcs[name]
    if out is not None: return fields(ex, st, out, spec)
    tmp = X.Obj(-1, 'ret', size + 8, 'stack', st.own)
    t = f.ret
    if t.k == 'struct':
        for i, e in enumerate(t.e): put_val(ex, st, tmp, irparse.offsets(t)[i], e, v[i])
    else: put_val(ex, st, tmp, 0, t, v)
    return {n: gather(ex, st, tmp, o, z) for n, (o, z) in spec.items()}

def put_val(ex, st, o, off, t, v):
    if t.k == 'struct':
        for i, e in enumerate(t.e): put_val(ex, st, o, off + irparse.offsets(t)[i], e, v[i])
    elif t.k == 'array':
        for i in range(t.n): put_val(ex, st, o, off + i * irparse.size_of(t.e), t.e, v[i])
    else: ex.put(st, o, off, irparse.size_of(t), v)

def defined(*vs):
    if any(v is UNDEF for v in vs): raise X.UseUndef()
