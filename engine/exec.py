"""Symbolic execution of LLVM IR (the IR clang emits for /repo's current source)
that generates and discharges verification conditions path by path.  Calls of
functions with a contract use the contract; loops run unrolled while they are
bounded and are otherwise cut at their head (see loops.py)."""
import struct, time, re, subprocess, os
from collections import deque
import irparse
from irparse import T, Unsupported, size_of, align_of, offsets, PTR, parse_body, parse_global
from terms import *
from solver import Ctx, ST, solve, relaxed

class Fork(Exception):
    """conditions: mutually exclusive and exhaustive on this path"""
    def __init__(s, conds): s.conds = conds
class EndPath(Exception): pass
class NeedInv(Exception):
    def __init__(s, key): s.key = key
class NeedKeep(Exception):
    def __init__(s, name): s.name = name
class Budget(Exception): pass

class Ptr:
    __slots__ = ('o', 'off')
    def __init__(s, o, off): s.o, s.off = o, off
    def __eq__(s, x): return isinstance(x, Ptr) and s.o == x.o and s.off == x.off
    def __hash__(s): return hash((s.o, s.off))
    def __repr__(s): return 'ptr(%s+%r)' % (s.o, s.off)
NULL = Ptr(0, 0)
class _U:
    def __repr__(s): return 'undef'
UNDEF = _U()
class Mix:
    """a wide value with several parts, some maybe undefined: [(byte offset, size, value)]"""
    __slots__ = ('parts', 'size')
    def __init__(s, parts, size): s.parts, s.size = parts, size
    def __repr__(s): return 'mix%r' % (s.parts,)

class Obj:
    __slots__ = ('id', 'name', 'size', 'kind', 'cells', 'own', 'elem')
    def __init__(s, id, name, size, kind, own):
        s.id, s.name, s.size, s.kind, s.own = id, name, size, kind, own
        s.cells = {}; s.elem = None
    def copy(s, own):
        o = Obj(s.id, s.name, s.size, s.kind, own)
        o.cells = dict(s.cells); o.elem = s.elem
        return o

class Frame:
    __slots__ = ('f', 'blk', 'idx', 'regs', 'prev', 'ret', 'norm', 'cnt', 'allocas')
    def copy(s):
        n = Frame()
        n.f, n.blk, n.idx, n.prev, n.ret, n.norm = s.f, s.blk, s.idx, s.prev, s.ret, s.norm
        n.regs = dict(s.regs); n.cnt = dict(s.cnt); n.allocas = list(s.allocas)
        return n

_own = [0]
def newown():
    _own[0] += 1
    return _own[0]

class State:
    __slots__ = ('frames', 'mem', 'ctx', 'ghost', 'own', 'nobj', 'trace', 'sread', 'dry', 'origin', 'pend')
    def copy(s, ctx=None):
        n = State()
        n.frames = [f.copy() for f in s.frames]
        n.mem = dict(s.mem)
        n.ctx = ctx if ctx is not None else s.ctx.copy()
        n.ghost = s.ghost.copy() if s.ghost is not None else None
        s.own = newown(); n.own = newown()
        n.nobj = s.nobj
        n.trace = s.trace
        n.sread = s.sread
        n.dry = s.dry
        n.origin = s.origin
        n.pend = s.pend
        return n
    def alloc(s, name, size, kind):
        s.nobj += 1
        o = Obj(s.nobj, name, size, kind, s.own)
        s.mem[o.id] = o
        return o
    def w(s, oid):
        o = s.mem[oid]
        if o.own != s.own:
            o = o.copy(s.own)
            s.mem[oid] = o
        return o

def f2b(x, k):
    if k == 'double': return struct.unpack('<Q', struct.pack('<d', x))[0]
    return struct.unpack('<I', struct.pack('<f', x))[0]
def b2f(b, k):
    if k == 'double': return struct.unpack('<d', struct.pack('<Q', b))[0]
    return struct.unpack('<f', struct.pack('<I', b))[0]
FMT = {'double': (64, 52, 0x7ff << 52), 'float': (32, 23, 0xff << 23)}

MEMLIMIT = 4096
LOOP_S_LIMIT = 9
LOOP_LIMIT = 5000

class Failure:
    __slots__ = ('name', 'where', 'status', 'model', 'cond', 'trace', 'note')
    def __init__(s, name, where, status, model, cond, trace, note=''):
        s.name, s.where, s.status, s.model, s.cond, s.trace, s.note = name, where, status, model, cond, trace, note
    def key(s): return (s.name, s.where)

STATE = False      # also prove that no variable of static storage duration is written
class Exec:
    def __init__(s, mod, contracts=None, budget=None):
        s.m = mod
        s.contracts = contracts or {}      # mangled name -> contract callable
        s.gobj = {}                         # name -> const Obj
        s.gid = {}
        s.obl = {}                          # (name) -> count proved
        s.fail = {}
        s.how = {}
        s.inv = set()
        s.demote = set()
        s.loops = None
        s.finish = None
        s.steps = 0
        s.paths = 0
        s.deadline = None if budget is None else time.time() + budget
        s.used = set()                      # functions executed
        s.called = set()                    # contracts applied
        s.trust = set()                     # trusted externals used
        s.liv = {}
        s.cur = None
        s.term_obl = 0
        s.hooks = {}
        s.work = None
        s.reach = False
    # ------------------------------------------------------------ set-up
    def new_state(s):
        st = State()
        st.frames = []; st.mem = {}; st.ctx = Ctx(); st.ghost = None; st.own = newown(); st.nobj = 0
        st.trace = (); st.sread = 0; st.dry = None; st.origin = None; st.pend = None
        return st
    def call(s, st, fname, args, ret=None):
        f = s.m.funcs.get(fname)
        if f is None: raise Unsupported('no body for ' + fname)
        parse_body(s.m, f)
        s.used.add(fname)
        fr = Frame()
        fr.f = f; fr.blk = f.entry; fr.idx = 0; fr.prev = None; fr.ret = ret; fr.norm = None
        fr.cnt = {}; fr.allocas = []
        if len(args) < len(f.params): raise Unsupported('argument count of ' + fname)
        fr.regs = {n: a for (t, n), a in zip(f.params, args)}
        st.frames.append(fr)
        if len(st.frames) > 200: raise Unsupported('recursion')
        s.heads(f)
    def heads(s, f):
        if getattr(f, 'loops', None) is None:
            f.loops = find_loops(f)
        return f.loops
    # ------------------------------------------------------------ obligations
    def where(s, st):
        if not st.frames: return '-'
        fr = st.frames[-1]
        return s.dem(fr.f.name)
    def dem(s, n):
        f = s.m.funcs.get(n)
        return f.dem if f is not None and f.dem else n
    def record(s, name):
        o = s.obl if s.cur is None else s.cur.obl
        o[name] = o.get(name, 0) + 1
    def require(s, st, cond, name, note=''):
        """prove cond on this path; assume it afterwards"""
        if st.dry is not None: return
        where = s.where(st)
        r, info = st.ctx.prove(cond)
        if r == 'proved':
            s.record(name)
            h = s.how if s.cur is None else s.cur.how
            h[info] = h.get(info, 0) + 1
        else:
            f = Failure(name, where, r, info, cstr(cond)[:2000] if cond is not False else 'false', st.trace, note)
            mdl = info if isinstance(info, dict) else None
            f.model = s.describe(st, mdl) if mdl is not None else str(info)
            fs = s.fail if s.cur is None else s.cur.fail
            fs.setdefault(f.key(), f)
            if len(fs) > 40: raise Budget('too many failed obligations')
        if not st.ctx.assume(cond): raise EndPath()
    describe_hook = None
    def describe(s, st, mdl):
        d = {}
        full = dict(mdl)
        if s.describe_hook is not None:
            try: d = s.describe_hook(st, full)
            except Exception as e: d = {'describe': repr(e)}
        return {'inputs': d, 'atoms': {ATOMS[a].name: str(v) for a, v in list(mdl.items())[:60]}}
    # ------------------------------------------------------------ decisions
    def decide(s, st, c):
        t = st.ctx.tri(c)
        if t is None: raise Fork([c, neg(c)])
        return t
    def conc(s, st, p, limit=MEMLIMIT):
        """concrete value of an exact integer polynomial (forks)"""
        if not isinstance(p, Poly): return p
        lo, hi = st.ctx.b.iv(p)
        if lo is not None and lo == hi: return lo
        q, g, k = prim(p)
        if (g != 1 or k) and isinstance(g, int):
            return s.conc(st, q, limit) * g + k
        if lo is None or hi is None or hi - lo > limit:
            raise Unsupported('cannot enumerate %r in [%s,%s]' % (p, lo, hi))
        raise Fork([eq(p, v) for v in range(lo, hi + 1)])
    # canonical representatives of a w-bit value
    def U(s, st, p, w):
        if not isinstance(p, Poly):
            return p & ((1 << w) - 1) if isinstance(p, int) else s.bad(p)
        M = 1 << w
        lo, hi = st.ctx.b.iv(p)
        if lo is not None and hi is not None:
            if lo >= 0 and hi < M: return p
            if lo // M == hi // M: return sub(p, lo // M * M)
        t = {}
        for m, c in p.t.items():
            if not isinstance(c, int): raise Unsupported('fractional machine value')
            c = c % M
            if c:
                if m != () and c > M // 2: c -= M
                t[m] = c
        p = mk(t)
        if not isinstance(p, Poly): return p % M
        lo, hi = st.ctx.b.iv(p)
        if lo is not None and hi is not None and lo // M == hi // M: return sub(p, lo // M * M)
        if lo is None or hi is None or hi - lo < 64 * M or any(ATOMS[a].kind == 'div' for a in p.atoms()):
            # ask the solver whether it is in range anyway
            k = 0
            if lo is not None and hi is not None:
                if st.ctx.model is not None:
                    k = peval(p, dict(st.ctx.model)) // M
                q = sub(p, k * M)
            else: q = p
            if s.valid(st, And(ge0(q), le(q, M - 1))):
                return q
        return mod(p, M, st.ctx.b)
    def S(s, st, p, w):
        if not isinstance(p, Poly):
            if not isinstance(p, int): s.bad(p)
            p &= (1 << w) - 1
            return p - (1 << w) if p >> (w - 1) else p
        H = 1 << (w - 1)
        return sub(s.U(st, add(p, H), w), H)
    def product(s, st, X, Y):
        r = mul(X, Y)
        if isinstance(X, Poly) and isinstance(Y, Poly) and (len(X.t) > 1 or len(Y.t) > 1):
            # the expanded polynomial does not show the range of the product any more
            lo, hi = imul(st.ctx.b.iv(X), st.ctx.b.iv(Y))
            if lo is not None: st.ctx.assume(ge(r, lo))
            if hi is not None: st.ctx.assume(le(r, hi))
        return r
    def bad(s, p):
        if p is UNDEF: raise UseUndef()
        raise Unsupported('integer operation on %r' % (p,))
    def valid(s, st, c):
        t = st.ctx.tri(c)
        if t is not None: return t
        n = neg(c)
        if st.ctx.model is not None and ceval(n, dict(st.ctx.model)): return False
        fs = st.ctx.cone(c) + [n]
        if relaxed(fs, st.ctx.b): return True
        r, m = solve(fs, st.ctx.b, 1500)
        return r == 'unsat'
    # ------------------------------------------------------------ memory
    def obj(s, st, oid):
        o = st.mem.get(oid)
        if o is None:
            o = s.gobj.get(oid)
        return o
    def glob(s, st, name, off):
        if name in s.m.funcs or name in s.m.decls:
            if off: raise Unsupported('offset into function')
            return Ptr('fn:' + name, 0)
        g = parse_global(s.m, name)
        t, init, const = g
        oid = '@' + name
        if const:
            if oid not in s.gobj:
                o = Obj(oid, name, size_of(t), 'const', -1)
                if init is not None: s.fill(st, o, 0, t, init)
                s.gobj[oid] = o
        elif oid not in st.mem:
            s.havoc_global(st, oid, name, t)
        return Ptr(oid, off)
    def havoc_global(s, st, oid, name, t):
        """a variable of static storage duration holds anything: earlier and concurrent calls may have changed it"""
        o = Obj(oid, name, size_of(t), 'global', st.own)
        s.arbitrary(o, 0, t, name)
        st.mem[oid] = o
    def forget_globals(s, st):
        for oid in [k for k, o in st.mem.items() if isinstance(k, str) and o.kind == 'global']:
            s.havoc_global(st, oid, oid[1:], parse_global(s.m, oid[1:])[0])
    def arbitrary(s, o, off, t, name):
        k = t.k
        if k == 'array':
            if t.n > 1024: raise Unsupported('large variable of static storage duration')
            for i in range(t.n): s.arbitrary(o, off + i * size_of(t.e), t.e, name)
        elif k == 'struct':
            for i, e in enumerate(t.e): s.arbitrary(o, off + offsets(t)[i], e, name)
        elif k == 'ptr': o.cells[off] = (8, ('lazy', ('mutable', name)))
        elif k == 'i': o.cells[off] = (size_of(t), var('static', 0, (1 << (1 if t.n == 1 else 8 * size_of(t))) - 1))
        elif k in ('double', 'float'): o.cells[off] = (size_of(t), var('static', 0, (1 << (8 * size_of(t))) - 1))
        else: raise Unsupported('variable of static storage duration of type ' + k)
    def fill(s, st, o, off, t, c):
        k = t.k
        if isinstance(c, tuple) and c[0] == 'undef': return
        if k == 'array':
            es = size_of(t.e)
            if c == ('zero',):
                for i in range(t.n): s.fill(st, o, off + i * es, t.e, c)
            elif c[0] == 'bytes':
                for i, b in enumerate(c[1]): o.cells[off + i] = (1, b)
            else:
                for i, x in enumerate(c[1]): s.fill(st, o, off + i * es, t.e, x)
        elif k == 'struct':
            for i, e in enumerate(t.e):
                s.fill(st, o, off + offsets(t)[i], e, c if c == ('zero',) else c[1][i])
        elif k == 'ptr':
            v = NULL if c in (('null',), ('zero',)) else ('lazy', c)
            o.cells[off] = (8, v)
        elif k == 'i':
            o.cells[off] = (size_of(t), 0 if c == ('zero',) else c)
        elif k in ('double', 'float'):
            o.cells[off] = (size_of(t), 0 if c == ('zero',) else f2b(c[1], k))
        elif k == 'x86_fp80': pass
        else: raise Unsupported('initialiser of ' + k)
    def access(s, st, p, size, write, what='access'):
        """bounds obligations; returns (obj, concrete offset or Poly for the string)"""
        if not isinstance(p, Ptr):
            if p is UNDEF: raise UseUndef()
            raise Unsupported('dereference of %r' % (p,))
        if p.o == 0:
            s.require(st, False, 'memory: no null dereference')
            raise EndPath()
        if isinstance(p.o, str) and p.o.startswith('fn:'): raise Unsupported('data access to code')
        o = s.obj(st, p.o)
        if o is None:
            s.require(st, False, 'memory: object is alive')
            raise EndPath()
        if write and o.kind in ('const', 'str'):
            s.require(st, False, 'memory: no write to constant or foreign object')
            raise EndPath()
        if write and STATE:
            if o.kind == 'global': s.require(st, False, 'frame: no variable of static storage duration is written', o.name)
            elif st.dry is None: s.record('frame: no variable of static storage duration is written')
        off = p.off
        if o.kind == 'str': return o, off
        if isinstance(off, Poly):
            lo, hi = st.ctx.b.iv(off)
            if not (lo is not None and lo == hi):
                s.require(st, And(ge0(off), le(add(off, size), o.size)), 'memory: %s in bounds' % ('write' if write else 'read'))
                off = s.conc(st, off)
            else: off = lo
        if isinstance(o.size, Poly):
            s.require(st, And(off >= 0, le(off + size, o.size)), 'memory: %s in bounds' % ('write' if write else 'read'))
        elif not (off >= 0 and off + size <= o.size):
            s.require(st, False, 'memory: %s in bounds' % ('write' if write else 'read'), 'offset %s size %s of %s (%s bytes)' % (off, size, o.name, o.size))
            raise EndPath()
        else:
            if st.dry is None: s.record('memory: %s in bounds' % ('write' if write else 'read'))
        return o, off
    def load(s, st, p, size, t=None):
        o, off = s.access(st, p, size, False)
        if o.kind == 'str':
            return st.ghost.load(s, st, o, off, size)
        c = o.cells.get(off)
        if c is not None and c[0] == size:
            v = c[1]
            if type(v) is tuple and v and v[0] == 'lazy':
                x = v[1]
                if x[0] == 'mutable': raise Unsupported('pointer in a variable of static storage duration')
                return s.glob(st, x[1], x[2])
            return v
        return s.gather(st, o, off, size)
    def gather(s, st, o, off, size):
        if o.elem == 'dropped': s.covered(o, off, size)
        parts = []
        pos = off
        end = off + size
        while pos < end:
            c = o.cells.get(pos)
            if c is not None:
                sz, v = c
                if pos + sz <= end:
                    parts.append((pos - off, sz, v)); pos += sz
                else:
                    parts.append((pos - off, end - pos, s.slice(st, v, sz, 0, end - pos))); pos = end
                continue
            # inside a larger cell?
            found = False
            for b in range(1, 16):
                c = o.cells.get(pos - b)
                if c is not None:
                    if c[0] > b:
                        sz = min(c[0] - b, end - pos)
                        parts.append((pos - off, sz, s.slice(st, c[1], c[0], b, sz)))
                        pos += sz; found = True
                    break
            if not found:
                pos += 1
        return s.unmix(st, parts, size)
    def covered(s, o, off, size):
        """the bytes were written after the contents of the object were forgotten at a loop head"""
        have = set()
        for k, (sz, v) in o.cells.items(): have.update(range(k, k + sz))
        if not have.issuperset(range(off, off + size)): raise NeedKeep(o.name)
    def unmix(s, st, parts, size):
        parts = [(o, z, v) for o, z, v in parts if v is not UNDEF]
        if not parts: return UNDEF
        if len(parts) == 1 and parts[0][0] == 0 and parts[0][1] == size: return parts[0][2]
        if sum(z for _, z, _ in parts) == size and all(isinstance(v, (int, Poly)) and not isinstance(v, bool) for _, _, v in parts):
            r = 0
            for o, z, v in parts: r = add(r, scale(s.U(st, v, z * 8), 1 << (8 * o)))
            return r
        return Mix(parts, size)
    def slice(s, st, v, sz, b, n):
        """bytes [b, b+n) of a value of sz bytes"""
        if v is UNDEF: return UNDEF
        if isinstance(v, Mix):
            parts = []
            for o, z, x in v.parts:
                lo, hi = max(o, b), min(o + z, b + n)
                if lo < hi: parts.append((lo - b, hi - lo, s.slice(st, x, z, lo - o, hi - lo) if (lo, hi) != (o, o + z) else x))
            return s.unmix(st, parts, n)
        if isinstance(v, Ptr): raise Unsupported('part of a pointer')
        if isinstance(v, int): return (v >> (8 * b)) & ((1 << (8 * n)) - 1)
        if b == 0: return s.U(st, v, 8 * n) if n < sz else v
        return div(mod(s.U(st, v, 8 * sz), 1 << (8 * (b + n)), st.ctx.b), 1 << (8 * b), st.ctx.b)
    def store(s, st, p, size, v):
        o, off = s.access(st, p, size, True)
        o = st.w(o.id) if not isinstance(o.id, str) else st.w(o.id)
        s.put(st, o, off, size, v)
    def put(s, st, o, off, size, v):
        c = o.cells.get(off)
        if c is None or c[0] != size: s.clear(st, o, off, size)
        else:
            pass
        if isinstance(v, Mix):
            s.clear(st, o, off, size)
            for po, z, x in v.parts: o.cells[off + po] = (z, x)
        elif v is UNDEF:
            s.clear(st, o, off, size)
        else:
            o.cells[off] = (size, v)
    def clear(s, st, o, off, size):
        end = off + size
        if size > 64 and len(o.cells) < size:
            ks = [k for k in o.cells if off - 16 < k < end]
        else:
            ks = [k for k in range(off - 15, end) if k in o.cells]
        for k in ks:
            sz, v = o.cells[k]
            if k + sz <= off: continue
            del o.cells[k]
            if k < off: o.cells[k] = (off - k, s.slice(st, v, sz, 0, off - k))
            if k + sz > end: o.cells[end] = (k + sz - end, s.slice(st, v, sz, end - k, k + sz - end))
    def movemem(s, st, d, q, n):
        n = s.conc(st, s.U(st, n, 64))
        if n == 0: return
        do, doff = s.access(st, d, n, True)
        so, soff = s.access(st, q, n, False)
        if so.kind == 'str': raise Unsupported('block copy of the string')
        if so.elem == 'dropped': s.covered(so, soff, n)
        parts = []
        pos = soff; end = soff + n
        if n > 64 and len(so.cells) < n:
            ks = sorted(k for k in so.cells if soff - 16 < k < end)
        else:
            ks = [k for k in range(soff - 15, end) if k in so.cells]
        for k in ks:
            sz, v = so.cells[k]
            lo, hi = max(k, soff), min(k + sz, end)
            if lo >= hi: continue
            if type(v) is tuple and v and v[0] == 'lazy': v = s.glob(st, v[1][1], v[1][2])
            if (lo, hi) != (k, k + sz): v = s.slice(st, v, sz, lo - k, hi - lo)
            parts.append((lo - soff, hi - lo, v))
        o = st.w(do.id)
        s.clear(st, o, doff, n)
        for po, z, v in parts:
            if v is not UNDEF: o.cells[doff + po] = (z, v)
    def setmem(s, st, d, c, n, es=1):
        n = s.conc(st, s.U(st, n, 64))
        if n == 0: return
        o, off = s.access(st, d, n * es, True)
        o = st.w(o.id)
        s.clear(st, o, off, n * es)
        if isinstance(c, Poly): c = s.U(st, c, es * 8)
        for i in range(n): o.cells[off + i * es] = (es, c)
    # ------------------------------------------------------------ driver
    def run(s, st, finish):
        """explore all paths of st (with a frame pushed); finish(st, value) at the outermost return"""
        s.finish = finish
        work = [st]
        while work:
            st = work.pop()
            s.path(st, work)
    def path(s, st, work):
        s.work = work
        while True:
            try:
                s.go(st)
                # outermost return: st.frames empty, value in st.dry? handled in go
                return
            except Fork as f:
                outs = s.fork(st, f.conds)
                if not outs: s.paths += 1; return
                work.extend(outs[:-1])
                st = outs[-1]
            except EndPath:
                s.paths += 1
                return
            except UseUndef:
                try:
                    s.require(st, False, 'memory: no use of indeterminate values')
                except EndPath: pass
                s.paths += 1
                return
    def fork(s, st, conds):
        if s.deadline is not None and time.time() > s.deadline: raise Budget('time')
        outs = []
        ctx = st.ctx
        live = []
        mv = None
        if len(conds) == 2 and conds[1] == neg(conds[0]):
            r = ctx.branch(conds[0])
            live = [c for _, c in r]
        else:
            for c in conds:
                t = ctx.tri(c)
                if t is False: continue
                ok = None
                if ctx.model is not None and ceval(c, dict(ctx.model)): ok = ctx.model
                else:
                    r, m = solve(ctx.cone(c) + [c], ctx.b, 3000)
                    if r == 'unsat': continue
                    if r == 'sat': ok = ctx.complete(m, c)
                k = ctx.copy()
                if not k.assume(c): continue
                if k.model is None: k.model = ok
                live.append(k)
        for i, k in enumerate(live):
            n = st.copy(k) if i + 1 < len(live) else st
            n.ctx = k
            if n is st: st.own = newown()
            outs.append(n)
        return outs
    # ------------------------------------------------------------ instructions
    def val(s, st, fr, op, t):
        if op[0] == 'r':
            try: return fr.regs[op[1]]
            except KeyError: raise Unsupported('unset register ' + op[1])
        return s.cst(st, op[1], t)
    def cst(s, st, c, t):
        if isinstance(c, int):
            if t.k == 'i' and t.n == 1: return bool(c)
            return c
        k = c[0]
        if k == 'null': return NULL
        if k == 'undef':
            return UNDEF
        if k == 'fp': return f2b(c[1], t.k) if t.k in FMT else UNDEF
        if k == 'glob': return s.glob(st, c[1], c[2])
        if k == 'zero':
            if t.k in ('struct',): return [s.cst(st, c, e) for e in t.e]
            if t.k == 'array': return [s.cst(st, c, t.e) for _ in range(t.n)]
            if t.k == 'ptr': return NULL
            return 0
        if k == 'agg':
            ts = t.e if t.k == 'struct' else [t.e] * t.n
            return [s.cst(st, x, e) for x, e in zip(c[1], ts)]
        raise Unsupported('constant %r' % (c,))
    def pending(s, st):
        key, back = st.pend
        cut = s.loops.arrive(s, st, key, back)
        st.pend = None
        if cut: raise EndPath()
    def go(s, st):
        if st.pend is not None: s.pending(st)
        while True:
            fr = st.frames[-1]
            blk = fr.f.blocks[fr.blk]
            ins = blk[1][fr.idx]
            s.steps += 1
            if s.steps & 1023 == 0 and s.deadline is not None and time.time() > s.deadline: raise Budget('time')
            op = ins[0]
            h = DISPATCH.get(op)
            if h is None: raise Unsupported('instruction ' + op)
            r = h(s, st, fr, ins)
            if r is None:
                fr.idx += 1
            elif r is DONE:
                return
    def jump(s, st, fr, target):
        f = fr.f
        src = fr.blk
        blk = f.blocks.get(target)
        if st.dry is not None:
            d = st.dry
            if len(st.frames) == d.depth and f.name == d.fn and target not in d.body: raise DryExit()
        if blk is None: raise Unsupported('block ' + target)
        # phis are evaluated in parallel
        if blk[0]:
            vals = []
            for p in blk[0]:
                for v, b in p[3]:
                    if b == src:
                        vals.append((p[1], s.val(st, fr, v, p[2]))); break
                else: raise Unsupported('phi')
            for n, v in vals: fr.regs[n] = v
        fr.prev = src; fr.blk = target; fr.idx = 0
        lp = f.loops.get(target)
        if lp is not None:
            if src in lp: n = fr.cnt.get(target, (0, 0)); c = n[0] + 1; sr = n[1]
            else: c = 0; sr = st.sread
            fr.cnt[target] = (c, sr)
            key = (f.name, target)
            if st.dry is not None:
                d = st.dry
                if len(st.frames) == d.depth and f.name == d.fn and target == d.head or c > LOOP_LIMIT: raise DryAgain()
            elif key in s.inv:
                st.pend = (key, src in lp)
                s.pending(st)
            elif c > LOOP_S_LIMIT and st.sread > sr or c > LOOP_LIMIT:
                raise NeedInv(key)
        return JUMPED

class UseUndef(Exception): pass
class DryExit(Exception): pass
class DryAgain(Exception): pass
DONE = object()
JUMPED = object()

# ---------------------------------------------------------------- loops of a CFG
def succs(f, b):
    i = f.blocks[b][1][-1]
    o = i[0]
    if o == 'jmp': return [i[2]]
    if o == 'br': return [i[3], i[4]]
    if o == 'switch': return [i[4]] + [x for _, x in i[5]]
    if o == 'invoke': return [i[5], i[6]]
    return []

def find_loops(f):
    """head -> set of blocks of the natural loop (union over its back edges)"""
    heads = {}
    preds = {b: [] for b in f.order}
    for b in f.order:
        for x in succs(f, b): preds[x].append(b)
    color = {}
    back = []
    stack = [(f.entry, iter(succs(f, f.entry)))]
    color[f.entry] = 1
    while stack:
        b, it = stack[-1]
        for x in it:
            c = color.get(x, 0)
            if c == 0:
                color[x] = 1; stack.append((x, iter(succs(f, x)))); break
            if c == 1: back.append((b, x))
        else:
            color[b] = 2; stack.pop()
    for b, h in back:
        body = heads.setdefault(h, {h})
        todo = [b]
        while todo:
            x = todo.pop()
            if x in body: continue
            body.add(x); todo.extend(preds[x])
    return heads

# ---------------------------------------------------------------- instruction semantics
def cond_of(s, st, v):
    if v is True or v is False or (type(v) is tuple): return v
    if v is UNDEF: raise UseUndef()
    if isinstance(v, int): return bool(v & 1)
    raise Unsupported('i1 %r' % (v,))

def i_bin(s, st, fr, ins):
    _, res, op, t, a, b, fl = ins
    x = s.val(st, fr, a, t); y = s.val(st, fr, b, t)
    fr.regs[res] = binop(s, st, op, t.n, x, y, fl)

def isint_(v): return type(v) is int

def binop(s, st, op, w, x, y, fl=frozenset()):
    if w == 1:
        if x is UNDEF or y is UNDEF: raise UseUndef()
        x = cond_of(s, st, x); y = cond_of(s, st, y)
        if op == 'and': return And(x, y)
        if op == 'or': return Or(x, y)
        if op in ('xor', 'add', 'sub'):
            if x is True: return neg(y)
            if y is True: return neg(x)
            if x is False: return y
            if y is False: return x
            x = s.decide(st, x)
            return neg(y) if x else y
        raise Unsupported('i1 ' + op)
    if x is UNDEF or y is UNDEF:
        # padding of structures assembled in registers
        if w % 8 == 0 and (op in ('and', 'or') or op in ('shl', 'lshr') and type(y) is int and y % 8 == 0 and y < w):
            if x is UNDEF: x = Mix([], w // 8)
            if y is UNDEF: y = Mix([], w // 8)
        else: raise UseUndef()
    if isinstance(x, Mix) or isinstance(y, Mix): return mixop(s, st, op, w, x, y)
    if isinstance(x, Ptr) or isinstance(y, Ptr): return ptrop(s, st, op, w, x, y)
    M = 1 << w
    if type(x) is int and type(y) is int:
        return cbin(s, st, op, w, x & (M - 1), y & (M - 1), fl)
    if type(x) is bool or type(y) is bool or type(x) is tuple or type(y) is tuple: raise Unsupported('bool in %s' % op)
    if op in ('add', 'sub', 'mul'):
        if 'nsw' in fl:
            X, Y = s.S(st, x, w), s.S(st, y, w)
            r = add(X, Y) if op == 'add' else sub(X, Y) if op == 'sub' else s.product(st, X, Y)
            H = M >> 1
            s.require(st, And(ge(r, -H), le(r, H - 1)), 'arithmetic: no signed overflow')
            return r
        if 'nuw' in fl:
            X, Y = s.U(st, x, w), s.U(st, y, w)
            r = add(X, Y) if op == 'add' else sub(X, Y) if op == 'sub' else s.product(st, X, Y)
            s.require(st, And(ge0(r), le(r, M - 1)), 'arithmetic: no unsigned overflow (nuw)')
            return r
        if op == 'add': return add(x, y)
        if op == 'sub': return sub(x, y)
        # reduce the operands first: products of wrapped values would be needlessly big
        X, Y = s.U(st, x, w), s.U(st, y, w)
        return s.product(st, X, Y)
    if op in ('shl', 'lshr', 'ashr'):
        k = s.U(st, y, w)
        if isinstance(k, Poly):
            s.require(st, le(k, w - 1), 'arithmetic: shift amount below the width')
            k = s.conc(st, k, 256)
        if k >= w:
            s.require(st, False, 'arithmetic: shift amount below the width')
            raise EndPath()
        if op == 'shl':
            if 'nsw' in fl:
                X = s.S(st, x, w); r = scale(X, 1 << k); H = M >> 1
                s.require(st, And(ge(r, -H), le(r, H - 1)), 'arithmetic: no signed overflow')
                return r
            if 'nuw' in fl:
                X = s.U(st, x, w); r = scale(X, 1 << k)
                s.require(st, le(r, M - 1), 'arithmetic: no unsigned overflow (nuw)')
                return r
            if type(x) is int: return x << k
            # bits that leave on the left are dropped now
            if k: x = s.U(st, x, w); x = s.U(st, scale(x, 1 << k), w)
            return x
        if op == 'lshr': return div(s.U(st, x, w), 1 << k, st.ctx.b)
        return div(s.S(st, x, w), 1 << k, st.ctx.b)
    if op in ('udiv', 'urem'):
        X, Y = s.U(st, x, w), s.U(st, y, w)
        if isinstance(Y, Poly):
            s.require(st, ge(Y, 1), 'arithmetic: no division by zero')
            Y = s.conc(st, Y)
        if Y == 0:
            s.require(st, False, 'arithmetic: no division by zero'); raise EndPath()
        return div(X, Y, st.ctx.b) if op == 'udiv' else mod(X, Y, st.ctx.b)
    if op in ('sdiv', 'srem'):
        X, Y = s.S(st, x, w), s.S(st, y, w)
        if isinstance(Y, Poly):
            s.require(st, ne(Y, 0), 'arithmetic: no division by zero')
            Y = s.conc(st, Y)
        if Y == 0:
            s.require(st, False, 'arithmetic: no division by zero'); raise EndPath()
        if Y == -1: s.require(st, ge(X, 1 - (M >> 1)), 'arithmetic: no signed overflow')
        nn = s.decide(st, ge0(X))
        q = div(X if nn else scale(X, -1), abs(Y), st.ctx.b)
        if nn != (Y > 0): q = scale(q, -1)
        return q if op == 'sdiv' else sub(X, scale(q, Y))
    if op in ('and', 'or', 'xor'):
        if type(x) is int: x, y = y, x
        X = s.U(st, x, w)
        if type(y) is int: y &= M - 1
        else:
            Y = s.U(st, y, w)
            if not isinstance(Y, Poly): y = Y
        if not isinstance(X, Poly):
            if type(y) is int: return cbin(s, st, op, w, X, y, fl)
            X, y = s.U(st, y, w), X
        if type(y) is int:
            if op == 'xor' and y == M - 1: return sub(M - 1, X)
            a = andmask(s, st, X, y, w)
            if op == 'and': return a
            if op == 'or': return add(X, sub(y, a))
            return sub(add(X, y), scale(a, 2))
        if X == Y: return 0 if op == 'xor' else X
        # disjoint bits?
        for A, B in ((X, Y), (Y, X)):
            g = 0
            for c in A.t.values():
                from math import gcd
                g = gcd(g, c)
            if g == 0: continue
            k = (g & -g)
            lo, hi = st.ctx.b.iv(B)
            if lo is not None and lo >= 0 and (hi is not None and hi < k or s.valid(st, le(B, k - 1))):
                return 0 if op == 'and' else add(A, B)
        # small operands: enumerate the smaller one
        for A, B in ((X, Y), (Y, X)):
            lo, hi = st.ctx.b.iv(A)
            if lo is not None and hi is not None and hi - lo <= 64:
                s.conc(st, A, 64)   # forks unless it is a constant
                return binop(s, st, op, w, lo, B, fl)
        raise Unsupported('%s of two symbolic values %r, %r' % (op, X, Y))
    raise Unsupported(op)

def andmask(s, st, X, m, w):
    r = 0
    i = 0
    b = st.ctx.b
    while m >> i:
        if not (m >> i) & 1:
            i += 1; continue
        j = i
        while (m >> j) & 1: j += 1
        hi = X if j >= w else mod(X, 1 << j, b)
        lo = mod(X, 1 << i, b) if i else 0
        r = add(r, sub(hi, lo))
        i = j
    return r

def sg(x, w): return x - (1 << w) if x >> (w - 1) else x

def cbin(s, st, op, w, x, y, fl):
    M = 1 << w
    if op in ('add', 'sub', 'mul'):
        if 'nsw' in fl:
            a, b = sg(x, w), sg(y, w)
            r = a + b if op == 'add' else a - b if op == 'sub' else a * b
            if not -(M >> 1) <= r < M >> 1:
                s.require(st, False, 'arithmetic: no signed overflow'); raise EndPath()
            if st.dry is None: s.record('arithmetic: no signed overflow')
            return r & (M - 1)
        r = x + y if op == 'add' else x - y if op == 'sub' else x * y
        if 'nuw' in fl and not 0 <= r < M:
            s.require(st, False, 'arithmetic: no unsigned overflow (nuw)'); raise EndPath()
        return r & (M - 1)
    if op in ('shl', 'lshr', 'ashr'):
        if y >= w:
            s.require(st, False, 'arithmetic: shift amount below the width'); raise EndPath()
        if op == 'shl':
            if 'nsw' in fl and sg((x << y) & (M - 1), w) != sg(x, w) << y:
                s.require(st, False, 'arithmetic: no signed overflow'); raise EndPath()
            return (x << y) & (M - 1)
        if op == 'lshr': return x >> y
        return (sg(x, w) >> y) & (M - 1)
    if op in ('udiv', 'urem', 'sdiv', 'srem'):
        if y == 0:
            s.require(st, False, 'arithmetic: no division by zero'); raise EndPath()
        if op == 'udiv': return x // y
        if op == 'urem': return x % y
        a, b = sg(x, w), sg(y, w)
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0): q = -q
        if q == M >> 1:
            s.require(st, False, 'arithmetic: no signed overflow'); raise EndPath()
        return (q if op == 'sdiv' else a - q * b) & (M - 1)
    if op == 'and': return x & y
    if op == 'or': return x | y
    if op == 'xor': return x ^ y
    raise Unsupported(op)

def mixop(s, st, op, w, x, y):
    # assembling / taking apart coerced structs
    n = w // 8
    def parts(v):
        if isinstance(v, Mix): return v.parts
        return [(0, n, v)]
    if op in ('lshr', 'shl', 'ashr') and isinstance(x, Mix) and type(y) is int and y % 8 == 0:
        k = y // 8
        if op == 'shl':
            ps = [(o + k, z, v) for o, z, v in x.parts if o + k < n]
            return Mix([(0, k, 0)] + ps, n) if k else x
        ps = []
        for o, z, v in x.parts:
            if o >= k: ps.append((o - k, z, v))
            elif o + z > k: ps.append((0, o + z - k, s.slice(st, v, z, k - o, o + z - k)))
        return s.unmix(st, ps + [(n - k, k, 0)], n) if k else x
    if op in ('or', 'and') :
        if not isinstance(x, Mix): x, y = y, x
        if op == 'or' and x.size == n:
            ps = []
            for o, z, v in parts(x):
                if v is UNDEF: continue
                for o2, z2, v2 in parts(y):
                    lo, hi = max(o, o2), min(o + z, o2 + z2)
                    if lo >= hi or v2 is UNDEF: continue
                    a = s.slice(st, v, z, lo - o, hi - lo) if (lo, hi) != (o, o + z) else v
                    b = s.slice(st, v2, z2, lo - o2, hi - lo) if (lo, hi) != (o2, o2 + z2) else v2
                    if type(b) is int and b == 0: r = a
                    elif type(a) is int and a == 0: r = b
                    else: r = binop(s, st, 'or', 8 * (hi - lo), a, b)
                    ps.append((lo, hi - lo, r))
            ps.sort(key=lambda q: q[0])
            return s.unmix(st, ps, n)
        if op == 'and' and type(y) is int:
            # byte masks
            ps = []
            for o, z, v in x.parts:
                m = (y >> (8 * o)) & ((1 << (8 * z)) - 1)
                if m == (1 << (8 * z)) - 1: ps.append((o, z, v))
                elif m == 0: ps.append((o, z, 0))
                elif isinstance(v, (int, Poly)): ps.append((o, z, binop(s, st, 'and', 8 * z, v, m)))
                else: raise Unsupported('mask of mixed value')
            # bytes that are undefined and masked out become zero
            cov = set()
            for o, z, v in ps: cov.update(range(o, o + z))
            for i in range(n):
                if i not in cov and not (y >> (8 * i)) & 255: ps.append((i, 1, 0))
            ps.sort(key=lambda q: q[0])
            return s.unmix(st, ps, n)
    raise Unsupported('%s on a partially defined value' % op)

def ptrop(s, st, op, w, x, y):
    if op == 'sub' and isinstance(x, Ptr) and isinstance(y, Ptr):
        if x.o == y.o: return sub(x.off, y.off)
        raise Unsupported('difference of unrelated pointers')
    if op in ('add', 'sub') and isinstance(x, Ptr) and not isinstance(y, Ptr):
        return Ptr(x.o, add(x.off, s.S(st, y, 64)) if op == 'add' else sub(x.off, s.S(st, y, 64)))
    if op == 'add' and isinstance(y, Ptr): return Ptr(y.o, add(y.off, s.S(st, x, 64)))
    if op == 'and' and isinstance(x, Ptr) and type(y) is int and y in (1, 3, 7):
        return s.U(st, x.off, 64) & y if type(x.off) is int else 0
    raise Unsupported('%s on pointers' % op)

def i_icmp(s, st, fr, ins):
    _, res, pred, t, a, b = ins
    x = s.val(st, fr, a, t); y = s.val(st, fr, b, t)
    fr.regs[res] = icmp(s, st, pred, t, x, y)

def icmp(s, st, pred, t, x, y):
    if x is UNDEF or y is UNDEF: raise UseUndef()
    if isinstance(x, Ptr) or isinstance(y, Ptr):
        if not (isinstance(x, Ptr) and isinstance(y, Ptr)):
            if isinstance(x, Ptr) and y == 0: y = NULL
            elif isinstance(y, Ptr) and x == 0: x = NULL
            else: raise Unsupported('comparison of pointer and integer')
        if x.o != y.o:
            if pred == 'eq': return False
            if pred == 'ne': return True
            # unspecified order of unrelated objects: fixed by identity
            r = str(x.o) < str(y.o)
            return r if pred in ('ult', 'ule', 'slt', 'sle') else not r
        d = sub(x.off, y.off)
        return cmp0(pred, d)
    if t.k == 'i' and t.n == 1:
        x = cond_of(s, st, x); y = cond_of(s, st, y)
        if pred == 'eq': r = binop(s, st, 'xor', 1, x, y); return neg(r)
        if pred == 'ne': return binop(s, st, 'xor', 1, x, y)
        raise Unsupported('i1 comparison')
    w = t.n
    if type(x) is int and type(y) is int:
        M = (1 << w) - 1
        x &= M; y &= M
        if pred[0] == 's': x, y = sg(x, w), sg(y, w)
        d = x - y
        return cmp0(pred, d)
    if isinstance(x, Mix) or isinstance(y, Mix): raise Unsupported('comparison of a partially defined value')
    if pred[0] == 's': return cmp0(pred, sub(s.S(st, x, w), s.S(st, y, w)))
    if pred in ('eq', 'ne'):
        d = sub(x, y)
        if isinstance(d, Poly):
            lo, hi = st.ctx.b.iv(d)
            if lo is not None and hi is not None and -(1 << w) < lo and hi < (1 << w): return cmp0(pred, d)
    return cmp0(pred, sub(s.U(st, x, w), s.U(st, y, w)))

def cmp0(pred, d):
    if pred == 'eq': return eq0(d)
    if pred == 'ne': return ne0(d)
    p = pred[1:]
    if p == 'ge': return ge0(d)
    if p == 'gt': return gt0(d)
    if p == 'le': return ge0(scale(d, -1))
    return gt0(scale(d, -1))

def sign_of(s, st, bits, N):
    """fork on the sign bit; -> (negative, magnitude)"""
    H = 1 << (N - 1)
    b = s.U(st, bits, N)
    if isinstance(b, Poly):
        n = s.decide(st, ge(b, H))
    else: n = b >= H
    return n, (sub(b, H) if n else b)

def i_fcmp(s, st, fr, ins):
    _, res, pred, t, a, b = ins
    x = s.val(st, fr, a, t); y = s.val(st, fr, b, t)
    fr.regs[res] = fcmp(s, st, pred, t.k, x, y)

def fcmp(s, st, pred, k, x, y):
    if x is UNDEF or y is UNDEF: raise UseUndef()
    if pred == 'false': return False
    if pred == 'true': return True
    N, mb, INF = FMT[k]
    if not isinstance(y, int) and not isinstance(x, int):
        if x == y:
            n, m = sign_of(s, st, x, N)
            nan = gt(m, INF)
            base = pred in ('oeq', 'oge', 'ole', 'ord', 'ueq', 'uge', 'ule')
            if pred[0] == 'u': return Or(nan, True) if base else (nan if pred in ('uno', 'une', 'ugt', 'ult') else True)
            return neg(nan) if base else False
        nx, mx = sign_of(s, st, x, N); ny, my = sign_of(s, st, y, N)
    elif isinstance(x, int):
        ny, my = sign_of(s, st, y, N); nx, mx = x >> (N - 1) == 1, x & ((1 << (N - 1)) - 1)
    else:
        nx, mx = sign_of(s, st, x, N); ny, my = y >> (N - 1) == 1, y & ((1 << (N - 1)) - 1)
    unordered = Or(gt(mx, INF), gt(my, INF))
    if pred == 'uno': return unordered
    if pred == 'ord': return neg(unordered)
    # total order on encodings with +-0 merged
    kx = scale(mx, -1) if nx else mx
    ky = scale(my, -1) if ny else my
    d = sub(kx, ky)
    r = {'eq': eq0, 'ne': ne0, 'ge': ge0, 'gt': gt0, 'le': lambda q: ge0(scale(q, -1)), 'lt': lambda q: gt0(scale(q, -1))}[pred[1:]](d)
    return And(neg(unordered), r) if pred[0] == 'o' else Or(unordered, r)

def i_fbin(s, st, fr, ins):
    _, res, op, t, a, b = ins
    x = s.val(st, fr, a, t); y = s.val(st, fr, b, t)
    if x is UNDEF or y is UNDEF: raise UseUndef()
    if not (isinstance(x, int) and isinstance(y, int)): raise Unsupported('floating point arithmetic on symbolic values')
    if t.k not in FMT: raise Unsupported('long double')
    X, Y = b2f(x, t.k), b2f(y, t.k)
    try:
        if op == 'fadd': r = X + Y
        elif op == 'fsub': r = X - Y
        elif op == 'fmul': r = X * Y
        elif op == 'fdiv': r = X / Y
        else: raise Unsupported(op)
        fr.regs[res] = f2b(r, t.k)
    except (ZeroDivisionError, OverflowError): raise Unsupported('floating point exception')

def i_fneg(s, st, fr, ins):
    _, res, t, a = ins
    x = s.val(st, fr, a, t)
    if x is UNDEF: raise UseUndef()
    N, mb, INF = FMT[t.k]
    n, m = sign_of(s, st, x, N)
    fr.regs[res] = m if n else add(m, 1 << (N - 1))

def i_cast(s, st, fr, ins):
    _, res, op, t, a, t2 = ins
    x = s.val(st, fr, a, t)
    if op in ('ptrtoint', 'inttoptr', 'bitcast'):
        if op == 'inttoptr' and x == 0: x = NULL
        fr.regs[res] = x
        return
    if x is UNDEF:
        if op in ('trunc', 'zext', 'sext'):
            fr.regs[res] = UNDEF; return
        raise UseUndef()
    fr.regs[res] = cast(s, st, op, t, x, t2)

def cast(s, st, op, t, x, t2):
    if op == 'zext':
        if t.n == 1:
            x = cond_of(s, st, x)
            return 1 if s.decide(st, x) else 0
        if isinstance(x, Mix): return Mix(x.parts + [(t.n // 8, (t2.n - t.n) // 8, 0)], t2.n // 8)
        if isinstance(x, Ptr): raise Unsupported('zext of pointer')
        return s.U(st, x, t.n)
    if op == 'sext':
        if t.n == 1:
            x = cond_of(s, st, x)
            return (1 << t2.n) - 1 if s.decide(st, x) else 0
        if isinstance(x, int): return s.S(st, x, t.n) & ((1 << t2.n) - 1)
        if isinstance(x, Mix): raise Unsupported('sext of mixed')
        return s.S(st, x, t.n)
    if op == 'trunc':
        if isinstance(x, (Mix,)):
            return s.slice(st, x, t.n // 8, 0, t2.n // 8)
        if isinstance(x, Ptr): raise Unsupported('trunc of pointer')
        if t2.n == 1:
            if isinstance(x, int): return bool(x & 1)
            u = s.U(st, x, t.n)
            if not isinstance(u, Poly): return bool(u & 1)
            lo, hi = st.ctx.b.iv(u)
            if hi is not None and hi <= 1: return ge(u, 1)
            return eq(mod(u, 2, st.ctx.b), 1)
        if isinstance(x, int): return x & ((1 << t2.n) - 1)
        return x
    if op in ('sitofp', 'uitofp'):
        v = s.S(st, x, t.n) if op == 'sitofp' else s.U(st, x, t.n)
        v = s.conc(st, v)
        if t2.k not in FMT: raise Unsupported('long double')
        if abs(v) >= 1 << (53 if t2.k == 'double' else 24): raise Unsupported('inexact conversion to floating point')
        return f2b(float(v), t2.k)
    if op in ('fptosi', 'fptoui'):
        if not isinstance(x, int): raise Unsupported('conversion of a symbolic floating point value')
        v = b2f(x, t.k)
        if v != v or v in (float('inf'), float('-inf')):
            s.require(st, False, 'arithmetic: float to integer in range'); raise EndPath()
        v = int(v)
        lo, hi = (-(1 << (t2.n - 1)), (1 << (t2.n - 1)) - 1) if op == 'fptosi' else (0, (1 << t2.n) - 1)
        if not lo <= v <= hi:
            s.require(st, False, 'arithmetic: float to integer in range'); raise EndPath()
        return v & ((1 << t2.n) - 1)
    if op in ('fpext', 'fptrunc'):
        if not isinstance(x, int) or t2.k not in FMT or t.k not in FMT: raise Unsupported(op)
        return f2b(b2f(x, t.k), t2.k)
    raise Unsupported(op)

def i_load(s, st, fr, ins):
    _, res, t, a = ins
    p = s.val(st, fr, a, PTR)
    if t.k in ('struct', 'array'):
        fr.regs[res] = load_agg(s, st, p, t)
        return
    v = s.load(st, p, size_of(t), t)
    if t.k == 'i' and t.n == 1:
        v = cast(s, st, 'trunc', irparse.I8, v, irparse.I1) if v is not UNDEF else v
    elif t.k == 'ptr' and v == 0 and type(v) is int: v = NULL
    fr.regs[res] = v

def load_agg(s, st, p, t):
    if t.k == 'struct':
        return [load_agg(s, st, Ptr(p.o, add(p.off, offsets(t)[i])), e) for i, e in enumerate(t.e)]
    if t.k == 'array':
        return [load_agg(s, st, Ptr(p.o, add(p.off, i * size_of(t.e))), t.e) for i in range(t.n)]
    return s.load(st, p, size_of(t), t)

def i_store(s, st, fr, ins):
    _, _, t, v, a = ins
    p = s.val(st, fr, a, PTR)
    x = s.val(st, fr, v, t)
    store_val(s, st, p, t, x)

def store_val(s, st, p, t, x):
    if t.k == 'struct' and isinstance(x, list):
        for i, e in enumerate(t.e): store_val(s, st, Ptr(p.o, add(p.off, offsets(t)[i])), e, x[i])
        return
    if t.k == 'array' and isinstance(x, list):
        for i in range(t.n): store_val(s, st, Ptr(p.o, add(p.off, i * size_of(t.e))), t.e, x[i])
        return
    if t.k in ('struct', 'array') and x is UNDEF: return
    if t.k == 'i' and t.n == 1 and x is not UNDEF:
        x = 1 if s.decide(st, cond_of(s, st, x)) else 0
    s.store(st, p, size_of(t), x)

def i_alloca(s, st, fr, ins):
    _, res, t = ins
    o = st.alloc(fr.f.name + ':' + res, size_of(t), 'stack')
    fr.allocas.append(o.id)
    fr.regs[res] = Ptr(o.id, 0)

def i_gep(s, st, fr, ins):
    _, res, bt, base, idx = ins
    p = s.val(st, fr, base, PTR)
    if p is UNDEF: raise UseUndef()
    if not isinstance(p, Ptr): raise Unsupported('gep on %r' % (p,))
    off = p.off
    cur = bt
    for n, (it, iv) in enumerate(idx):
        x = s.val(st, fr, iv, it)
        if x is UNDEF: raise UseUndef()
        if n == 0: off = add(off, scale(s.S(st, x, it.n), size_of(cur)))
        elif cur.k == 'struct':
            off = add(off, offsets(cur)[x]); cur = cur.e[x]
        else:
            cur = cur.e
            off = add(off, scale(s.S(st, x, it.n), size_of(cur)))
    fr.regs[res] = Ptr(p.o, off)

def i_jmp(s, st, fr, ins): return s.jump(st, fr, ins[2])

def i_br(s, st, fr, ins):
    c = s.val(st, fr, ins[2], irparse.I1)
    c = cond_of(s, st, c)
    return s.jump(st, fr, ins[3] if s.decide(st, c) else ins[4])

def i_switch(s, st, fr, ins):
    _, _, t, v, d, cases = ins
    x = s.val(st, fr, v, t)
    if x is UNDEF: raise UseUndef()
    w = t.n
    if type(x) is int:
        x &= (1 << w) - 1
        for c, b in cases:
            if c == x: return s.jump(st, fr, b)
        return s.jump(st, fr, d)
    X = s.S(st, x, w)
    byb = {}
    for c, b in cases: byb.setdefault(b, []).append(sg(c, w))
    conds = []
    targets = []
    others = []
    for b, cs in byb.items():
        cs.sort()
        i = 0
        while i < len(cs):
            j = i
            while j + 1 < len(cs) and cs[j + 1] == cs[j] + 1: j += 1
            c = And(ge(X, cs[i]), le(X, cs[j])) if j > i else eq(X, cs[i])
            conds.append(c); targets.append(b); others.append(neg(c))
            i = j + 1
    for c, b in zip(conds, targets):
        if st.ctx.tri(c) is True: return s.jump(st, fr, b)
    # default: outside of all the runs
    runs = sorted(sg(c, w) for c, b in cases if b != d)
    rest = []
    i = 0
    while i < len(runs):
        j = i
        while j + 1 < len(runs) and runs[j + 1] == runs[j] + 1: j += 1
        rest.append(ne(X, runs[i]) if i == j else Or(lt(X, runs[i]), gt(X, runs[j])))
        i = j + 1
    dc = And(*rest)
    if st.ctx.tri(dc) is True: return s.jump(st, fr, d)
    raise Fork([c for c, b in zip(conds, targets) if b != d] + [dc])

def i_ret(s, st, fr, ins):
    _, _, t, v = ins
    x = s.val(st, fr, v, t) if v is not None else None
    if st.dry is not None and len(st.frames) == st.dry.depth: raise DryExit()
    for a in fr.allocas: st.mem.pop(a, None)
    st.frames.pop()
    if not st.frames:
        s.paths += 1
        s.finish_outer(st, x)
        return DONE
    up = st.frames[-1]
    if fr.ret is not None: up.regs[fr.ret] = x
    if up.f.blocks[up.blk][1][up.idx][0] == 'invoke':
        s.jump(st, up, up.f.blocks[up.blk][1][up.idx][5])
    else: up.idx += 1
    return JUMPED

def finish_outer(s, st, x):
    """post-condition at the outermost return; may fork"""
    todo = [st]
    while todo:
        q = todo.pop()
        try:
            s.finish(q, x)
        except Fork as f:
            todo.extend(s.fork(q, f.conds))
        except EndPath: pass
        except UseUndef:
            try: s.require(q, False, 'result: fully defined')
            except EndPath: pass
Exec.finish_outer = finish_outer

def i_unreachable(s, st, fr, ins):
    s.require(st, False, 'control: no unreachable code reached')
    raise EndPath()

def i_select(s, st, fr, ins):
    _, res, t, c, a, b = ins
    cv = cond_of(s, st, s.val(st, fr, c, irparse.I1))
    x, y = s.val(st, fr, a, t), s.val(st, fr, b, t)
    if type(x) is type(y) and x == y:
        fr.regs[res] = x
        return
    if t.k == 'i' and t.n == 1 and cv is not True and cv is not False and x is not UNDEF and y is not UNDEF:
        x = cond_of(s, st, x); y = cond_of(s, st, y)
        fr.regs[res] = Or(And(cv, x), And(neg(cv), y))
        return
    fr.regs[res] = x if s.decide(st, cv) else y

def i_extract(s, st, fr, ins):
    _, res, t, a, ix = ins
    v = s.val(st, fr, a, t)
    for i in ix:
        if v is UNDEF: break
        v = v[i]
    fr.regs[res] = v

def i_insert(s, st, fr, ins):
    _, res, t, a, t2, b, ix = ins
    v = s.val(st, fr, a, t); x = s.val(st, fr, b, t2)
    def ins_(v, t, ix):
        n = len(t.e) if t.k == 'struct' else t.n
        v = list(v) if isinstance(v, list) else [UNDEF] * n
        if len(ix) == 1: v[ix[0]] = x
        else: v[ix[0]] = ins_(v[ix[0]], t.e[ix[0]] if t.k == 'struct' else t.e, ix[1:])
        return v
    fr.regs[res] = ins_(v, t, ix)

def i_freeze(s, st, fr, ins):
    _, res, t, a = ins
    v = s.val(st, fr, a, t)
    if v is UNDEF:
        v = var('frozen', 0, (1 << t.n) - 1) if t.k == 'i' and t.n > 1 else UNDEF
    fr.regs[res] = v

def i_call(s, st, fr, ins):
    op, res, t, callee, args = ins[:5]
    if callee[0] == 'g': name = callee[1]
    else:
        p = fr.regs[callee[1]]
        if isinstance(p, Ptr) and isinstance(p.o, str) and p.o.startswith('fn:'): name = p.o[3:]
        elif isinstance(p, Ptr) and p.o in s.hooks: name = p.o
        else: raise Unsupported('indirect call')
    name = s.m.alias.get(name, name)
    vals = [s.val(st, fr, a, at) if at.k != 'metadata' else None for at, a in args]
    if st.dry is not None and (name in s.hooks or name in s.contracts): raise DryAgain()
    if name in s.hooks:
        r = s.hooks[name](s, st, vals, args)
    elif name in s.contracts:
        c = s.contracts[name]
        r = c(s, st, vals)
        s.forget_globals(st)
        s.called.add(name)
    elif name.startswith('llvm.'):
        r = intrinsic(s, st, name, vals, args, t)
    elif name in EXTERN:
        r = EXTERN[name](s, st, vals)
        s.trust.add(name)
    elif name in s.m.funcs:
        s.call(st, name, vals, res)
        return JUMPED
    else:
        for pat, h in EXTERN_RE:
            if pat.match(name):
                r = h(s, st, vals, name)
                s.trust.add(name)
                break
        else:
            raise Unsupported('external function ' + name)
    if res is not None: fr.regs[res] = r
    if op == 'invoke': return s.jump(st, fr, ins[5])

def i_landingpad(s, st, fr, ins):
    s.require(st, False, 'control: no exception is thrown')
    raise EndPath()

DISPATCH = {'bin': i_bin, 'icmp': i_icmp, 'fcmp': i_fcmp, 'fbin': i_fbin, 'fneg': i_fneg, 'cast': i_cast, 'load': i_load,
            'store': i_store, 'alloca': i_alloca, 'gep': i_gep, 'jmp': i_jmp, 'br': i_br, 'switch': i_switch, 'ret': i_ret,
            'unreachable': i_unreachable, 'select': i_select, 'extractvalue': i_extract, 'insertvalue': i_insert,
            'freeze': i_freeze, 'call': i_call, 'invoke': i_call, 'landingpad': i_landingpad, 'resume': i_landingpad}

def intrinsic(s, st, name, v, args, t):
    n = name[5:]
    if n.startswith(('lifetime.start',)):
        return None
    if n.startswith('lifetime.end'):
        p = v[1]
        o = st.mem.get(p.o)
        if o is not None and o.kind == 'stack':
            st.w(p.o).cells = {}
        return None
    if n.startswith(('memcpy.', 'memmove.')):
        s.movemem(st, v[0], v[1], v[2]); return None
    if n.startswith('memset.'):
        s.setmem(st, v[0], v[1], v[2]); return None
    if n.startswith(('umax.', 'umin.', 'smax.', 'smin.')):
        w = t.n
        f = s.U if n[0] == 'u' else s.S
        x, y = f(st, v[0], w), f(st, v[1], w)
        g = s.decide(st, ge(x, y))
        return x if g == (n[1:4] == 'max') else y
    if n.startswith('abs.'):
        x = s.S(st, v[0], t.n)
        if v[1] is True: s.require(st, ge(x, 1 - (1 << (t.n - 1))), 'arithmetic: no signed overflow')
        return x if s.decide(st, ge0(x)) else scale(x, -1)
    if n.startswith('assume'):
        if v[0] is not True:
            c = cond_of(s, st, v[0])
            s.require(st, c, 'control: assumed condition holds')
        return None
    if n.startswith('expect'):
        return v[0]
    if n.startswith(('ctlz.', 'cttz.')):
        w = t.n
        x = s.U(st, v[0], w)
        if not isinstance(x, Poly):
            if x == 0:
                if v[1] is True:
                    s.require(st, False, 'arithmetic: no count of zero bits of 0'); raise EndPath()
                return w
            return w - x.bit_length() if n[2] == 'l' else (x & -x).bit_length() - 1
        if n[2] == 't':
            if s.decide(st, eq(x, 0)):
                if v[1] is True: s.require(st, False, 'arithmetic: no count of zero bits of 0'); raise EndPath()
                return w
            for k in range(w):
                if k == w - 1 or not s.decide(st, eq(mod(x, 1 << (k + 1), st.ctx.b), 0)): return k
        for k in range(w):
            if st.ctx.tri(And(ge(x, 1 << k), le(x, (1 << (k + 1)) - 1))) is True: return w - 1 - k
        if st.ctx.tri(eq(x, 0)) is True:
            if v[1] is True:
                s.require(st, False, 'arithmetic: no count of zero bits of 0'); raise EndPath()
            return w
        raise Fork([eq(x, 0)] + [And(ge(x, 1 << k), le(x, (1 << (k + 1)) - 1)) for k in range(w)])
    if n.startswith('fabs.'):
        k = t.k
        N, mb, INF = FMT[k]
        ng, m = sign_of(s, st, v[0], N)
        return m
    if n.startswith('copysign.'):
        N, mb, INF = FMT[t.k]
        n1, m = sign_of(s, st, v[0], N)
        n2, _ = sign_of(s, st, v[1], N)
        return add(m, 1 << (N - 1)) if n2 else m
    if n.startswith('is.fpclass.'):
        k = args[0][0].k
        N, mb, INF = FMT[k]
        ng, m = sign_of(s, st, v[0], N)
        mask = v[1]
        cs = []
        Q = 1 << (mb - 1)
        # snan, qnan, -inf, -normal, -sub, -0, +0, +sub, +normal, +inf
        if mask & 1: cs.append(And(gt(m, INF), lt(m, INF + Q)))
        if mask & 2: cs.append(ge(m, INF + Q))
        for bit, c in ((2, eq(m, INF)), (3, And(ge(m, 1 << mb), lt(m, INF))), (4, And(ge(m, 1), lt(m, 1 << mb))), (5, eq(m, 0))):
            if ng and mask & (1 << bit): cs.append(c)
            if not ng and mask & (1 << (11 - bit)): cs.append(c)
        if mask & 3 == 3: cs = [gt(m, INF)] + cs[2:]
        return Or(*cs)
    if '.with.overflow.' in n:
        w = args[0][0].n
        op = n[1:4]
        f = s.U if n[0] == 'u' else s.S
        x, y = f(st, v[0], w), f(st, v[1], w)
        r = add(x, y) if op == 'add' else sub(x, y) if op == 'sub' else mul(x, y)
        lo, hi = (0, (1 << w) - 1) if n[0] == 'u' else (-(1 << (w - 1)), (1 << (w - 1)) - 1)
        return [r if isinstance(r, Poly) else r & ((1 << w) - 1), Or(lt(r, lo), gt(r, hi))]
    if n.startswith(('usub.sat', 'uadd.sat')):
        x, y = s.U(st, v[0], t.n), s.U(st, v[1], t.n)
        if n[1:4] == 'sub':
            d = sub(x, y)
            return d if s.decide(st, ge0(d)) else 0
        d = add(x, y)
        return d if s.decide(st, le(d, (1 << t.n) - 1)) else (1 << t.n) - 1
    if n.startswith(('fshl.', 'fshr.')):
        w = t.n
        k = s.conc(st, s.U(st, v[2], w)) % w
        hi, lo = s.U(st, v[0], w), s.U(st, v[1], w)
        if n[3] == 'r': k = (w - k) % w if k else 0
        if n[3] == 'r' and k == 0: return lo
        if k == 0: return hi
        return add(mod(scale(hi, 1 << k), 1 << w, st.ctx.b), div(lo, 1 << (w - k), st.ctx.b))
    if n.startswith('trap'):
        s.require(st, False, 'control: no trap'); raise EndPath()
    if n.startswith('threadlocal.address'): return v[0]
    if n.startswith('ctpop.'):
        x = s.U(st, v[0], t.n)
        if isinstance(x, Poly): raise Unsupported('ctpop')
        return bin(x).count('1')
    raise Unsupported('intrinsic ' + name)

# ---------------------------------------------------------------- external functions (trusted contracts)
def dead(msg):
    def h(s, st, v, name=None):
        s.require(st, False, msg)
        raise EndPath()
    return h

def x_new(s, st, v, name=None):
    n = s.conc(st, s.U(st, v[0], 64))
    o = st.alloc('heap', n, 'heap')
    return Ptr(o.id, 0)
def x_delete(s, st, v, name=None):
    p = v[0]
    if isinstance(p, Ptr) and p.o == 0: return None
    o = st.mem.get(p.o)
    if o is None or o.kind != 'heap' or p.off != 0:
        s.require(st, False, 'memory: valid deallocation'); raise EndPath()
    del st.mem[p.o]
    return None
def x_strlen(es):
    def h(s, st, v, name=None):
        p = v[0]
        for i in range(1 << 16):
            c = s.load(st, Ptr(p.o, add(p.off, i * es)), es)
            if c is UNDEF: raise UseUndef()
            if s.decide(st, eq(s.U(st, c, 8 * es), 0)): return i
        raise Unsupported('strlen')
    return h
def x_memset(es):
    def h(s, st, v, name=None):
        s.setmem(st, v[0], v[1], v[2], es); return v[0]
    return h
def x_memmove(es):
    def h(s, st, v, name=None):
        s.movemem(st, v[0], v[1], scale(s.U(st, v[2], 64), es)); return v[0]
    return h
def x_errno(s, st, v, name=None):
    return Ptr(s.errno_obj(st), 0)
def errno_obj(s, st):
    for o in st.mem.values():
        if o.name == 'errno': return o.id
    o = st.alloc('errno', 4, 'ext')
    o.cells[0] = (4, var('errno0', -(1 << 31), (1 << 31) - 1))
    return o.id
Exec.errno_obj = errno_obj
def x_abs(s, st, v, name=None):
    x = s.S(st, v[0], 32)
    s.require(st, ge(x, 1 - (1 << 31)), 'arithmetic: no signed overflow')
    return x if s.decide(st, ge0(x)) else scale(x, -1)
def x_nop(s, st, v, name=None): return None
def x_tolower(w):
    def h(s, st, v, name=None):
        c = s.S(st, v[0], w)
        if s.decide(st, And(ge(c, 65), le(c, 90))): return add(c, 32)
        return c
    return h

def x_ctype(f):
    """a function of <cctype> in the classic locale"""
    def h(s, st, v, name=None):
        c = s.S(st, v[0], 32)
        s.require(st, And(ge(c, -1), le(c, 255)), 'library: argument of a character function is an unsigned char')
        return f(s, st, c)
    return h

EXTERN = {
    '__assert_fail': dead('control: no internal assertion fails'),
    '__clang_call_terminate': dead('control: std::terminate is not called'),
    '_ZSt9terminatev': dead('control: std::terminate is not called'),
    '_ZSt21__glibcxx_assert_failPKciS0_S0_': dead('control: no library assertion fails'), 'abort': dead('control: abort is not called'),
    '__cxa_begin_catch': dead('control: no exception is thrown'),
    '__cxa_throw': dead('control: no exception is thrown'),
    '__cxa_rethrow': dead('control: no exception is thrown'),
    '_Znwm': x_new, '_Znam': x_new, 'malloc': x_new,
    '_ZdlPv': x_delete, '_ZdlPvm': x_delete, '_ZdaPv': x_delete, '_ZdaPvm': x_delete, 'free': x_delete,
    'strlen': x_strlen(1), 'wcslen': x_strlen(4),
    'memset': x_memset(1), 'wmemset': x_memset(4), 'memmove': x_memmove(1), 'memcpy': x_memmove(1), 'wmemmove': x_memmove(4), 'wmemcpy': x_memmove(4),
    '__errno_location': x_errno,
    '__cxa_guard_acquire': lambda s, st, v, name=None: var('guard', 0, 1), '__cxa_guard_release': x_nop, '__cxa_guard_abort': x_nop, '__cxa_atexit': lambda s, st, v, name=None: 0,
    'tolower': x_ctype(lambda s, st, c: add(c, 32) if s.decide(st, And(ge(c, 65), le(c, 90))) else c),
    'toupper': x_ctype(lambda s, st, c: sub(c, 32) if s.decide(st, And(ge(c, 97), le(c, 122))) else c),
    'isdigit': x_ctype(lambda s, st, c: int(s.decide(st, And(ge(c, 48), le(c, 57))))),
    'isalpha': x_ctype(lambda s, st, c: int(s.decide(st, Or(And(ge(c, 65), le(c, 90)), And(ge(c, 97), le(c, 122)))))),
    'isalnum': x_ctype(lambda s, st, c: int(s.decide(st, Or(And(ge(c, 48), le(c, 57)), And(ge(c, 65), le(c, 90)), And(ge(c, 97), le(c, 122)))))),
    'abs': x_abs,
    '_ZNSt6localeC1Ev': x_nop, '_ZNSt6localeD1Ev': x_nop, '_ZNSt6localeC2Ev': x_nop, '_ZNSt6localeD2Ev': x_nop,
    '_ZSt7tolowerIcET_S0_RKSt6locale': x_tolower(8), '_ZSt7tolowerIwET_S0_RKSt6locale': x_tolower(32),
}
EXTERN_RE = [(re.compile(r'_ZSt\d+__throw_'), dead('control: no exception is thrown'))]

# ---------------------------------------------------------------- liveness (used to prune states at loop heads)
def uses(ins):
    out = []
    def o(x):
        if x[0] == 'r': out.append(x[1])
    k = ins[0]
    if k == 'bin': o(ins[4]); o(ins[5])
    elif k in ('icmp', 'fcmp', 'fbin'): o(ins[4]); o(ins[5])
    elif k == 'fneg': o(ins[3])
    elif k == 'cast': o(ins[4])
    elif k == 'load': o(ins[3])
    elif k == 'store': o(ins[3]); o(ins[4])
    elif k == 'gep':
        o(ins[3])
        for _, v in ins[4]: o(v)
    elif k == 'br': o(ins[2])
    elif k == 'switch': o(ins[3])
    elif k == 'ret':
        if ins[3] is not None: o(ins[3])
    elif k == 'select': o(ins[3]); o(ins[4]); o(ins[5])
    elif k in ('call', 'invoke'):
        if ins[3][0] == 'r': out.append(ins[3][1])
        for t, v in ins[4]:
            if t.k != 'metadata': o(v)
    elif k == 'extractvalue': o(ins[3])
    elif k == 'insertvalue': o(ins[3]); o(ins[5])
    elif k == 'freeze': o(ins[3])
    return out

def liveness(f):
    """label -> registers live at the block's start, after its phis"""
    gen, kill = {}, {}
    for b in f.order:
        g, k = set(), set()
        for i in f.blocks[b][1]:
            for u in uses(i):
                if u not in k: g.add(u)
            if i[1] is not None: k.add(i[1])
        gen[b], kill[b] = g, k
    live = {b: set() for b in f.order}
    ch = True
    while ch:
        ch = False
        for b in reversed(f.order):
            out = set()
            for x in succs(f, b):
                phis = {p[1] for p in f.blocks[x][0]}
                out |= live[x] - phis
                for p in f.blocks[x][0]:
                    for v, src in p[3]:
                        if src == b and v[0] == 'r': out.add(v[1])
            n = gen[b] | (out - kill[b])
            if n != live[b]:
                live[b] = n; ch = True
    return live

def live_after(f, b, idx, live):
    """registers live after instruction idx of block b"""
    out = set()
    for x in succs(f, b):
        phis = {p[1] for p in f.blocks[x][0]}
        out |= live[x] - phis
        for p in f.blocks[x][0]:
            for v, src in p[3]:
                if src == b and v[0] == 'r': out.add(v[1])
    for i in reversed(f.blocks[b][1][idx + 1:]):
        if i[1] is not None: out.discard(i[1])
        out.update(uses(i))
    r = f.blocks[b][1][idx][1]
    out.discard(r)
    return out
