"""Loops that are cut at their head.  All states that arrive at a head with the same discrete part (control
position, flags, layout of the memory, automaton state of the ghost) are joined into one abstract state: the
affine hull of their numeric parts together with those linear inequalities, out of a fixed family, that hold in
all of them.  The loop body is executed from the abstract state until nothing changes; what is left is an
inductive invariant, and only the obligations of the last execution from each abstract state count."""
import time
from fractions import Fraction
from math import gcd
from terms import *
from solver import Ctx, solve
import exec as X
from exec import Ptr, UNDEF, Mix, Fork, EndPath, Failure, Unsupported, Budget, UseUndef, State, DryExit, DryAgain
import ghost as G

def sg(st):
    """the automaton, if the string is followed character by character"""
    return st.ghost if isinstance(st.ghost, G.SGhost) else None

import os
DEBUG = os.environ.get('DBGL')

class Demote(Exception):
    def __init__(s, cols): s.cols = cols

class Dry:
    def __init__(s, depth, fn, head, body): s.depth, s.fn, s.head, s.body = depth, fn, head, body

class Cur:
    def __init__(s): s.obl = {}; s.fail = {}; s.how = {}

CONSTS = (0, 1, 9, 127, 255, 2047, 2048, 2049, 2050, 2100, 10 ** 4, 10 ** 6, 2 ** 30 - 1)
LOWS = (10 ** 4, 2, 1, 0, -2050, -2100, -10 ** 6, -2 ** 30 + 1)

def prim_pos(p):
    """p divided by the content of its coefficients"""
    k = 0
    den = 1
    for c in p.t.values():
        if isinstance(c, Fraction): den = den * c.denominator // gcd(den, c.denominator)
    for c in p.t.values(): k = gcd(k, abs(int(c * den)))
    return scale(p, Fraction(den, k)) if (den, k) != (1, 1) else p

class Entry:
    def __init__(s, key, rep, cols, name):
        s.key, s.rep, s.cols, s.name = key, rep, cols, name
        s.P = None; s.rows = []; s.piv = []
        s.cands = None; s.kills = {}; s.groups = []; s.dirty = True; s.runs = 0; s.cur = Cur(); s.edges = {}; s.succ = set(); s.q = None

    def hash(s):
        import hashlib
        return hashlib.sha1(repr(s.key).encode()).hexdigest()[:20]

class Loops:
    def __init__(s, ex, consts, cands, hints=None):
        s.ex = ex
        s.hints = hints or {}
        s.entries = {}
        s.start = Cur()
        s.spec = cands
        s.persist = None
        s.base = None
        s.live = {}
        s.seen = {}
        s.positions = set()
        s.order = []
    # ------------------------------------------------------------ state <-> columns
    def lives(s, f):
        l = s.live.get(f.name)
        if l is None: l = s.live[f.name] = X.liveness(f)
        return l
    def columns(s, st):
        """-> (discrete part, [(id, value, setter)], layout ordered object list)"""
        disc = []; cols = []
        objs = []; oname = {}; ocount = {}
        todo = []
        def objid(o):
            if isinstance(o, str) or o == 0: 
                ob = s.ex.obj(st, o) if o else None
                if ob is not None and ob.kind == 'global' and o not in oname:
                    oname[o] = o; todo.append(o)
                return o
            if o in oname: return oname[o]
            ob = st.mem.get(o)
            if ob is None: return ('dead',)
            n = ocount.get(ob.name, 0); ocount[ob.name] = n + 1
            i = (ob.name, n)
            oname[o] = i
            todo.append(o)
            return i
        def value(id, v, put):
            if v is UNDEF:
                disc.append((id, 'undef'))
            elif isinstance(v, Ptr):
                disc.append((id, 'ptr', objid(v.o)))
                o = v.o
                if v.off is not None and o:
                    g, ob = sg(st), st.mem.get(o)
                    if ob is not None and ob.kind == 'str': s.positions.add(id + ('off',))
                    if g is not None and g.es > 1 and ob is not None and ob.kind == 'str':
                        cols.append((id + ('off',), g.rel(s.ex, st, v.off), lambda x: put(Ptr(o, scale(x, g.es))), 'ptr'))
                    else: cols.append((id + ('off',), v.off, lambda x: put(Ptr(o, x)), 'ptr'))
            elif v is True or v is False: disc.append((id, v))
            elif isinstance(v, list):
                vs = list(v)
                for i, x in enumerate(v):
                    def p(y, i=i):
                        vs[i] = y; put(list(vs))
                    value(id + (i,), x, p)
            elif isinstance(v, Mix):
                ps = list(v.parts)
                disc.append((id, 'mix', tuple((o, z) for o, z, _ in ps)))
                for i, (o, z, x) in enumerate(ps):
                    def p(y, i=i, o=o, z=z):
                        ps[i] = (o, z, y); put(Mix(list(ps), v.size))
                    value(id + (i,), x, p)
            elif type(v) is tuple:
                if v and v[0] == 'lazy': disc.append((id, 'lazy', v[1])); return
                raise Fork([v, neg(v)])
            elif isinstance(v, (int, Poly)):
                cols.append((id, v, put, 'int'))
            else: raise Unsupported('value %r at a loop head' % (v,))
        for o in sorted(k for k in st.mem if not isinstance(k, str)):
            if st.mem[o].kind == 'ext': objid(o)
        for o in sorted(k for k in st.mem if isinstance(k, str)):
            if st.mem[o].kind == 'global': objid(o)
        for i, fr in enumerate(st.frames):
            top = i == len(st.frames) - 1
            disc.append((i, fr.f.name, fr.blk, None if top else fr.idx))
            lv = s.lives(fr.f)[fr.blk] if top else X.live_after(fr.f, fr.blk, fr.idx, s.lives(fr.f))
            for r in sorted(fr.regs):
                if r not in lv: continue
                value(('r', i, r), fr.regs[r], lambda x, fr=fr, r=r: fr.regs.__setitem__(r, x))
        n = 0
        while n < len(todo):
            o = todo[n]; n += 1
            ob = st.mem[o]
            if ob.kind == 'str': continue
            big = len(ob.cells) > 8
            for off in sorted(ob.cells):
                sz, v = ob.cells[off]
                k = len(cols)
                value(('m', oname[o], off, sz), v, lambda x, o=o, off=off, sz=sz: st.w(o).cells.__setitem__(off, (sz, x)))
                if ob.kind == 'heap' or big:
                    for j in range(k, len(cols)): cols[j] = cols[j][:3] + ('bulk',) if cols[j][3] == 'int' else cols[j]
            disc.append((oname[o], 'cells', tuple((off, ob.cells[off][0]) for off in sorted(ob.cells)), ob.kind))
        g = sg(st)
        if g is not None:
            disc.append(tuple((m, getattr(g, m)) for m in G.MODES))
            for i, x in enumerate(g.pk):
                if isinstance(x, Poly):
                    disc.append(('pk', i, g.classes(s.ex, st, x)))
                    cols.append((('pk', i), x, lambda v, i=i: g.pk.__setitem__(i, v), 'pk'))
                else: disc.append(('pk', i, x))
            for c in G.COLS:
                cols.append((('g', c), getattr(g, c), lambda x, c=c: setattr(g, c, x), 'real' if c == 'W' else 'ghost'))
        keep = set(oname)
        return disc, cols, keep
    # ------------------------------------------------------------ arrival
    def subst(s, st):
        mp = {}
        ctx = st.ctx
        P = s.persist
        def app(p): return subst(p, mp) if mp else p
        for f in ctx.facts:
            if f[0] != 'eq': continue
            p = app(f[1])
            if not isinstance(p, Poly): continue
            for m, c in p.t.items():
                if len(m) == 1 and c in (1, -1) and m[0] not in P and ATOMS[m[0]].kind == 'v' and (not ATOMS[m[0]].real or True):
                    a = m[0]
                    rest = sub(p, Poly({m: c}))
                    if isinstance(rest, Poly) and a in rest.atoms(): continue
                    if not ATOMS[a].real and not isint(rest): continue
                    v = scale(rest, -c)
                    for k in list(mp): mp[k] = subst(mp[k], {a: v})
                    mp[a] = v
                    break
        for a, (lo, hi) in ctx.b.ab.items():
            if lo is not None and lo == hi and a not in mp:
                for k in list(mp): mp[k] = subst(mp[k], {a: lo})
                mp[a] = lo
        return mp
    def dryrun(s, st):
        """where does the code read the string next?  -> position | 'exit' | None; may raise Fork"""
        fr = st.frames[-1]
        c = st.copy()
        c.pend = None
        c.dry = Dry(len(st.frames), fr.f.name, fr.blk, fr.f.loops[fr.blk])
        try:
            s.ex.go(c)
        except G.DryRead as r: return r.off
        except DryExit: return 'exit'
        except DryAgain: return None
        except (EndPath, UseUndef): return None
        return 'exit'
    def arrive(s, ex, st, key, back):
        """True: the state is cut here; False: go on without a cut"""
        a = s.dryrun(st)
        if isinstance(a, str): return False
        g = sg(st)
        if a is not None and g is not None: g.advance_to(ex, st, a)
        if g is not None: g.hist = {}
        if g is not None and g.pk:
            full = g.pk
            g.pk = []
            used = set()
            for c in s.columns(st)[1]:
                if isinstance(c[1], Poly): used |= c[1].atoms()
            n = 1 if g.phase in G.KEEP else 0
            for i, x in enumerate(full):
                if isinstance(x, Poly) and not x.atoms().isdisjoint(used): n = max(n, i + 1)
            g.pk = full[:n]
        for o in list(st.mem):
            ob = st.mem[o]
            if ob.kind == 'stack' and ob.name not in ex.keep and not isinstance(o, str):
                ob = st.w(o)
                ob.cells = {}; ob.elem = 'dropped'
        disc, cols, keep = s.columns(st)
        mp = s.subst(st)
        ids = []; vals = []; bad = set()
        for id, v, put, kind in cols:
            if mp and isinstance(v, Poly): v = subst(v, mp)
            mode = kind in ('int', 'ptr', 'bulk') and id not in ex.demote
            if mode:
                if isinstance(v, Poly): bad.add(id)
                elif kind == 'ptr':
                    if not isinstance(v, int): bad.add(id)
                    else:
                        t = s.seen.setdefault(id, set()); t.add(v)
                        if len(t) > (2 if id in s.positions else 64): bad.add(id)
                elif v not in (0, 1): bad.add(id)
                disc.append((id, 'val', v))
            else:
                ids.append((id, kind)); vals.append(v)
        if bad: raise Demote(bad)
        k = (tuple(disc), tuple(ids))
        # progress
        q = g.q if g is not None else 0
        if st.origin is not None:
            ek, q0 = st.origin
            e0 = s.entries[ek]
            strict = st.ctx.tri(ge(sub(q, q0), 1))
            if strict is None: strict = ex.valid(st, ge(sub(q, q0), 1))
            e0.succ.add(k)
            e0.edges[k] = e0.edges.get(k, True) and strict is True
        e = s.entries.get(k)
        if e is None:
            rep = st.copy()
            rep.pend = None
            for o in list(rep.mem):
                if not isinstance(o, str) and o not in keep and rep.mem[o].kind not in ('ext', 'str'): del rep.mem[o]
            for fr in rep.frames: fr.cnt = {}
            top = rep.frames[-1]
            lv = s.lives(top.f)[top.blk]
            for r in list(top.regs):
                if r not in lv: del top.regs[r]
            for fr in rep.frames[:-1]:
                lv = X.live_after(fr.f, fr.blk, fr.idx, s.lives(fr.f))
                for r in list(fr.regs):
                    if r not in lv: del fr.regs[r]
            rep.trace = ()
            if DEBUG:
                for o in s.entries.values():
                    a, b = set(map(repr, o.key[0])), set(map(repr, k[0]))
                    if len(a ^ b) <= 4 and str(dict(zip(G.MODES, [d for d in o.key[0] if d and isinstance(d[0], tuple) and d[0][0] == 'phase'] or [()]))) == str(dict(zip(G.MODES, [d for d in k[0] if d and isinstance(d[0], tuple) and d[0][0] == 'phase'] or [()]))): print('    NEW like', o.name, a - b, b - a)
            e = s.entries[k] = Entry(k, rep, ids, '%s:%s #%d' % (ex.dem(key[0])[:40], key[1], len(s.entries)))
            s.order.append(k)
        s.join(e, st, vals, mp)
        return True
    # ------------------------------------------------------------ join
    def vectors(s, e, vals):
        """const point and directions of a numeric state (persistent atoms come first)"""
        P = s.plist
        n = len(P) + len(vals)
        pt = [Fraction(0)] * n
        dirs = {}
        for i, a in enumerate(P):
            d = [Fraction(0)] * n; d[i] = Fraction(1); dirs[(a,)] = d
        for j, v in enumerate(vals):
            if isinstance(v, Poly):
                for m, c in v.t.items():
                    if m == (): pt[len(P) + j] = Fraction(c)
                    else:
                        d = dirs.get(m)
                        if d is None: d = dirs[m] = [Fraction(0)] * n
                        d[len(P) + j] = Fraction(c)
            else: pt[len(P) + j] = Fraction(v)
        return pt, list(dirs.values())
    def addrow(s, e, d):
        d = list(d)
        for p, r in zip(e.piv, e.rows):
            c = d[p]
            if c:
                for i, x in enumerate(r):
                    if x: d[i] -= c * x
        p = next((i for i in e.cord if d[i]), None)
        if p is None: return False
        c = d[p]
        d = [x / c for x in d]
        for k, r in enumerate(e.rows):
            c = r[p]
            if c: e.rows[k] = [x - c * y for x, y in zip(r, d)]
        e.rows.append(d); e.piv.append(p)
        return True
    def join(s, e, st, vals, mp):
        pt, dirs = s.vectors(e, vals)
        ch = False
        if e.P is None:
            h = s.hints.get(e.hash())
            if h is not None and s.take(e, h, len(pt), len(vals)): ch = True
        if e.P is None:
            e.P = pt
            s.order_cols(e, len(vals))
            ch = True
        else:
            dirs.append([a - b for a, b in zip(pt, e.P)])
        for d in dirs: ch |= s.addrow(e, d)
        if e.cands is None: s.mkcands(e)
        if ch:
            s.abstract(e)
            s.group(e)
        # filter the inequalities; those with the same value on the whole hull are decided once
        A = [Poly({(a,): 1}) for a in s.plist] + vals
        todo = []
        ctx = st.ctx
        dead = set()
        for g in e.groups:
            cond = ge0(g[0][0](A))
            if ctx.tri(cond) is not True: todo.append((g, cond))
        if todo:
            live = []
            mdl = ctx.model
            for c, cond in todo:
                if cond is False or mdl is not None and not ceval(cond, dict(mdl)): dead.update(map(id, c))
                else: live.append((c, cond))
            while live:
                r, m = solve(list(ctx.facts) + [Or(*[neg(x) for _, x in live])], ctx.b, 8000)
                if r == 'unsat': break
                if r == 'sat':
                    rest = []
                    d = dict(m)
                    for c, x in live:
                        if ceval(x, dict(d)): rest.append((c, x))
                        else: dead.update(map(id, c))
                    if len(rest) == len(live):
                        # abstracted monomials: decide one by one
                        for c, x in live:
                            r2, m2 = solve(ctx.cone(x) + [neg(x)], ctx.b, 4000, nl=True)
                            if r2 != 'unsat': dead.update(map(id, c))
                        break
                    live = rest
                else:
                    for c, x in live:
                        r2, m2 = solve(ctx.cone(x) + [neg(x)], ctx.b, 4000)
                        if r2 != 'unsat': dead.update(map(id, c))
                    break
        if dead:
            hit = set()
            for c in e.cands:
                if id(c) in dead and len(c) > 2 and c[2]: hit.add(c[2])
            for h in hit: e.kills[h] = e.kills.get(h, 0) + 1
            if DEBUG and e.runs > 2: print('     join', e.name, ch, [c[1] for c in e.cands if id(c) in dead][:12])
            # a counter: do not wait for every bound to be passed one by one
            e.cands = [c for c in e.cands if id(c) not in dead and not (len(c) > 2 and e.kills.get(c[2], 0) >= 2 and c[3])]
            ch = True
        if ch:
            e.dirty = True
            if e.runs >= 2:
                # a constant is no useful bound of a counter
                np_ = len(s.plist)
                k = [isinstance(v, Poly) for v in e.vals]
                e.cands = [c for c in e.cands if len(c) < 5 or min(c[4]) < np_ or k[c[4][1]] or not k[c[4][0]]]
            s.group(e)
    def take(s, e, h, n, nv):
        """start from an invariant found before (it is only a proposal: arrivals that do not fit weaken it)"""
        if h['n'] != n: return False
        P = [Fraction(0)] * n
        for i, v in h['P'].items(): P[int(i)] = Fraction(v)
        e.P = P
        s.order_cols(e, nv)
        s.mkcands(e)
        e.ncands = len(e.cands)
        if h['nc'] != len(e.cands):
            e.P = None; e.cands = None
            return False
        e.rows = []; e.piv = []
        for p, r in h['rows']:
            d = [Fraction(0)] * n
            for i, v in r.items(): d[int(i)] = Fraction(v)
            e.rows.append(d); e.piv.append(p)
        bits = int(h['c'], 16)
        e.cands = [c for i, c in enumerate(e.cands) if bits >> i & 1]
        return True
    def give(s, e):
        all_ = Entry(e.key, None, e.cols, e.name)
        s.mkcands(all_)
        alive = {c[1] for c in e.cands}
        bits = 0
        for i, c in enumerate(all_.cands):
            if c[1] in alive: bits |= 1 << i
        return {'n': len(e.P), 'nc': len(all_.cands), 'P': {str(i): str(v) for i, v in enumerate(e.P) if v},
                'rows': [[p, {str(i): str(v) for i, v in enumerate(r) if v}] for p, r in zip(e.piv, e.rows)], 'c': '%x' % bits}
    def order_cols(s, e, nv):
        np_ = len(s.plist)
        rank = {'bulk': 1, 'pk': 1, 'int': 2, 'ptr': 2, 'ghost': 3, 'real': 4}
        e.cord = list(range(np_)) + [np_ + i for i in sorted(range(nv), key=lambda i: rank[e.cols[i][1]])]
    def group(s, e):
        gs = {}
        out = []
        for c in e.cands:
            x = c[0](e.vals)
            if not isinstance(x, Poly):
                if x < 0: gs.setdefault(False, []).append(c)
                continue          # holds on the whole hull
            x = prim_pos(x)
            gs.setdefault(x, []).append(c)
        e.groups = list(gs.values())
    def mkcands(s, e):
        np_ = len(s.plist)
        out = []
        names = [('p', i) for i, a in enumerate(s.plist)] + [c[0] for c in e.cols]
        kinds = ['p'] * np_ + [c[1] for c in e.cols]
        def un(i, k, c): return lambda A: add(scale(A[i], k), c)
        def pair(i, j): return lambda A: sub(A[j], A[i])
        def less(i, j): return lambda A: sub(sub(A[j], A[i]), 1)
        for i in range(np_, len(names)):
            if kinds[i] in ('real', 'pk'):
                continue
            bulk = kinds[i] == 'bulk'
            for c in (9, 255) if bulk else CONSTS: out.append((un(i, -1, c), '%r <= %d' % (names[i], c), (i, 'hi'), c <= 9))
            for c in (0, 1) if bulk else LOWS: out.append((un(i, 1, -c), '%r >= %d' % (names[i], c), (i, 'lo'), False))
        idx = [i for i in range(len(names)) if kinds[i] in ('p', 'int', 'ptr', 'ghost')]
        for i in idx:
            for j in idx:
                if i != j and not (kinds[i] == 'p' and kinds[j] == 'p') and names[i] != ('g', 'V') and names[j] != ('g', 'V'):
                    out.append((pair(i, j), '%r <= %r' % (names[i], names[j]), None, False, (i, j)))
                    if kinds[i] == kinds[j] == 'ptr': out.append((less(i, j), '%r < %r' % (names[i], names[j]), None, False, (i, j)))
        if s.spec:
            out.extend(s.spec(names, kinds, next((dict(d) for d in e.key[0] if d and type(d[0]) is tuple and d[0][0] == G.MODES[0]), {})))
        e.cands = out
    def abstract(s, e):
        """values of the columns over pivot atoms"""
        np_ = len(s.plist)
        n = len(e.P)
        piv = {}
        e.atoms = []
        for p, r in zip(e.piv, e.rows):
            if p < np_: piv[p] = Poly({(s.plist[p],): 1})
            else:
                real = e.cols[p - np_][1] == 'real'
                piv[p] = var('h', real=real)
        vals = []
        eqs = []
        for j in range(n):
            if j in piv: vals.append(piv[j]); continue
            v = e.P[j]
            if v.denominator == 1: v = int(v)
            for p, r in zip(e.piv, e.rows):
                c = r[j]
                if c:
                    if c.denominator == 1: c = int(c)
                    b = e.P[p]
                    b = int(b) if b.denominator == 1 else b
                    v = add(v, scale(sub(piv[p], b), c))
            if j >= np_ and isinstance(v, Poly) and e.cols[j - np_][1] != 'real' and any(isinstance(c, Fraction) for c in v.t.values()):
                x = var('h')
                eqs.append(eq(x, v)); v = x
            vals.append(v)
        e.vals = vals; e.eqs = eqs
    # ------------------------------------------------------------ execution from an abstract state
    def state(s, e):
        st = e.rep.copy()
        np_ = len(s.plist)
        cls = [d[2] for d in e.key[0] if d[0] == 'pk']
        st.ctx = e.rep.ctx
        disc, cols, keep = s.columns(st)
        pos = {c[0]: i for i, c in enumerate(e.cols)}
        for id, v, put, kind in cols:
            i = pos.get(id)
            if i is not None: put(e.vals[np_ + i])
        ctx = s.base.copy()
        ctx.gen += 1
        facts = list(e.eqs)
        if sg(st) is not None: facts.append(st.ghost.restore(cls))
        for c in e.cands: facts.append(ge0(c[0](e.vals)))
        ctx.model = None
        for f in facts:
            if not ctx.assume(f): return None
        # second pass: intervals are tight now, drop what they imply
        ctx.model = None
        ctx.feasible()
        st.ctx = ctx
        st.origin = (e.key, st.ghost.q if sg(st) is not None else 0)
        return st
    def begin(s, st):
        """after the pre-condition has been set up"""
        s.base = st.ctx.copy()
        at = set()
        for f in s.base.facts: at |= catoms(f)
        if sg(st) is not None and isinstance(st.ghost.L, Poly): at |= st.ghost.L.atoms()
        for fr in st.frames:
            for v in fr.regs.values():
                if isinstance(v, Poly): at |= v.atoms()
                elif isinstance(v, Ptr) and isinstance(v.off, Poly): at |= v.off.atoms()
        for o in st.mem.values():
            for z, v in o.cells.values():
                if isinstance(v, Poly): at |= v.atoms()
        if sg(st) is not None:
            for c in G.COLS:
                v = getattr(st.ghost, c)
                if isinstance(v, Poly): at |= v.atoms()
        s.plist = sorted(a for a in at if ATOMS[a].kind == 'v')
        s.persist = set(s.plist)
    def pick(s, todo):
        """an entry that no other unfinished entry feeds, cycles aside"""
        if len(todo) == 1: return todo[0]
        succ = {k: e.succ for k, e in s.entries.items()}
        reach = {}
        for e in todo:
            seen = set(); st = [e.key]
            while st:
                for x in succ[st.pop()]:
                    if x not in seen and x in succ: seen.add(x); st.append(x)
            reach[e.key] = seen
        best = None
        for e in todo:
            if all(f is e or e.key not in reach[f.key] or f.key in reach[e.key] for f in todo):
                if best is None or e.runs < best.runs: best = e
        return best or todo[0]
    def solve(s):
        ex = s.ex
        while True:
            todo = [s.entries[k] for k in s.order if s.entries[k].dirty]
            if not todo: break
            e = s.pick(todo)
            e.dirty = False
            e.runs += 1
            if e.runs > 60: raise Unsupported('loop invariant does not stabilise')
            e.edges = {}
            e.cur = ex.cur = Cur()
            t0 = time.time()
            st = s.state(e)
            if st is None: continue
            ex.run(st, ex.finish)
            if DEBUG: print('%4d %3d/%3d run %d %5.1fs cands %d rank %d %s %s' % (sum(x.runs for x in s.entries.values()), len(todo), len(s.entries), e.runs, time.time() - t0, len(e.cands), len(e.rows), e.name, dict(zip(G.MODES, [d for d in e.key[0] if d and isinstance(d[0], tuple) and d[0][0] == 'phase'] or [()]))), flush=True)
            if e.cur.fail: break
        ex.cur = None
    def collect(s):
        ex = s.ex
        for e in [None] + [s.entries[k] for k in s.order]:
            c = s.start if e is None else e.cur
            for k, v in c.obl.items(): ex.obl[k] = ex.obl.get(k, 0) + v
            for k, v in c.how.items(): ex.how[k] = ex.how.get(k, 0) + v
            for k, v in c.fail.items(): ex.fail.setdefault(k, v)
        if s.entries and not ex.fail:
            # no cycle without progress
            ns = {k: [t for t, st in e.edges.items() if not st and t in s.entries] for k, e in s.entries.items()}
            color = {}
            bad = []
            for r in ns:
                if r in color: continue
                stack = [(r, iter(ns[r]))]; color[r] = 1
                while stack:
                    b, it = stack[-1]
                    for x in it:
                        c = color.get(x, 0)
                        if c == 0: color[x] = 1; stack.append((x, iter(ns[x]))); break
                        if c == 1: bad.append(x)
                    else:
                        color[b] = 2; stack.pop()
            nm = 'termination: the loop makes progress'
            n = sum(len(e.edges) for e in s.entries.values())
            ex.obl[nm] = ex.obl.get(nm, 0) + n - len(bad)
            for x in bad: ex.fail[(nm, s.entries[x].name)] = Failure(nm, s.entries[x].name, 'unknown', 'no progress is provable on some cycle', 'false', ())
    def dump(s):
        for k in s.order:
            e = s.entries[k]
            print('==', e.name, 'runs', e.runs)
            print('  ', [d for d in k[0] if not (len(d) > 1 and d[1] == 'cells')])
            for c, v in zip(e.cols, e.vals[len(s.plist):]): print('   ', c[0], '=', v)
            seen = set()
            for c in e.cands:
                x = c[0](e.vals)
                if isinstance(x, Poly) and c[1] not in seen: seen.add(c[1])
            print('   ', '; '.join(sorted(seen))[:3000])
