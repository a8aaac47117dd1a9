"""Check of one property:  run.py <property> [quick|thorough]
exit 0: every obligation discharged; 1: violation; 2: the check itself could not be carried out."""
import sys, os, time, json, traceback, fnmatch, multiprocessing, resource, signal
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, 'specs')]
import irparse, front, units, base, solver
from base import Env, Result, Unsupported, Budget
import props

ENV = None
UNIT_BUDGET = {'quick': 600, 'thorough': 1500}

def load_specs():
    for m in props.MODULES: __import__(m)

def work(n):
    fn, kw = units.UNITS[n]
    res = Result(n)
    t = time.time()
    s0 = (solver.ST.z3_q, solver.ST.z3_t, solver.ST.cvc5_q, solver.ST.cvc5_t, solver.ST.iv)
    err = None
    try:
        fn(ENV, res, **kw)
    except base.Missing as e:
        err = ('missing', str(e))
    except Unsupported as e:
        err = ('unsupported', str(e) + ' | ' + ' > '.join(str(x) for x in getattr(e, 'where', ())))
    except Budget as e:
        err = ('budget', str(e))
    except RecursionError as e:
        err = ('unsupported', 'recursion: ' + str(e)[:200])
    except Exception as e:
        err = ('crash', traceback.format_exc()[-3000:])
    S = solver.ST
    return dict(name=n, time=time.time() - t, obl=res.obl, how=res.how, used=sorted(res.used), called=sorted(res.called), trust=sorted(res.trust),
                inv=res.inv, paths=res.paths, reach=res.reach, extra=res.extra, assume=res.assume, err=err, skipped=res.skipped,
                fails=[dict(name=f.name, where=f.where, status=f.status, model=str(f.model)[:3000], inputs=f.model.get('inputs') if isinstance(f.model, dict) else None,
                            cond=f.cond, note=f.note) for f in res.fail],
                z3_q=S.z3_q - s0[0], z3_t=S.z3_t - s0[1], cvc5_q=S.cvc5_q - s0[2], cvc5_t=S.cvc5_t - s0[3], iv=S.iv - s0[4],
                rss=resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024)

def select(prop, tier):
    pats = props.PROPS[prop]['units'] + (props.PROPS[prop].get('thorough', []) if tier == 'thorough' else [])
    out = []
    for n in units.UNITS:
        if any(fnmatch.fnmatchcase(n, p) for p in pats): out.append(n)
    for p in pats:
        if not any(fnmatch.fnmatchcase(n, p) for n in units.UNITS): raise SystemExit('no unit matches ' + p)
    cost = props.COST
    return sorted(out, key=lambda n: -max([c for p, c in cost.items() if fnmatch.fnmatchcase(n, p)] or [0]))

def cpus():
    try: return max(1, len(os.sched_getaffinity(0)))
    except Exception: return 4

def known(prop):
    p = os.path.join(VERIF, 'known-findings')
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('finding: property=%s ' % prop): out.append(ln[len('finding: property=%s ' % prop):])
    return out

def decide(names, t0, patience=90):
    """run the units -> results, failures"""
    results = []
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(cpus(), maxtasksperchild=4) as pool:
        it = pool.imap_unordered(work, names, chunksize=1)
        stop = None
        while True:
            try: r = it.next(timeout=1)
            except StopIteration: break
            except multiprocessing.TimeoutError:
                if stop and time.time() > stop: break      # some obligation has failed: no need to wait for all others
                continue
            results.append(r)
            if (r['err'] or r['fails']) and not stop: stop = time.time() + max(patience, time.time() - t0) if patience else 1
            if os.environ.get('VERBOSE'): print('  %-24s %6.1fs %5d obligations %s' % (r['name'], r['time'], sum(r['obl'].values()), r['err'] or ('FAIL %d' % len(r['fails']) if r['fails'] else '')), flush=True)
        pool.terminate()
    results.sort(key=lambda r: r['name'])
    fails = []
    for r in results:
        for f in r['fails']: fails.append(dict(f, unit=r['name']))
        if r['err']:
            fails.append(dict(unit=r['name'], name='verification conditions of ' + r['name'], where='', status='undecided: ' + r['err'][0], model=r['err'][1], inputs=None, cond='', note=''))
    return results, fails

def main(prop, tier):
    global ENV
    t0 = time.time()
    P = props.PROPS[prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    P = dict(P, defs=P.get('defs', []) + (P.get('tdefs', []) if tier == 'thorough' else []))
    try:
        ENV = Env(defs=P['defs'])
    except front.BuildError as e:
        if P.get('defs'):
            # do only the optional instantiations fail to compile?
            try:
                front.build([])
                return violation(prop, tier, seed, t0, [], [dict(unit='build', name='build: the instantiations compile', where=' '.join(P['defs']), status='refuted', model=str(e), cond='', note='', inputs=None)], 'the wrappers do not compile')
            except front.BuildError: pass
        try:
            ENV = Env(defs=P['defs'], strict=False)
        except front.BuildError as e:
            print('ERROR: /repo does not compile:\n%s' % e)
            return 2
        for x in front.DROPPED[:5]: print('does not compile with the current tree: ' + x[:200])
    load_specs()
    names = select(prop, tier)
    base.TIER = tier
    if tier == 'thorough': base.USE_HINTS = False          # invariants are derived anew
    import exec as X
    X.STATE = P.get('state', False)
    base.DEADLINE = time.time() + UNIT_BUDGET[tier]
    results, fails = decide(names, t0)
    missing = sorted(set(names) - {r['name'] for r in results})
    for n in missing: fails.append(dict(unit=n, name='verification conditions of ' + n, where='', status='not decided: stopped after other obligations had failed', model='', inputs=None, cond='', note=''))
    nobl = sum(sum(r['obl'].values()) for r in results)
    if not fails and nobl == 0:
        print('ERROR: no obligations were generated'); return 2
    evidence(prop, tier, seed, t0, results, fails)
    if not fails and tier == 'thorough':
        # not part of the proof: the proved tree is searched for a counterexample of the property all the same
        import hunt
        h = hunt.hunt(prop, [], seed, 150)
        if h['found']: return violation(prop, tier, seed, t0, results, fails, h)
        print('search in support of the proof (not a proof): ' + h['text'])
    if not fails:
        for k in known(prop): print('KNOWN-FINDING: property=%s %s' % (prop, k))
        print('property %s holds: %d obligations discharged in %d units, %.1f s' % (prop, nobl, len(results), time.time() - t0))
        return 0
    import hunt
    h = search(prop, seed, t0, fails)
    if not h['found'] and tier == 'quick' and any(f['unit'].split('.')[0] in HINTED for f in fails):
        # nothing fails as far as can be seen: hints from another version of the code may have misled the search for invariants
        base.USE_HINTS = False
        base.DEADLINE = t0 + 840
        again = [n for n in names if n in {f['unit'] for f in fails}]
        r2, f2 = decide(again, t0, 0)
        if not f2 and len(r2) == len(again):
            results = sorted([r for r in results if r['name'] not in again] + r2, key=lambda r: r['name'])
            evidence(prop, tier, seed, t0, results, [])
            for k in known(prop): print('KNOWN-FINDING: property=%s %s' % (prop, k))
            print('property %s holds: %d obligations discharged in %d units, %.1f s' % (prop, sum(sum(r['obl'].values()) for r in results), len(results), time.time() - t0))
            return 0
    return violation(prop, tier, seed, t0, results, fails, h)

HINTED = {x.split('.')[0] for x in os.listdir(os.path.join(VERIF, 'hints'))} if os.path.isdir(os.path.join(VERIF, 'hints')) else set()

def search(prop, seed, t0, fails, found=None):
    import hunt
    left = 840 - (time.time() - t0)
    return hunt.hunt(prop, [(f['unit'], f['inputs']) for f in fails if f.get('inputs')], seed, max(20, min(props.PROPS[prop].get('hunt', 120), left)), found)

def violation(prop, tier, seed, t0, results, fails, found=None):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s.txt' % prop)
    h = found if isinstance(found, dict) else search(prop, seed, t0, fails, found)
    with open(path, 'w') as o:
        o.write('property %s: %d obligations were not discharged\n\n' % (prop, len(fails)))
        if h['found']:
            o.write('FAILING INPUT (replayed against the real code compiled from /repo):\n%s\n\n' % h['text'])
        else:
            o.write('no failing input found: %s\n\n' % h['text'])
        for f in fails[:50]:
            o.write('unit %s\nobligation: %s\nin: %s\nstatus: %s\nmodel / solver output: %s\nnegated goal: not (%s)\n%s\n\n' % (f['unit'], f['name'], f['where'], f['status'], f['model'], f['cond'], f['note']))
    if not os.path.exists(os.path.join(VERIF, 'evidence', prop + '.json')): evidence(prop, tier, seed, t0, results, fails)
    for f in fails[:8]: print('failed obligation: %s [%s] in %s (%s)' % (f['name'], f['unit'], f['where'], f['status']))
    if h['found']: print(h['text'])
    print('VIOLATION property=%s replay=%s%s' % (prop, os.path.relpath(path, VERIF), '' if h['found'] else ' no-failing-input-found'))
    return 1

TRUSTED = ['clang 18 front end (C++ to LLVM IR; -O1 without optimisation passes, then sroa only)', 'engine/irparse.py, engine/exec.py: IR semantics used for the verification conditions',
           'engine/terms.py: interval and polynomial simplification', 'z3 (SMT)', 'cvc5 (second opinion)', 'x86-64 SysV data layout']

def evidence(prop, tier, seed, t0, results, fails):
    P = props.PROPS[prop]
    used, called, trust, how, obl, assume = set(), set(), set(), {}, {}, set(P.get('assume', []))
    for r in results:
        used |= set(r['used']); called |= set(r['called']); trust |= set(r['trust']); assume |= set(r['assume'])
        for k, v in r['how'].items(): how[k] = how.get(k, 0) + v
        for k, v in r['obl'].items(): obl[k] = obl.get(k, 0) + v
    n = sum(obl.values())
    def lib(x): return 'floaxie' in x
    ev = dict(property=prop, tier=tier, seed=seed, level=P.get('level', 'proof'), wall_s=round(time.time() - t0, 2), violations=len(fails),
              assumptions=sorted(assume) + ['external function under an assumed contract: ' + x for x in sorted(trust)],
              coverage=dict(obligations=n + len(fails), discharged=n, checker_cmd='python3-vt engine/run.py %s %s' % (prop, tier), trusted_base=TRUSTED,
                            units={r['name']: dict(obligations=sum(r['obl'].values()), paths=r['paths'], seconds=round(r['time'], 2), z3_queries=r['z3_q'], z3_seconds=round(r['z3_t'], 2),
                                                   cvc5_queries=r['cvc5_q'], cvc5_seconds=round(r['cvc5_t'], 2), failed=len(r['fails']), error=r['err'], loop_invariants_at=r['inv'], vacuity=r['reach'], skipped=r['skipped'], **r['extra']) for r in results},
                            functions_executed=sorted(x for x in used if lib(x)), library_functions_executed=len([x for x in used if not lib(x)]), contracts_applied_at_calls=sorted(called),
                            discharged_by=how, obligations_by_kind=obl, solver_seconds=round(sum(r['z3_t'] + r['cvc5_t'] for r in results), 2)))
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)

if __name__ == '__main__':
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    sys.setrecursionlimit(20000)
    try:
        rc = main(sys.argv[1], tier)
    except Exception:
        traceback.print_exc(); rc = 2
    sys.stdout.flush()
    os._exit(rc)
