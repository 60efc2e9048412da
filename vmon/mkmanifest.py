import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
TECH = {'C': 'runtime monitoring: every result of the concrete types under generated workloads is compared online with an integer/bit-list model',
        'T': 'runtime monitoring of type creation histories against a model of the request',
        'S': 'runtime monitoring: symbolic results of generated programs are evaluated by an independent evaluator and compared with the concrete run',
        'F': 'runtime monitoring: floating-point results compared online with an exact rational-arithmetic IEEE 754 model, under hostile contexts',
        'A': 'runtime monitoring: histories of ADT types and values shadowed by a plain-Python model, compared by every public route after each step',
        'U': 'runtime monitoring: histories of accesses shadowed by a plain-Python model'}
NOTE = {'C': 'Every observed execution is decided exactly (three-valued verdict, no sampling in the oracle); exhaustive for small widths where the group says so, otherwise seeded random and boundary-biased inputs. Trusts Python integers.',
        'T': 'Every observed type is decided exactly; histories are seeded random, with gc and redefinition. Trusts the Python class machinery.',
        'S': 'Every observed term is decided under the assignments tried (all assignments at small widths, boundary-biased otherwise). Trusts the evaluator in vmon/smteval.py (SMT-LIB semantics) and, for z3 terms, z3 on closed terms.',
        'F': 'Every observed result is decided exactly by rational arithmetic; small formats exhaustively, others by boundary-biased patterns. Trusts vmon/fpmodel.py.',
        'A': 'Every observed state is decided exactly; types, values and histories are seeded random up to depth 4. Trusts the plain-Python model in vmon/adtk.py.',
        'U': 'Every observed read, write and comparison is decided exactly; mappings and histories are seeded random.'}
m = dict(version=1, setup_cmd='mkdir -p evidence/replay && PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "import vmon.meta"',
         checks=[dict(property=p['id'], quick_cmd=f'./check.sh {p["id"]}', thorough_cmd=f'./check.sh {p["id"]} --thorough', technique=TECH[p['id'][0]], level='exploration', level_note=NOTE[p['id'][0]])
                 for p in props], not_applicable=[],
         notes='No hooks: all monitoring is done from outside, on the public interface of the imported package. Fix commits are listed in known_findings.json.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
