#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, technique, note, level='proof'):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]), _t=technique, _n=note, _l=level))


MIR = ('contract-based deductive verification of the compiler\'s own MIR: mirv executes each function of the current tree '
       'symbolically against its contract (callees through theirs, loops by invariant), z3 discharges the obligations; a failed '
       'obligation is replayed by searching a concrete program with the reference lowering as oracle')
CB = ('contract-based verification of the C that the current tree generates for the library module: CBMC discharges the '
      'postconditions over fully symbolic inputs; counterexamples are replayed natively')

exec(open(os.path.join(V, 'tools', 'props.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps({k: v for k, v in x.items() if k[0] != '_'}, ensure_ascii=False) + '\n')
man = dict(version=1, setup_cmd='bash checks/setup.sh',
           hooks=dict(guard='none: no hooks were needed', enable='nothing to enable', source_commits=[]),
           checks=[dict(property=x['id'], quick_cmd=f'checks/check {x["id"]} quick', thorough_cmd=f'checks/check {x["id"]} thorough',
                        technique=x['_t'], level=x['_l'], level_note=x['_n']) for x in P if x['_t']],
           not_applicable=[dict(property=x['id'], reason=x['_n']) for x in P if not x['_t']])
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write('\n')
