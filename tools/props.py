#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run after editing: python3 tools/props.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'interprocedural value-flow and dataflow analysis over MIR'
NOTE = 'Holds for all inputs on every construct the analysis interprets; constructs it cannot interpret are reported as undecided in the evidence and do not alarm. Trusts rustc MIR, the analysis engine and its models of library functions.'
P = []


def prop(id, title, statement, over, text, why, files, mech, tech=TECH, note='', na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, tech=tech, note=note, na=na))


from proptext import *  # noqa
import proptext
proptext.define(prop)

if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                                'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}}) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 osmg/facts.py',
           'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s' % p['id'], 'thorough_cmd': 'python3 check.py %s' % p['id'],
                       'technique': p['tech'], 'level': 'other', 'level_note': (p['note'] + ' ' if p['note'] else '') + NOTE} for p in P if not p['na']],
           'not_applicable': [{'property': p['id'], 'reason': p['na']} for p in P if p['na']]}
    json.dump(man, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(man['checks']), 'checks', len(man['not_applicable']), 'not applicable')
