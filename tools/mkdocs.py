"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
P = []


def prop(id, title, statement, text, why, files, mech, over=('inputs',), state=None, observe=None, level_note=None, technique=None, na=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}), **({'observe_at': observe} if observe else {})),
                  level_note=level_note, technique=technique, na=na))


U = 'src/ubigint'
AI = 'abstract interpretation of MIR (polynomial normal forms, modular summaries)'
LN_U = ('Sound per cell of the input partition: operands of 1-3 limbs each (1-5 for one operand), every limb value, plus long-division cells up to 11 limbs, Karatsuba cells of 65-140 limbs, and any length for functions that do not loop over limbs. '
        'Larger limb counts are not covered. Trusts rustc MIR, the transfer functions for std, and that calls terminate.')
LN_A = ('Sound for all values of the operands (arbitrary size): bodies are analysed against summaries of their callees, which are themselves analysed by the same check down to the limb kernels (there: bounded limb counts). '
        'Trusts rustc MIR, the transfer functions for std, and that calls terminate.')
exec(open(os.path.join(ROOT, 'tools', 'props.py')).read())
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
man = dict(version=1, setup_cmd='bash driver/build.sh /verif/.build', checks=[], not_applicable=[],
           notes='All checks are static: a rustc driver dumps MIR, types and evaluated constants of /repo (cargo check, nothing of /repo is run), and analysis/ decides from those facts. DESIGN.md describes rules and limits.')
for p in P:
    if p['na']:
        man['not_applicable'].append(dict(property=p['id'], reason=p['na']))
    else:
        man['checks'].append(dict(property=p['id'], quick_cmd='bash check.sh %s quick' % p['id'], thorough_cmd='bash check.sh %s thorough' % p['id'], technique=p['technique'] or AI, level='other', level_note=p['level_note'] or LN_A))
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), 'properties,', len(man['checks']), 'claimed')
