#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, text, why, files, mech, level='proof', note='', over=('inputs',), technique=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m, where=w) for m, w in mech])))
    if na:
        NA.append(dict(property=id, reason=na))
        return
    CH.append(dict(property=id, quick_cmd='./check %s' % id, thorough_cmd='./check %s --thorough' % id, evidence_file='evidence/%s.json' % id,
                   technique=technique or 'contract-based deductive verification: contracts on the real functions (compiled to LLVM IR on every run), obligations discharged by irv (simplifier, algebraic normal form, exhaustive evaluation) and kissat',
                   level=level, level_note=note))


CH = []
exec(open(os.path.join(V, 'tools', 'props.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
m = dict(version=1, setup_cmd='cargo build --release --offline --manifest-path irv/Cargo.toml', checks=CH, not_applicable=NA,
         notes='No hooks: the checks compile the headers of /repo unchanged. See DESIGN.md.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
