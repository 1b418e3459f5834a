#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one catalogue below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORE, ROT, UTIL, OBJ = ['src/nvector/%s.py' % m for m in ('core', 'rotation', 'util', 'objects')]
ALL = [CORE, ROT, UTIL, OBJ]
P, NA = [], []


def mech(*pairs):
    return [dict(name=n, where=w) for n, w in pairs]


def prop(pid, title, statement, text, tests, files, mechanism, technique, note, over=('inputs',)):
    P.append((dict(id=pid, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=tests,
                   anchors=dict(files=files, mechanism=mechanism)), technique, note))


def na(pid, title, statement, text, tests, files, mechanism, reason, over=('inputs',)):
    P.append((dict(id=pid, title=title, statement=statement, quantifier=dict(over=list(over), text=text), why_tests_cant=tests,
                   anchors=dict(files=files, mechanism=mechanism)), None, reason))


exec(open(os.path.join(V, 'tools', 'catalogue.py')).read())


def main():
    props, checks, nas = [], [], []
    for doc, tech, note in P:
        pid = doc['id']
        if tech is None:
            props.append(doc)
            nas.append(dict(property=pid, reason=note))
            continue
        if not os.path.exists(os.path.join(V, 'nvstat', 'rules', pid.lower() + '.py')):
            continue
        props.append(doc)
        checks.append(dict(property=pid, quick_cmd='python3 check.py %s' % pid, thorough_cmd='python3 check.py %s --thorough' % pid,
                           evidence_file='evidence/%s.json' % pid, technique=tech, level='other', level_note=note))
        assert len(doc['title']) <= 80, doc['title']
    with open(os.path.join(V, 'properties.jsonl'), 'w') as fh:
        for d in props:
            fh.write(json.dumps(d) + '\n')
    m = dict(version=1, setup_cmd='python3 -m compileall -q nvstat check.py', checks=checks, not_applicable=nas, notes=NOTES)
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')
    print(len(checks), 'checks', len(nas), 'not applicable')


main()
