#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json: the properties' texts live here, what decides them in props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V + '/tools')
import props
L, LI = 'lib/src/', 'linter/src/'
PARSER = [L + 'parser.c', L + 'parser.leg', L + 'ast.c', L + 'astnode.h']
TXT = {}
def t(pid, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (pid, len(title))
    TXT[pid] = dict(id=pid, title=title, statement=statement, quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **({'state': [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}), **({'observe_at': list(observe)} if observe else {})))
exec(open(V + '/tools/texts.py').read())
def main():
    na = []
    with open(V + '/properties.jsonl', 'w') as f:
        for pid in sorted(TXT):
            if pid in props.PROPS or pid in NA: f.write(json.dumps(TXT[pid]) + '\n')
    for pid in sorted(NA): na.append(dict(property=pid, reason=NA[pid]))
    missing = [p for p in props.PROPS if p not in TXT]; assert not missing, missing
    checks = [dict(property=p, quick_cmd='python3 check.py %s quick' % p, thorough_cmd='python3 check.py %s thorough' % p, level='model_checking',
        technique='symbolic execution of the LLVM IR of the current sources (own executor), every branch and assertion decided with Z3/truth tables over all values of the symbolic inputs; counterexamples replayed on the real build',
        level_note='bounded: holds for every value of the symbolic inputs in the explored jobs; ' + (props.PROPS[p]['bounds'] if isinstance(props.PROPS[p]['bounds'], str) else props.PROPS[p]['bounds'][0])) for p in sorted(props.PROPS)]
    json.dump(dict(version=1, setup_cmd='make -s -C engine', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
main()
