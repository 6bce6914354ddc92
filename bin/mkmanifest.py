#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the plans that exist."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import cases as C
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': 'TLA+ sweep model (TLC) + exact trace validation of the split search', 'C02': 'TLA+ sweep model (TLC) + exact trace validation of reported gains',
 'C03': 'TLA+ division model (TLC) replayed into the code + trace validation', 'C04': 'TLA+ index-partition refinement (TLC) replayed into the code + trace validation',
 'C05': 'TLA+ tree-builder model (TLC) + trace validation of grown trees and look-ups', 'C06': 'TLA+ tree-builder model (TLC) + trace validation of stop decisions',
 'C07': 'TLA+ worker interleavings (TLC), schedules forced on the real threads + trace validation', 'C08': 'TLA+ model of both builders (TLC) + paired trace validation',
 'C09': 'TLA+ voting model (TLC) + trace validation of answers', 'C10': 'TLA+ scoring model (TLC) + exact trace validation of errors',
 'C11': 'TLA+ boosting model (TLC) + exact trace validation of predictions', 'C12': 'TLA+ boosting model (TLC) + round-by-round trace validation',
 'C13': 'TLA+ boosting model (TLC) + error trace validation', 'C14': 'TLA+ boosting model (TLC) + round-by-round trace validation',
 'C15': 'TLA+ boosting model (TLC) + round-by-round trace validation', 'C16': 'TLA+ boosting model (TLC) + long-run trace validation',
 'C17': 'TLA+ call-history model (TLC) replayed into the code + trace validation', 'C18': 'TLA+ reader model (TLC), every small file replayed into the code + trace validation',
 'C19': 'TLA+ printer/read-back model (TLC), every small tree replayed + trace validation', 'C20': 'TLA+ boosting model (TLC) + trace validation of answers and scores',
 'C21': 'TLA+ element-wise model (TLC) replayed into the code + exact trace validation', 'C22': 'TLA+ twin-tree model (TLC) + paired trace validation',
 'C23': 'TLA+ program model (TLC) + trace validation of the printed figures',
 'C24': 'TLA+ scoring model (TLC) replayed into the code + exact trace validation of scores', 'C25': 'TLA+ twin-tree model under label laws (TLC) + paired trace validation',
 'C26': 'TLA+ model of deeper limits and subtrees (TLC) + paired trace validation'}
NOTE = ('TLC explores the model exhaustively within the constants given in the plan (defective variants of the model are refuted); every behaviour '
        'recorded from the real code for the generated inputs must be a behaviour of the specification, computed in exact rational arithmetic. '
        'Bounded by the inputs generated; trusts TLC, the arithmetic overrides (checked against their definitions by RatLaws) and the harness.')
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
have = [p['id'] for p in props if p['id'] in C.PLANS]
m = {'version': 1, 'setup_cmd': 'python3 bin/setup.py',
     'checks': [{'property': i, 'quick_cmd': 'python3 bin/check.py %s quick' % i, 'thorough_cmd': 'python3 bin/check.py %s thorough' % i,
                 'technique': T[i], 'level': 'model_checking', 'level_note': C.PLANS[i].get('note', NOTE)} for i in have],
     'not_applicable': [{'property': p['id'], 'reason': 'check not finished yet'} for p in props if p['id'] not in have],
     'notes': 'No hooks in /repo: everything is observed through the public API. Known findings and repaired defects: KNOWN_FINDINGS.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
