#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'symbolic execution of the LLVM IR of the real code, %s, decided by z3 over all inputs up to a length bound'
WHAT = {
    'C01': 'against a reference semantics of single-character constructs',
    'C02': 'against a reference backtracking semantics (acceptance and leftmost begin)',
    'C03': 'against a reference backtracking semantics (span of the match)',
    'C04': 'against a reference backtracking semantics (span and groups)',
    'C05': 'against a reference backtracking semantics (groups, over single and repeated searches)',
    'C06': 'against a reference language semantics (membership of the reported word)',
    'C07': 'with every memory access and every use of uninitialised memory as an obligation',
    'C08': 'against a reference semantics of successive searches',
    'C09': 'equivalence of the optimised and the unoptimised matcher',
    'C10': 'equivalence of the matcher and the one built from its own expression',
    'C11': 'existence of two matches that begin with the same byte for patterns reported independent',
    'C12': 'against a reference semantics of anchors',
    'C13': 'against the bytes that the escapes spell',
    'C14': 'against a reference tokenizer',
    'C15': 'equivalence of the ways to traverse a token sequence',
    'C16': 'against set algebra over all byte values',
    'C17': 'against byte-wise equality and concatenation',
    'C18': 'equivalence of the ways to read a result',
    'C19': 'with non-terminating paths, step bounds and progress as obligations',
    'C20': 'equivalence of the code paths for constant and run-time evaluation, with operations that constant evaluation rejects as obligations',
    'C21': 'against a reference parser and matcher, over pattern texts that exercise the grammar',
}
NOTE = {
    'C16': 'Every byte value, for the listed sets (set types are template arguments, so a list of sets is decided, not all of them).',
    'C17': 'All contents of all views and strings up to the stated lengths (quick 4-6 bytes, thorough 6-8).',
}
DEFAULT = ('Bounded: for each pattern (or token definition) of a committed list, every input of every length up to the bound is covered (quick tier mostly 4-6 bytes, thorough 6-9, '
           'less where the number of paths grows); patterns are template arguments, so a list of them is decided, not all. Counterexamples are replayed on natively compiled code before they are reported. '
           'Trusted: the clang 18 front end and inlining/SROA passes, the executor (validated on every run against compiled code on models of explored paths), z3, the reference semantics where one is named.')
claimed = [l for l in open(os.path.join(HERE, 'tools', 'claimed')).read().split()]
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = json.load(open(os.path.join(HERE, 'tools', 'na.json')))
m = dict(version=1, setup_cmd='make -s -C engine', checks=[], not_applicable=[],
         notes='check.py <ID> decides one property; VERIF_TIER selects the bounds. No hooks in /repo.')
for p in props:
    i = p['id']
    if i in claimed:
        m['checks'].append(dict(property=i, quick_cmd='python3-vt check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3-vt check.py ' + i, evidence_file='evidence/%s.json' % i,
                                technique=TECH % WHAT[i], level='model_checking', level_note=NOTE.get(i, '') and NOTE[i] + ' ' + DEFAULT.split('. ', 1)[1] or DEFAULT))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA[i]))
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(HERE, 'MANIFEST.json'), 'a').write('\n')
