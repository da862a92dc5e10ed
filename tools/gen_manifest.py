"""Writes MANIFEST.json."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SUB = ('exhaustive explicit-state exploration of the real clustering code over '
       'all subsets of bounded URL universes')
T = {
    'C01': SUB + ', each trace closed through the real matcher',
    'C02': SUB + ', checked against a reference regex/structure model',
    'C03': SUB + ' and all load sequences with repetition, checked against a '
                 'reference multiset model',
    'C04': 'exhaustive enumeration of load permutations, duplications, host '
           'decorations and controlled set-iteration orders of the real code',
    'C05': SUB + ' with all populations around the threshold, and '
                 're-clustering of every cluster',
    'C06': 'exhaustive enumeration of parameterised populations against '
           'closed-form expected patterns',
    'C07': 'exhaustive enumeration of short URLs and patterns; digest '
           'equivalence classes compared with those of a reference model',
    'C08': 'exhaustive enumeration of bounded patterns x texts on the real '
           'matcher against a reference model',
    'C09': 'exhaustive enumeration of load sequences of bounded patterns x '
           'texts on the real matcher against an exact reference model',
    'C10': 'exhaustive enumeration of generated forms and load orders; '
           'rankings compared with exact automata inclusion',
    'C11': 'exhaustive enumeration of bounded URL strings against a reference '
           'parser',
    'C12': 'exhaustive enumeration of bounded component texts against a '
           'reference lexer and regex semantics',
    'C13': 'exhaustive enumeration of bounded pattern strings and token '
           'sequences against a reference grammar',
    'C14': 'stateless exploration of all bounded operation histories and all '
           'interleavings of two objects on the real code against fresh '
           'objects',
    'C15': 'exhaustive fault enumeration: every refused input at every '
           'position of bounded histories, against the history without it',
    'C16': 'exhaustive enumeration of mixed URL sets; distributed and '
           'all-in-one runs of the real code compared',
    'C17': SUB + '; every format compared with an independent walk of the '
                 'clusters',
    'C18': 'exhaustive enumeration of bounded sequences of input line kinds x '
           'options run through the real command',
    'C19': 'exhaustive enumeration of bounded sequences of URL and pattern '
           'line kinds x options run through the real command',
    'C20': 'stateless model checking of two threads of the real code under a '
           'controlled scheduler, all schedules up to a preemption bound',
}
NOTE = {
    'C20': 'All schedules within the preemption bound at line (small '
           'operations: bytecode) granularity, each in a fresh process image. '
           'Trusts CPython\'s trace events.',
    'C18': 'Every run is a fork of a process that only imported the package, '
           'with real descriptors; some runs are new interpreters. Trusts the '
           'API for what valid lines yield (decided by the other properties).',
}
NOTE['C19'] = NOTE['C18']
DEF = ('Complete within the bounds recorded in the evidence, directly on the '
       'code of /repo (no translation); beyond the bounds no claim. Trusts '
       'the reference model in mc/ref.py, CPython and its re module.')


def main():
    checks = []
    for pid in sorted(T):
        checks.append({
            'property': pid,
            'quick_cmd': './run.sh %s quick' % pid,
            'thorough_cmd': './run.sh %s thorough' % pid,
            'evidence_file': 'evidence/%s.json' % pid,
            'technique': 'model checking: ' + T[pid],
            'level': 'model_checking',
            'level_note': NOTE.get(pid, DEF),
        })
    m = {'version': 1,
         'setup_cmd': 'true',
         'checks': checks, 'not_applicable': [],
         'notes': 'No hooks in /repo. KNOWN_FINDINGS.txt lists the recorded '
                  'and the repaired defects.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
