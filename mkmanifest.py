#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
AI = 'abstract interpretation of resolved MIR (shape domain for the raw tables)'
T = {
 'C01': AI + ': inductive bijection invariant', 'C02': AI + ': per-path operation contracts',
 'C03': AI + ': inductive pairing invariant', 'C04': AI + ': per-path operation contracts',
 'C05': AI + ': inductive group invariant', 'C06': AI + ': per-path operation contracts',
 'C07': AI + ': unreachability of panics and unwinds', 'C08': AI + ': must-alias/no-alias of hashes split from equality',
 'C09': AI + ': effect and result analysis of queries', 'C10': AI + ': yielded-element multiset per summary class',
 'C11': AI + ': symbolic element counts compared with linear size claims', 'C12': AI + ': typestate of drained tables',
 'C13': AI + ': per-class predicate/removal/yield relation', 'C14': AI + ': per-class predicate/removal relation',
 'C15': AI + ': joint shape of two maps', 'C16': AI + ': structural copy relation',
 'C17': AI + ': serializer protocol and allocation taint', 'C18': AI + ': sequence of abstract insertions',
 'C19': AI + ': parametric data flow per variant', 'C21': AI + ': effects on table capacity',
 'C22': AI + ': provenance of hash values and hash builders', 'C23': AI + ': invariant on unwind edges',
 'C24': AI + ': typestate of raw buckets and iterators', 'C25': AI + ': printed-element multiset per summary class',
 'C26': AI + ': no effect on failing paths',
 'C27': AI + ': ownership of opaque item objects',
 'C28': AI + ': invariant at every leak point of a drain',
 'C29': AI + ': bucket typestate on unconstrained tables under an adversarial Hash, Eq and Clone',
 'C30': AI + ': every cycle through a loop head or recursion consumes something finite',
 'C31': AI + ' of the MIR of each build configuration, and comparison of the findings',
 'C20': 'compile-fail witnesses with compiling twins, and signature analysis of the public API',
}
NOTE = ('Holds for maps of every size, arbitrary items and hash functions, on every path the analysis decides (undecided '
        'entry points are listed in the evidence and prove nothing). Trusts rustc\'s MIR, the models of hashbrown/std in '
        'analysis/models.py and the reference semantics in analysis/specs.py; assumes pure user Hash/Eq/Clone.')
NOTES = {'C29': 'Holds for tables of every size holding arbitrary unrelated elements, on every path the analysis decides. Assumes that the '
                'elements of one table have distinct ids (they come from a counter) and that hashbrown itself is safe under such keys; '
                'trusts rustc\'s MIR and the models of hashbrown/std in analysis/models.py.',
         'C20': 'Each witness is compiled against /repo: the offending program must be rejected for the stated reason and its twin '
                'accepted; the signature rules cover every public function. Trusts rustc\'s borrow and trait checker.'}
NA = {
 'N01': 'Running time is a quantitative property of hashbrown\'s probing and the hash function; no static argument in reach bounds it.',
 'N02': 'Depends on the implementation of arbitrary external serde formats; what the crate itself emits and accepts is C17.',
 'N03': 'A panic inside hashbrown\'s or the crate\'s multi-step updates at each user callback leaves states the shape domain has no '
        'specification for (the crate promises nothing); only closure panics (C23) are decided.',
 'N04': 'Needs more than 2^64 operations; the counters are treated as never wrapping (assumption of C01-C08).',
}


def main():
    ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks, na = [], []
    for i in ids:
        if i in NA:
            na.append({'property': i, 'reason': NA[i]})
        elif i == 'C20' and not os.path.isdir(os.path.join(HERE, 'witness')):
            na.append({'property': i, 'reason': 'Not built yet.'})
        else:
            checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                           'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                           'evidence_file': 'evidence/%s.json' % i, 'technique': T[i], 'level': 'other',
                           'level_note': NOTES.get(i, NOTE)})
    m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks: the checks read /repo\'s source through rustc.'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
