#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRIE = ('TLA+ specifications of the value store (FrozenStore) and of the hash trie (Trie, model-checked to refine it); TLC trace validation of recorded calls, '
        'including every call on all tries of a bounded size, generated by TLC (GenTrie)')
STORE = 'TLA+ specification of the value store (FrozenStore); TLC trace validation of recorded calls of the real code'
TECH = {
    **{p: TRIE for p in ('C02', 'C03', 'C04', 'C14')},
    'C01': TRIE + '; TLA+ model of nodes shared by versions (Heap); chains of derived values over all those tries, re-read at the end',
    'C06': TRIE + '; TLA+ model of nodes shared by builders and sets (Heap); every destructive builder script over those tries',
    'C07': TRIE + '; TLA+ model of the fan-out over goroutines (Fork); runs under forced, mild, no and single-processor concurrency',
    'C08': STORE,
    'C09': STORE + ', including all cell shapes of an IntSet generated by TLC (GenInts) and all pairs of them',
    'C10': 'TLA+ specification of lazy sets (Lazy); all expressions of a bounded depth generated by TLC (GenLazy) and random ones, their recorded answers validated by TLC',
    'C11': 'TLA+ specification of lazy sets and of the memo cell shared by their iterators (Lazy, LazyMemo); all interleavings of the model replayed on the real code, TLC trace validation',
    'C12': 'TLA+ relational algebra (Rel), its laws model-checked (MCRel); all small relations generated by TLC (GenRel) and random expressions, TLC trace validation of the real answers',
    'C15': STORE + '; the specification itself model-checked (MCStore)',
    'C16': 'TLA+ trace validation (TLC) of what each goroutine obtains in concurrent runs of a race-detector build',
}
NOTE = ('TLC decides every recorded call of the real code against the TLA+ specification; assurance is over the explored universes, hash layouts, '
        'histories and schedules (counts in the evidence file), not over all of them. Trusts TLC and the recording driver.')
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='bash tools/setup.sh',
         checks=[dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'], thorough_cmd='python3 check.py %s --thorough' % p['id'],
                      technique=TECH.get(p['id'], STORE),
                      level='model_checking', level_note=NOTE) for p in props],
         not_applicable=[])
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
