#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': 'property-based testing: round trip over generated definitions and data',
 'C02': 'property-based testing: differential against a reference encoder, byte for byte',
 'C03': 'property-based testing: reference encoder with arbitrary legal layouts, read back against the model',
 'C04': 'model-based testing of write histories (last write wins, fill), split metamorphism',
 'C05': 'stateful testing of histories with rejected calls against admissible error sets and the history without them',
 'C06': 'model-based testing of definition histories, all getters compared after each step',
 'C07': 'model-based testing of attribute histories, all getters compared after each step',
 'C08': 'exhaustive small strings and generated strings against an independent predicate, through every entry point',
 'C09': 'property-based testing against exact (128 bit) arithmetic',
 'C10': 'fuzzing: structured mutation of files, hostile counts and random bytes; no panic, abort, hang or disproportionate allocation',
 'C11': 'generated files, every cut point enumerated, prefix oracle',
 'C12': 'model-based testing of read histories over generated files',
 'C13': 'property-based testing: indeterminate record counts against an own computation',
 'C14': 'property-based testing around the size limits, sparse files, exact arithmetic',
 'C15': 'fault injection enumeration over generated histories (byte limits, failed and shortened writes, RLIMIT_FSIZE, /dev/full)',
 'C16': 'property-based testing over previous file system states and creation modes',
 'C17': 'property-based testing of the full accessor matrix',
 'C18': 'metamorphic: repeated read and rewrite reproduces canonical files',
 'C19': 'fuzzing, differential against a strict reference decoder',
 'C20': 'metamorphic over header_min_size plus reference layout',
 'C21': 'histories dropped at every point against the model overlay',
 'C22': 'stateful testing: rejected operations, snapshot equality and admissible error sets',
 'C24': 'fault injection enumeration over read sessions (short, interrupted, refused and ended reads, file replaced at every call)',
 'C25': 'property-based testing: == against model equality; model-based testing of copies and removed parts',
 'C26': 'crash point enumeration over generated write histories',
 'C27': 'fuzzing: the error compared with the diagnosis of an independent strict decoder',
 'C23': 'generated interleavings and threads, each handle compared with its solo run',
}
checks = []
for l in open(os.path.join(here, 'properties.jsonl')):
    i = json.loads(l)['id']
    checks.append({
        'property': i,
        'quick_cmd': './check.sh ' + i,
        'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + i,
        'technique': T[i],
        'level': 'fault_enumeration' if i in ('C15', 'C24', 'C26') else 'exploration',
        'level_note': 'Generated-input search against an explicit oracle; finite sample of an unbounded space, seeded by VERIF_SEED. '
                      'Trusts the reference model, encoder and decoder in harness/src and POSIX file semantics of the scratch directory.',
    })
m = {
    'version': 1,
    'setup_cmd': 'CARGO_NET_OFFLINE=true cargo build --release --offline --locked --manifest-path harness/Cargo.toml',
    'checks': checks,
    'not_applicable': [],
    'notes': 'No hooks: the harness uses the public API only. Known findings and fixes: known_findings.txt.',
}
open(os.path.join(here, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')
