#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
K = 'seeded structured generation against a byte-at-a-time reference model, kernels forced to every dispatch level, plus fast-check on the public API; shrinking'
T = {
 'C01': K, 'C02': 'seeded structured generation with a validity predicate over the encoder output (no model), kernels at every dispatch level plus fast-check on the API',
 'C03': 'round-trip property over generated data (encode, optional dot-stuffing, decode), kernels at every dispatch level plus fast-check on the API',
 'C04': K, 'C05': 'metamorphic stream-cutting property (any cut = no cut) and reference model over generated article streams, kernels and decodeChunk',
 'C06': 'reference state machine over generated streams with end markers and malformed escapes, kernels and decodeChunk',
 'C07': 'generated calls with buffers bounded by inaccessible pages and canaries, allocations of the addon fenced by an interposer',
 'C08': 'fast-check over lengths, line sizes, ratios and output sizes against the stated formulas and the real encodings',
 'C09': 'metamorphic property (in-situ = separate output) over generated streams, kernels at every dispatch level plus API',
 'C10': 'bytewise CRC reference and split/concatenation laws over generated data, kernels at every dispatch level plus API',
 'C11': 'algebraic laws and an independent GF(2)[x] model over generated operands and lengths',
 'C12': 'fast-check with an independent article builder as the model',
 'C13': 'model-based histories of encode calls on several encoders, accepted and rejected',
 'C14': 'round-trip property post / multi_post -> from_post over generated names, data, splits, encodings',
 'C15': 'grammar-based fuzzing of articles against an independent parser model and invariants over the result',
 'C16': 'grammar-based fuzzing of contradictory headers and corrupted payloads against an independent warning model',
 'C17': 'differential fuzzing of builds and dispatch levels, generated CPUID answers against a specification, whole dispatch on generated CPUs under qemu',
 'C18': 'generated concurrent job sets in worker_threads and POSIX threads against the models, and under ThreadSanitizer',
 'C19': 'stateful histories over shared Buffers with a model of every Buffer, allocation counting by an interposer',
 'C20': 'metamorphic property (pieces = whole) and reference columns over generated data and cuts',
 'C21': 'fast-check over invalid argument values in every position, in histories with valid calls',
 'C22': 'generated periodic data of 2 to 6 GiB with results composed from the reference of one period',
 'C23': 'seeded structured generation against the byte-at-a-time reference models on kernels cross-compiled for AArch64, ARM, RISC-V, s390x, PowerPC (user-mode emulation) and 32-bit x86, several vector lengths and CPU features; shrinking',
 'C25': 'fault injection: generated calls, encoder histories and allocation faults (which allocations of the addon fail), against the same calls without faults, encoder states and live allocations; shrinking',
 'C24': 'generated articles, data and call sequences that are long in a few places, timed at growing sizes; oracle: absolute bounds far above a linear scan, and the ratio between a size and four times that size',
}
NOTE = {
 'C25': 'Faults are injected into the allocations the addon itself makes through the C allocator; failures inside Node (which may end the process by itself) are out of scope.',
 'C23': 'Holds on every generated case. Trusts the models, qemu 8.2, clang 18 and gcc 13 for these targets, and the emulated vector lengths of 128 to 1024 bits; timing and memory-ordering are not modelled.',
 'C07': 'No call in the explored cases touched memory it must not; reads past the input inside its own page cannot be seen and are allowed.',
 'C18': 'Interleavings are those the system schedules over millions of calls, plus the happens-before analysis of ThreadSanitizer on the same runs; not an enumeration of schedules.',
 'C24': 'Processor time is measured, so constant factors and slow growth below the bounds (2 microseconds per byte of an article, 0.2 per byte of data) are not seen; quadratic growth is, at up to 4 MiB.',
 'C22': 'A few dozen very large cases; assumes enough memory (about 10 GB).',
}
DEF = 'Failing inputs are searched for, not excluded: holds on every generated case (counts in the evidence). Trusts the models, this machine\'s CPU for the levels it has, and Node 22 on Linux x86-64.'
NA = {}
exec(open(os.path.join(V, 'tools/not_applicable.py')).read()) if os.path.exists(os.path.join(V, 'tools/not_applicable.py')) else None
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'python3 bin/setup.py',
 'checks': [{'property': i, 'quick_cmd': 'python3 bin/check.py %s --tier quick' % i, 'thorough_cmd': 'python3 bin/check.py %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
   'technique': T[i], 'level': 'exploration', 'level_note': NOTE.get(i, DEF)} for i in ids if i not in NA],
 'not_applicable': [{'property': i, 'reason': NA[i]} for i in ids if i in NA],
 'notes': 'No hooks in /repo: the checks link the objects of an ordinary build and drive the ordinary addon. Replay a violation with: python3 bin/check.py --replay FILE'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
