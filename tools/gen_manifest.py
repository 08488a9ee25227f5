#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
W = 'all histories are drawn at random: absence of a violation is evidence, not proof. Trusts the model in '
NOTE = {
 'cb': ('deterministic simulation of re-entrant use with fault injection, checked step by step against a reference model',
        'Seeded search over re-entrancy schedules (user functions called by the library do drawn operations on any callback) with exceptions, '
        'failing allocations and throwing ids, under AddressSanitizer/UBSan; ' + W + 'sim/cbworld.hpp and the simulator.'),
 'conn': ('deterministic simulation with fault injection, checked against a reference model of ownership',
        'Seeded search over histories of owning connections on real callbacks and on connectables that throw; ' + W + 'sim/connections.cpp.'),
 'guards': ('deterministic simulation of exception schedules with fault injection, checked against a reference model',
        'Seeded search over nestings of guards, exceptions and unwinding with a failing std::cerr; ' + W + 'sim/guards.cpp.'),
 'threads': ('deterministic simulation of thread schedules at memory-access granularity',
        'Seeded search over interleavings of 2-4 real threads of which one runs at a time, switched at any memory access, allocation or call-out of '
        'library code; sequentially consistent (no weak memory); compared with the same actors running alone, plus detection of unsynchronised access '
        'to static variables. Uninstrumented code (libstdc++.so) is atomic.'),
 'clone': ('deterministic simulation with fault injection, checked against a reference model of values and lifetimes',
        'Seeded search over clone histories with throwing members and failing allocations over a fixed set of class hierarchies; ' + W + 'sim/clone.cpp.'),
 'bytes': ('deterministic simulation of transfers with fault injection, checked against a reference model',
        'Seeded search over write/read histories with small, cut, damaged and non-growing buffers; ' + W + 'sim/bytes.cpp.'),
 'values': ('deterministic simulation of element operations with fault injection, checked against a reference model',
        'Seeded search over operations and the element operation or allocation at which they fail; ' + W + 'sim/values.hpp.'),
 'print': ('deterministic simulation of failing output with fault injection, checked against the fault-free output',
        'Seeded search over values, stream states and the byte at which the sink fails or throws; ' + W + 'sim/print.cpp.'),
}
def kind(i):
    if i == 6: return 'conn'
    if i in (11, 12): return 'guards'
    if i == 13: return 'threads'
    if i in (14, 15): return 'clone'
    if i in (16, 17, 18): return 'bytes'
    if i == 19: return 'print'
    if i == 22: return 'values'
    return 'cb'
WHY = {
 'C30': 'the UTF functions are pure functions of their argument',
 'C31': 'the decompositions are pure arithmetic on their argument',
 'C32': 'vector and matrix algebra is pure arithmetic on its operands',
 'C33': 'rectangle operations are pure functions of their operands',
 'C34': 'a span is a pointer and a size; its views are a pure function of the arguments',
 'C35': 'flags are pure bit operations',
 'C36': 'rotations and projections are closed formulas over their arguments',
 'C37': 'the comparison is a pure function of its operands',
 'C38': 'the helpers are pure integer functions',
 'C39': 'decided at compile time, nothing is executed',
}
checks, na = [], []
for p in props:
    i = int(p['id'][1:])
    if i < 30:
        t, n = NOTE[kind(i)]
        checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py %s --tier quick' % p['id'],
                       'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                       'evidence_file': 'evidence/%s.json' % p['id'], 'technique': t, 'level': 'exploration', 'level_note': n})
    else:
        na.append({'property': p['id'], 'reason': WHY[p['id']] + ': no schedule, fault, clock, I/O or second party can influence the result, '
                   'so simulation would degenerate to random input testing'})
m = {'version': 1, 'setup_cmd': 'python3 check.py --build-all', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the seams are the public interfaces (functions, ids, element types, stream buffers, assertion macro, operator new) '
              'and compiler instrumentation. check.py --replay FILE repeats a violation.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
