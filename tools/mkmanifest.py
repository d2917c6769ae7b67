#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
CLAIMED = open(os.path.join(H, 'tools', 'claimed')).read().split()
TECH = 'deterministic simulation with fault injection: seeded search over '
what = {
 'C01': 'branch/LP-fault/cut histories of a population of workers; every returned cut tested against all feasible points of the node',
 'C02': 'worker interleavings and message faults; every cut flagged global tested against all feasible points of the root model',
 'C03': 'branch histories and LP faults; bound changes and infeasibility verdicts tested against all feasible points of the node',
 'C04': 'histories with LP and clock faults; full solver and cut-collection state compared before/after every call',
 'C05': 'histories of settings, nodes and LP faults; every returned cut checked for form and the limits in force',
 'C06': 'histories replayed under perturbed heap/stack contents, addresses, clock and earlier process activity; transcripts compared bit for bit',
 'C07': 'thread interleavings at basic-block granularity under a controlled scheduler; per-thread transcripts compared with isolated runs',
 'C08': 'copy/assign/destroy histories; every copy compared with a twin that replays the same history without copies',
 'C09': 'histories across nodes, models and clock faults; every call compared with a freshly built generator',
 'C10': 'clock jumps and stalls at chosen clock polls; bounded-progress check after the deadline, validity and recovery of the results',
 'C11': 'file contents with truncation, read errors and short reads at chosen bytes; refinement against a reference reader',
 'C12': 'operation histories over several pools; refinement against a list model',
 'C13': 'recording/query/copy histories over several stores; refinement against an implication model and exhaustive assignments',
 'C14': 'lifecycle histories under a memory checker and an allocation ledger',
 'C15': 'configuration histories and failing output streams; emitted code is compiled, run and compared',
 'C16': 'cleaning/branching histories; cleaned model compared with exhaustive enumeration of the original',
 'C17': 'schedules of a parallel branch and cut with crashes, message and LP faults; final value compared with exhaustive enumeration',
 'C18': 'histories of setters with good and bad values, copies, calls, deadlines and failing output; every getter of every object compared with a dictionary after every operation',
}
m = {'version': 1, 'setup_cmd': 'python3 /verif/build.py plain asan thread',
     'checks': [], 'not_applicable': [],
     'hooks': {'guard': 'none', 'enable': 'no hooks were added to the repository: the simulator interposes on clock, allocator, files and compiler-inserted step callbacks at build and link time', 'source_commits': []},
     'notes': 'Replay a reported violation with: python3 /verif/check.py --replay FILE. Known and fixed findings: known-findings.json.'}
for p in props:
    i = p['id']
    if i in CLAIMED:
        m['checks'].append({'property': i, 'quick_cmd': 'python3 /verif/check.py %s --tier quick' % i, 'thorough_cmd': 'python3 /verif/check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i, 'technique': TECH + what[i], 'level': 'exploration',
            'level_note': 'seeded search, not exhaustive; models small enough for an exact oracle; counts in the evidence file'})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'check not finished yet'})
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')
