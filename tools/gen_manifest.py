#!/usr/bin/env python3
# Writes MANIFEST.json: every property with a harness is claimed, the others are listed as not applicable.
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(root, 'properties.jsonl'))]
NOTE = {
 'C01': 'Real DuoVector under ASan/UBSan with injected allocation and constructor failures against a reference model; seeded sampling, not exhaustive.',
}
DEFAULT = ('Seeded search over simulated executions of the real qlmps headers. Trusted: the dense block-checked stand-in for TensorToolkit '
           '(the library is not installed), the dense reference (matrix exponentials and diagonalisation of chains of at most 9 sites), and the simulator. '
           'A clean batch is evidence, not proof.')
TECH = {
 'C30': 'deterministic simulation: seeded histories of generator calls with injected allocation failures against a dense reference operator',
 'C01': 'deterministic simulation: seeded operation histories with injected allocation/constructor failures against a reference model',
}
MPI = {'C10', 'C11', 'C12', 'C13', 'C14'}
DISK = {'C02', 'C09', 'C16', 'C17', 'C21'}
CRASH = {'C20'}
SIG = {'C07', 'C08'}
def tech(i):
  if i in TECH: return TECH[i]
  if i in MPI: return 'deterministic simulation: seeded scheduling of ranks, threads and messages, compared with serial code and dense reference'
  if i in DISK: return 'deterministic simulation: seeded disk-fault injection through interposed system calls, checked against a dense/reference model'
  if i in CRASH: return 'deterministic simulation: seeded crash (with torn writes) and restart, checked against dense reference'
  if i in SIG: return 'deterministic simulation: seeded signal delivery at every kind of event, checked against undisturbed runs and dense reference'
  return 'deterministic simulation: seeded runs and faults checked against a dense reference model'
na = {
 'C31': 'Symbolic coefficient/operator algebra is pure computation: nothing to schedule and no fault to inject.',
 'C32': 'Site and operator definitions are constants: nothing to schedule and no fault to inject.',
}
checks, nap = [], []
for p in props:
  i = p['id']
  if os.path.exists(os.path.join(root, 'harness', i + '.cc')) and i not in na:
    checks.append({'property': i, 'quick_cmd': './check.sh %s quick' % i, 'thorough_cmd': './check.sh %s thorough' % i,
                   'technique': tech(i), 'level': 'exploration', 'level_note': NOTE.get(i, DEFAULT)})
  else:
    nap.append({'property': i, 'reason': na.get(i, 'Not claimed yet: its harness is still being built.')})
json.dump({'version': 1, 'setup_cmd': 'mkdir -p build evidence replays', 'checks': checks, 'not_applicable': nap,
           'notes': 'No hooks in /repo: the seams are the tensor/MPI/timer libraries (replaced by stand-ins on the include path) and interposed libc calls, all under /verif/sim.'},
          open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(nap), 'not')
