#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the checks that exist (mc/chk_cNN.cc)."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCHED = 'stateless model checking of the real code: every schedule, message timing and buffering choice within a deviation bound, under a controlled scheduler with happens-before state caching'
ENUM = 'bounded exhaustive enumeration of executions of the real code (all inputs of a stated finite family) against an independent reference model'
NOTE = {
 'C01': ('model_checking', SCHED, 'Runs main on real (small) meshes; all partitions and all schedules within the bounds listed in the evidence; trusts the stand-in MPI/OpenMP and the reference solver.'),
 'C02': ('model_checking', SCHED, 'Deadlock, livelock, unmatched messages and collective mismatches decided on every explored execution, for eager, synchronous and per-message chosen buffering.'),
 'C03': ('model_checking', SCHED, 'GraphTraverser driven directly with a recording TraverseData; exactly-once, order, delivery and face classification monitored on every explored execution.'),
 'C04': ('model_checking', SCHED, 'Happens-before race detection on instrumented code inside the explored schedules; MPI thread level of every call.'),
 'C05': ('model_checking', SCHED, 'Every byte of a buffer owned by a pending operation is watched (writes, frees, reads of receive buffers) and hashed at completion, on every explored execution.'),
 'C06': ('model_checking', SCHED, 'SweepSchedule driven directly; its step lists compared across ranks with the dependency relation computed independently.'),
 'C07': ('exploration', ENUM, 'Every face-sign pattern of a family of tetrahedra x directions x cross sections x methods, against an independent finite-element assembly.'),
 'C08': ('exploration', ENUM, 'All supported orders completely; refusal of the orders around them.'),
 'C09': ('exploration', ENUM, 'All partitions of the small meshes and all face/cell numberings of a family.'),
 'C10': ('model_checking', SCHED, 'All partitions of the small meshes; every accessor of the mesh object compared with the global mesh; message orders explored.'),
 'C11': ('fault_enumeration', 'exhaustive fault enumeration: every truncation point and every header field of mesh files, run through every reader of the real code', 'Every truncation length of small mesh files, every byte of name and version, all partition count/rank count pairs.'),
 'C12': ('model_checking', SCHED, 'Output file compared byte by byte for all partitions and earlier file contents.'),
 'C13': ('exploration', ENUM, 'All token sequences up to a bound, all value strings of an alphabet for every key of the deck.'),
 'C14': ('model_checking', SCHED, 'CommSides driven directly, all arrival orders, repeated exchanges.'),
 'C15': ('model_checking', SCHED, 'All partitions of small meshes for the six solvers, compared with the converged reference solution and, step by step, with the block Jacobi iterates.'),
 'C16': ('model_checking', SCHED, 'Iterates, stopping index and Krylov solution compared with the reference for families of tolerances and limits.'),
 'C17': ('exploration', ENUM, 'All meshes of the family under all vertex/face numberings, repeated refinement.'),
 'C18': ('exploration', ENUM, 'All argument pairs in the stated range for the meshes of the family.'),
 'C19': ('model_checking', SCHED, 'Groups compared bit by bit with a one-group run in every sweep mode; diffBetweenGroups on enumerated fluxes.'),
 'C20': ('model_checking', SCHED, 'Unit-vector basis of inputs (the operators are linear), all thread counts and partitions.'),
 'C21': ('model_checking', SCHED, 'Priorities of the real code compared with independently computed ones for all partitions of small meshes.'),
 'C23': ('exploration', 'bounded exhaustive enumeration: the scenarios of all other checks (evenly spaced) run on the real code, with every memory access monitored, each under two fillings of unset memory whose outcomes must agree', 'Complete for the executions explored: every access of the program to heap objects is checked against live, never reused, guarded blocks. Objects of libraries are not watched.'),
 'C24': ('exploration', 'bounded exhaustive enumeration: pairs of runs of the real code that differ in the number of iterations only, for a finite family of configurations, every allocation of the program counted', 'Complete for the executions explored; growth below 32 bytes for each rank and iteration is allowed; memory of libraries (other than PETSc objects) is not counted.'),
 'C25': ('model_checking', 'stateless model checking of the real code: all interleavings of ranks and threads within a deviation bound under a controlled scheduler, the output of each compared bit by bit with a reference run', 'Bounded: small meshes, up to 4 ranks and 3 threads, one or two deviations from the default schedule, evenly bounded number of schedules for each configuration; sums inside the MPI library are taken as deterministic.'),
 'C26': ('exploration', 'bounded exhaustive enumeration: the tools run on all small shapes of mesh file with distinct values in every field, 1-4 ranks, the output compared word by word with the contents of the file', 'Complete for the files and schedules explored; coordinates are compared to the precision with which they are printed.'),
 'C22': ('exploration', ENUM, 'Materials, sources and reported errors for all partitions of small meshes.'),
}
ids = [json.loads(l)['id'] for l in open(H + '/properties.jsonl')]
checks, na = [], []
for i in ids:
    if os.path.exists(H + '/mc/chk_%s.cc' % i.lower()):
        lv, t, n = NOTE[i]
        src = open(H + '/mc/chk_%s.cc' % i.lower()).read()
        m = re.search(r'"(model_checking|exploration|fault_enumeration)"', src)
        assert m and m.group(1) == lv, (i, lv, m and m.group(1))
        checks.append(dict(property=i, quick_cmd='python3 check.py %s --tier quick' % i, thorough_cmd='python3 check.py %s --tier thorough' % i, evidence_file='evidence/%s.json' % i, technique=t, level=lv, level_note=n))
    else: na.append(dict(property=i, reason='check under construction'))
json.dump(dict(version=1, setup_cmd='python3 check.py all', checks=checks, not_applicable=na, notes='No hooks in /repo are needed: the checks compile the unmodified sources against replacement mpi.h/OpenMP/TSan/PETSc entry points (mc/).'), open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks')
