#!/usr/bin/env python3
# Writes MANIFEST.json. Run: python3 gen_manifest.py
import json, os
T='deterministic simulation: seeded search over schedules%s of the real library under a simulated scheduler, clock, allocator and disk; %s'
NOTE='Sampled, not exhaustive: %s Real code: everything in /repo/src and mav_trajectory_generation, Eigen, NLopt, libstdc++ (threads, futures, mutexes). Simulated: thread scheduling at every synchronisation and sampled memory accesses, clocks, sleeps, solver duration%s. Trusted: the simulator, the oracle in sim/harness.cpp, clang instrumentation. Memory is sequentially consistent.'
C={
'C01':(' and long computations','published waypoints compared with a request-queue reference model','exploration','lost, duplicated, misordered or superseded requests are noticed once the generator is idle or 240 simulated seconds after the last request.'),
'C02':('','published positions compared with a reference model (last modification wins)','exploration','positions are compared while nothing is being computed, for waypoints the reference has not passed.'),
'C03':('','every observed regeneration compared with the list before it','exploration','a waypoint whose announced time lies between the evaluated time and that time plus the compensation may go either way.'),
'C04':(' and solver outcomes','passage of every published waypoint checked by evaluation','exploration','tolerance 2 mm plus the bounded influence of modifications of neighbours and the dead band.'),
'C05':(' and computation times','reference compared across every observed takeover and modification','exploration','takeovers during the flight, with a bound which grows with the duration of the computation; exact comparison of the start of the new trajectory.'),
'C06':(' and solver outcomes','difference quotients of evaluated references','exploration','2 ms stencils at sampled times; trajectories leaving for kilometres are skipped.'),
'C07':(' and solver outcomes','start, end and out-of-range references evaluated','exploration','eight offsets up to 1000 s after the end, two before the start.'),
'C08':('','speed read back by concurrent readers; trajectories compared with those of fresh twin generators','exploration','regenerations in flight are compared coarsely (a twin cannot start in flight).'),
'C09':(' at memory-access granularity','old-or-new check of concurrent evaluations and queries against quiescent tables','exploration','bitwise comparison with the tables before and after each change; a modification with regeneration may pass through one intermediate state.'),
'C10':(' and stalls','deadlock, livelock and bounded-time detection','exploration','bounds in simulated time are generous multiples of the injected delays.'),
'C11':('','destruction at random instants with shadow memory and thread accounting','exploration','use after free is detected by a shadow of all freed blocks.'),
'C12':(' and allocation, thread-creation and solver failures','behaviour after every injected failure compared with the request model','fault_enumeration','one to several failures per run; allocations inside Eigen sparse matrices, which do not check the result, are not failed.'),
'C13':(' at memory-access granularity','vector-clock race detection, use-after-free shadow, aborts, uncaught exceptions','exploration','happens-before race detection: any race between accesses that execute is found whatever their order in time.'),
'C14':('','notifications counted against the changes made','exploration','one change per phase, up to several pollers.'),
'C15':('','progress queries compared with the published list and latest evaluated time','exploration','checked at quiescent instants between queries of one pilot.'),
'C16':('','idle moments compared with the requests made before','exploration','idle is read as pending then computing.'),
'C17':(' of several generators','per-generator models, twin-free isolation checks and race detection','exploration','two or three generators per process.'),
'C18':(' and disk faults','files saved under a simulated disk reloaded and compared','fault_enumeration','faults at any operation of a save or load: errors, full disk, short and interrupted writes, loss of power after a reported success.'),
'C19':(' and crash points','crash or power failure at any disk operation of a save; read faults','fault_enumeration','at a power failure the disk loses bytes not synchronised and may undo renames whose directory was not synchronised.'),
'C20':(' and clock jumps','timer statistics compared with the simulated durations','exploration','threads start, stop and query timers of shared and new tags, and reset the registry, under a clock that jumps.'),
'C24':(', allocation and thread-creation failures','memory held in equal idle states compared across histories; memory and threads after destruction','exploration','blocks allocated by library code and not by the harness are counted; contents of the process-wide timing registry are excluded by a warm-up.'),
'C25':(', disk errors and crash points','recorded file histories checked for linearisability (unique values, zones)','exploration','2 to 4 threads, 1 or 2 files; after a power failure only saves reported as successful bind.'),
}
NA={
'C21':'Pure function of its input (coefficients, interval): no schedule, clock, I/O, fault or second party for a simulator to vary; a simulated run adds nothing to calling the function.',
'C22':'Pure function of its input (trajectory, range, step): no schedule, clock, I/O, fault or second party for a simulator to vary.',
'C23':'Pure function of its input (vertices, segment times): no schedule, clock, I/O, fault or second party for a simulator to vary. Its consequences for the reference (passing through waypoints, continuity) are checked under C04 and C06.',
}
def main():
    m=dict(version=1,setup_cmd='python3 build.py',checks=[],not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],
      notes='No hooks in /repo: the seams are the compiler (-fsanitize=thread calls into our own runtime) and link-time interposition of libc, pthread and NLopt calls. See DESIGN.md.')
    for k,(a,b,lv,n) in C.items():
        m['checks'].append(dict(property=k,quick_cmd='python3 check.py '+k,thorough_cmd='python3 check.py '+k+' thorough',evidence_file='evidence/'+k+'.json',technique=T%(a,b),level=lv,
          level_note=NOTE%(n,', disk' if k in('C18','C19','C25') else '')))
    here=os.path.dirname(os.path.abspath(__file__))
    json.dump(m,open(here+'/MANIFEST.json','w'),indent=1); open(here+'/MANIFEST.json','a').write('\n')
if __name__=='__main__': main()
