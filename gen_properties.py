#!/usr/bin/env python3
# Source of properties.jsonl (one JSON object per line). Run: python3 gen_properties.py
import json
DT='src/dynamic_trajectory.cpp'; DH='include/dynamic_trajectory_generator/dynamic_trajectory.hpp'
DW='src/dynamic_waypoint.cpp'; WH='include/dynamic_trajectory_generator/dynamic_waypoint.hpp'
TS='include/dynamic_trajectory_generator/thread_safe_trajectory.hpp'; TM='include/dynamic_trajectory_generator/utils/traj_modifiers.hpp'
M='subpackages/mav_trajectory_generation/'
NL=M+'include/mav_trajectory_generation/impl/polynomial_optimization_nonlinear_impl.h'
LI=M+'include/mav_trajectory_generation/impl/polynomial_optimization_linear_impl.h'
IO=M+'src/io.cpp'; TI=M+'src/timing.cpp'
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=None)))
SH=['schedules','histories','inputs']
p('C01','No accepted waypoint request is lost',
 'Every set (of at least one waypoint) or append call that returns takes effect: while the reference keeps being evaluated with advancing time, the published waypoint list comes to hold the waypoints of the latest set followed by every later append, each exactly once and in call order (apart from those the reference has meanwhile passed), whatever moment of a regeneration the calls arrive at. A set discards every waypoint and modification requested before it, and an append never discards anything.',
 SH,'all interleavings of set/append/modify callers with the background generator, the computation task and the evaluators; all computation durations and stalls',
 'the one test issues a single set before anything runs; losing a request needs a call landing in a window of the hand-over between generator, computation and evaluator',
 [DT,DH],[('request queues drained under a lock',DT+':generateWaypointsForTheNextTrajectory'),('pending flag',DT+':todoThreadLoop, checkTrajectoryGenerated')],
 [('pending flag','a regeneration has been requested',DH)],['getDynamicWaypoints'])
p('C02','Waypoint modifications take effect, and the last one wins',
 'After a modification of a named waypoint that is still ahead (in the active trajectory, in one being computed, or in a pending request made earlier) the published position of that waypoint becomes the position of the latest modification of that name, whether the change is applied in place or by a regeneration, and stays so across later regenerations. Waypoints of other names, and modifications of unknown names, are unaffected.',
 SH,'all interleavings of modify/set/append callers with the generator and evaluators, for single and batch modifications, with and without the regenerate option, at every distance to the waypoint',
 'no test modifies a waypoint; which of the two mechanisms applies a change depends on timing',
 [DT,DW],[('modification queue',DT+':modifyWaypoint'),('in-place application',DT+':applyWaypointModification'),('application at regeneration',DT+':resetWaypointThroughDeque')],(),['getDynamicWaypoints'])
p('C03','Regeneration keeps every waypoint ahead, in order',
 'When a trajectory is regenerated because of an append or a modification, every named waypoint of the previous trajectory that the evaluated time (including the announced time compensation) had not reached is in the new one, exactly once, in the same relative order, before the appended ones and at its position unless modified. Waypoints already reached never come back.',
 SH,'all moments at which a regeneration can start or finish relative to evaluation, all computation durations, repeated regenerations',
 'the tests never regenerate; dropping or repeating a waypoint depends on how far evaluation has advanced when the generator takes its snapshot',
 [DT],[('passed-waypoint filter',DT+':filterPassedWaypoints'),('stitching',DT+':stitchActualTrajectoryWithNewWaypoints'),('security zone before a waypoint',DT+':checkInSecurityZone')],(),['getDynamicWaypoints'])
p('C04','The reference passes through each waypoint at its announced time',
 'For every published waypoint list, evaluating the reference at the announced time of a waypoint (minus the announced time compensation) gives the published current position of that waypoint, including after in-place modifications, up to the influence of the modifications of neighbouring waypoints and the 2 cm dead band per modification. A velocity requested together with a waypoint is the velocity of the reference there while no waypoint is modified. Announced times strictly increase along the list and the last one is the maximum time.',
 SH+['fault_sequences'],'all waypoint lists, regeneration and modification histories, and all outcomes of the numerical solver',
 'the test writes a CSV and checks no value; announced times and positions are produced by different threads from different snapshots',
 [DT,DW,TM,LI,NL],[('time announcement',DT+':computeTrajectory'),('in-place modification',DW+':setCurrentPosition'),('position constraints',LI)],(),['evaluateTrajectory','getDynamicWaypoints','getTimeCompensation'])
p('C05','The reference never jumps at a takeover or a modification',
 'A regenerated trajectory starts exactly where the reference was when its generation began, and its takeover moves the reference by no more than the motion the vehicle makes within a quarter of a second plus a fraction of the time the computation took. Applying a modification in place leaves the reference at the latest evaluated time where it was (within about 1% of the shift), so the change is always faded in ahead of the vehicle.',
 SH,'all takeover instants, computation durations, modification instants and distances to the waypoint, with and without a pending time compensation',
 'needs a takeover or a modification during evaluation; no test does either',
 [DT,DW,TM],[('stitching at the current reference',DT+':stitchActualTrajectoryWithNewWaypoints'),('time fitting at takeover',DT+':timeFittingWithVehiclePosition'),('width of the modification',DW+':setCurrentPosition')],(),['evaluateTrajectory'])
p('C06','Velocity and acceleration are the derivatives of position',
 'At every time within the trajectory the evaluated velocity is the time derivative of the evaluated position and the acceleration that of the velocity, also while any number of in-place modifications are active and after any history of regenerations; all references are finite.',
 SH+['fault_sequences'],'all modification and regeneration histories, all solver outcomes',
 'the modified reference is a sum built by several threads; no test evaluates a modified trajectory or compares the three references',
 [DT,TM,DW],[('modified evaluation',DT+':evaluateModifiedTrajectory'),('modifier derivatives',TM+':GaussianModifier::operator()')],(),['evaluateTrajectory'])
p('C07','Starts at the vehicle, ends at rest and holds the last waypoint',
 'A trajectory generated while none is active starts at the vehicle position last reported before its generation began, with zero velocity and acceleration; every trajectory reaches its last waypoint at rest. Evaluating later than the end keeps returning the published position of the last waypoint with zero velocity and acceleration for ever, also after in-place modifications, and evaluating earlier than the start returns the start.',
 SH+['fault_sequences'],'all moments of vehicle position updates, regenerations and modifications; all evaluation times outside the range; all solver outcomes',
 'depends on when the vehicle position is sampled relative to generation and on modifications of the last waypoint; tests check no value',
 [DT,TS],[('vehicle waypoint',DT+':appendDronePositionWaypoint'),('end constraints',DT+':extractVerticesFromWaypoints'),('clamping',DT+':evaluateModifiedTrajectory')],(),['evaluateTrajectory'])
p('C08','The configured speed survives regeneration and limits the trajectory',
 'After setting the speed, reading it back returns that value until it is set again, whatever is being computed or taken over meanwhile. A trajectory generated after the speed was set is the one a freshly created generator makes for that speed, whatever was requested, generated or taken over before; where the solver is left to run to its own stopping criterion its peak speed stays within a small multiple of that limit (the optimisation treats the limit as a soft constraint).',
 SH,'all interleavings of speed changes with generation and takeover, over waypoint layouts and speeds',
 'the test sets the speed once before anything runs',
 [DT,NL],[('parameter hand-over',DT+':setSpeed, swapTrajectory'),('soft constraints',NL)],(),['getSpeed','evaluateTrajectory'])
p('C09','Each evaluation is an atomic snapshot of one trajectory state',
 'An evaluation, a query of the published waypoints, or a query of the time range that overlaps a takeover or an in-place modification returns exactly what it would return entirely before or entirely after that change: position, velocity and acceleration of one evaluation never mix two states. Once a caller has observed the new state, no later call observes the old one.',
 ['schedules','histories'],'all interleavings of several concurrent evaluators and queries with takeovers and modifications',
 'the tests are sequential; a mixed result needs a preemption inside one evaluation',
 [DT,TS],[('evaluation and swap locking',DT+':evaluateTrajectory, swapTrajectory')],(),['evaluateTrajectory','getDynamicWaypoints','getMaxTime','getMinTime'])
p('C10','Every call returns and accepted work completes in bounded time',
 'No combination of concurrent public calls deadlocks. Evaluation before the first trajectory blocks only until one is ready; no other public call waits for a running computation once a trajectory is active, and once computations finish all accepted requests are in effect within a bounded time.',
 ['schedules','histories'],'all interleavings of all public calls, long computations and stalled threads',
 'tests call one method at a time from one thread; lock-order inversions and missed wake-ups need particular interleavings',
 [DT,DH,TS],[('lock protocol',DT),('polling loop',DT+':todoThreadLoop')],(),['every public call'])
p('C11','Destruction is safe at any moment',
 'Destroying the generator, from the thread that owns it, is safe at any instant — before the first request, with requests pending, while a trajectory is being computed, or after it is ready but not taken over: it returns in bounded time after any running computation, leaves no thread or task of the generator behind, and nothing touches its memory afterwards.',
 ['schedules','crash_points','histories'],'all instants of destruction relative to the background thread and the computation task',
 'the test destroys the generator only when everything is idle',
 [DH],[('destructor',DH+':~DynamicTrajectory'),('member order',DH)],(),['destructor','thread count'])
p('C12','A failed computation or allocation never wedges or corrupts the generator',
 'If memory runs out inside a public call, that call throws and has no effect; if it runs out inside the computation of a trajectory, the failure is reported as an exception to a caller that evaluates and the previous trajectory stays in force unchanged; if the system cannot start the computation task it is retried. In every case the generator stays responsive and requests made after the failure are carried out as usual.',
 ['fault_sequences','schedules','histories'],'allocation failure at any allocation of a public call or computation, thread-creation failure at any attempt, in any state',
 'tests inject no fault',
 [DT,DH],[('future hand-over',DT+':swapTrajectory'),('request queues',DT+':setWaypoints')],(),['evaluateTrajectory','getDynamicWaypoints','getComputingNewTrajectoryStatus'])
p('C13','Concurrent use has no data race and no undefined behaviour',
 'Any number of threads may concurrently call set, append, modify, setSpeed, updateVehiclePosition, evaluate and every getter of one generator: no execution contains a data race (two unordered conflicting accesses), a use of freed memory, a call on an invalid future, an abort or an uncaught exception in a background thread.',
 ['schedules','histories','inputs'],'all interleavings at memory-access granularity of all public calls with the generator thread and the computation task',
 'tests run one caller and use no race detector; a data race is a property of schedules',
 [DT,DH,TS,WH],[('mutexes and atomics',DH),('thread-safe trajectory',TS)],(),['memory accesses of the generator'])
p('C14','Regeneration notifications are neither lost nor invented',
 'Polling the was-regenerated flag returns true exactly once after each takeover or in-place modification (several changes between two polls may share one true), and never returns true when nothing has changed since the previous poll. With several concurrent pollers, each change is reported to at least one and no single change to two.',
 ['schedules','histories'],'all interleavings of pollers with takeovers and in-place modifications',
 'losing one needs a change between the two halves of a poll',
 [DT],[('regenerated flag',DT+':getWasTrajectoryRegenerated')],(),['getWasTrajectoryRegenerated'])
p('C15','Time and progress queries agree with the trajectory in force',
 'The next-waypoint list is exactly the published waypoints whose time is later than the latest time evaluated for flight, and the remaining count is its length without the leading stitching points, also right after a takeover; the time range starts at the time evaluated when the active generation began and ends at the time of the last waypoint. Evaluations made for plotting never influence any of these, nor any later generation.',
 SH,'all interleavings of evaluation, takeover (by whichever call performs it) and queries',
 'tests never query progress; the answers are wrong only between particular pairs of steps',
 [DT,DH],[('latest evaluated time',DT+':evaluateTrajectory'),('queries',DH+':getNextTrajectoryWaypoints, getRemainingWaypoints')],(),['getNextTrajectoryWaypoints','getRemainingWaypoints','getMinTime','getMaxTime'])
p('C16','An idle status means every earlier request is in effect',
 'If a caller reads no-regeneration-pending and then not-computing, every set or append that returned before the first read is already in the published waypoints. While a request waits or is being computed at least one of the two indicators is true, and both become false again when the work is done.',
 ['schedules','histories'],'all interleavings of status readers with requests, the generator thread, the computation and takeover',
 'a gap between the two indicators lasts a few instructions',
 [DT,DH],[('status flags',DT+':todoThreadLoop, checkTrajectoryGenerated')],(),['getGenerateNewTraj','getComputingNewTrajectoryStatus'])
p('C17','Generators in one process are independent',
 'Several generators used concurrently in one process behave each as if it were alone: none ever publishes waypoints, times or references of another, and using, computing in or destroying one neither races with, blocks nor perturbs the others.',
 ['schedules','configurations','histories'],'all interleavings of two or more generators',
 'the tests create one generator per process',
 [DT,TI,NL],[('per-object state',DH),('shared timing registry',TI)],(),['all public calls of all generators'])
p('C18','A trajectory file reported as saved is complete',
 'Saving a trajectory (or its sampled states) reports success only if every byte reached the file; a full disk, an I/O error, a short or interrupted write, or memory running out is either overcome or reported as failure. A trajectory file saved with success survives a loss of power and loads back as the same segments with the same times and coefficients, over any number of save/load cycles.',
 ['fault_sequences','inputs'],'all positions of a failing, short or interrupted write or close, all trajectories',
 'no test saves a file; disk errors cannot be provoked by ordinary tests',
 [IO,M+'include/mav_trajectory_generation/segment.h'],[('file output',IO+':segmentsToFile, sampledTrajectoryStatesToFile')],(),['segmentsToFile','segmentsFromFile','sampledTrajectoryStatesToFile'])
p('C19','A crash or read error never yields a different trajectory',
 'Whatever instant a save over an existing trajectory file is interrupted at, by a crash of the process or a loss of power, loading afterwards yields the complete old or the complete new trajectory, never a shorter or altered one. A read error while loading is reported as a failure and never yields a trajectory.',
 ['crash_points','fault_sequences','inputs'],'all crash points of a save, all positions of a failing or short read',
 'needs a process crash between two system calls or an unreadable block',
 [IO],[('file replacement',IO+':segmentsToFile'),('file input',IO+':segmentsFromFile')],(),['segmentsFromFile'])
p('C20','Timer statistics are exact under concurrency and clock jumps',
 'Every completed timing measurement is counted exactly once under its own tag, by however many threads and tags measurements are started and stopped; handles stay valid and distinct per tag, also across a reset of the statistics, and the reported total, mean, minimum and maximum are those of the measured durations. A measurement refused for lack of memory leaves the others as they are.',
 ['schedules','fault_sequences'],'all interleavings of threads starting, stopping and querying timers of the same or new tags',
 'the registry is shared by every computation in the process; tests use one at a time',
 [TI,M+'include/mav_trajectory_generation/timing.h'],[('registry',TI+':GetHandle, AddTime')],(),['Timing getters'])
p('C21','Polynomial extrema and magnitude bounds are exact',
 'The reported minimum and maximum of a polynomial, of its derivatives and of trajectory speed and acceleration over an interval are the true extrema over that interval.',
 ['inputs'],'all coefficient vectors and intervals','a test checks samples of a few polynomials',
 [M+'src/polynomial.cpp',M+'src/segment.cpp',M+'src/trajectory.cpp',M+'src/rpoly/rpoly_ak1.cpp'],[('root finding',M+'src/polynomial.cpp')])
p('C22','Sampling and range evaluation agree with pointwise evaluation',
 'Sampling a trajectory over a range returns at each reported sampling time the value pointwise evaluation gives at that time, over the whole range and across segment boundaries.',
 ['inputs'],'all trajectories, ranges and steps','no test samples',
 [M+'src/trajectory_sampling.cpp',M+'src/trajectory.cpp'],[('sampling',M+'src/trajectory_sampling.cpp')])
p('C23','The linear optimisation result is the constrained optimum',
 'The polynomial found for given vertices and segment times satisfies every vertex constraint, is continuous up to the required order and has the minimum cost among all such polynomials.',
 ['inputs'],'all vertex sets and segment times','few layouts tested',
 [LI],[('closed-form solution',LI)])
p('C24','A generator leaves nothing behind',
 'The memory a generator holds depends on its present state, not on its history: after any number of requests, modifications, evaluations and regenerations it holds no more than a new generator brought to the same state, and after its destruction nothing it allocated and no thread it started remains. This holds for calls and computations that failed, too.',
 ['histories','schedules','fault_sequences'],'all request histories, all allocations and thread creations failing',
 'the tests run for a second and never look at what is left; vehicles fly for hours',
 [DT,NL,M+'src/rpoly/rpoly_ak1.cpp'],[('futures, queues and modifiers replaced at each takeover',DT+':swapTrajectory'),('work space of the root finder',M+'src/rpoly/rpoly_ak1.cpp:findRootsJenkinsTraub')],(),['~DynamicTrajectory'])
p('C25','Trajectory files may be saved and loaded by several threads',
 'Saves and loads of trajectory files by several threads, of the same file or others, behave as if they came one after the other, each at some moment between its call and its return: every load yields a trajectory some save wrote completely and that no later save had replaced by then, a call fails only if an error was met in it, there is no data race, and once all have returned no temporary file and no open descriptor is left (unless the process crashed or removing the file failed).',
 ['schedules','fault_sequences','crash_points'],'all interleavings of saves and loads, with disk errors, memory running out and crashes',
 'no test saves a file, let alone from two threads',
 [IO],[('replacement by a uniquely named temporary file',IO+':segmentsToFile')],(),['segmentsToFile','segmentsFromFile','sampledTrajectoryStatesToFile'])
if __name__=='__main__':
    import os
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'properties.jsonl'),'w') as f:
        for x in P: f.write(json.dumps(x,ensure_ascii=False)+'\n')
