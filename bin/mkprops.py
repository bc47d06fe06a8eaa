#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, pathlib
GEN="src/SwerveTrajectoryGenerator.cpp"; PB="src/path/SwervePathBuilder.cpp"; PBH="include/trajopt/path/SwervePathBuilder.hpp"
UTIL="include/trajopt/util/TrajoptUtil.hpp"; IG="include/trajopt/util/GenerateLinearInitialGuess.hpp"
C="include/trajopt/constraint/"; G="include/trajopt/geometry/"
NOTEST=" The library's solver-dependent code is not even built by the tests that run here."
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Sample layout: every (waypoint, sample) pair owns exactly one index",
 "For any list of control-interval counts, the flat sample layout has 1 + (sum of the counts) samples: waypoint 0 owns sample 0, and the samples of each later waypoint's incoming segment follow in order with no gap and no overlap. A waypoint's own state is the last sample of its incoming segment, and looking up sample i of a waypoint is always the waypoint's first sample plus i.",
 ["inputs"],"every list of counts (also uneven ones and zeros), every waypoint number up to one past the last, every sample number",
 "The one existing layout test uses two count lists; the law quantifies over all lists, and everything else (constraints, guesses, results) is placed through it.",
 [UTIL],[("GetIndex",UTIL)],observe=["return value of the index lookup"])

p("C02","Path-builder histories: what each call adds, and that nothing is lost",
 "Whatever the order and repetition of builder calls, mentioning a waypoint creates it and every missing waypoint before it, each new segment getting 40 control intervals and each new waypoint a default guess at the origin, unless counts were given explicitly (counts given explicitly are kept exactly, also when given before the waypoints). A waypoint constraint is added to exactly the named waypoint, a segment-range constraint to every waypoint of the range (both ends included) and to every segment between them, and no call removes or alters what an earlier call added, except that counts, drivetrain and a waypoint's own guess are replaced by the latest call.",
 ["histories"],"every finite sequence of path-builder calls with valid arguments (ranges run forward: fromIndex < toIndex)",
 "Existing builder tests issue one fixed call sequence; order effects (counts before waypoints, out-of-order waypoint indices, overlapping ranges, guesses before and after segment guesses) are histories."+NOTEST,
 [PB,PBH,"include/trajopt/path/Path.hpp"],[("NewWpts",PB),("WptConstraint / SgmtConstraint",PBH),("ControlIntervalCounts",PB)],
 state=[("waypoints","constraints per waypoint and per incoming segment",PBH),("counts","control intervals per segment",PBH),("guesses","guess poses per waypoint",PBH)],
 observe=["path returned by the builder","control interval counts returned by the builder","initial guess computed by the builder"])

p("C03","Each path constraint is enforced at exactly the samples it was asked for",
 "In the optimization problem built from a path, a waypoint constraint restricts exactly the sample of that waypoint, and a segment-range constraint restricts every sample from the first waypoint of the range through its last waypoint inclusive. No other sample is restricted by it, whatever the control-interval counts and however ranges overlap.",
 ["histories","configurations"],"every sequence of constraint placements on paths with any number of waypoints and any positive control-interval counts",
 "Tests would have to sample one path; off-by-one placement shows only for particular mixes of uneven counts, range ends and overlaps."+NOTEST,
 [GEN,PBH,UTIL],[("waypoint/segment constraint application loops",GEN),("SgmtConstraint",PBH)],
 observe=["set of trajectories that satisfy the problem handed to the solver"])

p("C04","Every constraint type admits exactly the states its documentation describes",
 "Applied to a robot state (pose, velocity, angular velocity, acceleration, angular acceleration), each constraint type admits the state if and only if the documented condition holds: maximum magnitudes bound exactly their own quantity in every direction (zero meaning exactly zero), pose and translation equality pin exactly those coordinates, the velocity direction pins the direction of travel, a point-at constraint keeps the heading within its tolerance of the direction to the point (a tolerance of a half turn or more never excludes anything), and the point/line distance constraints require at least the minimum distance between the two shapes with the robot part carried along by the pose. No constraint depends on any part of the state its documentation does not mention.",
 ["inputs"],"every robot state and every valid constraint parameter",
 "No test evaluates a constraint on a state at all; the condition is over a 10-dimensional state space and all parameters, with case splits (end points of line segments, zero limits, opposite directions)."+NOTEST,
 [C+f for f in ("AngularVelocityMaxMagnitudeConstraint.hpp","LinearVelocityMaxMagnitudeConstraint.hpp","LinearAccelerationMaxMagnitudeConstraint.hpp","LinearVelocityDirectionConstraint.hpp","PointAtConstraint.hpp","PointPointConstraint.hpp","LinePointConstraint.hpp","PointLineConstraint.hpp","PoseEqualityConstraint.hpp","TranslationEqualityConstraint.hpp","detail/LinePointDistance.hpp")]+[G+"Pose2.hpp",G+"Rotation2.hpp",G+"Translation2.hpp"],
 [("Apply of each constraint type","include/trajopt/constraint")],observe=["whether a state satisfies the constraints added to the problem"])

p("C05","Obstacle avoidance covers every bumper, corner, edge and both margins",
 "After bumpers and an obstacle (each a point, a two-point segment, or a polygon, with its own safety distance) are given, the problem admits a pose at a restricted sample if and only if, for every set of bumpers added before the obstacle, every bumper corner is at least the sum of the two safety distances away from every obstacle edge and every obstacle corner is at least that far from every bumper edge, closing edges of polygons included. This holds for any number of corners on either side, any winding, and any number of bumper sets, for obstacles at a waypoint and obstacles over a segment range alike.",
 ["inputs","configurations"],"every combination of bumper shapes, obstacle shapes, safety distances, bumper sets, and robot poses (shapes of at least one corner, repeated corners included)",
 "The only obstacle test is skipped; a missed corner/edge pairing is visible only for particular corner counts and poses."+NOTEST,
 [PB,C+"LinePointConstraint.hpp",C+"PointLineConstraint.hpp",C+"PointPointConstraint.hpp",C+"detail/LinePointDistance.hpp"],
 [("WptObstacle",PB),("SgmtObstacle",PB)],observe=["set of poses the problem handed to the solver admits"])

p("C06","The initial guess passes through every guess point, one pose per sample",
 "The computed initial guess has exactly one x, y and heading per sample of the layout, starts at the first waypoint's guess, reaches each waypoint's guess at that waypoint's sample, and in between passes through the segment's guess points in the order given, evenly spaced on straight lines with headings turning the short way. A segment's intervals are shared equally among its guess points, with the remainder going to the last stretch.",
 ["inputs","histories"],"every number of waypoints, every positive counts, every list of segment guess points (also more points than intervals)",
 "Tests check one two-waypoint and one three-waypoint guess; length and order errors arise only for particular guess-point counts and remainders."+NOTEST,
 [IG,PB,UTIL],[("GenerateLinearInitialGuess",IG),("CalculateInitialGuess",PB)],observe=["initial guess returned by the builder"])

p("C07","Interpolation: n even steps ending at the end value; headings short way",
 "Linear interpolation with n samples returns exactly n values, the k-th being start + k/n of the difference, so that the last equals the end value and the start is not included. Heading interpolation does the same along a turn of at most a half turn whose end is congruent to the requested end heading modulo full turns, for every pair of headings, however many turns apart or negative.",
 ["inputs"],"every start, every end (any number of full turns apart, any sign), every sample count",
 "The existing tests try a handful of pairs; the law covers all pairs of headings including those several turns apart and on both sides of every half-turn boundary.",
 [UTIL],[("Linspace",UTIL),("AngleLinspace",UTIL)],observe=["returned values"])

p("C08","Consecutive samples obey the motion equations on every control interval",
 "The problem admits only trajectories in which, on every control interval of every segment with that segment's time step dt, position changes by the later velocity times dt, heading changes by the later angular velocity times dt, velocity changes by the later acceleration times dt, and angular velocity changes by the later angular acceleration times dt. Every interval between consecutive samples is linked, also across waypoints where the time step changes, and heading samples are unit vectors.",
 ["inputs","configurations"],"every trajectory over every path layout (any number of segments, any positive counts)",
 "No test evaluates the generated problem; a missed or mis-indexed link shows only at a particular sample of a particular layout."+NOTEST,
 [GEN,UTIL,G+"Rotation2.hpp",G+"Translation2.hpp"],[("kinematics constraint loop",GEN)],observe=["set of trajectories that satisfy the problem handed to the solver"])

p("C09","Dynamics and per-module limits hold at every sample, in any module order",
 "At every sample, including the first and the last, the problem requires the module forces to sum to mass times acceleration, their torque about the robot's origin (module positions turned with the heading) to equal moment of inertia times angular acceleration, each module's force to stay within its own maximum torque over wheel radius, and each module's ground speed (robot velocity seen in the robot's frame plus rotation about the origin) to stay within its own wheel radius times maximum wheel speed. This holds for any number of modules with individual parameters, and listing the modules in another order changes nothing but the order of their forces.",
 ["inputs","configurations"],"every drivetrain (any number of modules, individual parameters), every trajectory",
 "No test evaluates a limit; errors show only for particular module positions, headings away from zero, unequal modules, or one boundary sample."+NOTEST,
 [GEN,"include/trajopt/drivetrain/SwerveDrivetrain.hpp","include/trajopt/drivetrain/SwerveModule.hpp",G+"Translation2.hpp",G+"Rotation2.hpp"],
 [("force/torque/module limit loop",GEN)],observe=["set of trajectories that satisfy the problem handed to the solver"])

p("C10","Objective is total trajectory time; time steps are nonnegative and capped",
 "The quantity handed to the solver for minimization is the sum over segments of the segment's number of control intervals times its time step, i.e. the trajectory's total duration. Time steps are required to be nonnegative and no larger than lets any module's wheel, at its maximum speed, travel the smallest nonzero module spacing along x or y of the drivetrain (over all pairs of modules, in any order; no cap when there is no such spacing); apart from this, the motion and dynamics rules and the requested constraints, nothing restricts the trajectory.",
 ["inputs","configurations"],"every layout, every drivetrain (also a single module, coincident modules, modules listed in any order), every assignment of time steps",
 "No test inspects cost or time-step limits; a wrong weight for one segment or a cap depending on module order shows only for particular layouts."+NOTEST,
 [GEN],[("minWidth time-step cap",GEN),("T_tot objective",GEN)],observe=["cost of an assignment","set of admitted time steps"])

p("C11","Generation returns a trajectory or the failure reason, never both or neither",
 "When the solver reports success or an acceptable-tolerance solution, generation returns a solution; for every other outcome (stop requested by callback, infeasible, diverged, out of iterations or time, non-finite start, ...) it returns that outcome's message as the failure text, and never a trajectory. The solver is asked for a tolerance of 1e-4 and told to print diagnostics exactly when the caller asked for them.",
 ["fault_sequences","histories"],"every solver outcome, every sequence of repeated generations",
 "Tests that exist run the solver to success only; failure outcomes have to be injected."+NOTEST,
 [GEN,"include/trajopt/util/expected"],[("Generate",GEN)],observe=["result of generation: has value / solution / error text","options passed to the solver"])

p("C12","The returned solution is the solver's final state, sample by sample",
 "A successful generation returns, for every sample in order, exactly the final values of that sample's position, heading cosine and sine, velocities, accelerations and every module's force components, and one time step per control interval equal to its segment's final time step. Every quantity is reported under its own name: arrays have one entry per sample (time steps: one per interval; forces: one per sample and module, in drivetrain order).",
 ["inputs","configurations"],"every final solver assignment, every layout, every number of modules",
 "A test would compare one solution; swapped or shifted fields and per-segment time steps show only with assignments that make every entry distinct."+NOTEST,
 [GEN,"include/trajopt/solution/SwerveSolution.hpp"],[("ConstructSwerveSolution",GEN)],observe=["solution arrays returned by generation and passed to callbacks"])

p("C13","Cancellation stops running generations and never poisons later ones",
 "A cancellation requested at any moment while generations are running makes each of them stop at its next solver iteration and report the stopped-by-callback failure. A generation that no cancellation was requested for while it ran is never stopped, also when earlier ones were cancelled, and cancelling while nothing runs has no effect on later generations.",
 ["schedules","histories"],"every interleaving of generations (several threads), solver iterations and cancellation requests",
 "Existing tests never cancel; whether the request is lost or sticks depends on the interleaving of request, reset and poll."+NOTEST,
 [GEN,"src/util/Cancellation.cpp","include/trajopt/util/Cancellation.hpp","src/RustFFI.cpp"],[("GetCancellationFlag","src/util/Cancellation.cpp"),("reset and poll in Generate",GEN),("cancel_all","src/RustFFI.cpp")],
 observe=["value the solver callback returns","result of generation"])

p("C14","Progress callbacks: current iterate, right handle, in order, at most 60/s",
 "During generation every registered progress callback is called, in registration order, with the solver's current iterate (as a full solution) and the handle given for that generation. Deliveries of one generation are never closer together than 1/60 s, and an iteration that comes at least 1/60 s after the previous delivery began (or after the first iteration, if none was delivered) always delivers, independently of any other generation in the process. Reporting an iterate leaves the solver's variables as they are.",
 ["schedules","histories"],"every sequence of iterations and clock advances, any number of callbacks (that do not modify the solution they are shown) and of generations, also simultaneous ones",
 "Timing and multi-generation histories are not sampled by any test."+NOTEST,
 [GEN,PB],[("frame-rate limited callback",GEN),("AddIntermediateCallback",PB)],observe=["arguments and order of progress callback calls"])

p("C15","Holonomic trajectory: one timed sample per solution sample",
 "Converting a solution gives one trajectory sample per solution sample, in order; its timestamp is 0 for the first and grows by exactly the time step of the interval between consecutive samples. Each sample's position, velocities, angular velocity and per-module forces are that solution sample's values, and its heading is the angle of the solution sample's cosine/sine pair. The conversion leaves the solution unchanged and does not depend on it afterwards; a sample or trajectory made from parts holds exactly those parts, one without forces none, and a blank one only zeros.",
 ["inputs"],"every solution of any length with any (uneven) time steps, any number of modules, headings in all quadrants and of any norm",
 "No test converts a solution; the law is over all lengths and time-step sequences.",
 ["include/trajopt/trajectory/HolonomicTrajectory.hpp","include/trajopt/trajectory/HolonomicTrajectorySample.hpp","include/trajopt/solution/SwerveSolution.hpp"],[("HolonomicTrajectory(const SwerveSolution&)","include/trajopt/trajectory/HolonomicTrajectory.hpp")],observe=["samples of the converted trajectory"])

p("C16","The result type always holds exactly one live value or one live error",
 "Through any history of constructions, conversions, copies, moves, assignments, swaps, in-place rebuilds and accesses, a result object holds exactly one live value or one live error, the one the last successful operation gave it, and every value and error ever created is destroyed exactly once. Accessing the value of a failed result throws the bad-access exception carrying its error, chained operations (map, and_then, map_error, or_else, value_or) apply the function to the held alternative only and pass the other through unchanged, and comparisons answer equal exactly when both hold equal values or both hold equal errors.",
 ["histories","fault_sequences"],"every sequence of operations on result objects, value types with or without throwing copies and moves, and void values; faults: any element copy or move may throw",
 "No test exercises the result type; lifetime errors depend on the history (value to error and back, self-assignment, conversion) and on where an element operation throws.",
 ["include/trajopt/util/expected"],[("assign / construct / swap / map / comparison operators","include/trajopt/util/expected")],
 state=[("held alternative","value or error, and its payload","include/trajopt/util/expected")],observe=["has-value flag, value, error, thrown exceptions, live element count"])

p("C17","Rotations, translations and poses obey plane geometry",
 "Translations form a vector space (sum, difference, negation, scaling, dot, cross, norm, distance), rotations a group under composition with negation as inverse and with angle addition, and rotating a translation or pose is a length-preserving action of that group compatible with addition; converting between angle, cosine/sine, degrees, radians and polar form is consistent. The same expressions give the same results for plain numbers and for optimization variables, in every mixture of the two, and coercing one kind into the other keeps the value.",
 ["inputs"],"all translations, angles and scalars; both scalar kinds in every mixture",
 "Geometry tests sample a few angles on plain numbers and are not run here; identities quantify over all values and over both scalar kinds.",
 [G+"Translation2.hpp",G+"Rotation2.hpp",G+"Pose2.hpp"],[("Translation2 / Rotation2 / Pose2 operators",G)],observe=["values of geometry expressions"])

p("C18","The Rust interface means the same as the C++ interface",
 "Every Rust builder call has exactly the effect of the corresponding C++ builder call with the same arguments (indices, coordinates, headings, limits, obstacles, guess points, counts and every drivetrain and module parameter, in their own roles), bumpers being the four corners of the given length (along x) and width (along y) with a 0.01 m margin, and a polygon obstacle with unequal coordinate lists being ignored. Generation through Rust returns the same timed samples, including module forces, as converting the C++ solution, or the failure text as the error; progress callbacks get the same samples and the handle, and cancel_all cancels.",
 ["histories","inputs"],"every sequence of Rust calls with any valid arguments, every solver outcome",
 "There is no Rust test in the suite; argument-order slips across the three layers only show for calls whose arguments all differ."+NOTEST,
 ["src/lib.rs","src/RustFFI.cpp","src/RustFFI.hpp"],[("wrapper methods","src/lib.rs"),("conversion functions","src/RustFFI.cpp")],observe=["problem handed to the solver by a Rust program","result and callbacks seen by a Rust program"])

p("C19","Generators are independent snapshots and generation is repeatable",
 "A generator works on the path as it was when the generator was made: later builder calls do not change its problem, and making or running a generator does not change the builder or any other generator. Generating again from the same generator (also after it was moved) solves the same problem under the same constraints and yields an independent result, and earlier returned results do not change.",
 ["histories","schedules"],"every history of building, generator creation, generation, moves and further building, several generators in one process, also on several threads",
 "No test makes two generators or generates twice."+NOTEST,
 [GEN,"include/trajopt/SwerveTrajectoryGenerator.hpp",PB],[("constructor copies path and counts",GEN),("Generate",GEN)],observe=["problem handed to the solver","returned results","path-builder state"])

p("C20","The solver starts from the builder's initial guess with finite derivatives",
 "When the solver starts for a generator's first generation, every sample's position and heading equal the builder's initial guess and each segment's time step is 5 s divided by its number of control intervals. Velocities, angular velocities and accelerations are the finite differences of that guess over one uniform sample time, 5 s times the number of waypoints divided by the number of samples (the heading difference being taken the short way), zero at the first sample, and every decision variable's starting value is finite.",
 ["inputs","configurations"],"every path with any waypoints, guesses and positive counts, any drivetrain",
 "No test looks at the solver's starting point; wrong indexing or wrap-around shows only for particular guesses."+NOTEST,
 [GEN,IG],[("ApplyInitialGuess",GEN)],observe=["decision variable values when the solver is started"])

p("C21","A returned trajectory satisfies its constraints to 0.1 mm and is time-optimal",
 "A successfully returned trajectory satisfies every constraint of the path to within the solver tolerance of 1e-4 and no nearby trajectory satisfying them takes less time.",
 ["inputs"],"every feasible path","Optimality and convergence depend on the numerical solver; tests can only sample a few paths.",
 [GEN],[("Solve with tolerance 1e-4",GEN)],observe=["returned solution"])
out=pathlib.Path(__file__).resolve().parent.parent/"properties.jsonl"
out.write_text("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
print(len(P))
