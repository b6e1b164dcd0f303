#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props_src.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=" ".join(statement.split()),
             quantifier=dict(over=list(over), text=qtext), why_tests_cant=" ".join(why.split()),
             anchors=dict(files=list(files),
                          mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe: d['anchors']['observe_at'] = list(observe)
    P.append(d)

I, H, S, C, F = 'inputs', 'histories', 'schedules', 'configurations', 'fault_sequences'
ILQR = 'altro/ilqr/ilqr.hpp'; KPF = 'altro/ilqr/knot_point_function_type.hpp'
AL = 'altro/augmented_lagrangian/al_solver.hpp'; ALC = 'altro/augmented_lagrangian/al_cost.hpp'
CV = 'altro/constraints/constraint_values.hpp'; CON = 'altro/constraints/constraint.hpp'

# ---------------------------------------------------------------- iLQR ------
prop('C01', 'The line search adopts only a candidate of strictly lower cost',
 """The forward pass replaces the solver's trajectory only by a candidate whose total cost, evaluated on that very
 candidate after its rollout succeeded, is strictly below the cost of the trajectory it replaces and whose
 improvement ratio (actual decrease over the decrease predicted for that step length) lies within the configured
 lower and upper bounds. If no step length qualifies, the trajectory is left exactly as it was and the
 regularization is increased.""",
 [I, H, C], 'every problem, trajectory, gain set and line-search option',
 """Tests run a handful of smooth problems on which the first or second step length is accepted; a rejected or a
 wrongly accepted step needs a particular cost landscape.""",
 [ILQR], [('ForwardPass', 'iLQR::ForwardPass'), ('RolloutClosedLoop', 'iLQR::RolloutClosedLoop')],
 [('Z_', 'retained trajectory', 'iLQR'), ('Zbar_', 'candidate', 'iLQR')], ['GetTrajectory()', 'GetCosts()'])

prop('C02', 'Every rollout is dynamically feasible from the current initial state',
 """After a rollout, open or closed loop, the first state equals the problem's current initial state and each later
 state is exactly what that interval's discrete dynamics return for the preceding state, control, time and time
 step of the same trajectory, for every segment in order. The solver writes trajectory states in no other way than
 rollouts and whole-trajectory copies.""",
 [I, H], 'every horizon, dynamics, initial state and control sequence',
 """Tests compare a few final costs on time-invariant dynamics with uniform steps, where a swapped index, time or
 step argument changes nothing.""",
 [ILQR], [('Rollout', 'iLQR::Rollout'), ('RolloutClosedLoop', 'iLQR::RolloutClosedLoop'), ('SolveSetup', 'iLQR::SolveSetup')],
 [], ['GetTrajectory()'])

prop('C03', 'The closed-loop rollout applies the computed affine feedback policy',
 """For each segment the control used in the line search is the reference control, plus that segment's feedback gain
 applied to the deviation of the already simulated state from the reference state, plus the step length times that
 segment's feedforward gain. States whose norm exceeds the configured state limit and controls whose norm exceeds
 the control limit abort the rollout with the matching status when bound checking is enabled; a completed rollout
 reports success.""",
 [I, C], 'every gain set, step length, reference and option',
 """Only exact arithmetic on arbitrary gains separates the right policy from a near miss; the tests check converged
 results, which many wrong policies also reach.""",
 [ILQR], [('RolloutClosedLoop', 'iLQR::RolloutClosedLoop')])

prop('C04', 'The predicted cost decrease comes from the accepted backward sweep',
 """The predicted decrease used by the line search for step length a is -(a*d1 + a^2*d2), where d1 and d2 are the sums over
 all segments of the linear and quadratic cost-to-go terms of the one completed backward sweep whose gains are used.
 Contributions of sweeps abandoned because of a failed factorization are not included.""",
 [I, H, F], 'every sequence of failed and successful sweeps',
 """No test makes the factorization fail part-way through a sweep, so partial sums are never observable.""",
 [ILQR, KPF], [('BackwardPass', 'iLQR::BackwardPass'), ('AddCostToGo', 'KnotPointFunctions::AddCostToGo'), ('ForwardPass', 'iLQR::ForwardPass')],
 [('deltaV_', 'expected decrease terms', 'iLQR')])

prop('C05', 'The backward pass is the Riccati recursion of the stored expansions',
 """From the cost expansion (Qx.. of the cost), the discrete dynamics Jacobian [A B] and the next knot point's cost-to-go, each step forms
 the action-value expansion (lxx+A'SA, lxu+A'SB, luu+B'SB, lx+A's, lu+B's), adds the regularization to the control
 Hessian only for computing the gains K=-Quu^-1 Qxu' and d=-Quu^-1 Qu, and forms the cost-to-go and its predicted
 change with the unregularized expansion. The recursion starts from the terminal cost expansion.""",
 [I], 'every expansion, regularization and dimension',
 """The tests compare a few instances with symmetric data; transposed or regularized-for-unregularized terms agree on
 many of them.""",
 [KPF, ILQR], [('CalcActionValueExpansion', 'KnotPointFunctions'), ('CalcGains', 'KnotPointFunctions'), ('CalcCostToGo', 'KnotPointFunctions'), ('RegularizeActionValue', 'KnotPointFunctions'), ('CalcTerminalCostToGo', 'KnotPointFunctions')])

prop('C06', 'A failed factorization restarts the whole backward sweep, more regularized',
 """When the control Hessian at any knot point cannot be factorized, the gains of that knot point are not used: the
 regularization is increased and the sweep restarts at the last segment from the terminal cost-to-go. A backward
 pass ends only after one sweep has processed every segment in descending order, each from its successor's
 cost-to-go, or after the configured number of failures at maximum regularization.""",
 [I, F, C], 'every pattern of factorization failures',
 """No test produces an indefinite control Hessian, so the whole failure branch is unexecuted.""",
 [ILQR, KPF], [('BackwardPass', 'iLQR::BackwardPass'), ('CalcGains', 'KnotPointFunctions::CalcGains')])

prop('C07', 'Regularization stays within its configured bounds and moves the right way',
 """After every adjustment the regularization lies in [bp_reg_min, bp_reg_max], an increase multiplies it by a factor of at least
 the configured increase factor, and a decrease by at most its inverse. It is adjusted nowhere else except for the reset to the configured initial value at the start of a solve.""",
 [I, H, C], 'every history of increases and decreases and every option setting',
 """Saturation at either bound needs long failure histories which the tests do not produce.""",
 [ILQR], [('IncreaseRegularization', 'iLQR'), ('DecreaseRegularization', 'iLQR'), ('ResetInternalVariables', 'iLQR')],
 [('rho_', 'regularization', 'iLQR'), ('drho_', 'regularization rate', 'iLQR')], ['GetRegularization()'])

prop('C08', 'Expansions are fresh, complete and belong to the current trajectory',
 """In every iteration, before the backward pass, the cost gradient and Hessian, the dynamics Jacobian and the cost of every knot point are
 recomputed at that knot point's own current state, control, time and step. Each expansion buffer is zeroed before
 the user callback fills it, so a callback that writes only its nonzero entries sees no residue.""",
 [I, H], 'every iteration, knot point and user function that writes only nonzeros',
 """The sample functions used by the tests are mostly constant-sparsity, so stale entries are overwritten with equal
 values; stale expansions show only as slower convergence.""",
 [ILQR, KPF, 'altro/ilqr/cost_expansion.hpp', 'altro/ilqr/dynamics_expansion.hpp'],
 [('UpdateExpansionsBlock', 'iLQR'), ('CalcCostExpansion', 'KnotPointFunctions'), ('CalcDynamicsExpansion', 'KnotPointFunctions'), ('Solve', 'iLQR::Solve')])

prop('C09', 'The iLQR status tells the truth about why the solver stopped',
 """iLQR reports solved only when the last recorded cost decrease and gradient are both below their tolerances, and
 reports each limit (state, control, inner or total iterations) only when that limit was reached. A failed backward
 pass is reported as such and is not overwritten by later steps of the same iteration.""",
 [I, H, F, C], 'every run and option setting',
 """Tests see the success status on converging problems; the failure statuses require divergence or indefinite Hessians.""",
 [ILQR], [('IsDone', 'iLQR::IsDone'), ('Solve', 'iLQR::Solve'), ('RolloutClosedLoop', 'iLQR'), ('BackwardPass', 'iLQR')],
 [('status_', 'solver status', 'iLQR')], ['GetStatus()'])

prop('C10', 'Every solver loop is bounded by its configured limit and counters are exact',
 """A solve performs at most max_iterations_inner iterations, a line search at most line_search_max_iterations rollouts, and the constrained
 solver at most max_iterations_outer outer iterations; the backward pass cannot retry forever. Each
 iteration increments the inner and total counters exactly once and each outer iteration the outer counter exactly once.""",
 [I, H, C], 'every option setting and every run',
 """Exceeding a bound requires a non-converging run at exactly the limit; tests converge long before.""",
 [ILQR, AL], [('Solve', 'iLQR::Solve'), ('ForwardPass', 'iLQR'), ('BackwardPass', 'iLQR'), ('IsDone', 'iLQR, AugmentedLagrangianiLQR'), ('UpdateConvergenceStatistics', 'both solvers')])

prop('C11', 'Recorded costs, violations and dual updates belong to the retained trajectory',
 """At the end of every iLQR iteration the stored knot-point costs and constraint values are those of the trajectory the solver retains, never of a
 rejected line-search candidate. The recorded cost, violation and the multiplier update that follow are computed from those values.""",
 [I, H], 'every pattern of accepted and rejected steps',
 """A rejected line search is rare and never occurs in the tests with constraints active.""",
 [ILQR, AL, CV], [('ForwardPass', 'iLQR'), ('UpdateConvergenceStatistics', 'iLQR'), ('UpdateDuals', 'AugmentedLagrangianiLQR')])

prop('C12', 'Every solve starts from a reset, self-consistent solver',
 """At the start of every iLQR solve the status, iteration counter, cost and gradient buffers, expected decrease and regularization are
 reset, the candidate trajectory gets the times and steps of the current trajectory, the current trajectory is
 rolled out from the initial state and its cost recorded as the initial cost before the first iteration. At the start of a constrained solve, multipliers are reset when so
 configured, penalties are set to a positive configured initial value, statistics are cleared before anything is logged, and the initial violation recorded is evaluated on the current trajectory.""",
 [H, C], 'every history of earlier solves on the same object',
 """Tests rarely solve twice with one object and never change times, tolerances and options between solves.""",
 [ILQR, AL], [('SolveSetup', 'iLQR'), ('ResetInternalVariables', 'iLQR'), ('Init', 'AugmentedLagrangianiLQR'), ('Reset', 'SolverStats')])

prop('C13', 'Parallel expansion covers every knot point once and completes before use',
 """For every horizon, thread count and tasks-per-thread setting the generated work assignment starts at knot point 0,
 ends after the terminal one, and consecutive tasks share their boundary, so each knot point is processed exactly once.
 All tasks are submitted and awaited before the expansions are used, and each runs the same per-knot-point work as the serial path.""",
 [I, S, C], 'every horizon, number of threads and tasks per thread',
 """Tests use a few (N, nthreads) pairs; rounding in the partition and late tasks show only for particular pairs or
 schedules.""",
 [ILQR], [('DefaultTaskAssignment', 'iLQR'), ('LaunchThreads', 'iLQR'), ('UpdateExpansions', 'iLQR'), ('SetTaskAssignment', 'iLQR')],
 [('work_inds_', 'task boundaries', 'iLQR'), ('tasks_', 'closures', 'iLQR')], ['GetTaskAssignment()'])

prop('C14', 'Concurrent expansion tasks never touch shared mutable state',
 """Everything a worker task writes belongs to the knot points of its own index range; the solver's statistics, timer,
 logger, status, regularization and options are neither written by a worker nor is any other knot point's data. Library data used from
 several knot points at once is only read.""",
 [S], 'every interleaving of the worker tasks',
 """A data race needs a particular schedule; the tests run few iterations without a race detector.""",
 [ILQR, KPF, ALC, CV], [('UpdateExpansionsBlock', 'iLQR'), ('LaunchThreads task lambda', 'iLQR')])

# ---------------------------------------------------------------- AL --------
prop('C15', 'The constrained solve runs its steps in order over all knot points',
 """Each outer iteration first solves the unconstrained subproblem, then updates the multipliers of all knot points
 with the penalties used in that subproblem, then records violation and penalty, then tests termination, and only if continuing scales the
 penalties of all knot points. Every knot point including the terminal one takes part in each of these steps.""",
 [H, I], 'every run and constraint placement',
 """Order errors and a missed knot point still converge on small examples; the tests look only at the end result.""",
 [AL], [('Solve', 'AugmentedLagrangianiLQR'), ('UpdateDuals', 'AugmentedLagrangianiLQR'), ('UpdatePenalties', 'AugmentedLagrangianiLQR'), ('UpdateConvergenceStatistics', 'AugmentedLagrangianiLQR')])

prop('C16', 'The constrained solver reports solved only when feasible and inner-solved',
 """The constrained solver reports solved only if the inner solver reported solved and the last recorded maximum
 violation is below the constraint tolerance; an inner failure is passed on unchanged. The other statuses are
 reported only when the corresponding limit is exceeded, and after a finished loop the status is never a leftover. Feasibility and
 an exceeded limit end the solve.""",
 [I, H, C], 'every run and option setting',
 """Tests see the converged case; the limits are hardly ever hit.""",
 [AL], [('IsDone', 'AugmentedLagrangianiLQR')], [('status_', 'AL status', 'AugmentedLagrangianiLQR')], ['GetStatus()'])

prop('C17', 'Multipliers change only by projection onto the dual cone or reset to zero',
 """A multiplier update sets the multiplier to the projection of (multiplier - penalty * constraint value) onto the
 constraint type's dual cone, element-wise with each element's own penalty. Apart from initialization and reset to zero no
 solver operation changes a multiplier, in particular not evaluating cost, gradient or Hessian.""",
 [H, I], 'every history of updates and evaluations',
 """A sign or cone mistake keeps many inactive-constraint cases right; tests check a handful of values.""",
 [CV, CON], [('UpdateDuals', 'ConstraintValues'), ('ResetDualVariables', 'ConstraintValues'), ('DualCone::Projection', 'cones')],
 [('lambda_', 'multipliers', 'ConstraintValues')], ['GetDuals()'])

prop('C18', 'Penalties start positive, change only by set and scale, never shrink by scaling',
 """Penalties start at one, are set to a caller-supplied value only if it is valid, and otherwise change only by
 multiplication with the penalty scaling, which is at least one. Setting a penalty or scaling on the solver reaches
 every equality and inequality constraint at every knot point.""",
 [H, I], 'every sequence of setter and update calls',
 """Tests set one or two values; a setter that misses a knot point or type, or an unchecked value, is invisible.""",
 [CV, ALC, AL], [('SetPenalty', 'ConstraintValues, ALCost, AugmentedLagrangianiLQR'), ('SetPenaltyScaling', 'same'), ('UpdatePenalties', 'same')],
 [('penalty_', 'penalty vector', 'ConstraintValues')])

prop('C19', 'Augmented Lagrangian value, gradient and Hessian agree with one another',
 """For a constraint with value c, Jacobian C, multiplier y and penalty r, with P the dual-cone projection of y - r*c
 and D its Jacobian, the penalty term's value is (|P|^2-|y|^2)/(2r), its gradient is -(D C)' P split into state and
 control parts, and its Gauss-Newton Hessian is r (D C)'(D C) split into the three blocks. All are computed from the constraint
 evaluated at the given state and control, never from values left from an earlier call.""",
 [I, H], 'every constraint, multiplier, penalty, state and control',
 """Tests check few numeric instances where several blocks vanish.""",
 [CV], [('AugLag', 'ConstraintValues'), ('AugLagGradient', 'ConstraintValues'), ('AugLagHessian', 'ConstraintValues')])

prop('C20', 'The augmented cost covers the base cost and all constraints of both kinds',
 """The augmented cost's value, gradient and Hessian are those of the base cost plus the terms of every equality and
 every inequality constraint of the knot point, each added exactly once. Counting constraints, updating multipliers and penalties,
 resetting, violation, maximum penalty and constraint listing likewise visit every equality and inequality constraint.""",
 [I, C], 'every mix of constraints',
 """Typical tests have one constraint per kind and knot point, so skipping the rest or one kind goes unseen.""",
 [ALC], [('Evaluate/Gradient/Hessian', 'ALCost'), ('UpdateDuals/UpdatePenalties/ResetDualVariables', 'ALCost'), ('MaxViolation/MaxPenalty/NumConstraints/GetConstraintInfo', 'ALCost')])

prop('C21', 'Each cone agrees with its own projection, Jacobian and dual',
 """The zero cone projects to zero, the identity cone to the input and the negative orthant to the element-wise minimum
 with zero; each projection Jacobian is the derivative of that projection and overwrites the entries it defines. Zero and identity cone are dual to
 each other, and the negative orthant is used as its own dual, for equality and inequality constraints respectively.""",
 [I], 'every vector',
 """Tests evaluate single vectors.""",
 [CON], [('Projection/Jacobian/Hessian', 'ZeroCone, IdentityCone, NegativeOrthant')])

prop('C22', 'Reported violation is the largest distance to the cone over everything',
 """The violation of a constraint is its value minus its projection onto the constraint's cone, the violation of a knot point is the
 maximum over all its constraints and that of the solver is the maximum over all knot points. The maximum penalty is
 likewise taken over all constraints, elements and knot points.""",
 [I], 'every constraint value and placement',
 """Tests have one dominating constraint.""",
 [CV, ALC, AL], [('MaxViolation', 'ConstraintValues, ALCost'), ('GetMaxViolation/GetMaxPenalty', 'AugmentedLagrangianiLQR'), ('GetViolation', 'ConstraintValues')])

prop('C23', 'Building the augmented problem preserves the original problem',
 """The augmented problem has the same horizon, shares the original's initial state, so that later changes to it take effect, uses the original dynamics at every
 knot point, and wraps the original cost and constraints of each knot point k in the augmented cost of the same k.
 The solver holds those same augmented costs, in knot point order.""",
 [I, H], 'every problem and later change of the initial state',
 """Tests build problems with identical data at all knot points, where an index error makes no difference.""",
 ['altro/augmented_lagrangian/al_problem.hpp', AL, ALC, ILQR, 'altro/problem/problem.hpp'],
 [('BuildAugLagProblem', 'al_problem.hpp'), ('InitializeFromProblem', 'AugmentedLagrangianiLQR'), ('CopyFromProblem', 'iLQR'), ('ALCost(prob,k)', 'ALCost')])

# ------------------------------------------------------------- common -------
prop('C24', 'Copying or moving an object preserves its whole state',
 """For every copyable or movable library class, the result of a copy or move construction or assignment has every
 piece of the source's state: no data member is left out or left indeterminate. Members documented as bound to one
 object, such as running worker threads, are the only exceptions.""",
 [H, I], 'every object state and copy or move',
 """A missed member shows only when that member is used after a copy; the tests copy freshly made objects.""",
 ['altro/problem/problem.hpp', 'altro/common/knotpoint.hpp', 'altro/common/trajectory.hpp', 'altro/ilqr/cost_expansion.hpp', ILQR, 'altro/common/threadpool.cpp', 'altro/common/threadsafe_queue.hpp'],
 [('user-defined special members', 'Problem, KnotPoint, Trajectory, CostExpansion, iLQR, ThreadPool, ThreadSafeQueue')])

prop('C25', 'No object keeps an address into itself that survives a copy or move',
 """A library object that stores pointers to its own members, or callbacks that capture it, either cannot be copied or
 moved or re-targets them when it is. Statistics, log entries and violation callbacks of a copied or moved solver therefore always refer
 to the live object.""",
 [H], 'every sequence of copies, moves and destructions',
 """Copy elision hides the move in the tests; the dangling access is undefined behaviour that often looks right.""",
 ['altro/common/solver_stats.hpp', 'altro/common/solver_stats.cpp', 'altro/common/solver_logger.hpp', AL, ILQR],
 [('floats_ registry', 'SolverStats'), ('order_', 'SolverLogger'), ('max_violation_callback', 'AugmentedLagrangianiLQR')])

prop('C26', 'No constructor leaves scalar state indeterminate',
 """Every constructor of every library class gives each of its arithmetic, enumeration and raw pointer members a
 definite value before it can be read.""",
 [I, H], 'every construction path',
 """Indeterminate values often happen to be zero in a test process.""",
 ['altro/common/log_entry.hpp', 'altro/common/profile_entry.hpp', 'altro/problem/problem.hpp', ILQR],
 [('in-class initializers and constructor initializer lists', 'all classes')])

prop('C27', 'Public entry points check indices and pointers before using them',
 """In the problem, the solvers and the augmented Lagrangian cost, entry points that take a knot point index or
 constraint index check it against its range, and those that take a dynamics, constraint or trajectory pointer (and, for the
 solver's own functions, a cost function pointer) check it for null, before anything is changed or accessed; every valid index is accepted. Work assignments
 supplied by the user are accepted only when they start at zero, end at N+1 and increase strictly. A problem's completeness test never calls undefined parts,
 notices every missing cost, dynamics or initial state, and a solver refuses a problem that fails it.""",
 [I], 'every argument value',
 """Death tests sample some of the checks.""",
 ['altro/problem/problem.hpp', 'altro/problem/problem.cpp', ILQR, AL, ALC, KPF],
 [('ALTRO_ASSERT argument checks', 'public setters and getters')])

prop('C28', 'Assertions have no side effects',
 """The condition and the message of every library assertion only read program state, so that compiling with
 assertions disabled does not change what any successful run computes.""",
 [I, C], 'every run in builds with and without assertions',
 """The tests are compiled in one configuration only.""",
 ['altro/utils/assert.hpp', 'altro', 'examples'], [('ALTRO_ASSERT', 'all uses')])

prop('C29', 'The task queue accesses its links and counter only under its locks',
 """The queue's head is accessed only while the head lock is held and its tail only while the tail lock is held; the
 head lock is always taken before the tail lock and no operation takes a lock it already holds. The element counter
 changes together with every element added or removed, while the lock guarding that end is held. Removing takes the oldest element exactly when the queue is not empty, and clearing empties it.""",
 [S], 'every interleaving of producers and consumers',
 """A lost update or deadlock needs a particular interleaving; clearing a queue is never exercised.""",
 ['altro/common/threadsafe_queue.hpp'], [('Push/TryPop/Clear/IsEmpty', 'ThreadSafeQueue')],
 [('head_, tail_, size_', 'queue state', 'ThreadSafeQueue')])

prop('C30', 'The thread pool joins all its threads and never loses a task',
 """Every thread the pool starts is joined before it is destroyed, stopped, relaunched or a failed launch is reported. Each
 submitted task is queued exactly once with its completion handle kept, waiting covers every submitted task, and an exception thrown by a task reaches the waiter.
 A worker runs each task it takes.""",
 [S, F], 'every schedule, task exception and thread-creation failure',
 """Tests have no throwing task, no failing thread creation and no slow task.""",
 ['altro/common/threadpool.cpp', 'altro/common/threadpool.hpp'],
 [('LaunchThreads/StopThreads/Wait/WorkerThread/AddTask/~ThreadPool', 'ThreadPool')])

prop('C31', 'Profiler scopes nest and its output file is owned exactly once',
 """Every profiling scope pushes one name when it starts and pops exactly that one when it ends, whatever path leaves the
 scope, and its time is added under its full name only if profiling was active at the start. Files the profiler opens are closed exactly once,
 also when the output is changed, and streams supplied by the user are never closed.""",
 [H, C], 'every sequence of scopes, output changes and destruction',
 """Tests set the output once per timer.""",
 ['altro/common/timer.hpp', 'altro/common/timer.cpp'], [('Start, SetOutput, ~Timer, ~Stopwatch', 'Timer, Stopwatch')])

prop('C32', 'Logged names reach a registered series and all series stay the same length',
 """Every name the solvers log is a column of the logger, every public per-iteration series in the
 statistics is registered under exactly one name and no two share one, and starting a new iteration or clearing acts on all series
 alike. The convergence test therefore always reads the values logged in the current iteration.""",
 [H, C], 'every sequence of log, new-iteration and reset calls',
 """A misspelled name is silently ignored at run time.""",
 ['altro/common/solver_stats.hpp', 'altro/common/solver_stats.cpp', ILQR, AL],
 [('Log/SetData/NewIteration/Reset/DefaultLogger', 'SolverStats')])

prop('C33', 'Every documented option takes effect where it is documented',
 """Each solver option is read by the solver from the live options at the time it is needed, in the step it governs, and
 no option is ignored. Options are never modified by the solvers.""",
 [C], 'every option and value',
 """Tests vary only a few options.""",
 ['altro/common/solver_options.hpp', ILQR, AL, 'altro/common/solver_stats.cpp'], [('SolverOptions fields', 'all uses')])

prop('C34', 'At verbosity silent the library prints nothing',
 """With verbosity at its lowest level, a solve writes nothing to standard output or any stream: all logging is behind the
 level test, entries print only at or above their own level, and profiling prints only when enabled. Other library
 code prints only when called upon explicitly or in failure diagnostics.""",
 [C, H], 'every run at the silent level',
 """Tests do not capture the output.""",
 ['altro/common/solver_logger.cpp', 'altro/common/log_entry.hpp', 'altro/common/timer.cpp', ILQR, AL],
 [('PrintHeader/PrintData/Print', 'SolverLogger'), ('Print', 'LogEntry')])

# ------------------------------------------------------------ problem -------
prop('C35', 'Each integrator Jacobian is the derivative of that integrator step',
 """For arbitrary, also time-varying, dynamics the Jacobian returned by each integrator is the exact derivative, with
 respect to state and control, of the step the same integrator takes, with the dynamics evaluated at the same stage
 points and times. The step itself is explicit Euler or the classical fourth-order Runge-Kutta rule.""",
 [I], 'every dynamics, state, control, time and step',
 """Only time-invariant models are tested, and by finite differences with a tolerance.""",
 ['altro/problem/integration.hpp', 'altro/problem/discretized_model.hpp'],
 [('Integrate/Jacobian', 'ExplicitEuler, RungeKutta4'), ('Evaluate/Jacobian', 'DiscretizedModel')])

prop('C36', 'Function adaptors forward their arguments and fill their whole output',
 """Convenience and adaptor overloads of the function, dynamics and cost interfaces return exactly what the wrapped function computes for the
 same state, control, time and step, and the combined cost gradient and Hessian fill every block, including both symmetric off-diagonal
 ones.""",
 [I], 'every function and argument',
 """Tests call the adaptors with zero time and zero initialised outputs.""",
 ['altro/common/functionbase.hpp', 'altro/problem/dynamics.hpp', 'altro/problem/dynamics.cpp', 'altro/problem/costfunction.hpp', 'altro/problem/discretized_model.hpp'],
 [('Evaluate/Jacobian/Gradient/Hessian overloads', 'FunctionBase, ScalarFunction, ContinuousDynamics, DiscreteDynamics, CostFunction')])

prop('C37', 'Example models, costs and constraints have exact derivatives',
 """For the example dynamics, cost and constraint classes every derivative method gives exactly the partial derivatives of the class's own evaluation
 with respect to state and control, for every parameter setting (methods that write only the non-zero entries are given a zero buffer; two inputs
 configured by index are different ones).""",
 [I, C], 'every state, control and parameter setting, such as non-default indices',
 """Finite-difference tests sample default settings with zeroed buffers.""",
 ['examples/basic_constraints.hpp', 'examples/obstacle_constraints.hpp', 'examples/quadratic_cost.cpp', 'examples/unicycle.cpp', 'examples/triple_integrator.cpp'],
 [('Evaluate/Jacobian/Gradient/Hessian', 'GoalConstraint, ControlBound, CircleConstraint, QuadraticCost, Unicycle, TripleIntegrator')])

prop('C38', 'Trajectory times, steps and dimensions stay consistent',
 """A uniform step gives knot point k the time k*h and every interval the step h, with a zero step and the final time at the terminal knot point;
 building from states, controls and times takes each step as the difference of consecutive times. Knot point and trajectory accessors
 refer to exactly the knot point asked for, and the consistency test is true exactly if all steps match the time differences within the tolerance.""",
 [I], 'every horizon, step and index',
 """Tests use small uniform trajectories.""",
 ['altro/common/trajectory.hpp', 'altro/common/knotpoint.hpp'],
 [('SetUniformStep/CheckTimeConsistency/constructors/accessors', 'Trajectory, KnotPoint')])

prop('C39', 'The derivative checkers accept exactly when the error is below tolerance',
 """A derivative check compares the function's own derivative at the given point with the finite difference of the
 same function at the same point, and returns true if and only if the norm of their difference is below the given tolerance, irrespective of verbosity.""",
 [I, C], 'every function and point',
 """Tests mostly check correct derivatives, which a checker that always passes would accept as well.""",
 ['altro/common/functionbase.cpp', 'altro/utils/derivative_checker.hpp'],
 [('CheckJacobian/CheckHessian/CheckGradient', 'FunctionBase, ScalarFunction'), ('FiniteDiff*', 'derivative_checker.hpp')])

prop('C40', 'Profile and benchmark statistics are computed without overflow or empty access',
 """Percentages of the profile are computed for every recorded entry, of its own time against the root and its parent,
 without narrowing the measured durations; division by a zero duration is excluded. Benchmark statistics never index an empty sample set, take every sample
 into account, and take the median from the middle of the sorted samples.""",
 [I], 'every measured duration and sample count',
 """Overflow needs runs longer than the tests take.""",
 ['altro/common/profile_entry.cpp', 'altro/utils/benchmarking.hpp'], [('CalcStats', 'ProfileEntry'), ('Calculate', 'BenchmarkResults')])

prop('C41', 'The console log prints each active column once, and the header at its frequency',
 """A silent logger prints nothing. Printing a row prints every active column exactly once, in the order of the columns and at its width. The header
 is printed before the first row, before the first row after a Clear, and then once every `frequency` rows; whatever frequency was accepted, no
 division by zero happens. A column added at position c is listed at c, and a negative position counts from the end. A value logged under a title is
 stored in the entry of that title, in its format, exactly if the entry is active at the logger's level, and takes the colour of its bounds. Clear empties every entry.""",
 [I, H], 'every sequence of Log, Print, Clear, level and frequency changes',
 """Tests print a few rows and look at the output by eye.""",
 ['altro/common/solver_logger.cpp', 'altro/common/log_entry.cpp', 'altro/common/solver_logger.hpp'],
 [('Print/PrintHeader/PrintData/Clear/AddEntry/Log', 'SolverLogger'), ('Print/SetBounds/Log', 'LogEntry')])

prop('C42', 'A problem holds exactly what it was given, at the knot points named',
 """Setting the cost, dynamics or a constraint at knot point k stores exactly the given object at k and leaves every other knot point and the other
 parts of the problem as they are. A list given with a start index is assigned to consecutive knot points from that index on, each entry once. A constraint is added
 exactly once, with its kind and without losing those present; the constraint counts are the sums of the output dimensions. The initial state is the one given and is
 shared through its pointer. Getters and per-knot-point dimensions refer to the knot point asked for; the terminal knot point has the dimensions of the last segment.""",
 [I, H], 'every horizon, index, start index and order of the setters',
 """Tests build a handful of problems, all with the same object at each knot point.""",
 ['altro/problem/problem.hpp', 'altro/problem/problem.cpp'],
 [('SetCostFunction/SetDynamics/SetConstraint/SetInitialState/NumConstraints/GetCostFunction/GetDynamics', 'Problem'), ('IdentityDynamics', 'Problem')])

# ------------------------------------------------------ not applicable ------
prop('C90', 'The solver converges to a locally optimal trajectory',
 """For well-posed problems the solver converges to a dynamically feasible local optimum within the configured tolerances.""",
 [I], 'every well-posed problem', 'Tests sample few problems.', [ILQR, AL], [('Solve', 'iLQR, AugmentedLagrangianiLQR')])
prop('C91', 'Results are numerically accurate in floating point',
 """Costs, gains and multipliers computed in floating point stay within a small relative error of their exact values.""",
 [I], 'every input magnitude and conditioning', 'Tests sample well-scaled data.', [KPF, CV], [('CalcGains', 'KnotPointFunctions')])
prop('C92', 'Adding threads does not slow a solve down beyond a bound',
 """With more worker threads, a solve's wall-clock time does not grow beyond a fixed scheduling overhead.""",
 [S, C], 'every machine and schedule', 'Timing is not tested.', [ILQR, 'altro/common/threadpool.cpp'], [('UpdateExpansions', 'iLQR')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for d in P: f.write(json.dumps(d) + '\n')
    print(len(P), 'properties')
