#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: one P(...) per property. Run it after editing."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
M = "crates/multicalc/src/"
R = "crates/multicalc-robot-model/src/"
rows = []
def P(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    files = [f if f.startswith(R) else M + f for f in files]
    row = dict(id=id, title=title, statement=" ".join(statement.split()),
               quantifier=dict(over=over, text=" ".join(text.split())),
               why_tests_cant=" ".join(why.split()),
               anchors=dict(files=files, mechanism=[dict(name=n, where=(w if w.startswith(R) else M + w)) for n, w in mech],
                            hook_needed=None))
    if observe: row["anchors"]["observe_at"] = observe
    if state: row["anchors"]["state"] = [dict(name=a, meaning=b, where=M + c) for a, b, c in state]
    assert len(title) <= 80, title
    rows.append(row)

P("C01", "PID output stays inside its limits, never winds up, and hands over bumplessly",
  """Every PID output lies inside the configured limits; the integral is held exactly when the output is saturated and
  the error would push it deeper, and otherwise accumulates the error. Changing gains mid-run or resuming from a manual command never
  makes the next command step, the derivative acts on the (filtered) measurement only, and a reset controller is
  indistinguishable from a new one.""",
  ["histories", "inputs"], "all sequences of update / set_gains / resume_from / reset with any setpoints, measurements, gains and limits",
  """The tests run a handful of fixed loops; the guarantees quantify over every interleaving of gain changes, handovers,
  resets and saturation episodes, where the held/accumulated integral and the stored history interact.""",
  ["control/pid.rs", "signal_processing/one_pole.rs"],
  [("conditional integration and output clamp", "control/pid.rs Pid::update"), ("bumpless transfer", "control/pid.rs Pid::set_gains, Pid::resume_from")],
  ["Pid::update return value", "Pid::integral"],
  [("integral", "accumulated integral action with the gain applied", "control/pid.rs"), ("previous_measurement", "history the derivative is taken against", "control/pid.rs")])

P("C02", "Signal conditioning blocks obey their thresholds and rate limits",
  """A deadband outputs zero inside its band and passes or re-centres the input outside it with the input's sign; a hysteresis switch changes only
  when the input is strictly beyond the far threshold and holds in between; a slew-rate limiter never moves by more than
  its rise or fall rate times the timestep in one call and reaches a reachable target exactly. Reset returns each block
  to its freshly built behaviour.""",
  ["histories", "inputs"], "all input sequences and resets, including thresholds hit exactly and asymmetric limits",
  "Tests sample a few inputs per block; equality at a threshold, sign handling and behaviour after arbitrary histories and resets are not enumerated.",
  ["signal_processing/conditioning.rs"],
  [("Deadband::apply", "signal_processing/conditioning.rs"), ("Hysteresis::update", "signal_processing/conditioning.rs"), ("SlewRateLimiter::filter", "signal_processing/conditioning.rs")])

P("C03", "Window filters depend on exactly the last WINDOW samples",
  """After any history, a moving average equals the mean and a running median the middle order statistic of exactly the most recent
  WINDOW samples, where the first sample after construction or reset counts as filling the whole window. Reading the value never changes it, and
  Savitzky-Golay smoothing reproduces any polynomial (and its derivative) up to its fitting order once its window is full.""",
  ["histories", "inputs"], "all sample sequences of any length, interleaved with resets, for every window length",
  "Tests feed one or two short sequences; a stale or skipped slot only shows for particular wrap-around positions and reset points.",
  ["signal_processing/window.rs", "signal_processing/savitzky_golay.rs"],
  [("ring buffer push", "signal_processing/window.rs push"), ("SavitzkyGolay weights", "signal_processing/savitzky_golay.rs")])

P("C04", "Recursive filters follow their difference equation through any control history",
  """One-pole, biquad, cascaded and multi-channel filters produce exactly the output of their published difference equation for
  every input sequence, sections chaining in order and channels never influencing each other. Swapping coefficients keeps
  the memory of past samples, settling makes a constant input come out at its steady state with no transient, and
  reset equals a new filter.""",
  ["histories", "inputs"], "all sequences of filter / set_coefficients / settle_to / reset over any coefficients and samples",
  "Tests check frequency responses and steady state of a few designs; memory handling across coefficient swaps, resets and sections needs every order of operations.",
  ["signal_processing/biquad.rs", "signal_processing/cascade.rs", "signal_processing/one_pole.rs"],
  [("Biquad::filter", "signal_processing/biquad.rs"), ("BiquadCascade / MultiChannelBiquad", "signal_processing/cascade.rs"), ("OnePoleLowPass", "signal_processing/one_pole.rs")])

P("C05", "Rotor mixing is exact inside the limits and flags saturation exactly",
  """For every rotor layout that can produce all commands, the mixer's thrusts lie inside the limits, reproduce the wanted
  push and turn whenever no limit is hit, and saturation is reported exactly when some rotor was held at a limit; layouts that
  cannot produce every command are rejected. A rotor with lag moves monotonically toward the command, never past it, and
  its step over a time equals the composition of steps over any split of that time.""",
  ["inputs", "configurations", "histories"], "all layouts, spins, limits, commands, and command/tick histories",
  "Tests cover the X quadrotor and a few commands; per-rotor clamping, layouts with more rotors and history-dependent lag are not enumerated.",
  ["plant/multirotor_mixing.rs", "plant/rotor_lag.rs"],
  [("allocation and pseudo-inverse distribution", "plant/multirotor_mixing.rs"), ("exact first-order step", "plant/rotor_lag.rs")])

P("C06", "Follow-the-gap steers only into gaps the robot fits, and stops otherwise",
  """For every scan, the reported gap is a maximal run of free beams that is wide enough for the chassis (or open at the scan edge), is the best-scoring such run,
  and the heading is the goal direction held inside that gap's safe edges; when no run qualifies the command is a full stop flagged as blocked.
  Speed never exceeds cruise and is set only by the beams ahead, readings that are invalid count as free space, and beam
  numbering agrees with the scan geometry in both directions.""",
  ["inputs"], "all scans (including NaN, infinite, zero and negative readings), goal angles and tunings",
  "The number of scan patterns is exponential in the beams; tests use about a dozen hand-made scans.",
  ["control/follow_the_gap.rs", "mapping/scan_geometry.rs"],
  [("gap sweep and scoring", "control/follow_the_gap.rs FollowTheGap::compute"), ("beam_angle / nearest_beam_index", "mapping/scan_geometry.rs")])

P("C07", "Occupancy maps hold what was written; rays stop at the first blocked cell",
  """A cell reads blocked exactly when the last write that covered it blocked it; writes and reads off the map do nothing
  and never touch another cell, and every point belongs to exactly one cell. A cast ray returns the distance to where the
  beam first enters a blocked cell within range (zero when it starts on one), None when there is none, also for beams
  starting off the map; drawn polylines and circles leave no gap a beam passes through.""",
  ["histories", "inputs"], "all sequences of writes on all grid shapes and origins, and all rays against the resulting map",
  "Tests use a few rooms and axis-aligned rays; row/column mix-ups, edge handling and traversal errors depend on the cell pattern and the ray.",
  ["mapping/occupancy_grid.rs"],
  [("cell traversal", "mapping/occupancy_grid.rs OccupancyMap::cast_ray"), ("index_of / set_cell / occupy_*", "mapping/occupancy_grid.rs")])

P("C08", "Kinematic trees accept only valid models and place joints by parent chain",
  """Appending a joint succeeds exactly when capacity, parent order, floating-base placement, finiteness, limits and axis
  rules allow it, reports the specific violated rule otherwise, and a rejected append leaves the model unchanged; configuration and velocity
  slots of distinct joints never overlap and tile the declared lengths. Forward kinematics places each joint at its
  parent's pose times its origin times its own motion (about its anchor, relative to its zero offset), for every joint kind.""",
  ["histories", "inputs", "configurations"], "all sequences of appends (valid and invalid) and all joint readings on the resulting trees",
  "Tests build a few arms; the rule order, slot layout with a floating base and composition along arbitrary branching trees are combinatorial.",
  ["kinematics/kinematic_tree.rs", "kinematics/joint.rs", "kinematics/kinematic_tree_state.rs"],
  [("push validation", "kinematics/kinematic_tree.rs KinematicTree::push"), ("forward sweep", "kinematics/kinematic_tree.rs KinematicTree::forward_kinematics")])

P("C09", "The kinematic Jacobian is the velocity map of forward kinematics",
  """For every tree, tool joint and configuration, each Jacobian column is the tool twist produced by unit rate of that velocity
  slot: exactly the joints on the path from the world to the tool contribute, all others are zero, and every supported frame describes the same
  motion. Configuration distance treats continuous joints modulo a full turn and floating bases as poses.""",
  ["inputs", "configurations"], "all trees, tools, configurations and frames",
  "Tests check specific arms against finite differences; which columns must vanish depends on every branching structure.",
  ["kinematics/kinematic_tree.rs", "kinematics/kinematic_jacobian.rs"],
  [("geometric_jacobian", "kinematics/kinematic_tree.rs"), ("tool_twist, frames", "kinematics/kinematic_jacobian.rs")])

P("C10", "Collision checks report the true minimum over exactly the unexcluded pairs",
  """A collision check reports the smallest surface clearance over every self pair not excluded (in either order) and every
  self-environment pair, names a pair attaining it, never considers anything else, and says nothing was checked exactly when
  there is no such pair. Primitive distances are symmetric, independent of a common rigid motion, and equal the true
  distance between the two shapes; capacities are enforced without losing earlier entries.""",
  ["histories", "inputs"], "all sequences of pushes and exclusions up to and past capacity, and all placements",
  "Tests place a few spheres and capsules; pair selection, exclusion and segment-segment case analysis (parallel, end-on, crossing, degenerate) need systematic enumeration.",
  ["kinematics/collision.rs"],
  [("pair loops and exclusion", "kinematics/collision.rs CollisionQuery::check"), ("closest points between segments", "kinematics/collision.rs")])

P("C11", "Inverse kinematics reports are truthful and respect limits and budgets",
  """A solve that says it converged returns a configuration whose recomputed tool pose is within both tolerances, a solve that does not converge never claims so, the
  reported errors are those of the returned configuration, and the iteration count never exceeds the budget. With limits respected every
  limited joint of the result is inside its range; a secondary objective never moves the tool; a multi-start keeps exactly the converged, mutually
  distinct solutions, in the order their seeds were tried, and counts every attempt.""",
  ["inputs", "configurations"], "all arms, targets (reachable or not), seeds, tolerances and budgets",
  "Convergence behaviour depends on target, seed and limits jointly; tests try a few reachable poses.",
  ["kinematics/inverse_kinematics.rs", "kinematics/multi_start_inverse_kinematics.rs"],
  [("termination and report", "kinematics/inverse_kinematics.rs InverseKinematics::solve"), ("insertion and distinctness", "kinematics/multi_start_inverse_kinematics.rs")])

P("C12", "Wheel odometry and body motion are mutually inverse and compose",
  """Converting body motion to wheel motion and back returns the same motion (projected onto what the drive can do), for
  velocities and for arcs; integrating an arc moves the pose along that exact arc, so splitting an arc into pieces or
  reversing it lands on the same pose. Pure-pursuit curvature is the curvature of the circle through the robot, tangent to its heading, and the target.""",
  ["inputs", "histories"], "all wheel geometries, arcs (straight, turning, in place, reversed) and sequences of odometry steps",
  "Tests integrate a few arcs; drift-free composition and sign conventions must hold for every sequence.",
  ["kinematics/differential_drive.rs", "kinematics/odometry.rs", "kinematics/unicycle.rs", "control/pure_pursuit.rs"],
  [("forward/inverse", "kinematics/differential_drive.rs"), ("integrate", "kinematics/odometry.rs")])

P("C13", "Rotation and rigid-motion types obey their group laws",
  """Quaternions, SO2/SE2/SO3/SE3 form groups acting on points: composition is associative, identity and inverse cancel, acting with
  a product equals acting in turn, and matrix, quaternion, axis-angle and Euler conversions all describe the same rotation and reject what
  is not one. Exponential and logarithm invert each other, the adjoint transports twists consistently with composition,
  left/right Jacobians are mutually consistent, and interpolation hits both ends along the shortest way.""",
  ["inputs", "programs"], "all group elements and all products/inverses of them, including half turns and identity",
  "The laws quantify over all products of elements; special cases (half turns, every matrix-to-quaternion branch, sign choice) are hit only by particular elements.",
  ["spatial/quaternion.rs", "spatial/lie/so2.rs", "spatial/lie/se2.rs", "spatial/lie/so3.rs", "spatial/lie/se3.rs"],
  [("compose/inverse/act", "spatial/lie/se3.rs"), ("matrix and Euler conversions", "spatial/quaternion.rs")])

P("C14", "Spatial algebra and rigid-body dynamics conserve power and momentum",
  """Twists and wrenches transform so that power is the same in every frame, cross products satisfy their defining
  identities, and spatial inertia (composition, shift, momentum, energy) agrees with the point masses it stands for. A rigid body's
  acceleration satisfies Newton-Euler with gravity exactly, a force-free step conserves world momentum to the integrator's order, and state packing round-trips.""",
  ["inputs", "programs"], "all poses, twists, wrenches, inertias and sequences of transforms",
  "Tests check selected identities at a few values; frame conventions must agree across all combinations.",
  ["spatial/twist.rs", "spatial/wrench.rs", "spatial/inertia.rs", "spatial/free_joint.rs", "dynamics/rigid_body.rs"],
  [("cross, cross_wrench, dot_wrench", "spatial/twist.rs"), ("SpatialInertia", "spatial/inertia.rs"), ("RigidBody::accelerations", "dynamics/rigid_body.rs")])

P("C15", "Direct linear solvers solve the system they are given or say they cannot",
  """For every square system, LU, Cholesky, QR, SVD and inverse return a solution/factorization that reconstructs the input, the
  determinant is the exact signed one, and least-squares solutions satisfy the normal equations. Singular and
  non-positive-definite inputs are reported with their typed error instead of a wrong answer (as are NaN and infinite entries by Cholesky, SVD and
  the eigendecomposition), and pivoting never changes the answer.""",
  ["inputs"], "all matrices, including permuted, rank-deficient, indefinite and zero-pivot ones",
  "Pivot patterns and rank structures are combinatorial; tests use a few well-behaved matrices per routine.",
  ["linear_algebra/lu.rs", "linear_algebra/cholesky.rs", "linear_algebra/qr.rs", "linear_algebra/svd.rs", "linear_algebra/symmetric_eigendecomposition.rs", "linear_algebra/matrix.rs", "linear_algebra/vector.rs"],
  [("partial pivoting and sign", "linear_algebra/lu.rs"), ("column pivoting", "linear_algebra/qr.rs"), ("one-sided Jacobi", "linear_algebra/svd.rs")])

P("C16", "Matrix equations and discretization satisfy their defining equations",
  """Matrix exponential, zero-order hold, Van Loan and white-noise discretization give the exact discrete model of the
  continuous one; Lyapunov and Riccati solutions satisfy their equations, the LQR gain is the optimal one and its closed loop is certified stable
  exactly when it is. Problems with no solution are reported with a typed error.""",
  ["inputs"], "all system matrices, inputs, noises and steps in the supported class",
  "Tests compare a few golden cases; structure-dependent errors (transposes, block placement, sign) need many structurally different systems.",
  ["linear_algebra/expm.rs", "linear_algebra/lyapunov.rs", "linear_algebra/riccati.rs", "discretization/mod.rs", "control/lqr.rs"],
  [("scaling and squaring Pade", "linear_algebra/expm.rs"), ("augmented matrix blocks", "discretization/mod.rs"), ("doubling iteration", "linear_algebra/riccati.rs")])

P("C17", "Autodiff scalars carry exact derivatives through every arithmetic program",
  """For every program built from the scalar operations, the value channel of dual, hyper-dual and jet numbers equals plain evaluation
  and their derivative channels equal the exact derivatives of the function the program computes, to every carried order, including mixed seconds.
  Constants contribute no derivative, comparisons and branches follow the value, and piecewise operations select the
  active branch with its full payload.""",
  ["programs", "inputs"], "all straight-line programs over the scalar operations and all evaluation points",
  "Tests check individual operations and a few compositions; wrong cross terms appear only in particular combinations and orders.",
  ["scalar/dual.rs", "scalar/hyper_dual.rs", "scalar/jet.rs", "scalar/primal.rs", "scalar/numeric.rs", "scalar/function.rs"],
  [("product/quotient rules", "scalar/jet.rs"), ("mixed second order", "scalar/hyper_dual.rs"), ("powi/abs/max/min", "scalar/numeric.rs")])

P("C18", "Derivative drivers return the requested partials of the given function",
  """Every derivative, partial (of any order and index combination), Jacobian, Hessian, curl, divergence and Taylor model equals the analytic one
  of the function supplied, entry by entry in the documented layout, with autodiff exact and finite differences within their
  truncation error and exact on low-degree polynomials. Invalid orders, indices or step sizes give a typed error rather than a number.""",
  ["inputs", "programs"], "all functions, points, index combinations and orders",
  "Tests use a handful of functions with symmetric structure, under which swapped indices or transposed layouts can go unnoticed.",
  ["numerical_derivative/autodiff.rs", "numerical_derivative/finite_difference.rs", "numerical_derivative/jacobian.rs", "numerical_derivative/hessian.rs", "vector_field/curl.rs", "vector_field/divergence.rs", "approximation/linear_approximation.rs", "approximation/quadratic_approximation.rs"],
  [("seeding per index", "numerical_derivative/autodiff.rs"), ("stencils", "numerical_derivative/finite_difference.rs")])

P("C19", "Polynomial arithmetic is exact ring and calculus arithmetic",
  """Evaluation with derivatives, sums, products, division with remainder, differentiation, integration, shifting and scaling of polynomials
  agree with exact polynomial algebra and with each other for every degree, and operations whose result would not fit the
  fixed capacity fail with a typed error instead of truncating. Multivariate polynomials and their symbolic partial
  derivatives agree with term-by-term evaluation.""",
  ["programs", "inputs"], "all polynomials and sequences of operations on them",
  "Tests use a few polynomials; capacity edges, zero leading coefficients and cancellation occur only for particular operands.",
  ["polynomial/polynomial.rs", "polynomial/construction.rs", "polynomial/multivariate.rs"],
  [("Horner with derivatives", "polynomial/polynomial.rs"), ("capacity checks", "polynomial/polynomial.rs")])

P("C20", "Real roots are complete, ordered and truthful",
  """For every polynomial the real-root finder returns exactly its real roots, each within tolerance, in ascending order and
  with repeated roots accounted for as documented; the zero polynomial, non-finite coefficients and a constant are reported as such. No reported root
  is spurious and none is lost to scaling, shifting or negating the coefficients.""",
  ["inputs"], "all polynomials, over all multiplicity patterns and root spacings",
  "Multiplicity and sign patterns are combinatorial; tests list a few polynomials.",
  ["polynomial/roots.rs"],
  [("closed forms and interval isolation", "polynomial/roots.rs")])

P("C21", "Piecewise curves and planned trajectories join up exactly",
  """A piecewise polynomial evaluates the one piece that owns the queried time (ends included, outside held or rejected as documented), and
  its derivatives and integral are those of that piece. A minimum-snap plan passes through every waypoint at its time, meets
  the boundary derivatives, and is continuous in position and all promised derivatives at every join.""",
  ["inputs", "configurations"], "all breakpoints, waypoint lists, durations and boundary conditions, and all query times",
  "Ownership at breakpoints and continuity at every join depend on durations and segment count; tests query a few times.",
  ["polynomial/piecewise.rs", "motion/minimum_snap.rs"],
  [("segment lookup", "polynomial/piecewise.rs"), ("constraint assembly", "motion/minimum_snap.rs")])

P("C22", "Motion profiles stay inside their limits and arrive exactly",
  """Every point-to-point profile starts at rest at the start, ends at rest exactly at the goal, is continuous in position and
  speed (and acceleration when jerk-limited), and never exceeds its speed, acceleration or jerk limit, for every distance including
  zero, tiny and negative ones. Synchronized axes all finish together and the shared duration is the slowest axis's own.""",
  ["inputs"], "all start/goal pairs, limits and query times, for every profile strategy",
  "Which phases vanish depends on the ratio of limits to distance; tests sample a few ratios.",
  ["motion/motion_profile.rs"],
  [("phase planning", "motion/motion_profile.rs"), ("synchronization", "motion/motion_profile.rs")])

P("C23", "Waypoint-path queries agree with the geometry of the path",
  """Arc length to point and closest-point projection are mutually consistent on every polyline: the projection is the nearest point of the
  path, on the segment it names, and its arc length leads back to it; a lookahead query returns the point on the path the asked distance ahead, held at the
  last waypoint or wrapped past the end as chosen and never before the first. Repeated waypoints add no length; non-finite or surplus waypoints are rejected
  and leave the path as it was.""",
  ["inputs"], "all waypoint lists and all query points and distances",
  "Tests use a few L-shaped paths; ties, self-approaches, vertices and past-the-end queries depend on the geometry.",
  ["motion/polyline_path.rs"],
  [("projection and lookahead", "motion/polyline_path.rs")])

P("C24", "Quadrature rules are exact on their class and honour limits",
  """Each Newton-Cotes and Gaussian rule integrates every polynomial up to its degree of exactness exactly, in one and many variables and with
  nested limits over any choice and order of variables; integrals over unbounded ranges, and line and flux integrals, are those of the functions and fields they are given.
  Reversed, equal, NaN or unsupported limits, zero or unsupported counts, out-of-range index choices and non-finite samples give a typed error; the summation method changes rounding only.""",
  ["inputs", "programs"], "all polynomials in the class, limits, iteration counts and variable choices",
  "Tests integrate a few functions with loose tolerances; weights at end/inner nodes, limit nesting and index choices need many structurally different integrands.",
  ["numerical_integration/iterative_integration.rs", "numerical_integration/gaussian_integration.rs", "numerical_integration/integrator.rs", "utils/summation.rs", "vector_field/line_integral.rs", "vector_field/flux_integral.rs", "gaussian_tables/mod.rs"],
  [("weights", "numerical_integration/iterative_integration.rs"), ("node tables and change of interval", "numerical_integration/gaussian_integration.rs")])

P("C25", "ODE integrators land on the end, honour tolerances and budgets, and keep order",
  """Integration ends exactly at the requested end time, forwards or backwards, visiting strictly monotone contiguous steps; adaptive steps
  respect the minimum/maximum step and step budget and stop with a typed error when they cannot. Polynomial solutions within the method's order are
  reproduced exactly, dense output agrees with both step ends, and grid output is reported at exactly the grid times in order.""",
  ["inputs", "configurations", "histories"], "all vector fields, spans, grids, tolerances and step limits",
  "Step acceptance and end-of-span handling depend on the field and the settings; tests integrate a few problems.",
  ["ode/rk4.rs", "ode/rk45.rs", "ode/tableau.rs", "ode/exponential_map.rs"],
  [("step control", "ode/rk45.rs Rk45::for_each_step"), ("fixed step", "ode/rk4.rs")])

P("C26", "Root finders keep their bracket, stay in budget and report truthfully",
  """A bracketing solver only evaluates inside the bracket, returns a point inside it, and a report of convergence means the stated tolerance
  on the residual or bracket really holds at the returned point; its residual is the function there. No solver exceeds its iteration
  budget, and missing sign change, non-finite values, or a vanishing slope give a typed error rather than a root.""",
  ["inputs", "histories"], "all continuous or discontinuous functions, brackets, guesses, tolerances and budgets",
  "Solver paths depend on the whole sequence of function values; tests use a few smooth functions.",
  ["root_finding/bisection.rs", "root_finding/brent.rs", "root_finding/newton.rs", "root_finding/newton_system.rs"],
  [("bracket update", "root_finding/bisection.rs"), ("interpolation with fallback", "root_finding/brent.rs"), ("line search", "root_finding/newton.rs")])

P("C27", "Least-squares solvers report truthfully; damped ones never end worse",
  """From every start, the parameters Levenberg-Marquardt returns never have a larger cost than the start or (beyond the gain too small to take a step for) than any point it tried (undamped Gauss-Newton makes no such
  promise); for both solvers the reported cost is the cost at the returned point, and evaluation counts are those performed and within the
  patience budget. A convergence reason is reported only when
  its test holds at the returned point, linear problems are solved exactly, and non-finite residuals or shapes with too few residuals are typed
  errors.""",
  ["inputs", "histories"], "all residual functions, starts, tolerances and budgets",
  "Accept/reject paths depend on the residual landscape; tests run standard problems to success.",
  ["optimization/levenberg_marquardt.rs", "optimization/gauss_newton.rs", "optimization/trust_region.rs"],
  [("step acceptance", "optimization/levenberg_marquardt.rs"), ("backtracking", "optimization/gauss_newton.rs")])

P("C28", "Kalman-family filters are the exact Bayes recursion on linear models",
  """On linear models the linear and extended filters produce the exact posterior mean and covariance for every sequence of predicts and updates,
  with control inputs, changing models and either covariance form; the unscented filter does so with the points its last predict left behind (the
  spread before process noise). The covariance stays symmetric, innovation and its covariance are those of the last update, and a failed update leaves
  the estimate unchanged.""",
  ["histories", "inputs"], "all sequences of predict/update/set operations, models, measurements and failures",
  "Tests run short fixed sequences; interleavings of predicts, updates and failures are unbounded.",
  ["estimation/kalman_filter.rs", "estimation/extended_kalman_filter.rs", "estimation/unscented_kalman_filter.rs", "estimation/models.rs"],
  [("gain and covariance update", "estimation/kalman_filter.rs"), ("sigma points", "estimation/unscented_kalman_filter.rs")])

P("C29", "The error-state filter follows strapdown motion; bad fixes change nothing",
  """Between fixes the nominal state follows strapdown kinematics of the bias-corrected measurements exactly for constant inputs; a fix moves the state
  toward the measurement by the Kalman gain, resets the error, and keeps the orientation a unit rotation and the covariance symmetric. Invalid
  inputs return a typed error and leave the estimate untouched.""",
  ["histories", "inputs"], "all sequences of IMU samples, fixes and invalid inputs",
  "Tests fly a few scenarios; interleaving failures and fix types is combinatorial.",
  ["estimation/error_state_kalman_filter.rs"],
  [("propagate / fuse / inject", "estimation/error_state_kalman_filter.rs")])

P("C30", "Attitude filters keep a unit orientation and never react to unusable sensors",
  """After any sequence of samples the orientation estimate is a unit rotation; an unusable accelerometer or magnetometer reading contributes no correction, each
  step turns the estimate by the bias-corrected rate plus the documented pull toward the measured directions, so a still body is never carried away from them, and at
  agreement the Mahony estimate is a fixed point (the Madgwick one stays within one step's fixed-rate pull). Non-finite readings, gains or results are refused and change
  nothing, unusable reference directions are ignored, and both filters reproduce pure integration when their gains are zero.""",
  ["histories", "inputs"], "all sensor sequences, gains, and reference directions",
  "Tests check convergence from a few attitudes; per-sample decisions about usable sensors and signs depend on the whole history.",
  ["estimation/mahony_filter.rs", "estimation/madgwick_filter.rs", "estimation/attitude_correction.rs"],
  [("direction correction", "estimation/attitude_correction.rs")])

P("C31", "Particle filters keep a normalized population and resample faithfully",
  """After any sequence of predicts, updates and resamples the weights are finite, non-negative and sum to one over an
  unchanged particle count, the mean/MAP/effective sample size are those of the population, and an update with no information left is a typed error that keeps
  the previous population. Every resampling scheme takes the number of draws it documents and copies, for each draw, the existing particle whose share of the line holds
  the draw's place (whole-number copies first in the residual scheme), never one of zero weight; roughening scales with the reach of each axis; a particle whose weight
  has underflowed can come back once every other is ruled out; and equal seeds give equal runs. The Monte Carlo localizer weighs each guess by its beams as documented
  (squared error over the deviation, agreement on seeing nothing, penalty for a mismatch), moves guesses by travel along their heading and turn, and reports the mean
  position and the direction mean of the headings.""",
  ["histories", "inputs"], "all weight vectors, likelihoods, seeds, schemes and operation sequences",
  "Resampling depends on the whole weight vector and draw; tests check a few vectors statistically.",
  ["estimation/particle_filter.rs", "estimation/monte_carlo_localizer.rs"],
  [("resample_indices", "estimation/particle_filter.rs"), ("normalize_and_resample", "estimation/particle_filter.rs")])

P("C32", "The random generator is the published PCG32 stream, reproducible and in range",
  """The generator emits exactly the PCG-XSH-RR 64/32 sequence of its seed and stream for every seed, a clone continues identically, and
  64-bit, unit-interval and normal draws consume words as documented in order. Unit draws always lie in [0, 1), and a cached normal is returned
  exactly once and before any new draw.""",
  ["inputs", "histories"], "all seeds and streams and all interleavings of draw kinds and clones",
  "Tests compare a few golden words; interleavings with the cached normal and all seeds are unbounded.",
  ["random.rs"],
  [("Pcg32::next_u32", "random.rs"), ("standard_normal cache", "random.rs")])

P("C33", "Model files load to the robot they describe, in either format",
  """A URDF or MJCF document loads to the same robot whatever the order of its elements and names: bodies in parent-before-child order, each with the
  described pose, joint kind, axis, limits, inertia and mimic, in the documented units and defaults. Malformed input — cycles, several roots, missing or duplicate names,
  unknown references, bad numbers — gives the specific typed error and never a panic or a partial model; generated source describes the same model.""",
  ["inputs", "configurations"], "all well-formed and malformed model documents, over all element orders and tree shapes",
  "Tests load a few sample robots; shapes, orders, defaults inheritance and errors are combinatorial.",
  [R + "lib.rs", R + "urdf/tree.rs", R + "urdf/joint.rs", R + "urdf/link.rs", R + "mjcf/body.rs", R + "mjcf/joint.rs", R + "mjcf/defaults.rs", R + "mjcf/compiler.rs", R + "mjcf/geometry.rs", R + "codegen.rs"],
  [("link/joint tree ordering", R + "urdf/tree.rs"), ("defaults resolution", R + "mjcf/defaults.rs")])

P("C34", "Constructors and setters accept exactly the documented arguments",
  """Every fallible constructor, builder and setter accepts an argument combination exactly when the documented conditions hold and otherwise returns
  the documented error variant for the first violated condition; a rejected setter leaves the object as it was. NaN and infinities never slip through into
  an accepted object, and no argument combination panics.""",
  ["inputs", "histories"], "all combinations of argument classes (negative, zero, boundary, positive, infinite, NaN) for every validated entry point",
  "The product of argument classes over all entry points is far larger than the handful of rejection tests per type.",
  ["control/pid.rs", "signal_processing/conditioning.rs", "signal_processing/one_pole.rs", "signal_processing/biquad.rs", "plant/multirotor_mixing.rs", "plant/rotor_lag.rs", "mapping/scan_geometry.rs", "mapping/occupancy_grid.rs", "control/follow_the_gap.rs", "motion/motion_profile.rs", "kinematics/differential_drive.rs", "error.rs"],
  [("argument guards", "control/follow_the_gap.rs"), ("typed errors and umbrella conversion", "error.rs")])

with open(OUT, "w") as fh:
    for r in rows: fh.write(json.dumps(r, ensure_ascii=False) + "\n")
print(len(rows), "properties")
