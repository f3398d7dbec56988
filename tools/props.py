PROPS = []
NOT_APPLICABLE = []
NOTES = ("All checks run from one harness crate (harness/), which links /repo/nyx-core by path and is rebuilt by check.sh. "
         "VERIF_SEED seeds every generator; VERIF_BUDGET_S and VERIF_CASE_S bound the wall time. "
         "Genuine defects found on the way are repaired by the fix: commits of /repo and listed in known_findings.txt.")


def P(**k):
    PROPS.append(k)


P(id="P01", title="Propagation ends exactly where asked, and composes",
  statement="Propagating a spacecraft for any duration, forward or backward and with any integrator settings, returns a finite state at exactly the requested epoch, in the frame of the initial state and with its mass and surface data untouched, and a zero duration changes nothing. A recorded trajectory starts and ends at exactly the two ends of the propagation, holds strictly increasing epochs, has no gap longer than the largest allowed step, and recording it does not change the end state. Propagating leg by leg, forward or backward, ends at the same state as one direct propagation over the sum of the durations, and integrating in another frame gives the same physical result.",
  over=["inputs", "histories", "configurations"],
  forall="every bound orbit, duration of either sign down to one nanosecond, integration method, fixed or adaptive step settings, point-mass force model, sequence of legs on one propagator instance, and integration frame",
  why="The tests propagate a handful of fixed orbits, mostly forward, and look at the final state only; durations that are not a multiple of the step, backward legs, sequences of legs and trajectory boundaries are sampled a few times at most.",
  files=["nyx-core/src/propagators/instance.rs", "nyx-core/src/propagators/propagator.rs", "nyx-core/src/md/trajectory/traj.rs"],
  mech=[("last step cut to the stop time", "propagators/instance.rs: propagate"), ("trajectory assembly and sorting", "propagators/instance.rs: for_duration_with_traj; md/trajectory/traj.rs: finalize"), ("integration frame round trip", "propagators/instance.rs: propagate")],
  technique="exact end epoch and trajectory invariants, metamorphic composition of legs",
  note="Generated orbits, durations, options and leg histories; synthetic ephemerides; composition compared at 1e-5 km.")

P(id="P02", title="Two-body propagation follows the analytic orbit",
  statement="Under a single point mass, adaptive propagation of any bound orbit around any body, forward or backward, with any adaptive integration method and error control, with or without a state transition matrix, lands on the closed-form Keplerian solution (under the gravitational parameter of the integration frame when one is provided) to within an error commensurate with the requested tolerance. This holds whatever the initial and maximum step sizes are.",
  over=["inputs", "configurations"],
  forall="every bound orbit with eccentricity up to 0.8 around the Earth or the Moon, durations of up to three revolutions either way, adaptive methods, error controls, tolerances from 1e-12.5 to 1e-10, initial and maximum steps",
  why="Tests compare a few stored end states of one orbit with reference software; they never vary eccentricity, direction and step settings together.",
  files=["nyx-core/src/propagators/instance.rs", "nyx-core/src/propagators/rk_methods/rk.rs", "nyx-core/src/propagators/rk_methods/dormand.rs", "nyx-core/src/propagators/rk_methods/verner.rs", "nyx-core/src/dynamics/orbital.rs", "nyx-core/src/dynamics/spacecraft.rs"],
  mech=[("two-body acceleration", "dynamics/orbital.rs: eom"), ("Runge-Kutta stages and adaptive steps", "propagators/instance.rs: derive")],
  technique="differential against a universal-variable Kepler solver",
  note="Oracle is independent closed-form code in the harness; the allowance scales with the tolerance, orbit size, revolutions and eccentricity.")

P(id="P03", title="Integrators honour their order, tolerance and step limits",
  statement="With adaptive steps, every accepted step lies between the minimum and maximum step in the direction of propagation, is the step reported, and has an estimated error within the tolerance unless the minimum step or the attempts limit was reached; with fixed steps (and always for the fixed-step fourth-order method) every step but the last has exactly the requested size. Each method converges with its stated order when the step shrinks, and its error estimate follows the order of its embedded pair and does not underestimate the true local error. The error measure of each error control is non-negative, linear in the local error, independent of the sign of the axes, and equal to its documented definition.",
  over=["inputs", "configurations"],
  forall="every orbit, method, error control, step limits, tolerance, direction and number of steps",
  why="Tests fix one or two settings and only look at end states; a wrong coefficient of the error estimate, or a step limit ignored in one direction, still gives the right end state.",
  files=["nyx-core/src/propagators/instance.rs", "nyx-core/src/propagators/error_ctrl.rs", "nyx-core/src/propagators/options.rs", "nyx-core/src/propagators/rk_methods/mod.rs", "nyx-core/src/propagators/rk_methods/rk.rs", "nyx-core/src/propagators/rk_methods/dormand.rs", "nyx-core/src/propagators/rk_methods/verner.rs"],
  mech=[("step acceptance and adaptation", "propagators/instance.rs: derive"), ("error controls", "propagators/error_ctrl.rs"), ("Butcher tables", "propagators/rk_methods")],
  technique="step-history invariants, convergence-order measurement, reference model of the error controls",
  note="Order measured against the closed-form orbit in the asymptotic range only.")

P(id="P04", title="The state transition matrix is the derivative of the flow",
  statement="Propagating a spacecraft with its state transition matrix returns, for any force model that supports partials, the matrix of the derivatives of the final position and velocity with respect to the initial state (including the reflectivity coefficient where it is estimated), as finite differences of the propagation itself show. The matrix starts as the identity, composes over successive legs as a matrix product, and inverts when the propagation is reversed; asking for it does not change the state's own derivative. The partials of each force model are the derivatives of its acceleration.",
  over=["inputs", "configurations", "histories"],
  forall="every orbit, third bodies, gravity field, solar pressure model with any reflectivity including zero, duration and integration method, and every division of a propagation in two legs",
  why="Tests check the matrix on near-circular two-body orbits over seconds or through filters that converge anyway; a wrong partial only slows convergence there.",
  files=["nyx-core/src/dynamics/orbital.rs", "nyx-core/src/dynamics/spacecraft.rs", "nyx-core/src/dynamics/gravity_field.rs", "nyx-core/src/dynamics/solarpressure.rs", "nyx-core/src/propagators/instance.rs"],
  mech=[("variational equations", "dynamics/spacecraft.rs: eom, dual_eom; dynamics/orbital.rs: dual_eom"), ("model partials", "dynamics/orbital.rs: PointMasses::dual_eom; dynamics/solarpressure.rs: dual_eom; dynamics/gravity_field.rs: dual_eom")],
  technique="central differences of the propagation, semigroup relation of the matrices",
  note="Differences of the real propagation; eclipsed trajectories are excluded where the flow is not differentiable.")

P(id="P05", title="Force models compute the documented accelerations",
  statement="Each force model returns the acceleration of its physical definition: third bodies pull by the difference of the attractions on the spacecraft and on the central body, from where they appear when a light-time correction is set; a gravity field pulls by the gradient of its spherical-harmonic potential up to the requested degree and order in the body's rotating frame; solid tides pull by the field that the tide-raising bodies induce through the Love numbers; solar pressure pushes along the Sun line in proportion to illumination, reflectivity and area over mass and falls off with the square of the distance; constant-density drag opposes the velocity in proportion to density, coefficient, area over mass and speed squared. Models add up whatever their order, and the propagated trajectory is the integral of that sum.",
  over=["inputs", "configurations"],
  forall="every orbit and epoch, spacecraft mass, areas and coefficients, set and order of models, gravity coefficients up to degree and order twelve, shadow geometry",
  why="Tests compare a few propagations with stored results of other software, one orbit per model; they cannot separate a wrong high-order term, a wrong mass or a wrong illumination factor from the noise elsewhere.",
  files=["nyx-core/src/dynamics/orbital.rs", "nyx-core/src/dynamics/gravity_field.rs", "nyx-core/src/dynamics/solarpressure.rs", "nyx-core/src/dynamics/drag.rs", "nyx-core/src/dynamics/spacecraft.rs"],
  mech=[("acceleration models", "dynamics/orbital.rs, gravity_field.rs, solarpressure.rs, drag.rs: eom"), ("assembly of the models", "dynamics/spacecraft.rs: eom")],
  technique="differential against independent reference models and an extrapolation integrator",
  note="References written from the formulas (Cunningham recursion, cone shadow, point masses); GBS integration of the same right-hand side.")

P(id="P06", title="Finite burns: direction, thrust, propellant, windows and guidance",
  statement="While a maneuver or guidance law is active, the spacecraft accelerates along the commanded unit direction with throttle times thrust over current total mass, and loses propellant at throttle times thrust over (Isp times g0); outside the window, with mode coast or with no guidance, it follows the ballistic path and keeps its mass. Running out of propellant and thrusting without a thruster are errors, never a negative mass or a free burn. The commanded direction follows the documented in-plane and out-of-plane angle polynomials and local frame, Ruggiero and Kluever laws always command a unit direction that moves the elements toward the objectives, coast when all objectives are within tolerance and (when limited) in eclipse, and closed-loop burns reduce the distance to the objectives. A recorded continuous burn can be replayed from its trajectory.",
  over=["inputs", "configurations", "histories"],
  forall="every orbit, thruster, mass, burn window, throttle, direction polynomial, local frame, objectives, weights, thresholds and eclipse limits",
  why="Tests run a few end-to-end transfers with loose final tolerances; they cannot see a wrong flow rate, a wrong angle-polynomial term or a window off by a step.",
  files=["nyx-core/src/dynamics/guidance/mod.rs", "nyx-core/src/dynamics/guidance/mnvr.rs", "nyx-core/src/dynamics/guidance/ruggiero.rs", "nyx-core/src/dynamics/guidance/kluever.rs", "nyx-core/src/dynamics/spacecraft.rs"],
  mech=[("thrust and mass flow", "dynamics/spacecraft.rs: eom, finally"), ("maneuver direction and window", "dynamics/guidance/mnvr.rs"), ("feedback laws", "dynamics/guidance/ruggiero.rs, kluever.rs")],
  technique="differential against a reference burn integration, reference model of the directions, closed-loop invariants",
  note="Reference integration with GBS of thrust and mass flow; guidance directions checked by Gauss equations.")

P(id="P07", title="Trajectories hold, order and interpolate states faithfully",
  statement="A finalized trajectory holds exactly the states it was given, in strictly increasing epoch order, keeping the first of several states at one epoch. Evaluating it returns the stored state at a stored epoch, an error outside of its span, and in between a state at exactly the requested epoch and frame that lies on the motion the samples describe (including in the first and last intervals, with few samples, and with samples much closer to one another than the rest), with propellant linear between the two neighbours, the guidance mode of one of them and no thrust direction. Iterating, resampling, rebuilding, filtering by epoch or offset with any kind of bound, appending another trajectory and changing the frame give exactly the states that these definitions imply, and evaluating a propagated trajectory agrees with propagating to that epoch.",
  over=["inputs", "histories", "configurations"],
  forall="every set of samples of any size, spacing, order and duplication, every epoch, step, bound kind, split with overlap or gap, frame, and propagated arc in either direction",
  why="Tests evaluate a few long, regular trajectories and check a handful of epochs; short trajectories, boundary intervals, excluded bounds and out-of-order storage are not exercised.",
  files=["nyx-core/src/md/trajectory/traj.rs", "nyx-core/src/md/trajectory/sc_traj.rs", "nyx-core/src/md/trajectory/interpolatable.rs", "nyx-core/src/md/trajectory/traj_it.rs"],
  mech=[("sample selection and interpolation", "md/trajectory/traj.rs: at; interpolatable.rs: interpolate"), ("ordering", "md/trajectory/traj.rs: finalize"), ("filters and merge", "md/trajectory/traj.rs: filter_by_epoch, filter_by_offset, add")],
  technique="reference model of the sequence operations, closed-form motion with the Hermite error bound",
  note="Trajectories are samples of exact two-body motions, stored shuffled and with duplicates.")

P(id="P08", title="Trajectory files preserve the trajectory",
  statement="Exporting a trajectory to a parquet file and reading it back gives the same states: epochs to the microsecond of the file, identical positions, velocities and frame, dry and propellant mass, reflectivity and drag coefficients, thruster, guidance mode and thrust direction, whatever the time scale of the epochs. An export, to parquet or OEM, with start, end or step holds exactly the states of that time series within the span of the trajectory. CCSDS OEM files preserve epochs, frame, positions and velocities. Exported columns of orbital elements, ground tracks and differences between two trajectories hold the values that their names say.",
  over=["inputs", "configurations"],
  forall="every trajectory, epoch down to the nanosecond, time scale, central body, thruster, sequence of guidance modes and thrust directions, and export bounds and step",
  why="Tests write and reload a couple of trajectories without thrust and compare one or two states.",
  files=["nyx-core/src/md/trajectory/traj.rs", "nyx-core/src/md/trajectory/sc_traj.rs", "nyx-core/src/md/param.rs", "nyx-core/src/io/mod.rs"],
  mech=[("parquet export and import", "md/trajectory/traj.rs: to_parquet; sc_traj.rs: from_parquet"), ("OEM", "md/trajectory/sc_traj.rs: to_oem_file, from_oem_file"), ("differences", "md/trajectory/traj.rs: ric_diff_to_parquet")],
  technique="round trips through files, raw columns against formulas",
  note="Files are also read with an independent parquet reader.")

P(id="P09", title="Propagating until an event stops at that event",
  statement="Propagating until the n-th occurrence of an event, forward or backward, returns the state at the n-th zero of the event function along the true trajectory, to within the epoch precision of the event, evaluated in the requested event frame or else in the frame of the state. If the event occurs fewer times within the maximum duration, an error says how many were found; an event on the last partial step counts. The returned trajectory starts at the initial state and ends no more than one step after the event, and the instance can go on propagating from there.",
  over=["inputs", "configurations", "histories"],
  forall="every orbit, event scalar (distance, component, speed, angles), condition (equals, below, above, between), level, occurrence number, direction, maximum duration, event frame, integration frame, and fixed or adaptive steps short of the time between crossings",
  why="Tests stop at a few apsides and node crossings, forward, in the default frame.",
  files=["nyx-core/src/propagators/event.rs", "nyx-core/src/propagators/instance.rs"],
  mech=[("crossing count and bracketing", "propagators/event.rs: until_nth_event"), ("stop condition", "propagators/instance.rs: propagate")],
  technique="differential against bisection on the closed-form orbit",
  note="Own evaluation of the scalars on the analytic orbit; ambiguous tangent crossings are discarded.")

P(id="P10", title="Lambert solutions join the two positions in the given time",
  statement="A Lambert solution, when propagated from the departure position for the time of flight, arrives at the arrival position with the returned arrival velocity, whatever the orientation of the transfer plane. The short way sweeps less than 180 degrees, the long way more, the automatic choice goes toward increasing right ascension, and a request for a number of revolutions makes exactly that many or is refused when the time is too short. When the two positions were taken from an orbit, the matching request returns that orbit's velocities; the excess velocities, C3 and asymptote angles follow from the velocities. States in different frames or without a gravitational parameter are refused.",
  over=["inputs"],
  forall="every pair of positions at least five degrees from collinear, elliptic or hyperbolic, around any body, time of flight, transfer kind and number of revolutions, for both solvers",
  why="Tests hold a handful of textbook transfers, nearly all in the same plane and direction.",
  files=["nyx-core/src/tools/lambert/izzo.rs", "nyx-core/src/tools/lambert/godding.rs", "nyx-core/src/tools/lambert/mod.rs"],
  mech=[("Householder iterations and orientation", "tools/lambert/izzo.rs"), ("universal variable bisection", "tools/lambert/godding.rs"), ("derived quantities", "tools/lambert/mod.rs")],
  technique="round trip of generated orbits and Kepler propagation of the solution",
  note="Collinear positions excluded, where the plane is undefined.")

P(id="P11", title="The targeter's corrections achieve their objectives",
  statement="When the targeter reports a solution, propagating its corrected state to the achievement epoch meets every objective within its tolerance in the objective frame, the reported errors and final state are those of that propagation, and applying the solution confirms it. The corrected state is the propagated initial state with the reported correction on the varied components only, in the chosen correction frame. A reachable position objective is found, and bounds of a variable are honoured.",
  over=["inputs", "configurations"],
  forall="every initial orbit, correction and achievement epoch, small reachable correction, varied components (position, velocity, local frame), objectives, objective frame, tolerance, initial guess, and solver (finite difference or partials)",
  why="Tests solve a few fixed problems and look at the size of the error the solver itself reports; they do not check that the returned correction reproduces it.",
  files=["nyx-core/src/md/opti/raphson_finite_diff.rs", "nyx-core/src/md/opti/raphson_hyperdual.rs", "nyx-core/src/md/opti/targeter.rs", "nyx-core/src/md/opti/target_variable.rs", "nyx-core/src/md/objective.rs"],
  mech=[("Newton-Raphson correction", "md/opti/raphson_finite_diff.rs; md/opti/raphson_hyperdual.rs"), ("verification of a solution", "md/opti/targeter.rs: apply_with_traj"), ("bounds", "md/opti/target_variable.rs")],
  technique="propagation of the reported correction against objectives known to be reachable",
  note="Impulsive corrections only; finite burn targeting is not claimed.")

P(id="P12", title="B-plane parameters and targeting",
  statement="For any hyperbola the B-plane frame, the B vector components, magnitude and angle are those of the incoming asymptote and the angular momentum, are the same anywhere along the hyperbola, and the Jacobian is their derivative with respect to velocity; ellipses are refused. When a B-plane target is reported as achieved, the corrected velocity does achieve it within tolerance and the returned B-plane is that of the corrected orbit.",
  over=["inputs"],
  forall="every hyperbola of eccentricity 1.005 to 8 around any body whose asymptote is away from the pole, and every small change of the target",
  why="Tests check stored values of two or three trajectories, and not the invariance nor the derivatives.",
  files=["nyx-core/src/cosmic/bplane.rs"],
  mech=[("B-plane and Jacobian", "cosmic/bplane.rs: BPlane"), ("targeting", "cosmic/bplane.rs: try_achieve_b_plane")],
  technique="reference model from vector geometry, invariance along the orbit, difference quotients",
  note="The linearized time of flight is not claimed.")


P(id="P13", title="Monte Carlo studies are reproducible and their reports faithful",
  statement="With a given seed, a Monte Carlo study generates the same dispersed states and the same results every time, whatever the number of threads and their schedule; skipping the first states resumes the very same sequence. Each run is exactly the propagation of its own dispersed state, runs come back in order, a run that fails is reported as failed and changes no other, and different seeds give different states. The reports (first, last and sampled values, dispersions, parquet export) list exactly the values of the successful runs, in order, with the fill value for the failed ones when one is given.",
  over=["inputs", "schedules", "histories", "faults"],
  forall="every nominal orbit, seed, number of runs, number of skipped runs, thread pool of one to eight threads, end epoch or event (found by some runs only), reporting step and window",
  why="Tests run one small study and print its averages; nothing compares two runs, thread counts, resumed studies or failing runs.",
  files=["nyx-core/src/mc/montecarlo.rs", "nyx-core/src/mc/results.rs", "nyx-core/src/mc/generator.rs"],
  mech=[("seeded generation", "mc/montecarlo.rs: generate_states"), ("parallel runs and sorting", "mc/montecarlo.rs: resume_run_until_epoch, resume_run_until_nth_event"), ("reports", "mc/results.rs")],
  technique="differential between studies, thread pools and single propagations",
  note="Schedules are those of rayon pools of 1 to 8 threads.")

P(id="P14", title="Dispersed states follow the requested distribution",
  statement="A multivariate dispersion on orbital elements, B-plane parameters, coefficients and propellant mass maps to a Cartesian mean and covariance which, mapped back through the derivatives of the parameters, give exactly the requested means, standard deviations and independence; a distribution built from a covariance has that covariance, accepts singular covariances and refuses indefinite ones. The samples follow the mean and covariance of the distribution in every direction, leave everything that is not dispersed untouched, and report the dispersions that were actually added to the template.",
  over=["inputs", "configurations"],
  forall="every template orbit away from the singularities of the parameters, set and order of independent dispersed parameters, means and deviations, covariance of any rank and scale, and seed",
  why="Tests draw samples for four fixed dispersions on one orbit and count how many are within bounds; coefficients, masses, means and B-plane parameters are never dispersed.",
  files=["nyx-core/src/mc/multivariate.rs", "nyx-core/src/mc/dispersion.rs", "nyx-core/src/mc/helpers.rs"],
  mech=[("parameter to Cartesian mapping", "mc/multivariate.rs: MvnSpacecraft::new"), ("square root of the covariance", "mc/multivariate.rs: sqrt_covar"), ("sampling", "mc/multivariate.rs: sample")],
  technique="exact moments through difference quotients, and sample moments within seven standard errors",
  note="Deterministic moments are compared at 1 %, sample moments of 400 draws at seven standard errors.")


P(id="P15", title="Simulated measurements are the true geometry, plus the stated noise",
  statement="A noise-free measurement of a ground station, spacecraft-to-spacecraft link, position device or ground asset has exactly the value of its geometry at the measurement epoch (range, range-rate, azimuth, elevation, position component; seen where the receiver was one light time earlier if the light-time correction is set), with every requested type present and no other; integrated measurements average both ends of the integration interval, along the short arc for azimuth. A ground station on any body measures only what stands above its terrain mask, and nothing otherwise; a link measures only in line of sight. With noise, each measurement is the noise-free value plus a draw of the stated bias and white noise of its own type, the same seed gives the same draws, and types that were not set up are refused.",
  over=["inputs", "configurations", "histories"],
  forall="every station location on the Earth or the Moon, elevation mask, spacecraft state above or below the mask, transmitter and receiver pair, set of measurement types, integration time, noise and bias setting, and seed",
  why="Tests compare one or two arcs of one station with stored values and never look at azimuth wrap, lunar stations, biases, integrated azimuth or partial sets of types.",
  files=["nyx-core/src/od/ground_station/trk_device.rs", "nyx-core/src/od/ground_station/mod.rs", "nyx-core/src/od/interlink/trk_device.rs", "nyx-core/src/od/msr/types.rs", "nyx-core/src/od/noise/mod.rs", "nyx-core/src/od/msr/measurement.rs"],
  mech=[("ground station measurement", "od/ground_station/trk_device.rs: measure, measure_instantaneous"), ("link measurement", "od/interlink/trk_device.rs"), ("noise", "od/ground_station/mod.rs: noises")],
  technique="reference model of the topocentric geometry, differential noise draws, sample moments",
  note="Oracle computes body-fixed ellipsoidal geometry independently of anise's AER; masks tested away from 0.01 deg of the limit.")

P(id="P16", title="Measurement sensitivities are the derivatives of the measurements",
  statement="The sensitivity matrix of any set of measurement types, for a ground station, a spacecraft link or a ground asset, is the matrix of the partial derivatives of the corresponding instantaneous measurements with respect to the estimated state, row by row in the requested order and in the units of the measurement; it does not depend on the noise or bias of the observed values, and the rows of types that the measurement does not hold are zero.",
  over=["inputs", "configurations"],
  forall="every station or transmitter, spacecraft state in view, ordered set of measurement types, and observed value",
  why="No test differentiates a measurement; a wrong partial only slows or biases the filter.",
  files=["nyx-core/src/od/ground_station/sensitivity.rs", "nyx-core/src/od/interlink/sensitivity.rs", "nyx-core/src/od/groundpnt/sensitivity.rs"],
  mech=[("sensitivity rows", "od/*/sensitivity.rs: h_tilde, ScalarSensitivity::new")],
  technique="difference quotients of the real measurement function",
  note="Central differences at three step sizes; compared at about 1e-6 relative.")


P(id="P17", title="Tracking schedules and simulated arcs follow their configuration",
  statement="A simulated tracking arc holds, in chronological order, exactly one measurement for every sample epoch of every strand of every configured station at which the spacecraft is in view, and nothing else; the same seed gives the same arc bit for bit, and noise never changes the epochs. A generated schedule tracks only during passes that are long enough, rounded as configured, with strands no longer than the on-time and separated by at least the off-time; no strand ends before it starts, a station which is eager or greedy never tracks at the same time as the next one, overlapping stations keep their passes, and the absence of any pass gives an empty schedule. Simulating before the schedule was built is refused.",
  over=["inputs", "configurations", "histories"],
  forall="every orbit, set of one to four stations with their masks, sampling, strands, cadence, handoff, alignment and minimum samples, and seed",
  why="Tests count the measurements of one arc over two stations; triple overlaps, missing passes, masks and configurations of absent stations never occur.",
  files=["nyx-core/src/od/simulator/arc.rs", "nyx-core/src/od/simulator/scheduler.rs", "nyx-core/src/od/simulator/trkconfig.rs"],
  mech=[("measurement generation", "od/simulator/arc.rs: generate_measurements"), ("passes, cadence and handoffs", "od/simulator/arc.rs: generate_schedule")],
  technique="reference model of the samples and of the schedule, independent geometry, differential between seeds",
  note="Passes themselves come from ANISE's event finder; values and visibility from the harness's own geometry.")

P(id="P18", title="Tracking data operations keep exactly the right measurements",
  statement="Sorting, filtering (by epoch or offset with any kind of bounds, tracker, or type), excluding, rejecting, chunking and adding tracking arcs keep exactly the measurements that the request names, each with its values, epoch, tracker and rejection flag, in chronological order with one measurement per epoch and tracker; chunks partition the arc and none is longer than asked. Start, end, separation, trackers and types reported are those of the data. Two measurements are equal exactly when tracker, epoch, types and values are. Downsampling treats each tracker on its own, keeps every n-th epoch, and gives moving averages; moduli survive, and applying them gives congruent values.",
  over=["inputs", "histories"],
  forall="every arc of up to four trackers and seven types, in any time scale, and every history of up to six operations with bounds at, just before or just after the data",
  why="Tests filter one simulated arc once or twice; bounds on a measurement, ties between trackers and histories of operations are not sampled.",
  files=["nyx-core/src/od/msr/trackingdata/mod.rs", "nyx-core/src/od/msr/measurement.rs"],
  mech=[("bounds", "od/msr/trackingdata/mod.rs: resolve_bounds, filter_by_offset"), ("merge of measurements", "od/msr/trackingdata/mod.rs: sort"), ("decimation", "od/msr/trackingdata/mod.rs: downsample")],
  technique="stateful model-based testing against a table of measurements",
  note="The model is an ordered map; histories of up to six operations.")

P(id="P19", title="Tracking data files give back the data",
  statement="A tracking arc written to parquet or CCSDS TDM and read back holds the same measurements: trackers (through aliases if any), epochs whatever their time scale, every type with its value, absent types absent, within an export window that includes both of its ends. A TDM of another producer is read with its values as written, in its time system, one-way or two-way (range and Doppler halved, angles not), with the stated corrections applied only when they were not, and transmit and receive frequencies, ramped or not, turned into the range-rate that they encode.",
  over=["inputs", "configurations"],
  forall="every arc, time scale, export window, alias map, and every single-section TDM in any line order and spacing that the format allows",
  why="Tests read one example file and one simulated arc in one time scale.",
  files=["nyx-core/src/od/msr/trackingdata/io_parquet.rs", "nyx-core/src/od/msr/trackingdata/io_ccsds_tdm.rs"],
  mech=[("parquet", "od/msr/trackingdata/io_parquet.rs"), ("TDM", "od/msr/trackingdata/io_ccsds_tdm.rs: from_tdm, to_tdm_file, parse_measurement_line")],
  technique="round trip, and parsing of generated files against the generating values",
  note="Parquet epochs are compared to the microsecond they are stored with; rejections and moduli are not stored in parquet.")


P(id="P20", title="Filter updates are the Bayesian ones, and covariances stay valid",
  statement="Every measurement update of the Kalman filter gives the state and covariance of the information-form (Bayesian) update of its prediction, in extended and in deviation tracking form; the covariance of every estimate is symmetric and positive semi-definite, and never grows by a measurement. A history of updates without process noise equals one least squares solution of all of the accepted data. Uncorrelated measurements may be processed together or one after another in any order. A measurement whose residual ratio exceeds the rejection threshold leaves the predicted state and covariance unchanged and is flagged; one below it is used. The ratio is the Mahalanobis norm of the prefit over the square root of the measurement size, the whitened residual has that norm, and an estimate sits at the epoch of its nominal state.",
  over=["inputs", "histories"],
  forall="every correlated initial covariance, history of up to eight time and measurement updates, transition matrix, sensitivity, correlated measurement noise, measurement size of one to three, rejection threshold, and filter variant",
  why="Tests run the filter on a handful of simulated arcs and look at the final error; no single update is compared with its definition.",
  files=["nyx-core/src/od/kalman/filtering.rs", "nyx-core/src/od/kalman/mod.rs", "nyx-core/src/od/msr/mod.rs", "nyx-core/src/od/process/rejectcrit.rs"],
  mech=[("measurement and time update", "od/kalman/filtering.rs: measurement_update, time_update"), ("rejection", "od/process/rejectcrit.rs: SigmaRejection")],
  technique="differential against the information form, and against a single least squares solution, over generated histories",
  note="Well-conditioned covariances (condition number below 1e7 in units of the standard deviations).")

P(id="P21", title="An orbit determination uses each measurement once, correctly",
  statement="Processing a tracking arc gives estimates in chronological order, at most one maximum step apart, in which every measurement of a known device that is in view is used exactly once, at its epoch, with every type that it holds and none that it does not, whatever the order of the types; measurements of unknown devices and those marked as rejected are not used. Each estimate follows from the one before by the reference dynamics, their transition matrix, the process noise in effect and the textbook update with the noise, bias and ambiguity of the device, and its residual holds the observed and computed values, tracker, type names, prefit, postfit, ratio and rejection. A prediction ends at the requested epoch with the propagated covariance. A measurement that is not a number is refused unless rejected, and an arc of fewer than two measurements is refused.",
  over=["inputs", "configurations", "histories"],
  forall="every arc of up to a dozen measurements of up to three stations with any subset and order of types, windows of one to three types at a time, masks, noise, biases, moduli, rejection thresholds, process noise, maximum steps and filter variants",
  why="Tests process arcs in which every measurement holds all of the types, of one size, in one order, without ambiguity.",
  files=["nyx-core/src/od/process/mod.rs", "nyx-core/src/od/kalman/filtering.rs", "nyx-core/src/od/kalman/initializers.rs", "nyx-core/src/od/msr/trackingdata/mod.rs", "nyx-core/src/od/ground_station/trk_device.rs"],
  mech=[("process and predict", "od/process/mod.rs: process_arc, predict_until, predict_for"), ("ambiguity", "od/msr/trackingdata/mod.rs: resolve_ambiguity")],
  technique="reference filter over analytic two-body motion, step by step along generated arcs",
  note="Two-body motion, devices on a rotating Earth; angle and visibility limits are given a margin.")

P(id="P22", title="Smoothed and batch solutions are the least squares of all the data",
  statement="The smoothed solution of a filter without process noise has, at every epoch of the filter, the final estimate mapped to that epoch: state, covariance (symmetric, positive semi-definite, no larger than that of the filter) and residuals recomputed from the smoothed state, of the same trackers, types and epochs. A batch least squares that reports convergence is at the minimum of the weighted residuals of every usable measurement (bias, ambiguity and visibility included): no correction is left, its covariance is the inverse of the information of the data, its RMS is that of the residuals, its epoch is that of the guess, and at least two measurements are required; evaluating a state gives the RMS of its residuals.",
  over=["inputs", "histories"],
  forall="every arc of the kind of P21, guesses within the linear domain of the data, normal equations or Levenberg-Marquardt, and position of the first measurement",
  why="Tests smooth and fit one arc and bound the final error by metres.",
  files=["nyx-core/src/od/process/solution/smooth.rs", "nyx-core/src/od/blse/mod.rs", "nyx-core/src/od/blse/solution.rs"],
  mech=[("smoother", "od/process/solution/smooth.rs: smooth"), ("batch least squares", "od/blse/mod.rs: estimate, evaluate")],
  technique="metamorphic (smoothed estimates map onto one another) and differential against the harness's own normal equations",
  note="Batch: claims only on solutions that report convergence, within the accuracy of a 1 km prior as coded.")

P(id="P24", title="Process noise enters as configured, once per update",
  statement="A three-dimensional process noise of accelerations with standard variance q, over a gap of dt seconds, adds q dt^4/4 to the positions, q dt^3/2 to the cross terms and q dt^2 to the velocities along the axes of its frame (inertial, RIC, RCN or VNC), decayed since its start when configured, and nothing before its start time or after gaps longer than its disable time. Of several process noises the last that applies is the one used; with none the covariance is just propagated. Building, decaying and replacing process noises never changes the others.",
  over=["inputs", "configurations", "histories"],
  forall="every diagonal, frame, decay, start time and disable time, list of up to three process noises, orbit, and history of updates with varying gaps",
  why="Tests use constant process noise in one frame and compare final covariances loosely.",
  files=["nyx-core/src/od/snc.rs", "nyx-core/src/od/kalman/filtering.rs"],
  mech=[("noise matrix", "od/snc.rs: ProcessNoise::propagate, to_matrix"), ("choice of the noise", "od/kalman/filtering.rs: time_update, measurement_update")],
  technique="closed form of the accumulated noise, alone and along generated filter histories",
  note="Gaps and start times away from the switches by more than a microsecond; the rotated noise keeps its diagonal only, as documented.")


P(id="P23", title="OD solutions: selections, merges, statistics and files are faithful",
  statement="Selecting from an orbit determination solution (by measurement type, tracker, accepted, rejected, split by tracker, without duplicates) keeps exactly the rows that qualify, with the estimate, residual, gain and smoother ratio of each row staying together. Merging two solutions gives all rows of both in chronological order with the devices and measurement types of both. Two solutions are equal exactly if their rows, devices and measurement types are, within the documented tolerances. The statistics are those of the rows: root mean squares over the residuals (postfit over the accepted ones), the fraction within a threshold, the two-sided Kolmogorov-Smirnov test of all whitened residuals, and the NIS and NEES sums with their degrees of freedom and chi-square bounds. Writing a solution to a Parquet file and reading it back gives the same estimates, covariances, residuals, ratios, gains and devices of the requested epochs, the exported sigmas are those of the covariance (inertial and RIC), and a damaged file is refused.",
  over=["inputs", "histories"],
  forall="every solution of up to dozens of rows of any tracker, subset and order of measurement types, rejections, missing gains, time updates, smoothed or filtered, and every export window",
  why="Tests export one solution and reload it with the same types in every row, and only print statistics.",
  files=["nyx-core/src/od/process/solution/mod.rs", "nyx-core/src/od/process/solution/filter_data.rs", "nyx-core/src/od/process/solution/stats.rs", "nyx-core/src/od/process/solution/import.rs", "nyx-core/src/od/process/solution/export.rs"],
  mech=[("selection and merge", "od/process/solution/mod.rs, filter_data.rs"), ("statistics", "od/process/solution/stats.rs"), ("files", "od/process/solution/export.rs, import.rs")],
  technique="model-based: generated tables of rows against a plain list model; round trips read independently; closed-form statistics",
  note="Files do not hold the deviation, predicted covariance and STM; epochs to the microsecond; whitened residuals and gains per type claimed where the rows use the order of the solution.")

P(id="P25", title="Noise models produce the noise that is configured",
  statement="White noise is normal with the configured mean and sigma, uncorrelated, and reproducible from its seed; a Gauss-Markov bias starts with its configured sigma, fades by 1/e over its time constant, and its constant is added to every sample; both add up, samples and variances alike; means and constants shift the samples, scaling scales sigmas and nothing else, only elapsed time matters, and a noise without sigma is exactly its mean. Noises built from hardware (Allan deviation, integration time, chip rate, carrier frequency, signal and carrier to noise densities, Pr/N0) have the sigma of the documented equations, for the named links and manual values. Invalid noises are refused. The simulation of a noise returns and writes the documented epochs of every run, independent of one another.",
  over=["inputs", "configurations"],
  forall="every mean, sigma, time constant, constant, seed, sampling history and link budget",
  why="Tests count outliers of one seed and bound one link budget from above.",
  files=["nyx-core/src/od/noise/mod.rs", "nyx-core/src/od/noise/white.rs", "nyx-core/src/od/noise/gauss_markov.rs", "nyx-core/src/od/noise/link_specific.rs"],
  mech=[("samples and variances", "od/noise/{white,gauss_markov,mod}.rs"), ("link budgets", "od/noise/link_specific.rs"), ("simulation", "od/noise/mod.rs: simulate")],
  technique="metamorphic relations on samples of the same seed, moments of generated processes with seven-sigma margins, closed forms of the link budgets",
  note="The variance of a Gauss-Markov process after its first sample is pinned by a unit test and not claimed.")


P(id="P26", title="Configurations and encoded states read back as they were written",
  statement="Every spacecraft, thruster, ground station, tracking configuration, scheduler, cadence, handoff, strand and noise model encodes to ASN.1 DER of exactly the announced length and decodes to an equal value, while a truncated or extended encoding is refused with an error. The same configurations, integrator options and maneuvers written to YAML read back equal, one by one, as a list or as a map of names, from text or from a file. Whole spacecraft sequences keep every phase, thruster set and propagator through YAML, JSON and the Dhall type that they declare. Text which is not a duration, configurations of the wrong shape and missing files are refused with an error, never replaced by a default nor a panic.",
  over=["inputs", "configurations"],
  forall="every finite value of the fields including 0, integers and extreme magnitudes, every combination of optional fields, names, time scales, durations down to the nanosecond, and every cut of the encoding",
  why="The tests read a handful of example files with round values; they do not write them back, and optional fields are present or absent together.",
  files=["nyx-core/src/io/mod.rs", "nyx-core/src/cosmic/spacecraft.rs", "nyx-core/src/dynamics/guidance/mod.rs", "nyx-core/src/dynamics/guidance/mnvr.rs", "nyx-core/src/dynamics/sequence/mod.rs", "nyx-core/src/dynamics/sequence/config.rs", "nyx-core/src/od/ground_station/mod.rs", "nyx-core/src/od/simulator/trkconfig.rs", "nyx-core/src/od/simulator/scheduler.rs", "nyx-core/src/od/noise/mod.rs", "nyx-core/src/od/noise/gauss_markov.rs", "nyx-core/src/od/noise/white.rs", "nyx-core/src/propagators/options.rs"],
  mech=[("DER codecs", "cosmic/spacecraft.rs, od/ground_station/mod.rs, od/simulator/*.rs, od/noise/*.rs: Encode, Decode"), ("YAML helpers and durations", "io/mod.rs"), ("sequence (de)serialisation and Dhall types", "dynamics/sequence/mod.rs, config.rs")],
  technique="round trips over generated configurations, with truncated and malformed inputs",
  note="DER compared exactly and cut at a generated place; Dhall goes through the declared static type.")

P(id="P30", title="Ground assets: geometry, motion, interpolation and positioning",
  statement="A ground asset stands where its geodetic latitude, longitude and height on its body's ellipsoid place it, moves at the south, east and up velocity of its latitude, longitude and height rates, and the Jacobian from geodetic to Cartesian states is the derivative of that position and velocity; the great-circle distance between two assets is symmetric and is that of the sphere. Its state vector round-trips, and setting parameters or adding deviations changes exactly what they name. Propagating it moves it at constant rates to exactly the requested epoch, with the state transition matrix [I dt*I; 0 I]. A trajectory of an asset interpolates each instant between the two states around it. The positioning filter fed with ranges to tracking spacecraft yields the minimum-variance update of a reference filter, and its exported file holds the estimates, covariances, residuals and gains of exactly the requested span.",
  over=["inputs", "histories", "configurations"],
  forall="every latitude but the poles, longitude, height, rates, duration, step, uneven sampling, covariance, set of tracked spacecraft, measurement schedule and span of export",
  why="Tests track one rover near one spot over one arc and only look at the final error; the transition matrix, the geometry near the poles, uneven trajectories and restricted exports are never exercised.",
  files=["nyx-core/src/od/groundpnt/mod.rs", "nyx-core/src/od/groundpnt/ground_dynamics.rs", "nyx-core/src/od/groundpnt/solution.rs", "nyx-core/src/od/groundpnt/sensitivity.rs", "nyx-core/src/od/groundpnt/trk_device.rs"],
  mech=[("asset state and geometry", "od/groundpnt/mod.rs: GroundAsset, to_ground_station, geodetic_to_cartesian_jacobian"), ("motion", "od/groundpnt/ground_dynamics.rs: eom, dual_eom"), ("interpolation", "od/groundpnt: Interpolatable for GroundAsset")],
  technique="differential against closed-form geometry, motion and a reference Kalman filter; export read back",
  note="Ellipsoid geometry recomputed in the harness, finite differences for the Jacobian, a joseph-form reference filter for the estimates.")


P(id="P31", title="Multiple shooting chains impulses through nodes at minimum cost",
  statement="The initial nodes of a multiple shooting problem are evenly spaced in time, end at the epoch of the destination, and lie on the straight line to it or, with the altitude heuristic, above the ballistic ground track at altitudes that end at the one to reach; fewer than three nodes or a destination at the start are refused. A solution is a chain of legs from the initial state: each starts where the previous one ended, changes only the velocity, by the impulse it reports, flies ballistically to the epoch of its node, and reaches the node within its tolerance; the destination and the epochs of the nodes do not move. The nodes are arranged so that the sum of the squares of the impulses is minimal. The trajectories built from the solution are these legs, and nodes survive serialization.",
  over=["inputs", "configurations"],
  forall="every initial orbit about the Earth or the Moon, destination within a few percent of the radius of the ballistic arrival, arc of up to a third of a revolution, three to five nodes (up to eleven for the initial nodes), both initial guesses and both costs",
  why="One orbit-raising scenario exercises the solver, checks only the final height, and nothing looks at the optimality of the nodes.",
  files=["nyx-core/src/md/opti/multipleshooting/multishoot.rs", "nyx-core/src/md/opti/multipleshooting/equidistant_heuristic.rs", "nyx-core/src/md/opti/multipleshooting/altitude_heuristic.rs", "nyx-core/src/md/opti/multipleshooting/ctrlnodes.rs"],
  mech=[("node arrangement", "md/opti/multipleshooting/multishoot.rs: solve"), ("initial nodes", "equidistant_heuristic.rs, altitude_heuristic.rs"), ("serialization", "ctrlnodes.rs: NodesSerde")],
  technique="independent Gauss-Newton optimum on Kepler arcs, closed-form legs, round trip",
  note="The optimum is found again by the harness with its own shooting on closed-form two-body arcs.")


P(id="P32", title="A spacecraft sequence flies its phases as planned",
  statement="A sequence flies exactly its enabled phases in the order of their epochs, from the phase that is under way at the epoch of the state to the first Terminate or to the phase at which it is asked to stop; each phase starts where the previous one ended and lasts until the next enabled one starts. Each phase uses its own dynamics, integrator, steering law and thruster set, decrements the propellant only if asked to, and applies its discrete event once, on entry: the impulse in its local frame, masses, areas and coefficients added or removed one by one, and the state rotated and recentered into a new frame without moving the spacecraft. One trajectory per flown phase is returned under its name. Stopping at a phase and resuming from there ends at the same state as the whole plan. A sequence without any phase, without a closing Terminate, or with unknown propagators or thruster sets is refused.",
  over=["inputs", "histories", "configurations"],
  forall="every plan of up to six phases, dynamics, guidance, entry events, disabled phases, early Terminate, epoch of entry at or after the start of the plan, and phase at which to stop",
  why="The tests fly three fixed plans from their start, some ignored, and count the trajectories; disabled phases, entering a plan on the way, stopping and resuming, and most entry events are never run.",
  files=["nyx-core/src/dynamics/sequence/mod.rs", "nyx-core/src/dynamics/sequence/config.rs", "nyx-core/src/dynamics/sequence/discrete_event.rs"],
  mech=[("phase loop and entry events", "dynamics/sequence/mod.rs: propagate"), ("validation", "dynamics/sequence/mod.rs: validate, setup"), ("dynamics assembly", "dynamics/sequence/config.rs: build")],
  technique="reference model: the plan flown phase by phase with the propagator alone",
  note="Model of phase selection and entry events in the harness; trajectories compared at their ends and inside.")


P(id="P27", title="Estimates hold the uncertainty they are built from",
  statement="An estimate built from a covariance, a diagonal, sigmas in a local or inertial frame, or dispersions holds exactly that state and uncertainty: its state is the nominal plus the deviation, sigma tests compare every component of the deviation with its own sigma, and scaling an estimate scales its sigmas. The sigma of any orbital element, and the Keplerian covariance, are those of the first-order transformation of the Cartesian covariance. Sigmas which are negative are refused. A dispersed estimate is reproducible from its seed, deviates to the state that was drawn, and keeps the covariance of the uncertainty.",
  over=["inputs", "configurations"],
  forall="every elliptic orbit away from the singular ones, full-rank covariance with correlations, deviation, local frame, sigma from zero to kilometres, set of dispersed parameters and seed",
  why="The tests build two estimates on one orbit and compare single values; correlations, other elements, other frames and the dispersed deviation are not looked at.",
  files=["nyx-core/src/od/estimate/kfestimate.rs", "nyx-core/src/od/estimate/mod.rs", "nyx-core/src/od/estimate/sc_uncertainty.rs"],
  mech=[("element sigmas", "od/estimate/kfestimate.rs: sigma_for, keplerian_covar"), ("uncertainty in a local frame", "od/estimate/sc_uncertainty.rs: to_estimate, to_estimate_randomized"), ("dispersed estimates", "od/estimate/kfestimate.rs: from_dispersions"), ("sigma tests", "od/estimate/mod.rs: within_sigma")],
  technique="differential against numerical Jacobians, hand-built rotations and the dispersion generator",
  note="Jacobians by central differences of independently written elements. One known finding: local-frame sigmas are rotated the wrong way around (pinned by an existing test).")

P(id="P29", title="Setting a parameter of a spacecraft sets that parameter and nothing else",
  statement="After any sequence of setting parameters on a spacecraft, each one reads back as set, every other orbital element, mass, area, coefficient, thruster value, thrust direction component and the guidance mode is as before, and read-only or inapplicable parameters are refused without touching the state. The value of an element is that of its definition, and the total mass is the sum of the masses. The vector of a state holds its orbit, Cr, Cd, propellant and STM in the documented order; setting a state from a vector and an epoch, adding deviations, resetting the STM and replacing single properties change exactly what they name.",
  over=["inputs", "histories"],
  forall="every elliptic orbit away from the singular ones, sequence of parameters and values, thruster present or not, thrust direction set or not, deviation vector, STM and epoch",
  why="Tests set a few parameters on one state and read the same one back; they do not look at what else moved, at sequences of settings nor at states without a thruster.",
  files=["nyx-core/src/cosmic/spacecraft.rs", "nyx-core/src/cosmic/mod.rs"],
  mech=[("parameter access", "cosmic/spacecraft.rs: value, set_value"), ("vector conversions", "cosmic/spacecraft.rs: to_vector, set, Add"), ("STM handling", "cosmic/spacecraft.rs: reset_stm, with_stm")],
  technique="model-based sequences of settings against a reference state, and vector round trips",
  note="Elements recomputed from position and velocity in the harness; up to six settings in a row.")


P(id="P28", title="Gravity files are read exactly as written",
  statement="Loading a gravity field from a SHADR or COF file, plain or gzip-compressed, directly or through a configuration, yields exactly the normalised coefficients written in the file for every degree and order up to the requested maximum and zero for those the file does not hold, whatever the column layout, separators and exponent style that the format allows; a request beyond what the file holds is limited to it, never filled with other coefficients; and a field made of J2 alone is the J2 field.",
  over=["inputs", "configurations"],
  forall="every set of coefficients, file format, number layout, requested degree and order, and compression",
  why="Tests read a few published files and look at a couple of coefficients.",
  files=["nyx-core/src/io/gravity.rs", "nyx-core/src/dynamics/gravity_field.rs"],
  mech=[("file parsers", "io/gravity.rs: load"), ("coefficient access", "io/gravity.rs: cs_nm")],
  technique="round trip through generated files",
  note="Files of all formats generated from random coefficient sets.")

P(id="P33", title="Math helpers: rotations, angles, pseudo-inverse, polynomials",
  statement="The mathematical helpers compute what their names say for every argument: the cross-product matrix, the rotation matrices about the axes and the rotation of a vector about any axis (whatever its length), projections and perpendicular parts, unit vectors, spherical coordinates and back, root-sum-square errors, diagonality and stability of matrices, the Kronecker product, the order of magnitude, normalization and its inverse; wrapped angles are congruent with the angle given and lie inside their interval; the pseudo-inverse meets the Moore-Penrose conditions for full-rank matrices of any shape and singular ones are refused; polynomials are evaluated, differentiated, added, subtracted and scaled exactly.",
  over=["inputs"],
  forall="all vectors, axes, angles, matrices and polynomial coefficients over many orders of magnitude, including zero and unit cases",
  why="Tests check a few hand-picked values, mostly unit axes and one matrix shape.",
  files=["nyx-core/src/utils.rs", "nyx-core/src/polyfit/polynomial.rs"],
  mech=[("vectors, angles, matrices", "utils.rs"), ("polynomials", "polyfit/polynomial.rs")],
  technique="algebraic identities and independent closed forms over generated arguments",
  note="Vectors shorter than 1e-8 count as nil where the helper says so.")
