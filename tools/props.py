PROPS = []
def P(id, title, statement, over, qtext, why, files, mech, bin=None, tech='', note='', **k):
    PROPS.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, qtext=' '.join(qtext.split()),
                      why=' '.join(why.split()), files=files, mech=mech, bin=bin, tech=tech,
                      note=' '.join(note.split()), **k))
IN, HI, CO, SC, FS = 'inputs', 'histories', 'configurations', 'schedules', 'fault_sequences'
N = 'nyx-core/src/'

P('C01', 'Propagation lands on the requested epoch in well-formed steps, call after call',
  '''Propagating for a duration or until an epoch, forward or backward, with fixed or adaptive steps, ends exactly on the
  requested epoch and publishes every accepted state once, strictly in the direction of the propagation, the last being
  the returned state; fixed steps have the requested size (but the last one) and adaptive steps stay within the minimum
  and maximum step. This holds for every call of any history of calls (durations of either sign, epochs, trajectories,
  events, zero durations) on one propagator instance: each call starts from the state of the previous one and a zero
  duration changes nothing. When an integration frame is requested, the returned, published and recorded states are in
  the frame of the initial state and describe the same motion.''',
  [IN, HI, CO], 'every orbit, integration method, error control, step setting, duration and history of calls on an instance',
  'The tests propagate a few fixed orbits once, forward; the order of calls, directions, step sizes and integration frames is unbounded.',
  [N+'propagators/instance.rs', N+'propagators/event.rs', N+'propagators/options.rs'],
  [('propagation loop and final step', N+'propagators/instance.rs'), ('step adaptation', N+'propagators/instance.rs'), ('integration frame', N+'propagators/instance.rs')],
  'prop', 'online monitors on the published state stream and on an instrumented dynamics model, over random call histories',
  'Every published state of the explored propagations is observed; sampled inputs, seeded and replayable. Trusts the analytic Kepler reference for the motion.')

P('C02', 'Integrators achieve their order; adaptive steps honour the tolerance',
  '''With fixed steps, the error of each integration method decreases with the step size at least as fast as its order.
  With adaptive steps, every accepted step, forward or backward, has an estimated error within the tolerance and a true
  local error commensurate with it unless the minimum step or the maximum number of attempts was reached, whatever the
  error control and including the last step of a propagation; the global error follows the tolerance. The reported
  details of the latest step (size, error, attempts) describe that step, the step size grows again when the dynamics allow it,
  and derivatives which are not numbers make an adaptive propagation an error.''',
  [IN, CO], 'every method, error control, tolerance, direction, initial step and orbit',
  'The tests compare a couple of orbits with GMAT at one tolerance, forward only.',
  [N+'propagators/instance.rs', N+'propagators/error_ctrl.rs', N+'propagators/rk_methods/'],
  [('Runge Kutta coefficients', N+'propagators/rk_methods/'), ('error estimates', N+'propagators/error_ctrl.rs'), ('step control', N+'propagators/instance.rs')],
  'prop', 'stepwise monitor of the integrator against an analytic two body flow (universal variables)',
  'Orders measured on step size ladders; local errors of every accepted step measured against the analytic solution.')

P('C03', 'Propagation is deterministic, composable and independent of how it is observed',
  '''Propagating the same state with the same set up twice, with or without a trajectory or a channel, serially or from many
  threads sharing one propagator, gives bit for bit the same result. The generated trajectory holds the initial state and
  every published state exactly once, in chronological order. Propagating in pieces, forward and backward, agrees with a
  single propagation to the same epoch within the tolerance of the integration.''',
  [IN, SC, HI], 'every state, force model, duration, split into pieces and thread schedule',
  'Tests run each propagation once, mostly from one thread.',
  [N+'propagators/instance.rs', N+'propagators/propagator.rs', N+'md/trajectory/traj.rs'],
  [('parallel collection of the states', N+'propagators/instance.rs'), ('ordering', N+'md/trajectory/traj.rs')],
  'prop', 'differential monitors (repeat, observe, split, 8 threads) comparing bit patterns',
  'Thread schedules are those the machine produces with 8 workers; sampled inputs.')

P('C04', 'The state transition matrix is the Jacobian of the propagated flow',
  '''A state transition matrix propagated with the state equals the derivative of the final state with respect to the initial
  one (position, velocity, and the reflectivity coefficient when it is estimated) for two body, third body, spherical
  harmonic and solar pressure dynamics, forward and backward, fixed or adaptive steps. Matrices compose over consecutive
  arcs, the one of an arc flown back is the inverse, and volumes are preserved by conservative forces. Requesting the
  matrix does not change the trajectory, and parameters which are not estimated do not influence it.''',
  [IN, CO, HI], 'every orbit, arc and combination of these models',
  'The existing tests bound the error on two arcs to about a kilometre.',
  [N+'dynamics/spacecraft.rs', N+'dynamics/orbital.rs', N+'dynamics/gravity_field.rs', N+'dynamics/solarpressure.rs'],
  [('variational equations', N+'dynamics/spacecraft.rs'), ('gradients', N+'dynamics/orbital.rs')],
  'prop', 'differential monitor: finite differences of an analytic flow and of the propagated flow',
  'Relative agreement of 3e-6 (analytic) and 2e-5 (propagated flow) on sampled arcs of up to 1.2 periods.')

P('C05', 'Central, third body and other accelerations are right and add up',
  '''The orbital acceleration is the two body attraction of the center of the frame plus, for every configured third body, the
  direct and indirect attraction of that body at the epoch of the evaluation (or of the emission of its light, when that correction is requested), in the axes of the integration frame, and its gradient
  is the derivative with the bodies held fixed. The acceleration of a spacecraft is the sum of the orbital models and of
  its force models divided by its total mass; without thrust nothing else of the state changes. Unknown bodies, massless
  spacecraft under a force, and models without partials when partials are requested are errors, not silent zeros.''',
  [IN, CO], 'every state, epoch, central body, frame and set of bodies and models',
  'Tests compare a handful of trajectories with GMAT; most of them need kernels which are not available.',
  [N+'dynamics/orbital.rs', N+'dynamics/spacecraft.rs', N+'dynamics/mod.rs'],
  [('point masses', N+'dynamics/orbital.rs'), ('sum of models', N+'dynamics/spacecraft.rs')],
  'dynx', 'per evaluation monitor against closed forms over an analytic ephemeris',
  'Accelerations to 1e-9 relative, gradients against finite differences to 2e-5.')

P('C06', 'The gravity field is the gradient of its spherical harmonic expansion',
  '''For every degree, order, set of coefficients, body, and position outside of the body, the gravity field acceleration is
  the gradient of the fully normalised spherical harmonic potential in the body fixed frame at that epoch, rotated in the
  integration frame. The gradient of the acceleration is its derivative: symmetric and with a null trace.
  A zonal field agrees with the closed form of J2.''',
  [IN, CO], 'every degree, order, coefficients, position and epoch', 'The tests use J2 and a 21x21 field on one orbit.',
  [N+'dynamics/gravity_field.rs', N+'io/gravity.rs'], [('recursions', N+'dynamics/gravity_field.rs')],
  'dynx', 'per evaluation monitor against an independent Cunningham recursion with random coefficients',
  'Degrees up to 24 (quick) and 60 (thorough), including high inclinations and polar positions.')

P('C07', 'Solar pressure and eclipses follow the geometry of the Sun and occulting bodies',
  '''The solar radiation force is the flux at one astronomical unit over the speed of light, scaled by the square of the
  distance to the Sun, the area, the reflectivity and the visible fraction of the solar disk, directed away from the Sun, whatever the integration
  frame; it vanishes in umbra. The reported occultation is the overlap of the apparent disks, between 0 and 100 %, the largest over the
  configured bodies, and the umbra and penumbra events of a shadow model hold where it says so. The partials (position, and reflectivity when it is estimated) are those of this force with the visibility held fixed.''',
  [IN, CO], 'every position, Sun geometry, set of shadow bodies, coefficients and frame', 'Tests check a few trajectories whose kernels are not available offline.',
  [N+'dynamics/solarpressure.rs', N+'cosmic/eclipse.rs'], [('force', N+'dynamics/solarpressure.rs'), ('shadow', N+'cosmic/eclipse.rs')],
  'dynx', 'per evaluation monitor against the planar overlap of disks over an analytic ephemeris, with positions aimed at umbra, penumbra and annular geometries',
  'Planar disks: agreement of 1e-6 plus the curvature term; grazing geometries within 1e-3.')

P('C08', 'Drag opposes the motion relative to the rotating atmosphere',
  '''The drag force is -1/2 rho Cd A |v| v with v the velocity relative to the atmosphere rotating with the body, rho given by the configured
  density model (constant, exponential, standard atmosphere) at the altitude of the spacecraft, in consistent units and in the axes of the integration
  frame, whatever that frame. It never adds energy relative to the atmosphere, is proportional to the area and coefficient, and makes a low orbit decay.''',
  [IN, CO], 'every low orbit, density model, ballistic coefficient and frame', 'The tests only check that drag runs.',
  [N+'dynamics/drag.rs'], [('density and force', N+'dynamics/drag.rs')],
  'dynx', 'per evaluation monitor against closed form densities and relative velocities', 'Force to 1e-5 relative.')

P('C09', 'Solid tides follow the Love number expansion',
  '''The solid tide acceleration is the gradient of the degree two (and three when configured) Love number potential raised by
  each configured body at the position it has at the epoch, in the integration frame, and the gradient of the
  model is the derivative of that acceleration with the bodies held fixed.''',
  [IN, CO], 'every position, epoch, Love numbers and set of bodies', 'One test checks one value.',
  [N+'dynamics/solid_tides.rs'], [('tidal potential', N+'dynamics/solid_tides.rs')],
  'dynx', 'per evaluation monitor against the analytic tidal potential', 'Acceleration to 1e-7, gradient to 1e-6 relative.')

P('C38', 'Gravity fields are loaded as written, and damaged files are refused',
  '''Loading a gravity field from COF or SHADR files, plain or compressed, with any requested degree and order, yields
  exactly the coefficients of the file up to the requested degree and order. A missing, truncated or damaged file gives an error or a consistent field,
  never a panic, and the same configuration loads through the serialized gravity field configuration.''',
  [IN, FS], 'every file content, degree, order, format and damage', 'The tests load the shipped files with one request each.',
  [N+'io/gravity.rs', N+'dynamics/sequence/config.rs'], [('parsers', N+'io/gravity.rs')],
  'dynx', 'round trip monitor over generated files and fault injection on their bytes', 'Files of up to degree 12 generated, plus the shipped JGM3.')

P('C10', 'Burns thrust as commanded, only when commanded, never below the dry mass',
  '''A finite burn pushes with the magnitude of the thruster times the commanded level along the commanded local frame direction, and burns the
  propellant given by the specific impulse, during its window (switching at the step boundaries, both ends included) and never outside of
  it; without a thruster, without propellant, or under an invalid command the propagation is refused rather than silently coasting or going below the dry mass.
  The guidance mode follows the window except when inhibited, which no law ever changes. The thrust direction recorded with a state is the one commanded in the updated mode at that state,
  and replaying the recorded directions holds the latest sample's command until the next sample, with no thrust outside of the recorded arc.''',
  [IN, HI, CO], 'every burn, window, representation, thruster, orbit, step size and initial guidance mode', 'The tests fly two or three fixed burns and check the consumed propellant.',
  [N+'dynamics/guidance/mnvr.rs', N+'dynamics/guidance/replay.rs', N+'dynamics/spacecraft.rs', N+'cosmic/spacecraft.rs'],
  [('burn law', N+'dynamics/guidance/mnvr.rs'), ('thrust and mass flow', N+'dynamics/spacecraft.rs'), ('replay', N+'dynamics/guidance/replay.rs')],
  'mnvr', 'per evaluation and per step monitors of force, mass flow, mode and direction against the rocket equation and the burn window',
  'Sampled burns; forces to 1e-9 relative, propellant and rocket equation to 1e-6 relative.')

P('C11', 'The low thrust steering laws steer optimally, and coast when they should',
  '''For a single objective (semi major axis, eccentricity, inclination, node; argument of periapsis in plane; the equinoctial h, k, p, q for Kluever) the Ruggiero and Kluever laws thrust along
  the direction of the fastest change of that element towards its target, of unit norm; with several objectives the directions are blended with the documented
  weights. They coast when every objective is achieved, when the efficiency of the location is below the configured threshold, and when
  the spacecraft is in an eclipse darker than configured; inhibited spacecraft keep coasting. Unsupported objectives are refused when the law is set up.''',
  [IN, CO, HI], 'every orbit, set of objectives, weight, efficiency threshold, eclipse geometry and guidance mode', 'The tests fly a few published transfers, most of which need absent kernels.',
  [N+'dynamics/guidance/ruggiero.rs', N+'dynamics/guidance/kluever.rs'], [('steering', N+'dynamics/guidance/ruggiero.rs'), ('steering', N+'dynamics/guidance/kluever.rs')],
  'mnvr', 'per evaluation monitor against numerically maximised rates of the Gauss variational equations, with transfers flown end to end',
  'Sampled orbits with eccentricities up to 0.7; AoP compared with its in plane optimum.')

P('C16', 'Mission sequences fly their phases in order, and apply each entry event once',
  '''A sequence flies its phases in order from their start to the start of the next, with the propagator and guidance configured
  for each, applying the entry event of a phase exactly once, when the phase starts (impulses in their local frame, property changes, frame swaps that describe the same motion);
  disabled phases are as if removed. Starting within a phase continues that phase without applying its entry event, and a stop phase ends the sequence
  at that phase. Invalid plans (empty, unordered, unknown propagators or thrusters, out of range starts) are refused without a panic.''',
  [IN, HI, CO], 'every plan of phases, disabled phases, entry events, start epoch and stop phase', 'One test flies one plan.',
  [N+'dynamics/sequence/mod.rs', N+'dynamics/sequence/config.rs'], [('phase loop', N+'dynamics/sequence/mod.rs')],
  'mnvr', 'trace monitor of the flown trajectories against a reference interpreter of the plan', 'Plans of up to 6 phases.')

P('C12', 'Trajectory queries return the motion that was sampled',
  '''Asking a trajectory for the epoch of a sample returns that sample as stored, and any epoch in between returns a state at exactly that epoch, on the motion that the
  samples describe, for evenly or unevenly spaced samples and up to both ends, with the propellant mass between those of the two neighbouring samples and no thrust direction.
  An epoch before the first or after the last sample, or an empty trajectory, gives an error instead of an extrapolation.''',
  [IN, HI], 'every motion, spacing of the samples and query epoch', 'The tests interpolate a few evenly spaced trajectories.',
  [N+'md/trajectory/traj.rs', N+'md/trajectory/interpolatable.rs'], [('query', N+'md/trajectory/traj.rs'), ('interpolation', N+'md/trajectory/interpolatable.rs')],
  'traj', 'per query monitor against Keplerian motion sampled with even, random, clustered and adaptive spacings',
  'Positions to 1e-8 relative on well resolved samples, looser on clustered ones.')

P('C13', 'Trajectory operations keep the states and the order of the trajectory',
  '''Finalizing a trajectory leaves it sorted with one state per epoch, filters by epoch and by offset keep exactly the states within the
  bounds (included, excluded or open), and sampling visits start + k step up to the end of the trajectory. Merging trajectories keeps the first and
  appends the later states of the second, refusing another frame, and changing the frame of a trajectory, or rebuilding it from an ephemeris, describes the same motion.''',
  [IN, HI], 'every list of states, bounds, steps and frames', 'The tests exercise one trajectory per operation.',
  [N+'md/trajectory/traj.rs', N+'md/trajectory/traj_it.rs', N+'md/trajectory/sc_traj.rs'], [('operations', N+'md/trajectory/traj.rs'), ('frame change', N+'md/trajectory/sc_traj.rs')],
  'traj', 'model based monitor over lists of states', 'Trajectories of up to 60 states.')

P('C14', 'Stored trajectories load back as they were, and damaged files are refused',
  '''A trajectory exported to parquet or CCSDS OEM and loaded again has the same epochs (to the microsecond), frame and orbital states and, for parquet, the same masses,
  coefficients, guidance modes, thruster and thrust directions. The exported columns, time window and step are those requested, and their values those of the states, including the differences
  between trajectories and ground tracks. A truncated, damaged or incomplete file gives an error, never a panic or made up states.''',
  [IN, FS, CO], 'every trajectory, export configuration and damage of the file', 'The tests export a few trajectories and hardly read them back.',
  [N+'md/trajectory/sc_traj.rs', N+'md/trajectory/traj.rs', N+'io/mod.rs'], [('export', N+'md/trajectory/traj.rs'), ('import', N+'md/trajectory/sc_traj.rs')],
  'traj', 'round trip monitor with an independent reader of the files and fault injection on their bytes and columns', 'Trajectories of up to 60 states.')

P('C15', 'Propagating to the n-th event stops at the n-th event',
  '''Propagating until the n-th occurrence of an event stops at its n-th crossing in the direction of propagation, within the precision of the event, and the
  returned trajectory covers the start to the end of the step of that event. When fewer events occur in the allowed duration an error tells how many were found.''',
  [IN, CO], 'every orbit, event, direction, count, and step size', 'The tests look for two events on two orbits.',
  [N+'propagators/instance.rs', N+'propagators/event.rs'] , [('event search', N+'propagators/instance.rs')],
  'traj', 'per run monitor against crossings of the Keplerian motion located independently', 'Crossings by dense sampling and bisection; grazing cases discarded.')

P('C17', 'The spacecraft state reads back what is set, and vectors keep their layout',
  '''Converting a spacecraft to its state vector and back is the identity on the orbit, coefficients, propellant mass and transition matrix; adding a deviation moves exactly the
  corresponding components. Every settable parameter reads back the value that was set and leaves the independent ones unchanged, and read only ones give an error. Builders and the DER encoding preserve every field.''',
  [IN], 'every spacecraft and parameter value', 'The tests set a handful of parameters.',
  [N+'cosmic/spacecraft.rs', N+'md/param.rs'], [('state', N+'cosmic/spacecraft.rs')],
  'traj', 'per operation monitor of set/get and encode/decode pairs', 'DER of valid encodings only: the der crate panics on some damaged reals.')

P('C22', 'Monte Carlo runs are reproducible, complete and independent of scheduling',
  '''The same seed always gives the same sequence of dispersed states, and skipping runs gives the tail of that sequence. Every requested run appears exactly once, in index order, with the dispersed state it
  started from and the outcome of propagating that state alone, whatever the number of threads and their relative delays; a failing run does not affect the others.
  The statistics (first, last and every values, dispersion values, replacement of failed runs) and the export to parquet are those of the runs.''',
  [SC, IN, HI], 'every seed, number of runs, skip, number of threads, delay of the runs and set of failing runs', 'The tests run a few Monte Carlo analyses without comparing the runs.',
  [N+'mc/montecarlo.rs', N+'mc/results.rs', N+'mc/generator.rs'], [('parallel runs', N+'mc/montecarlo.rs'), ('reports', N+'mc/results.rs')],
  'mc', 'offline exactly once and ordering checker of the recorded runs, under thread pools of several sizes with injected delays and failures',
  'Up to a few tens of runs per analysis; no claim on the index of resumed runs nor on seeds that differ in their lowest bit only.')

P('C23', 'Dispersed states follow the requested distribution',
  '''States dispersed on orbital elements, coefficients or propellant mass have, through the linearised definition of these parameters, the requested means and standard deviations, independently
  of each other, and leave every other parameter unchanged; those drawn from a spacecraft mean and covariance, rank deficient ones included, have that mean and covariance. The reported dispersions are the dispersed value minus the template,
  and estimates built from dispersions deviate by the dispersed state minus the nominal. Parameters that cannot be dispersed and indefinite covariances are refused with an error.''',
  [IN], 'every template state, set of dispersions and covariance', 'The tests check the semi major axis and a covariance for one template.',
  [N+'mc/multivariate.rs', N+'mc/generator.rs', N+'mc/dispersion.rs', N+'od/estimate/kfestimate.rs'], [('sampling', N+'mc/multivariate.rs')],
  'mc', 'statistical monitor of the samples (moments with bounds at more than six standard errors) mapped through exact gradients',
  'Some thousands of samples per case.')

P('C19', 'B-plane parameters follow their definition and targets are achieved or refused',
  '''The B-plane of a hyperbolic orbit has the B vector, axes, angle and magnitude given by its incoming asymptote, and its partial derivatives are those of that definition; closed orbits are refused with an error.
  A correction towards a B-plane target changes only the velocity, and the corrected state has the targeted B.R and B.T, or an error is returned; small corrections far from the body are always found.''',
  [IN], 'every hyperbolic orbit about any body and every target', 'The tests compare two orbits with another tool.',
  [N+'cosmic/bplane.rs', N+'md/param.rs'], [('B-plane', N+'cosmic/bplane.rs')],
  'md', 'per call monitor against a reference B-plane from the asymptote, with finite difference derivatives of that reference',
  'Asymptotes at least 2 degrees away from the pole; the linearised time of flight is not claimed.')

P('C20', 'Lambert arcs connect the two positions in the time of flight, or are refused',
  '''The velocities returned by either Lambert solver are those of the conic that goes from the initial to the final position in exactly the time of flight, the requested way around and with the requested number of revolutions (prograde);
  every known transfer is found. Degenerate problems (colinear positions, time of flight not positive, too many revolutions) return an error, never a panic, a NaN or another transfer.
  The derived quantities (v infinity, C3, declination, right ascension, transfer and arrival orbits) are those of these velocities.''',
  [IN], 'every pair of positions, time of flight, transfer kind and solver', 'The tests solve a few published problems.',
  [N+'tools/lambert/izzo.rs', N+'tools/lambert/godding.rs', N+'tools/lambert/mod.rs'], [('Izzo', N+'tools/lambert/izzo.rs'), ('Gooding', N+'tools/lambert/godding.rs')],
  'md', 'per call monitor: the returned arc is flown by an independent Kepler propagator, and compared with the transfer the problem was built from',
  'Transfer angles at least 2 degrees away from 180; eccentricity of the transfer up to 3; Gooding may fail to converge beyond 344 degrees or on hyperbolas.')

P('C21', 'A targeter solution meets its objectives when flown, within the bounds',
  '''When an impulsive targeter (finite differences or hyperdual) returns a solution, the corrected state is the uncorrected one at the correction epoch plus the announced correction in the requested frame, each component within the bounds of its variable,
  and propagating it to the achievement epoch meets every objective within its tolerance in the objective frame; the announced errors and achieved state are those of that flight, and applying the solution confirms it.
  Problems without a solution, invalid variables and unsupported frames return an error, and an objective already met needs no correction.''',
  [IN], 'every initial state, correction, objective, bound, step limit and frame', 'The tests target a few orbits and mostly print the solution.',
  [N+'md/opti/raphson_finite_diff.rs', N+'md/opti/raphson_hyperdual.rs', N+'md/opti/targeter.rs', N+'md/opti/target_variable.rs'], [('differential correction', N+'md/opti/raphson_finite_diff.rs'), ('hyperdual', N+'md/opti/raphson_hyperdual.rs')],
  'md', 'per solution monitor: the correction is reapplied and flown, objectives evaluated by reference formulas',
  'Impulsive variables only; finite burn targeting is not claimed.')

P('C24', 'Simulated measurements are those of the geometry, noises and visibility',
  '''A ground station, interlink transmitter or position device measures the range, range rate, azimuth and elevation (or coordinates) of the true geometry at the epoch, averaged over the integration time when two way (azimuths through north), plus samples of its configured noises and biases
  (divided by the square root of two when two way), and only when the spacecraft is above the terrain mask and not hidden by a body. The noise samples have the configured mean and standard deviation, repeat with the seed, and the announced covariances and biases are the configured ones.
  Unsupported types, unconfigured noises and unknown locations are errors.''',
  [IN], 'every station, mask, orbit, frame, integration time, noise and set of types', 'The tests that simulate measurements compare counts, not values.',
  [N+'od/ground_station/trk_device.rs', N+'od/ground_station/mod.rs', N+'od/interlink/trk_device.rs', N+'od/position/trk_device.rs', N+'od/msr/types.rs'], [('ground station', N+'od/ground_station/trk_device.rs'), ('interlink', N+'od/interlink/trk_device.rs')],
  'trk', 'per measurement monitor against reference topocentric and relative geometry, statistical monitor of the noises',
  'Elevations within 1e-5 degree of the mask are not judged; light time is compared with ANISE.')

P('C25', 'Measurement sensitivities are the derivatives of the measurements',
  '''Each row of the sensitivity matrix of a ground station, interlink transmitter or position device is the derivative of that instantaneous measurement, in its own unit, with respect to the position and velocity of the spacecraft, in the order of the requested types, and zero for the other estimated parameters,
  whatever the noise of the measured values. Rows of types missing from the measurement are zero, and unsupported types are errors.''',
  [IN], 'every geometry, set and order of types, availability and noise', 'The tests run filters whose results hide errors of the partial derivatives.',
  [N+'od/msr/sensitivity.rs', N+'od/interlink/sensitivity.rs', N+'od/position/sensitivity.rs'], [('partial derivatives', N+'od/msr/sensitivity.rs')],
  'trk', 'per matrix monitor against finite differences of the reference measurement',
  'Elevations below 89.5 degrees; no light time.')

P('C31', 'Operations on tracking arcs keep exactly the requested observations',
  '''Sorting orders measurements by epoch and merges those of the same tracker and epoch without losing any; filtering, excluding, rejecting, adding and chunking by epoch, offset, tracker or type apply to exactly the requested observations, with the bounds as given, and change no other.
  Downsampling keeps one of every N measurements of each tracker and replaces it by the average of that tracker alone over that window, and keeps the moduli and rejections; applying a modulus changes values by whole multiples of it.
  Two measurements are equal only if tracker, epoch, types and values agree.''',
  [HI, IN], 'every arc, history of operations, bound and tracker', 'The tests apply a few filters to one arc.',
  [N+'od/msr/trackingdata/mod.rs', N+'od/msr/measurement.rs'], [('operations', N+'od/msr/trackingdata/mod.rs')],
  'trk', 'online checker: every state of random operation histories is compared with a model made of plain records',
  'Duplicates of an observation hold the same value; arcs of up to some hundred measurements.')

P('C32', 'Tracking arcs survive their files, and files are read as their standard says',
  '''An arc of radiometric or angular observations written to Parquet or to a CCSDS TDM and read back has the same trackers, epochs, types and values (and range modulus and aliases for a TDM), missing observations remain missing, and the export window keeps the measurements at or after its start and before its end.
  A TDM is written and read in its time system, with two-way ranges and range rates, one-way angles, and frequencies turned into range rates by the turnaround ratio and transmit ramps. Malformed or damaged files and unwritable paths are errors.''',
  [IN, FS], 'every arc, time scale, window, alias and damage', 'The tests read a few files and compare counts.',
  [N+'od/msr/trackingdata/io_parquet.rs', N+'od/msr/trackingdata/io_ccsds_tdm.rs', N+'od/msr/types.rs'], [('TDM', N+'od/msr/trackingdata/io_ccsds_tdm.rs'), ('Parquet', N+'od/msr/trackingdata/io_parquet.rs')],
  'trk', 'offline checker of written files by an independent reader, and of files from an independent writer',
  'Epochs to the microsecond in Parquet; corrections on two-way paths, several segments with different metadata and cartesian types are not claimed.')

P('C34', 'Simulated arcs and schedules follow the configuration and the visibility',
  '''The simulator makes one measurement per configured device at each multiple of its sampling time in each of its strands when the spacecraft is visible, none otherwise, in chronological order, and repeats exactly with the seed.
  A schedule has one strand per pass long enough for the minimum number of samples, from rise to set within the alignment, at most as long as the on time and at least the off time apart when intermittent; of two overlapping strands, an eager tracker yields to the next one and a greedy one delays it.
  Invalid configurations and unbuilt schedules are errors, and passes that do not exist give no strand and no measurement.''',
  [IN, HI], 'every trajectory, set of trackers, strands and scheduler', 'The tests compare the number of measurements of one scenario.',
  [N+'od/simulator/arc.rs', N+'od/simulator/trkconfig.rs', N+'od/simulator/scheduler.rs'], [('schedules', N+'od/simulator/arc.rs')],
  'trk', 'offline checker of the recorded arcs and schedules against visibility scanned independently',
  'Strands inside of the trajectory; handoffs between two trackers.')

P('C35', 'Noise models follow their law and link budgets their equations',
  '''Samples of a white noise have its mean and sigma, are normal and uncorrelated; those of a stochastic noise are the sum of its white noise and bias, whose first sample has the process noise and constant of the Gauss-Markov process; the announced covariances are those of the samples, scale with the noise, and samples repeat with the seed.
  Range and Doppler noises built from hardware are the root sum square of the thermal and clock terms of their equations. Invalid noises and time constants are refused.''',
  [IN], 'every mean, sigma, bias, seed and link budget', 'The tests count the samples beyond three sigmas for one noise.',
  [N+'od/noise/mod.rs', N+'od/noise/white.rs', N+'od/noise/gauss_markov.rs', N+'od/noise/link_specific.rs'], [('noises', N+'od/noise/mod.rs')],
  'trk', 'statistical monitor of the samples (moments, shares and correlation with bounds at 6.5 standard errors) and reference equations',
  'The variance of a Gauss-Markov bias after its first sample is not claimed.')

P('C26', 'Each Kalman update is the optimal linear update of the predicted estimate',
  '''A time update maps the deviation and covariance through the state transition matrix and adds the process noise in force; a measurement update applies the optimal gain to the innovation and yields the exact posterior covariance, symmetric, positive and never larger than the predicted one,
  for any number of observations, correlated noises and both variants (deviation tracking and reference update). A measurement is rejected exactly when its residual ratio exceeds the threshold, and then leaves the prediction unchanged; prefit, ratio, whitened residuals, observations and flags describe that update.
  States without a transition matrix are refused and leave the filter as it was.''',
  [HI, IN], 'every history of updates, covariance, sensitivity, noise, rejection threshold and variant', 'The tests run whole filters on a few arcs and check the final error only.',
  [N+'od/kalman/filtering.rs', N+'od/kalman/initializers.rs', N+'od/snc.rs', N+'od/msr/mod.rs'], [('updates', N+'od/kalman/filtering.rs'), ('process noise', N+'od/snc.rs')],
  'od', 'online monitor: each update of random histories is compared with a reference filter in information form',
  'Ratios within 1e-5 of the threshold are not judged; three axis acceleration noises on the nine component state.')

P('C27', 'The OD process uses every valid measurement, at its epoch, optimally',
  '''Processing an arc performs, in chronological order, one update per measurement and per window of types for each known and visible device, with the observation computed from the latest state at that epoch including the biases and moduli, and time updates at most the maximum step apart in between; between estimates the state, transition and covariance are those of the dynamics and process noise.
  Flagged, hidden, unknown, missing and outlying observations never change the state, and each accepted one changes it by its optimal correction.
  With consistent data the final error and the innovations are commensurate with the covariances, and invalid runs (too few measurements, null step, values that are not finite) are errors.''',
  [IN, HI, CO], 'every arc, set of devices, types, gaps, outliers, biases, moduli, noises, rejection and step', 'The tests bound the final error of a few scenarios by hundreds of meters.',
  [N+'od/process/mod.rs', N+'od/process/rejectcrit.rs', N+'od/kalman/filtering.rs', N+'od/msr/trackingdata/mod.rs', N+'od/ground_station/trk_device.rs', N+'od/position/trk_device.rs'], [('process', N+'od/process/mod.rs'), ('filter', N+'od/kalman/filtering.rs')],
  'od', 'offline checker: every record of the produced solution is recomputed from the previous one with an analytic flow, reference measurements and a reference filter; consistency with the truth',
  'Two body dynamics, instantaneous measurements; ratios within 0.1% of the threshold are not judged.')

P('C28', 'Smoothing uses all measurements and keeps what was observed',
  '''Without process noise, each smoothed estimate is the final estimate mapped back to its epoch: propagating it forward gives the final state, its covariance is the final one mapped back and never larger than the filtered one, for both filter variants, with outliers and time updates.
  The last estimate is unchanged, each residual keeps its observation, prefit, ratio, tracker, types and rejection and gets the observation computed from its own smoothed state, and the filter smoother ratios compare both estimates.
  With consistent data the smoothed initial error is commensurate with its covariance.''',
  [IN, HI], 'every filter run without process noise', 'The tests compare the RMS of one smoothed run with the filtered one.',
  [N+'od/process/solution/smooth.rs', N+'od/process/solution/mod.rs'], [('smoother', N+'od/process/solution/smooth.rs')],
  'od', 'offline checker: every smoothed record is compared with the final estimate mapped back by the analytic flow',
  'Instantaneous measurements; process noise and missing types are not claimed.')

P('C29', 'Batch least squares solutions satisfy the normal equations',
  '''A converged batch estimate, with normal equations, makes the weighted correction computed from all valid measurements (with biases and moduli, several per epoch) smaller than the tolerance, its covariance is the inverse of the information of these measurements (also with Levenberg-Marquardt), and the residuals are not larger than those of the guess.
  Only the orbit changes, the reported corrections, iterations and RMS are those of the solution, perfect data gives the true orbit, noisy data an error commensurate with the covariance, and evaluating a guess gives its weighted RMS.
  Too few measurements and values that are not finite are errors.''',
  [IN], 'every observable arc, guess, set of devices, noise, bias and modulus', 'The tests solve one scenario.',
  [N+'od/blse/mod.rs', N+'od/blse/solution.rs'], [('iterations', N+'od/blse/mod.rs')],
  'od', 'offline checker: the normal equations are rebuilt at the solution from an analytic flow and reference measurements',
  'Information well above the unit regularization of the solver; the optimality of Levenberg-Marquardt is not claimed.')

P('C30', 'Predictions map the covariance, with the process noise in force',
  '''Predicting for a duration or until an epoch starts with the given estimate, ends at the requested epoch with steps of at most the maximum, and each estimate has the state and covariance mapped from the previous one by the dynamics plus the process noise in force.
  The process noise in force is the last configured one whose start time has come and whose disable time has not been exceeded since the previous estimate, with its decay, its local frame and the transition of constant accelerations over the step; without any, the covariance only depends on the span.''',
  [IN, CO], 'every estimate, span, step and set of process noises', 'The tests only check that covariances grow in one prediction.',
  [N+'od/process/mod.rs', N+'od/snc.rs', N+'od/kalman/filtering.rs'], [('predictions', N+'od/process/mod.rs'), ('process noise', N+'od/snc.rs')],
  'od', 'offline checker: each predicted record against the analytic flow and reference process noise; direct monitor of the noise contributions',
  'Noises in a local frame contribute their variances along the axes of the integration frame, as documented.')

P('C33', 'OD solutions report, select, merge and store exactly their records',
  '''Filtering a solution by tracker, type or time update, excluding, splitting, merging and looking up by epoch return exactly the matching records, each with its own residual, gain and ratio, in chronological order; trajectories and ephemerides made from it hold its states and covariances.
  The RMS of the residuals, their share within a threshold, the Kolmogorov-Smirnov statistic, and the NIS and NEES sums and bounds are those of its accepted residuals and estimates.
  Written to Parquet, over any time span, a solution reads back the same (estimates, residuals, gains, ratios, devices), its RIC uncertainties are rotated and missing values remain missing; invalid or damaged files are errors.''',
  [IN, HI, FS], 'every solution, selection, time span and damage', 'The tests write one solution and compare its length.',
  [N+'od/process/solution/filter_data.rs', N+'od/process/solution/mod.rs', N+'od/process/solution/stats.rs', N+'od/process/solution/export.rs', N+'od/process/solution/import.rs'], [('selections', N+'od/process/solution/filter_data.rs'), ('statistics', N+'od/process/solution/stats.rs'), ('files', N+'od/process/solution/export.rs')],
  'od', 'online model of plain records, reference statistics, and an independent reader of the written files',
  'Ground stations; bounds of the consistency tests are compared within the accuracy of their approximation.')
P('C36', 'Ground assets are located by spacecraft: motion, measurements, estimation',
  '''A ground asset moves as its latitude, longitude and height rates say, with the state transition matrix of that motion, and its inertial position and velocity include the rotation of the body.
  The range and Doppler that a transmitter observes of it are those of the geometry, with a bias and noise only where configured and no data while the transmitter is below the horizon of the asset, and the sensitivities of the filter are the derivatives of those measurements with respect to the state.
  A filter run on such an arc follows the Kalman equations at every measurement, its covariance stays symmetric and nonnegative, and an exported solution holds exactly its records over the requested time span.''',
  [IN, HI, FS], 'every asset, transmitter orbit, selection of types and arc', 'The tests estimate one asset with one transmitter and check that it converges.',
  [N+'od/groundpnt/mod.rs', N+'od/groundpnt/ground_dynamics.rs', N+'od/groundpnt/sensitivity.rs', N+'od/groundpnt/solution.rs', N+'od/groundpnt/trk_device.rs'], [('motion of the asset', N+'od/groundpnt/ground_dynamics.rs'), ('measurements', N+'od/groundpnt/trk_device.rs'), ('sensitivities', N+'od/groundpnt/sensitivity.rs'), ('files', N+'od/groundpnt/solution.rs')],
  'pnt', 'reference geodesy and geometry, finite differences, and a replay of the Kalman equations over the recorded run',
  'One transmitter; no light time.')
P('C37', 'Stored configurations mean the same when read back, damaged ones are errors',
  '''Ground stations, noises, schedules, strands, tracking configurations, spacecraft, thrusters, measurement types and modes written in the binary format are read back with every field unchanged, and truncated or otherwise damaged bytes are errors.
  The same holds for the text form of those and of position devices, rejection thresholds, propagator options and configurations, maneuvers, objectives, guidance laws, discrete events and whole sequences, and for the Dhall form of those offering one.
  Lists and named maps of configurations in files are read back in full, and a missing or malformed file is an error.''',
  [IN, CO, FS], 'every configuration value, optional field, format and damage', 'The tests read a few example files and compare a field or two.',
  [N+'io/mod.rs', N+'od/ground_station/mod.rs', N+'od/simulator/trkconfig.rs', N+'od/simulator/scheduler.rs', N+'od/noise/mod.rs', N+'od/noise/gauss_markov.rs', N+'od/noise/white.rs', N+'od/msr/types.rs', N+'cosmic/spacecraft.rs', N+'dynamics/sequence/config.rs', N+'propagators/options.rs', N+'md/objective.rs'], [('file readers', N+'io/mod.rs'), ('binary forms', N+'od/simulator/scheduler.rs'), ('sequences', N+'dynamics/sequence/config.rs')],
  'cfg', 'online round trip monitors over random configurations and damaged bytes, comparing every field',
  'Sequences are only written as Dhall; Dhall objectives on orbital elements only.')

P('C39', 'Uncertainties, estimates, dispersions and objectives mean what they say',
  '''An estimate reports, for each orbital element, the standard deviation and the covariance which its Cartesian covariance implies, decides whether a state is within a number of sigmas, prints its sigmas in the announced units, and keeps its state, deviation and covariance consistent in all its constructors and accessors.
  An uncertainty gives the diagonal covariance of its sigmas (negative ones are errors), its randomized estimates are reproducible by seed and spread as that covariance, as do the random variable of an estimate and the dispersions of a generator built from it.
  An objective is assessed as met exactly when the achieved value is within its tolerance, with the signed error, scaled and offset as configured.''',
  [IN, CO], 'every orbit, covariance, element, seed and objective', 'The tests compare one covariance with pinned numbers.',
  [N+'od/estimate/kfestimate.rs', N+'od/estimate/sc_uncertainty.rs', N+'od/estimate/mod.rs', N+'md/objective.rs', N+'mc/multivariate.rs', N+'mc/dispersion.rs'], [('estimates', N+'od/estimate/kfestimate.rs'), ('uncertainties', N+'od/estimate/sc_uncertainty.rs'), ('objectives', N+'md/objective.rs')],
  'cfg', 'reference covariances from finite differences, moments of seeded samples, recomputed assessments',
  'Orbits away from the singularities of their elements; uncertainties in a local frame are a known finding.')

P('C40', 'Unchecked accesses stay within their storage, alone and from many threads',
  '''Evaluating the acceleration and gradient of a gravity field never reads outside of its storage, whatever the degree and order of the field, those requested from its file, the coefficients missing from that file and the position,
  and neither does loading complete, truncated or damaged field files. The same holds when one field, propagator or trajectory is used by many threads at a time.''',
  [IN, CO, SC], 'every field file, requested degree and order, position, and concurrent use', 'Reading a neighbouring value is silent and depends on the layout of the memory.',
  [N+'dynamics/gravity_field.rs', N+'io/gravity.rs', N+'mc/montecarlo.rs', N+'propagators/instance.rs'], [('unchecked indices', N+'dynamics/gravity_field.rs'), ('field files', N+'io/gravity.rs')],
  'san', 'AddressSanitizer and checked preconditions of unsafe functions, over the workloads of the gravity, gravity file and Monte Carlo monitors',
  'The thorough tier runs the workloads of all properties with the sanitizer.')

P('C18', 'Vector, angle, polynomial and matrix helpers satisfy their identities',
  '''Cross product matrices, elementary rotations, rotations about an axis, projections, spherical coordinates, distances and angle reductions are those of their definition for every vector and angle, including null and axis aligned vectors and exact multiples of a half turn.
  Polynomials evaluate, differentiate, scale, shift, add and subtract as polynomials of any order, and pseudo inverses satisfy the Penrose conditions for every full rank matrix, wide, tall or square, singular ones being errors.''',
  [IN], 'every vector, angle, polynomial and full rank matrix', 'The tests evaluate a few vectors and one polynomial.',
  [N+'utils.rs', N+'polyfit/polynomial.rs'], [('helpers', N+'utils.rs'), ('polynomials', N+'polyfit/polynomial.rs')],
  'util', 'algebraic identities evaluated on the results of random calls', 'Well conditioned matrices.')

P('C41', 'Multiple shooting reaches its nodes at the least cost',
  '''The initial nodes are evenly spaced in time and, for the equidistant heuristic, in position up to the destination, or, for the altitude heuristic, above the free motion at an altitude between its own and that of the destination, which the last node has; fewer than three nodes, or a destination at the start, are errors.
  In a solution each arc leaves from where the previous one arrived with the reported impulse and, when flown, reaches its node at the epoch of that node, the last node being the initial one. The total cost is not above that of the initial nodes and, for destinations near the free motion, is the least possible one; the rebuilt trajectories are those arcs.''',
  [IN, CO], 'every start, destination, number of nodes, heuristic and cost function', 'The tests solve two cases and check that the trajectories join.',
  [N+'md/opti/multipleshooting/multishoot.rs', N+'md/opti/multipleshooting/ctrlnodes.rs', N+'md/opti/multipleshooting/equidistant_heuristic.rs', N+'md/opti/multipleshooting/altitude_heuristic.rs'], [('outer loop', N+'md/opti/multipleshooting/multishoot.rs'), ('nodes', N+'md/opti/multipleshooting/ctrlnodes.rs')],
  'util', 'every arc of the solution is flown with an analytic flow; reference optimum of the linearized problem',
  'Two body dynamics, destinations within some hundred kilometers of the free motion.')
