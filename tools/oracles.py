O = {
'C01': 'The states received on the channel, those of the trajectory and the calls of an instrumented `Dynamics` wrapper are the events. The monitor checks the epochs (exact nanoseconds), order, step sizes and identity of last/returned state of each call, and the motion of every returned state against universal-variable Kepler propagation.',
'C02': 'Each accepted step is replayed from its start by the analytic flow: the true local error is compared with the tolerance in the norm of the error control in use, and the reported error with my own evaluation of the control on the stages. Orders are the slopes of error ladders under step halving, judged per case and by median per method; `ErrorControl::estimate` is compared with its definition in its relative and absolute regimes.',
'C03': 'Bit patterns of the results of two runs of the same problem, which differ only in the way they are observed (channel, trajectory, threads) or cut. Forward-backward and piecewise flights are compared with the single flight within a bound derived from the tolerance and the sensitivity of the orbit.',
'C04': 'Central differences of the analytic two body flow, and of the propagated flow itself, with respect to each component; composition, inversion and determinant identities between matrices.',
'C05': 'A synthetic almanac (analytic circular ephemerides written as SPK, see `harness/src/alm.rs`) gives exact positions; accelerations are recomputed from them, gradients by differences; sums over models are compared with the model list evaluated one by one.',
'C06': 'An independent Cunningham (V, W) recursion evaluates the gradient of the expansion at random coefficients, degrees, orders and positions; the Jacobian is compared with its differences.',
'C07': 'Flux × area × reflectivity × visible fraction from the analytic Sun; the visible fraction by the planar overlap of the two disks; positions are aimed at shadow boundaries, so that umbra, penumbra and annular geometries are all observed (counted in the evidence).',
'C08': 'Closed form densities and the velocity relative to the frame rotating with the central body.',
'C09': 'The gradient of the Love number expansion of the potential, evaluated in closed form.',
'C38': 'Generated SHADR/COF files are read back coefficient by coefficient; the bytes are then damaged (truncation, flips, garbage, wrong compression) and the only acceptable outcomes are an error or coefficients in range, never a panic.',
'C10': 'Thrust direction from my own local frames and angle polynomials; mass flow by the rocket equation; the recorded trajectory is checked state by state (mass, mode, window), including tanks which run out in flight.',
'C11': 'The rate of the targeted element is maximised numerically over the thrust direction with the Gauss variational equations obtained by differences of the element functions; efficiencies are the ratio with the best point of the orbit. Transfers are flown end to end: the weighted distance to the objectives must not diverge and the law coasts when all are met.',
'C16': 'A reference interpreter of the plan (phases sorted by epoch, entry events, own force models assembled from the configuration) flies each phase with a separately built propagator and compares the recorded trajectories.',
'C12': 'Kepler motion sampled with even, random, clustered and geometric spacings; bounds scale with the smoothness of the sampling.',
'C13': 'A model on plain lists of (epoch, state).',
'C14': 'An independent Arrow reader checks every column written; a file loaded back is compared field by field; damaged files must be errors.',
'C15': 'Crossings of the scalar located by dense sampling of the analytic motion and bisection, in the direction of travel.',
'C17': 'set/get, encode/decode and deviation pairs compared exactly or at rounding.',
'C22': 'Exactly-once and order checker on the indices of the results; states are compared bit for bit with single threaded runs; failures and delays are injected by index; pools of 1, 2, 3, 8 threads; the export is read back by an independent reader.',
'C23': 'Moments of seeded samples mapped through gradients computed by differences, with bounds at more than six standard errors; each reported dispersion is recomputed from the dispersed state.',
'C19': 'B-plane from the incoming asymptote (eccentricity vector), with differences for its partials; an achieved target is flown/evaluated again.',
'C20': 'The returned velocities are flown with the analytic flow for the time of flight; problems are built from known transfers, so that the expected way around and number of revolutions are known.',
'C21': 'The correction of the returned solution is applied to the initial state and flown; the objectives are evaluated with reference formulas; bounds of variables are checked on the total correction.',
'C24': 'Topocentric geometry rebuilt from the station coordinates and the synthetic Earth orientation; statistics of the noise for each type.',
'C25': 'Differences of the reference measurement for each row.',
'C31': 'A model made of plain records goes through the same random history; the arc is compared after each operation.',
'C32': 'Files written are parsed by an independent reader (Arrow, or a TDM parser of mine); files of an independent writer are loaded.',
'C34': 'Visibility scanned on a fine grid; strands, samplers, handoff rules rebuilt from the configuration.',
'C35': 'Moments, autocorrelation and shares with 6.5 standard error bounds; link budget equations.',
'C26': 'The same update in information form with nalgebra at double precision, plus positive definiteness and Joseph form identities.',
'C27': 'Every record (prediction, prefit, innovation, ratio, gain, update, rejection) of the produced solution is recomputed from the previous record with the analytic flow, reference measurements and a reference filter; the errors of the final estimates against the truth are tested for consistency with the covariance.',
'C28': 'Without process noise, the smoothed estimate at t is the final estimate mapped back: compared for each record.',
'C29': 'Normal equations rebuilt at the solution: the gradient must vanish and the covariance be the inverse of the information.',
'C30': 'Analytic flow for the covariance; process noise per its definition (axes, decay, disable time, start).',
'C33': 'A model of plain records, reference statistics (RMS, NIS, NEES, KS), an independent reader of the written files.',
'C36': 'Reference geodesy on the ellipsoid, geometry and differences; replay of the Kalman equations.',
'C37': 'Every field of the configuration read back is compared with the one written, via YAML, Dhall, and DER; damaged bytes must be errors.',
'C39': 'Covariances mapped by differences of the element functions; objectives recomputed; moments of samples.',
'C40': 'AddressSanitizer build (nightly, checked unsafe preconditions) of the workloads which reach the unsafe code (gravity fields, Monte Carlo); a report, crash or runaway allocation is the violation.',
'C18': 'Algebraic identities (orthogonality, inverses, evaluation by Horner, round trips, ranges of angles).',
'C41': 'Nodes against their definition; each arc of the solution flown by the analytic flow must hit the next node; the cost is compared with the optimum of the linearised problem.',
}
