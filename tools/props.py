# Single source of properties.jsonl, MANIFEST.json and registry texts.  Run: python3 tools/gen.py
P = []
def prop(id, title, statement, over, qtext, why, files, mech, note, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, note=note,
                  state=list(state), observe=list(observe)))

REAL = 'Float arithmetic is treated as ideal real arithmetic (rounding not covered); '
PROVED = 'every obligation generated from the current source is discharged for all inputs. '

prop('G01', 'Magnetic field lookup is total and memory safe',
     'For every finite latitude and longitude, however far out of range, looking up magnetic declination, inclination or field strength reads only inside its tables and returns a finite number.',
     ['inputs'], 'all pairs of finite floats',
     'The unit tests look up a 5 degree grid of valid positions; out-of-range positions, exact grid bounds and every rounding case of the index computation are never exercised.',
     ['geo_lookup/geo_mag_declination.cpp', 'geo_lookup/geo_magnetic_tables.hpp'],
     [('get_lookup_table_index', 'geo_lookup/geo_mag_declination.cpp'), ('get_table_data', 'geo_lookup/geo_mag_declination.cpp')],
     PROVED + 'Machine float semantics throughout (z3 FP theory and a float interval back end). NaN inputs are outside the contract.')

prop('G02', 'Magnetic field lookup interpolates the WMM-2020 grid',
     'At every position the magnetic declination, inclination and strength are the bilinear interpolation of the four surrounding values of the published WMM-2020 ten-degree grid, with latitude clamped at the poles and longitude wrapped by one turn. Results in degrees and radians, and in gauss and tesla, agree.',
     ['inputs'], 'all latitudes and all longitudes from -540 to 540 degrees, cell by cell including cell borders, poles and date line',
     'The tests compare sampled points between 50S and 60N with a tolerance of several units, so polar rows, wrapped longitudes and small interpolation or table errors pass.',
     ['geo_lookup/geo_mag_declination.cpp', 'geo_lookup/geo_magnetic_tables.hpp'],
     [('get_table_data', 'geo_lookup/geo_mag_declination.cpp'), ('declination_table', 'geo_lookup/geo_magnetic_tables.hpp')],
     PROVED + REAL + 'case split over all 18x36 cells and both turns; table indices are resolved by the solver during generation. The reference grid is a copy of the published tables kept in /verif.')

prop('M01', 'Scalar helpers and the alpha filter meet their contracts',
     'Clamping maps any number into its range and leaves numbers inside unchanged, minimum and maximum return the right argument, and degree/radian conversions are inverse. The first-order filter always stays between its old state and the new sample, its weight stays within zero and one, and reset and degenerate parameters do what they say.',
     ['inputs'], 'all floats / integers satisfying the documented preconditions',
     'No test enumerates float order edge cases or arbitrary filter weights; the helpers are used in every other module.',
     ['mathlib/mathlib.h', 'AlphaFilter/AlphaFilter.hpp'],
     [('constrain', 'mathlib/mathlib.h'), ('AlphaFilter::update', 'AlphaFilter/AlphaFilter.hpp'), ('AlphaFilter::setParameters', 'AlphaFilter/AlphaFilter.hpp')],
     PROVED + 'Order and clamping in machine semantics; filter arithmetic in ideal reals (finiteness in machine intervals).')

prop('R01', 'Delayed sensor buffers are exact bounded FIFOs',
     'A buffer keeps the most recent samples up to its capacity in arrival order; adding to a full buffer drops exactly the oldest. Asking for data at a time delivers the newest stored sample not newer than it and less than 0.1 s older, removes that sample and everything older, keeps everything newer, and otherwise changes and writes nothing.',
     ['inputs', 'histories'], 'every well-formed buffer state (cursor positions, contents, time stamps) and every query time, for every capacity from 1 to 255',
     'Tests push a handful of samples in order; wrap-around positions, partially consumed buffers, equal or out-of-order time stamps are not covered.',
     ['EKF/RingBuffer.h'],
     [('RingBuffer::push', 'EKF/RingBuffer.h'), ('RingBuffer::pop_first_older_than', 'EKF/RingBuffer.h'), ('RingBuffer::allocate', 'EKF/RingBuffer.h')],
     'One-step contracts over an invariant, hence all histories. '+PROVED+'Capacity, cursors, every sample and every time stamp are symbolic; the search loop is cut by an invariant (no newer candidate among the slots visited). Small capacities (1,2,3; thorough 5,8,11) are also unrolled for whole-content checks. Query times are at least 0.1 s and below 2^62.')

prop('I01', 'IMU down-sampling loses no motion',
     'Combining IMU samples adds up their integration times, composes their rotations, carries their velocity increments into the current frame, and keeps every clipping flag. A combined sample is delivered exactly when the target interval, corrected by a bounded timing adjustment, is reached, and the next interval starts from zero.',
     ['inputs', 'histories'], 'every accumulated state and every next sample',
     'Tests feed constant rates at a few sample rates; arbitrary rotations, mixed sample times and flags are not covered.',
     ['EKF/imu_down_sampler.cpp', 'EKF/imu_down_sampler.hpp'],
     [('ImuDownSampler::update', 'EKF/imu_down_sampler.cpp'), ('ImuDownSampler::reset', 'EKF/imu_down_sampler.cpp')],
     PROVED + REAL + 'inductive one-step contract; quaternion algebra of the matrix library is a trusted dependency.')

prop('B01', 'Range finder readings are accepted only when valid',
     'A range reading is declared valid only if the stream is fresh and regular, the reading is new, its quality has been good for the hysteresis time, the beam is close enough to vertical, the distance is inside the sensor limits and the sensor is not stuck; a stale or irregular stream is never valid. The reported ground distance is the vertical component of the reading.',
     ['inputs', 'histories'], 'every internal state and every reading, time and attitude',
     'Tests exercise single conditions one at a time from a fresh object; combinations and history-dependent state (stuck detection, hysteresis) are not covered.',
     ['EKF/sensor_range_finder.cpp', 'EKF/sensor_range_finder.hpp'],
     [('SensorRangeFinder::runChecks', 'EKF/sensor_range_finder.cpp'), ('updateValidity', 'EKF/sensor_range_finder.cpp'), ('updateStuckCheck', 'EKF/sensor_range_finder.cpp')],
     PROVED + 'Decision logic in machine semantics; tilt and arrival-time filter values in ideal reals.')

prop('P01', 'Local map projection is the azimuthal equidistant one',
     'Once a reference is set, projecting a position gives its great-circle distance along its azimuth, and reprojecting solves the inverse problem with a latitude that is always a number between the poles. Without a reference every operation reports failure and writes nothing.',
     ['inputs'], 'all references, positions and local coordinates',
     'Tests project a few points around one reference; polar targets, the uninitialised case and rounding at domain edges are not covered.',
     ['geo/geo.cpp', 'geo/geo.h'],
     [('map_projection_project', 'geo/geo.cpp'), ('map_projection_reproject', 'geo/geo.cpp'), ('map_projection_init_timestamped', 'geo/geo.cpp')],
     PROVED + REAL + 'sin, cos, acos, asin, atan2 are uninterpreted in the formula proofs; the latitude range proof uses machine double intervals with libm range axioms.')

prop('P02', 'Global distances, bearings and waypoints are spherical geometry',
     'Distance between positions is the great-circle distance and is finite for every pair of positions, antipodal ones included; bearing is the initial great-circle course; a waypoint at a bearing and distance solves the direct problem on the sphere; adding a small displacement and computing the displacement back are inverse.',
     ['inputs'], 'all latitudes, longitudes, bearings and distances',
     'There are no tests of these functions in the repository beyond waypoint samples; antipodal and polar inputs returned NaN before the repair.',
     ['geo/geo.cpp'],
     [('get_distance_to_next_waypoint', 'geo/geo.cpp'), ('waypoint_from_heading_and_distance', 'geo/geo.cpp'), ('get_bearing_to_next_waypoint', 'geo/geo.cpp'), ('get_distance_to_point_global_wgs84', 'geo/geo.cpp')],
     PROVED + REAL + 'trigonometry uninterpreted; totality in machine double intervals with libm range axioms.')

prop('P03', 'Cross-track error to a line is consistent',
     'For a position and a line the result is an error at the line end, past-the-end when the end lies behind, and otherwise the signed perpendicular distance with a bearing perpendicular to the line towards it. No stale value is left in the result.',
     ['inputs'], 'all positions and lines',
     'No repository test calls the cross-track functions.',
     ['geo/geo.cpp'], [('get_distance_to_line', 'geo/geo.cpp')],
     PROVED + REAL + 'trigonometry uninterpreted.')

prop('E01', 'State prediction integrates the strapdown equations',
     'Each filter step rotates the orientation by the delta angle corrected for its bias and earth rotation, keeps the quaternion normalised, integrates specific force plus gravity into velocity and velocity into position by the trapezoid rule, and leaves biases, field and wind states only limited to their ranges. Nothing else, in particular no covariance entry, changes.',
     ['inputs', 'histories'], 'every filter state, covariance, parameter and IMU sample with non-negative time steps',
     'The baseline tests do not execute the estimator; scenario tests only observe one trajectory and would not notice small integration errors.',
     ['EKF/ekf.cpp', 'EKF/ekf_helper.cpp'],
     [('Ekf::predictState', 'EKF/ekf.cpp'), ('Ekf::constrainStates', 'EKF/ekf_helper.cpp')],
     PROVED + REAL + 'matrix library (stand-in header) and libm are trusted dependencies.', state=[('_state', 'filter state', 'EKF/ekf.h')], observe=['Ekf::getVelocity'])

prop('E02', 'Covariance prediction follows the process model',
     'Each covariance prediction equals F P F-transpose plus G U G-transpose plus the process noise, with F and G the Jacobians of the strapdown model, for every flight mode of field, wind and bias estimation; the result is symmetric. Frozen accelerometer bias axes keep their variance and are uncorrelated; biases are frozen exactly when unobservable, clipped, or in strong motion.',
     ['inputs', 'histories'], 'every symmetric covariance, state, IMU sample and noise parameter, for each combination of the mode flags',
     'The expressions are 300 auto-generated products each; a wrong sign or index in one of them is invisible to trajectory tests.',
     ['EKF/covariance.cpp'],
     [('Ekf::predictCovariance', 'EKF/covariance.cpp')],
     PROVED + REAL + 'the Jacobians are computed by forward-mode differentiation of the model in the specification, not copied. fixCovarianceErrors is replaced by its contract (see E03).', state=[('P', 'state covariance', 'EKF/ekf.h')], observe=['Ekf::covariances'])

prop('E03', 'Covariance stays symmetric, bounded and consistent when reset',
     'Limiting and resetting the covariance leaves it symmetric with every variance inside its configured limits; inhibited states carry no covariance; after numerical trouble a variance is restored to its floor or the offending states are reset; initialisation, quaternion, field and wind covariance resets set exactly the documented blocks and leave the rest unchanged; a bias covariance given up after 7 s of contradiction is announced.',
     ['inputs', 'histories'], 'every covariance and state, every combination of mode flags and parameters',
     'An asymmetric or negative covariance shows only after long specific histories; no test drives every reset path from every covariance.',
     ['EKF/covariance.cpp', 'EKF/ekf_helper.cpp', 'EKF/mag_control.cpp'],
     [('Ekf::fixCovarianceErrors', 'EKF/covariance.cpp'), ('Ekf::initialiseCovariance', 'EKF/covariance.cpp'), ('Ekf::checkAndFixCovarianceUpdate', 'EKF/covariance.cpp'), ('Ekf::resetWindCovariance', 'EKF/covariance.cpp'), ('Ekf::resetMagRelatedCovariances', 'EKF/covariance.cpp')],
     PROVED + REAL + 'symmetry on entry is the inductive invariant, established by initialisation and kept by E02 and E04.', state=[('P', 'state covariance', 'EKF/ekf.h')], observe=['Ekf::covariances', 'Ekf::covariances_diagonal'])
prop('E04', 'A measurement update is the Kalman update or leaves the filter alone',
     'A scalar measurement update applies x - K innovation and P - K H P, forced symmetric, and only when no variance would go negative; otherwise the state is left alone, only the offending states lose their covariance, and failure is reported. Velocity and position fusion picks the right state, variance and gate, rejects outside the gate, and reports rejection and faults per axis.',
     ['inputs', 'histories'], 'every state, covariance, gain, Jacobian sparsity used, innovation and gate',
     'The update is one matrix formula over 24 states; a wrong row or a missed health check only shows for particular covariances.',
     ['EKF/ekf_helper.cpp', 'EKF/vel_pos_fusion.cpp', 'EKF/ekf.h'],
     [('Ekf::measurementUpdate', 'EKF/ekf.h'), ('Ekf::fuse', 'EKF/ekf_helper.cpp'), ('Ekf::fuseVelPosHeight', 'EKF/vel_pos_fusion.cpp'), ('Ekf::fuseHorizontalVelocity', 'EKF/vel_pos_fusion.cpp')],
     PROVED + REAL + 'matrix inverse-free; covariance limiting is used by contract (E03).', state=[('P', 'state covariance', 'EKF/ekf.h'), ('_state', 'state estimate', 'EKF/ekf.h')], observe=['Ekf::covariances', 'Ekf::getStateAtFusionHorizonAsVector'])
prop('E05', 'Airspeed, sideslip and drag are fused with the right model and gate',
     'Airspeed, synthetic sideslip and body drag fusion compute the innovation of their model, its variance H P H-transpose plus R and the Kalman gain, with H the exact derivative of the model; only wind states are corrected outside wind dead reckoning; a badly conditioned variance resets the wind or the whole covariance; innovations outside the gate are rejected and reported.',
     ['inputs', 'histories'], 'every state, symmetric covariance, measurement and noise parameter above the documented minimum airspeed',
     'The gains are auto-generated expressions of up to a hundred products; a wrong sign appears only in certain attitudes and covariances.',
     ['EKF/airspeed_fusion.cpp', 'EKF/sideslip_fusion.cpp', 'EKF/drag_fusion.cpp'],
     [('Ekf::fuseAirspeed', 'EKF/airspeed_fusion.cpp'), ('Ekf::fuseSideslip', 'EKF/sideslip_fusion.cpp'), ('Ekf::fuseDrag', 'EKF/drag_fusion.cpp')],
     PROVED + REAL + 'measurementUpdate is used by contract (E04), which records gain, Jacobian and innovation. H comes from automatic differentiation of the model in the specification.', state=[('P', 'state covariance', 'EKF/ekf.h')], observe=['Ekf::getAirspeedInnov', 'Ekf::getBetaInnov', 'Ekf::getDragInnov'])

prop('E06', 'Magnetometer and declination fusion use the right model and gate',
     'Three-axis magnetometer fusion predicts earth field rotated to body plus bias, computes innovations, variances and Kalman gains with the exact derivative of that model, corrects only the field states while motion is to be kept, rejects the sample as a whole when one axis fails its gate and reports it in that axis, and resets covariances when badly conditioned. Declination fusion does the same for the field angle, within half a turn; the synthetic vertical field and the declination limiter keep their formulas.',
     ['inputs', 'histories'], 'every state, symmetric covariance and measurement',
     'Gains are auto-generated; an error shows up only for certain attitudes. A gate failure on one axis is never injected by the tests, which also never look at the rejection bits (two were wrong).',
     ['EKF/mag_fusion.cpp'],
     [('Ekf::fuseMag', 'EKF/mag_fusion.cpp'), ('Ekf::fuseDeclination', 'EKF/mag_fusion.cpp'), ('Ekf::limitDeclination', 'EKF/mag_fusion.cpp'), ('Ekf::calculate_synthetic_mag_z_measurement', 'EKF/mag_fusion.cpp')],
     PROVED + REAL + 'measurementUpdate is used by contract (E04). Later axes are stated over the covariance and state left by the earlier update.', state=[('P', 'state covariance', 'EKF/ekf.h')], observe=['Ekf::getMagInnov', 'Ekf::innov_check_fail_status'])

prop('E07', 'Yaw fusion uses the right angle, derivative and gate',
     'Heading fusion takes the measured yaw from magnetometer, vision or nothing in the documented order, chooses the Euler sequence away from its singularity, and corrects the attitude with innovation wrapped to half a turn, variance H P H-transpose plus R and the Kalman gain for the exact yaw derivative; the correction is limited at the gate, covariance is never made negative, and bad conditioning is reported. GPS antenna yaw fusion and reset do the same for the antenna baseline.',
     ['inputs', 'histories'], 'every attitude, covariance and measurement',
     'Two Euler sequences, each with two derivative forms around a singularity, give four generated formulas; tests see a few attitudes.',
     ['EKF/mag_fusion.cpp', 'EKF/gps_yaw_fusion.cpp'],
     [('Ekf::fuseYaw321', 'EKF/mag_fusion.cpp'), ('Ekf::fuseYaw312', 'EKF/mag_fusion.cpp'), ('Ekf::updateQuaternion', 'EKF/mag_fusion.cpp'), ('Ekf::fuseGpsYaw', 'EKF/gps_yaw_fusion.cpp')],
     PROVED + REAL + 'fuse() is used by contract (E04); helper functions of fuseHeading are used by contract in its proof and proved here or in E17.', state=[('P', 'state covariance', 'EKF/ekf.h')], observe=['Ekf::getHeadingInnov', 'Ekf::innov_check_fail_status'])

prop('E08', 'Optical flow fusion uses the right model, noise and gate',
     'Optical flow fusion predicts line-of-sight rates from the sensor velocity (with lever arm) over the distance to the ground, computes innovation, variance H P H-transpose plus R and Kalman gain with the exact derivative, fuses both axes only if both pass the gate and otherwise reports the failing axis. Measurement noise interpolates between its limits by quality, and body rates are averaged or taken from the sensor with the bias tracked as documented.',
     ['inputs', 'histories'], 'every state, symmetric covariance, flow sample and range',
     'Generated gains; a single rejected axis is never tested, and the rejection was reported one bit too low.',
     ['EKF/optflow_fusion.cpp'],
     [('Ekf::fuseOptFlow', 'EKF/optflow_fusion.cpp'), ('Ekf::calcOptFlowMeasVar', 'EKF/optflow_fusion.cpp'), ('Ekf::calcOptFlowBodyRateComp', 'EKF/optflow_fusion.cpp')],
     PROVED + REAL + 'measurementUpdate is used by contract (E04); gains of both axes are stated on the prior covariance.', state=[('P', 'state covariance', 'EKF/ekf.h')], observe=['Ekf::getFlowInnov', 'Ekf::innov_check_fail_status'])

prop('E09', 'Terrain height is a Kalman estimate that stays below the vehicle',
     'Each accepted range or flow sample makes the Kalman update of the terrain height and its variance for the stated model, anything outside the gate leaves them alone (or after ten seconds of range rejection resets them to the measurement); variance never becomes negative and grows with terrain gradient and speed; the vehicle always stays at least the ground clearance above the estimate; validity and contributing sensors are reported from fusions of the last five seconds.',
     ['inputs', 'histories'], 'every terrain state, vehicle state and sample',
     'Tests only look at the final height in a few flights; variance, rejection timing, validity and the reported sources are unobserved.',
     ['EKF/terrain_estimator.cpp'],
     [('Ekf::runTerrainEstimator', 'EKF/terrain_estimator.cpp'), ('Ekf::fuseHagl', 'EKF/terrain_estimator.cpp'), ('Ekf::fuseFlowForTerrain', 'EKF/terrain_estimator.cpp'), ('Ekf::initHagl', 'EKF/terrain_estimator.cpp')],
     PROVED + REAL + 'range noise and ground clearance parameters positive.', state=[('_terrain_vpos', 'terrain height', 'EKF/ekf.h')], observe=['Ekf::getTerrainVertPos', 'Ekf::isTerrainEstimateValid'])

prop('E10', 'Reported state is the filter state predicted to the current time',
     'Every IMU sample advances the reported orientation, velocity and position by integrating the bias corrected increments plus gravity. Once per filter step the history of predictions is compared with the filter at its delayed time, and the whole history, not only its newest entry, is pulled towards it by the stated gains, so that reported values track the filter and never touch it. Reported values refer to the body origin and to the time of the sample.',
     ['inputs', 'histories'], 'every predictor state, filter state, history content and IMU sample',
     'Tests compare end positions of a few flights against wide tolerances; gains, history correction, lever arm and the vertical alternative are unobserved.',
     ['EKF/ekf.cpp', 'EKF/ekf.h', 'EKF/ekf_helper.cpp', 'EKF/estimator_interface.h'],
     [('Ekf::calculateOutputStates', 'EKF/ekf.cpp'), ('Ekf::applyCorrectionToOutputBuffer', 'EKF/ekf.cpp'), ('Ekf::applyCorrectionToVerticalOutputBuffer', 'EKF/ekf.cpp'), ('Ekf::alignOutputFilter', 'EKF/ekf_helper.cpp'), ('Ekf::calculate_quaternion', 'EKF/ekf.cpp')],
     PROVED + REAL + 'The loops over the history are cut by invariants over an arbitrary entry, for every length from 2 to 255 and every cursor position; histories of three entries are also unrolled and compared entry by entry. What is tracked at the delayed horizon is proved with a history of three.', state=[('_output_new', 'predicted output', 'EKF/ekf.h')], observe=['Ekf::getQuaternion', 'Ekf::getVelocity', 'Ekf::getPosition', 'Ekf::getVerticalPositionDerivative'])

prop('E11', 'State resets are consistent and announced',
     'Resetting velocity, position, height or yaw sets the filter state to the new value, gives it the variance of its source, uncorrelates it from all other states, shifts the whole output history by the same amount so that no jump is hidden in it, counts the reset and records its size. Each reset takes its value from the first applicable source, and leaves every other state alone.',
     ['inputs', 'histories'], 'every estimator state, output history and aiding configuration',
     'Tests check a few resets by the resulting output only; reset counters, recorded changes, covariance and history shifts are mostly unobserved.',
     ['EKF/ekf_helper.cpp', 'EKF/ekf.h'],
     [('Ekf::resetVelocity', 'EKF/ekf_helper.cpp'), ('Ekf::resetHorizontalPosition', 'EKF/ekf_helper.cpp'), ('Ekf::resetHeight', 'EKF/ekf_helper.cpp'), ('Ekf::resetQuatStateYaw', 'EKF/ekf_helper.cpp'), ('Ekf::resetVerticalVelocityTo', 'EKF/ekf_helper.cpp')],
     PROVED + REAL + 'The loops over the output history are cut by invariants over an arbitrary entry, for every length from 2 to 255; histories of three entries are also unrolled and compared entry by entry.', state=[('_state_reset_status', 'reset counters and deltas', 'EKF/ekf.h')], observe=['Ekf::get_velNE_reset', 'Ekf::get_posD_reset', 'Ekf::get_quat_reset'])

prop('E12', 'Heading alignment uses the right source and keeps tilt',
     'The initial tilt aligns gravity with the measured acceleration and is taken only at rest. Heading comes from vision, from the field rotated to magnetic north plus declination, from GPS course, or from the independent yaw estimator, each only under its stated conditions, with the variance of its source; setting a heading keeps tilt and reproduces exactly that heading, in whichever Euler sequence is further from its singularity. Declaring the heading bad, and giving up the magnetometer, are announced.',
     ['inputs'], 'every attitude away from the singularity, every field, velocity and configuration',
     'Tests align a stationary, level or mildly tilted vehicle; 312 sequence, wind-corrected course, variances and fault declaration are not pinned down.',
     ['EKF/ekf_helper.cpp', 'EKF/utils.cpp', 'EKF/ekf.cpp'],
     [('Ekf::resetMagHeading', 'EKF/ekf_helper.cpp'), ('Ekf::realignYawGPS', 'EKF/ekf_helper.cpp'), ('Ekf::initialiseTilt', 'EKF/ekf.cpp'), ('updateYawInRotMat', 'EKF/utils.cpp'), ('Ekf::resetYawToEKFGSF', 'EKF/ekf_helper.cpp'), ('Ekf::getMagDeclination', 'EKF/ekf_helper.cpp')],
     PROVED + REAL + 'yaw replacement is proved away from the gimbal lock excluded by the code itself.', observe=['Ekf::resetMagHeading'])

prop('E13', 'GPS is used only after its quality has been good long enough',
     'Every fix is checked against each enabled limit: fix type, satellites, dilution, accuracies, drift and speed at rest, vertical speed difference. GPS counts as good only after a full period without any failure. The geographic origin is set once, by the first good fix of an initialised filter, such that the vehicle keeps its position on earth; its altitude, time and accuracy, magnetic field and earth rotation follow from it, and it is announced. Setting the origin by hand likewise keeps the position on earth.',
     ['inputs', 'histories'], 'every fix, filter state, check mask, previous fix and pass/fail time',
     'Tests feed a healthy GPS with one or two failures; drift filters, limits, timing and origin corrections are unobserved.',
     ['EKF/gps_checks.cpp', 'EKF/ekf_helper.cpp'],
     [('Ekf::gps_is_good', 'EKF/gps_checks.cpp'), ('Ekf::collect_gps', 'EKF/gps_checks.cpp'), ('Ekf::setEkfGlobalOrigin', 'EKF/ekf_helper.cpp'), ('Ekf::calcEarthRateNED', 'EKF/ekf_helper.cpp')],
     PROVED + REAL + 'the map projection (proved in P01) is replaced by its contract.', state=[('_gps_check_fail_status', 'failed checks', 'EKF/ekf.h')], observe=['Ekf::collect_gps', 'Ekf::getEkfGlobalOrigin', 'Ekf::get_gps_drift_metrics'])

prop('E14', 'Reported status, validity and accuracy tell the truth',
     'Dead reckoning, local and global position validity, solution status bits, aiding counts, accuracies, control limits, innovation test results (each the root of the largest squared ratio of its group, no height ratio without a height source), biases and variances report what the filter knows: each flag is set exactly under its stated condition, each accuracy is the matching standard deviation widened by rejected innovations when dead reckoning, faults and states are cleared by a reset, and a bias reset clears that bias, its variance and correlations and nothing else.',
     ['inputs', 'histories'], 'every estimator state, aiding configuration and history of aiding times',
     'Tests read a handful of these values in a few healthy flights; combinations of flags, unused bits, fault words and degraded accuracies are not sampled.',
     ['EKF/ekf_helper.cpp', 'EKF/ekf.h', 'EKF/ekf.cpp', 'EKF/estimator_interface.h', 'EKF/common.h'],
     [('Ekf::update_deadreckoning_status', 'EKF/ekf_helper.cpp'), ('Ekf::get_ekf_soln_status', 'EKF/ekf_helper.cpp'), ('Ekf::get_ekf_gpos_accuracy', 'EKF/ekf_helper.cpp'), ('Ekf::get_ekf_vel_accuracy', 'EKF/ekf_helper.cpp'), ('Ekf::get_ekf_ctrl_limits', 'EKF/ekf_helper.cpp'), ('Ekf::reset', 'EKF/ekf.cpp'), ('Ekf::resetImuBias', 'EKF/ekf_helper.cpp'), ('Ekf::get_innovation_test_status', 'EKF/ekf_helper.cpp')],
     PROVED + REAL, observe=['Ekf::local_position_is_valid', 'Ekf::global_position_is_valid', 'Ekf::get_ekf_soln_status'])

prop('E15', 'The emergency yaw estimator is a correct bank of filters',
     'Five attitude references and five three-state filters with evenly spread yaw hypotheses run on IMU data and GPS velocity with its accuracy: tilt is aligned once near 1 g, references turn with the gyros less bias and are levelled by gravity, filters predict F P F\' + Q and update by the Kalman equations with the innovation limited to five sigma, weights follow the likelihoods with a floor and sum to one, and yaw and variance are those of the weighted mixture. A singular covariance never updates, and collapse restarts the bank.',
     ['inputs', 'histories'], 'every bank state, IMU sample, velocity and accuracy, for each of the five models',
     'Tests check only that yaw recovers in one or two simulated flights; covariances, weights, floors and model indices are unobserved.',
     ['EKF/EKFGSF_yaw.cpp', 'EKF/EKFGSF_yaw.h', 'EKF/ekf_helper.cpp'],
     [('EKFGSF_yaw::update', 'EKF/EKFGSF_yaw.cpp'), ('EKFGSF_yaw::ahrsPredict', 'EKF/EKFGSF_yaw.cpp'), ('EKFGSF_yaw::predictEKF', 'EKF/EKFGSF_yaw.cpp'), ('EKFGSF_yaw::updateEKF', 'EKF/EKFGSF_yaw.cpp'), ('EKFGSF_yaw::gaussianDensity', 'EKF/EKFGSF_yaw.cpp'), ('Ekf::runYawEKFGSF', 'EKF/ekf_helper.cpp')],
     PROVED + REAL, state=[('_ekf_gsf', 'filter bank', 'EKF/EKFGSF_yaw.h'), ('_model_weights', 'model weights', 'EKF/EKFGSF_yaw.h')], observe=['EKFGSF_yaw::getYawData', 'EKFGSF_yaw::getLogData'])

prop('E16', 'Wind and airspeed scale estimates are optimal',
     'The wind estimator starts when moving, with the wind that explains ground velocity and airspeed along the course and the covariance that follows from the velocity variance. It adds independent process noise once a second, fuses airspeed and zero sideslip at most ten times a second by the Kalman equations with the true Jacobians, rejects outliers, restarts after five seconds of rejections, keeps its covariance symmetric and bounded, and stops on a negative variance or a non-finite state.',
     ['inputs', 'histories'], 'every wind state, covariance, velocity, attitude, airspeed and time',
     'No test runs the wind estimator at all.',
     ['airdata/WindEstimator.cpp', 'airdata/WindEstimator.hpp'],
     [('WindEstimator::initialise', 'airdata/WindEstimator.cpp'), ('WindEstimator::update', 'airdata/WindEstimator.cpp'), ('WindEstimator::fuse_airspeed', 'airdata/WindEstimator.cpp'), ('WindEstimator::fuse_beta', 'airdata/WindEstimator.cpp'), ('WindEstimator::run_sanity_checks', 'airdata/WindEstimator.cpp'), ('WindEstimator::check_if_meas_is_rejected', 'airdata/WindEstimator.cpp')],
     PROVED + REAL, state=[('_state', 'wind north, east and airspeed scale', 'airdata/WindEstimator.hpp')], observe=['WindEstimator::get_wind', 'WindEstimator::get_wind_var', 'WindEstimator::is_estimate_valid'])

prop('E17', 'Exactly one height source is used and it falls back sensibly',
     'At most one of barometer, GPS, range finder and vision is the height source. Each configured mode selects its source from data availability, faults, GPS quality and range aid suitability (with hysteresis); switching keeps the height estimate continuous through the sensor offset. The fused innovation, variance and gate are those of the source, with ground effect deadzone and on-ground range synthesis. A five second loss or persistent bad vertical acceleration resets height to the best remaining source, reports it and restarts the timer; bad acceleration is declared on consistent falling innovations and persists ten seconds.',
     ['inputs', 'histories'], 'every flag combination, mode, sample, buffer content, state and time',
     'The choice depends on dozens of flags and timers; tests exercise a few switches between sources and none of the accelerometer health logic.',
     ['EKF/control.cpp', 'EKF/ekf_helper.cpp'],
     [('Ekf::controlHeightFusion', 'EKF/control.cpp'), ('Ekf::controlHeightSensorTimeouts', 'EKF/control.cpp'), ('Ekf::checkVerticalAccelerationHealth', 'EKF/control.cpp'), ('Ekf::checkRangeAidSuitability', 'EKF/control.cpp'), ('Ekf::startBaroHgtFusion', 'EKF/ekf_helper.cpp'), ('Ekf::startGpsHgtFusion', 'EKF/ekf_helper.cpp'), ('Ekf::updateBaroHgtOffset', 'EKF/ekf_helper.cpp'), ('Ekf::getGpsHeightVariance', 'EKF/ekf_helper.cpp')],
     PROVED + REAL + 'fuseVerticalPosition (E04) and resetHeight (E11) are used by contract.', state=[('_control_status', 'active fusion modes', 'EKF/estimator_interface.h')], observe=['EstimatorInterface::control_status_flags'])

prop('E18', 'Sensor data enters the estimator complete, in time and without loss',
     'Each sensor sample spaced by the minimum interval is stored unchanged (magnetometer and barometer as the mean of the samples since the last, drag force as a mean over the collected time), stamped with its own time less the configured delay and half a filter period, exact to the microsecond at any uptime; others are held back. Buffers of the required length are allocated once, failure is remembered and nothing is stored. IMU samples update interval, vibration metrics and the at-rest decision; the horizon covers the delay of every sensor in use; the minimum interval never divides by zero; pressure height is corrected by the configured coefficient of the flow along each body axis and direction, each limited.',
     ['inputs', 'histories'], 'every sample, time stamp, delay, buffer content and interface state',
     'Tests run minutes of simulated time with default delays; precision loss of time stamps after hours and buffer sizes for unusual delays never show.',
     ['EKF/estimator_interface.cpp', 'EKF/estimator_interface.h'],
     [('EstimatorInterface::setIMUData', 'EKF/estimator_interface.cpp'), ('EstimatorInterface::setMagData', 'EKF/estimator_interface.cpp'), ('EstimatorInterface::setGpsData', 'EKF/estimator_interface.cpp'), ('EstimatorInterface::setBaroData', 'EKF/estimator_interface.cpp'), ('EstimatorInterface::setExtVisionData', 'EKF/estimator_interface.cpp'), ('EstimatorInterface::setOpticalFlowData', 'EKF/estimator_interface.cpp'), ('EstimatorInterface::setDragData', 'EKF/estimator_interface.cpp'), ('EstimatorInterface::initialise_interface', 'EKF/estimator_interface.cpp'), ('Ekf::compensateBaroForDynamicPressure', 'EKF/ekf_helper.cpp')],
     PROVED + 'Time stamps and flags in machine arithmetic; averages and metrics as ideal reals. Buffers have any capacity, cursors and content; when sizing the minimum interval the IMU buffer has three slots. The down sampler is used by contract (I01). Assumed: delays within 0-300 ms when sizing buffers (0-2 s otherwise), sensor interval 10-50 ms, samples later than 3 s after the time origin, fewer than 255 samples averaged.', state=[('_mag_buffer', 'delayed sensor samples', 'EKF/estimator_interface.h'), ('_imu_sample_delayed', 'sample at the fusion horizon', 'EKF/estimator_interface.h')], observe=['EstimatorInterface::getVibrationMetrics', 'EstimatorInterface::get_imu_sample_delayed'])

prop('E19', 'Magnetometer use: when and how the field corrects heading',
     'For each configured type the estimator picks three-axis, heading or no magnetometer fusion from in-flight alignment, observability of yaw and field biases (with hysteresis, held two seconds), faults and other yaw sources. Field strength outside the expected band marks it disturbed. Requested heading resets stay requested until done, happen only while yaw correction is not inhibited, use the GPS course for fixed wings in flight and otherwise an undisturbed field, and drag a velocity and position reset with them when needed. Declination is fused tightly first after a field reset, then loosely when required. After five seconds of inhibition a heading reset is demanded.',
     ['inputs', 'histories'], 'every flag combination, type, field sample, motion, time and outcome of a reset',
     'Dozens of flags and timers decide; tests sample a handful of combinations.',
     ['EKF/mag_control.cpp', 'EKF/ekf_helper.cpp'],
     [('Ekf::controlMagFusion', 'EKF/mag_control.cpp'), ('Ekf::checkMagFieldStrength', 'EKF/mag_control.cpp'), ('Ekf::runInAirYawReset', 'EKF/mag_control.cpp'), ('Ekf::check3DMagFusionSuitability', 'EKF/mag_control.cpp'), ('Ekf::checkMagInhibition', 'EKF/mag_control.cpp'), ('Ekf::run3DMagAndDeclFusions', 'EKF/mag_control.cpp'), ('Ekf::startMag3DFusion', 'EKF/ekf_helper.cpp'), ('Ekf::stopMagFusion', 'EKF/ekf_helper.cpp')],
     PROVED + REAL + 'fuseHeading, fuseMag, fuseDeclination (E06, E07), resetMagHeading, realignYawGPS (E12) and the velocity and position resets (E11) are used by contract.', state=[('_control_status', 'active fusion modes', 'EKF/estimator_interface.h'), ('_mag_yaw_reset_req', 'pending heading reset', 'EKF/ekf.h')], observe=['EstimatorInterface::control_status_flags'])

prop('E20', 'GPS is started, used, distrusted and recovered from as designed',
     'GPS velocity and position are used only when configured, with tilt and heading aligned, an origin and five seconds of passed checks; heading is first aligned to an undisturbed field when needed, states start from GPS. Samples are moved from the antenna to the IMU; innovation, noise (reported, bounded, capped when nothing else constrains attitude) and gates are those of GPS, as absolute position. Poor quality with other aiding, or lost data, stops it and clears its innovations. Emergency heading resets happen on request or when velocities disagree in direction after failed fusion, spaced, counted and not after an outage; other timeouts reset velocity and position. GPS heading aligns, fuses and is dropped after five seconds of rejection.',
     ['inputs', 'histories'], 'every flag combination, sample, quality, timer, attitude, antenna position and reset outcome',
     'The logic chains four decisions over dozens of flags and timers; tests exercise a start, a stop and one recovery.',
     ['EKF/control.cpp', 'EKF/ekf_helper.cpp'],
     [('Ekf::controlGpsFusion', 'EKF/control.cpp'), ('Ekf::controlGpsYawFusion', 'EKF/control.cpp'), ('Ekf::startGpsFusion', 'EKF/ekf_helper.cpp'), ('Ekf::stopGpsFusion', 'EKF/ekf_helper.cpp'), ('Ekf::startGpsYawFusion', 'EKF/ekf_helper.cpp'), ('EstimatorInterface::isOtherSourceOfHorizontalAidingThan', 'EKF/estimator_interface.cpp')],
     PROVED + REAL + 'The fusion functions (E04, E07) and the resets (E11, E12) are used by contract.', state=[('_control_status', 'active fusion modes', 'EKF/estimator_interface.h')], observe=['EstimatorInterface::control_status_flags'])

prop('E21', 'External vision: started, fused and given up as designed',
     'Vision position, velocity and heading start only when configured, aligned and arriving frequently, with a reset to the measurement; they are given up, cleared and announced when data stop. Position is fused absolutely, or as change since the previous sample when GPS gives the absolute position, never before a previous sample exists and never across a position reset. Positions and velocities are moved from the camera to the IMU and rotated between frames; innovations are those of the current state, variances rotated and floored, gates configured. A timeout resets position, and velocity only if nothing else constrains it.',
     ['inputs', 'histories'], 'every flag combination, sample, frame, rotation, timer and configuration',
     'Frames, odometry mode and timeouts multiply; tests cover a few fixed samples.',
     ['EKF/control.cpp', 'EKF/ekf_helper.cpp'],
     [('Ekf::controlExternalVisionFusion', 'EKF/control.cpp'), ('Ekf::getVisionVelocityInEkfFrame', 'EKF/ekf_helper.cpp'), ('Ekf::getVisionVelocityVarianceInEkfFrame', 'EKF/ekf_helper.cpp'), ('Ekf::startEvPosFusion', 'EKF/ekf_helper.cpp'), ('Ekf::startEvVelFusion', 'EKF/ekf_helper.cpp'), ('Ekf::startEvYawFusion', 'EKF/ekf_helper.cpp'), ('Ekf::stopEvFusion', 'EKF/ekf_helper.cpp')],
     PROVED + REAL + 'The fusion functions (E04, E07), the resets (E11, E12) and the frame rotation (E11) are used by contract.', state=[('_control_status', 'active fusion modes', 'EKF/estimator_interface.h')], observe=['EstimatorInterface::control_status_flags'])

prop('E22', 'Optical flow: which samples are used, when flow aids and when it is dropped',
     'Body rotation is accumulated without bias over each flow interval. A sample of good quality, magnitude, tilt and interval is compensated for body rotation; on ground a bad one counts as no motion, in the air it is discarded. Flow aids only while selected, level, aligned in heading and either fit (still on ground, known height in the air) or needed because nothing else constrains velocity or GPS is bad, with hysteresis. Starting or timing out with no other aid resets velocity and position once; each sample is fused at most once, after its midpoint and with recent height above ground; stopping clears its innovations.',
     ['inputs', 'histories'], 'every flag combination, sample, motion, timer and configuration',
     'Fitness, need and sample validity combine with timers; tests fly one or two scenarios.',
     ['EKF/control.cpp', 'EKF/ekf_helper.cpp'],
     [('Ekf::controlOpticalFlowFusion', 'EKF/control.cpp'), ('Ekf::updateOnGroundMotionForOpticalFlowChecks', 'EKF/control.cpp'), ('Ekf::resetOnGroundMotionForOpticalFlowChecks', 'EKF/control.cpp'), ('Ekf::stopFlowFusion', 'EKF/ekf_helper.cpp'), ('EstimatorInterface::isOnlyActiveSourceOfHorizontalAiding', 'EKF/estimator_interface.cpp')],
     PROVED + REAL + 'The flow fusion and body rate compensation (E08) and the resets (E11, E12) are used by contract.', state=[('_inhibit_flow_use', 'flow unfit', 'EKF/ekf.h')], observe=['EstimatorInterface::control_status_flags'])

prop('E23', 'Wind aiding, position hold and auxiliary velocity run when they should',
     'Airspeed and sideslip are fused in flight at their intervals, drag only when selected; wind estimation starts over once, from ground velocity less recent airspeed along the heading (else calm) with fresh covariance, at the first such fusion and ends when neither has been fused for 10 s (or position is synthetic). While nothing constrains horizontal motion the last known position is held: fused at most every 200 ms with the noise of the phase (tight at rest, loose in flight), after one velocity and position reset and one announcement. Auxiliary velocity is fused once per sample, only while another source aids, with the variance it came with; stopping it clears them.',
     ['inputs', 'histories'], 'every flag combination, sample, state, timer and configuration',
     'Start, interval and timeout conditions depend on four timers and six flags; tests fly one nominal scenario.',
     ['EKF/control.cpp', 'EKF/ekf_helper.cpp'],
     [('Ekf::controlAirDataFusion', 'EKF/control.cpp'), ('Ekf::controlBetaFusion', 'EKF/control.cpp'), ('Ekf::controlDragFusion', 'EKF/control.cpp'), ('Ekf::controlFakePosFusion', 'EKF/control.cpp'), ('Ekf::controlAuxVelFusion', 'EKF/control.cpp'), ('Ekf::stopAuxVelFusion', 'EKF/ekf_helper.cpp'), ('Ekf::resetWindStates', 'EKF/airspeed_fusion.cpp'), ('EstimatorInterface::isHorizontalAidingActive', 'EKF/estimator_interface.cpp')],
     PROVED + REAL + 'The fusion functions (E04, E05) and the resets (E11, E12) are used by contract.', state=[('_using_synthetic_position', 'position held', 'EKF/ekf.h')], observe=['EstimatorInterface::control_status_flags'])

prop('E24', 'The filter cycle: start, sample selection, order of prediction and aiding',
     'The filter starts once, only with enough field and pressure samples and at rest; until then nothing is estimated. Each down sampled IMU sample advances it exactly once: state and covariance are predicted, then every aiding function runs exactly once, on the samples of this cycle (each sensor read once, at the delayed time), position hold and dead reckoning last; output follows. Tilt counts as aligned once its uncertainty falls below three degrees, and heading is then aligned from the filtered field. Height data two intervals old is intermittent. The range finder is checked once, with configured mounting, tilt and quality limits, and corrected for its position once; the synthetic vertical field needs a known earth field.',
     ['inputs', 'histories'], 'every state, sample, flag combination and configuration',
     'Starting, selection and ordering depend on the history of seven sensors; tests start the filter a few nominal ways.',
     ['EKF/control.cpp', 'EKF/ekf.cpp'],
     [('Ekf::controlFusionModes', 'EKF/control.cpp'), ('Ekf::initialiseFilter', 'EKF/ekf.cpp'), ('Ekf::update', 'EKF/ekf.cpp'), ('SensorRangeFinder::setPitchOffset', 'EKF/sensor_range_finder.hpp'), ('SensorRangeFinder::setRange', 'EKF/sensor_range_finder.hpp'), ('SensorRangeFinder::setQualityHysteresis', 'EKF/sensor_range_finder.hpp')],
     PROVED + REAL + 'The ring buffer (R01), the range finder checks (B01), the aiding functions (E04 to E23), tilt and heading alignment (E12) and covariance initialisation (E03) are used by contract.', state=[('_filter_initialised', 'filter started', 'EKF/ekf.h')], observe=['Ekf::update'])

prop('E25', 'A new filter starts from one defined state, whatever memory it is built on',
     'Constructing the estimator gives every member it contains, down to unused bits of its status words, a value independent of what its memory held before, so behaviour is reproducible: nothing initialised, no status, fault, event or reset reported, nothing reported valid, the vision frame equal to the filter frame, and every sensor buffer readable and holding no sample. Initialising it again, from any state it was in, sets up its buffers for the given time, reports failure to do so, returns states, outputs, status, faults and derived filters to their start values, takes over the range finder configuration and keeps the settings.',
     ['inputs', 'histories'], 'every content of the memory the object is built on, every member; every state it is initialised from',
     'Tests run on memory that happens to be zero.',
     ['EKF/ekf.h', 'EKF/ekf.cpp', 'EKF/estimator_interface.h', 'EKF/common.h'],
     [('Ekf::Ekf', 'EKF/ekf.h'), ('Ekf::init', 'EKF/ekf.cpp'), ('Ekf::reset', 'EKF/ekf.cpp'), ('EstimatorInterface::EstimatorInterface', 'EKF/estimator_interface.h'), ('EKFGSF_yaw::EKFGSF_yaw', 'EKF/EKFGSF_yaw.cpp'), ('RingBuffer::RingBuffer', 'EKF/RingBuffer.h')],
     PROVED + 'The members are enumerated on each run from the record layout clang reports for the current source; pointers and enumerations are left out.', state=[('_vert_pos_innov_ratio', 'one of the members', 'EKF/ekf.h')], observe=['EstimatorInterface::warning_event_status'])

prop('E26', 'The interface sets and reports exactly the quantity it names',
     'Each setter of the estimator interface changes the setting it names to the value it was given and leaves every other member of the estimator untouched, and each getter of innovations, innovation variances, test ratios, status and yaw-estimator data returns, for every sensor and axis, the value belonging to that sensor and axis, so a user never reads one quantity under the name of another.',
     ['inputs', 'configurations'], 'every state of the estimator and every setting',
     'Tests read a handful of getters in a few flights; a swapped axis or a side effect of a setter shows nowhere else.',
     ['EKF/ekf.h', 'EKF/estimator_interface.h', 'EKF/ekf_helper.cpp'],
     [('EstimatorInterface::set_in_air_status', 'EKF/estimator_interface.h'), ('EstimatorInterface::set_is_fixed_wing', 'EKF/estimator_interface.h'), ('EstimatorInterface::set_fuse_beta_flag', 'EKF/estimator_interface.h'), ('EstimatorInterface::set_gnd_effect_flag', 'EKF/estimator_interface.h'), ('EstimatorInterface::set_air_density', 'EKF/estimator_interface.h'), ('EstimatorInterface::set_rangefinder_limits', 'EKF/estimator_interface.h'), ('EstimatorInterface::set_optical_flow_limits', 'EKF/estimator_interface.h'), ('EstimatorInterface::clear_warning_events', 'EKF/estimator_interface.h'), ('EstimatorInterface::clear_information_events', 'EKF/estimator_interface.h')] + [('Ekf::getDataEKFGSF', 'EKF/ekf_helper.cpp'), ('EKFGSF_yaw::getLogData', 'EKF/EKFGSF_yaw.cpp')],
     PROVED + 'The members are enumerated on each run from the record layout clang reports for the current source; pointers and enumerations are left out of the frame.', observe=['EstimatorInterface::set_in_air_status', 'Ekf::getDataEKFGSF'])

prop('P04', 'Cross-track error to an arc is consistent',
     'For a position beside an arc, seen from its centre between start and start plus sweep in the direction flown, the reported distance is the radial one, positive to the right of the direction of flight, and the bearing leads to the arc along the radius. Elsewhere the nearer end, which lies at the radius around the centre, gives distance and bearing, and past-end is reported exactly when that is the far end. Without an arc an error and no stale result is returned.',
     ['inputs'], 'all positions relative to the centre, radii, start bearings and sweeps in both directions within a turn',
     'No test calls this function; before the repair its sector test, its end points and its sign were all wrong for ordinary arcs.',
     ['geo/geo.cpp'],
     [('get_distance_to_arc', 'geo/geo.cpp')],
     PROVED + REAL + 'Bearing, distance and waypoint functions are used by contract (P02), with any result they may return. Start bearings and sweeps within 6.2 rad.')

NA = []
