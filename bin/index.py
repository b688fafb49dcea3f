"""The properties, and for each the harness that decides it.  gen.py turns this into properties.jsonl and MANIFEST.json."""
PROPS = {}
NOT_APPLICABLE = {}

def prop(pid, title, statement, over, qtext, why, files, mech, harness, explain, bounds, observe=(), state=(), **kw):
    PROPS[pid] = dict(title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      harness=harness, explain=explain, bounds=bounds, observe=list(observe), state=list(state), **kw)

prop('P01', 'Prediction moves the body state along the kinematic model',
     'Predicting to a time at or after the filter time advances the velocity by the gravity-compensated acceleration times the interval (or leaves it, while zero acceleration is declared), the position by the advanced velocity times the interval, and the attitude by the rotation of the angular rate over the interval; acceleration, angular rate, angular acceleration, calibrations and clones stay as they were. '
     'Predicting into the past changes nothing, and before gravity is initialised a prediction only moves the filter time. '
     'The filter time afterwards is the requested time.',
     ['inputs'], 'every body state, every attitude, every interval, both gravity-initialisation states, both zero-acceleration states',
     'The tests predict a couple of fixed states over fixed intervals; an error that needs a rotating body, a particular attitude or a zero/negative interval is not reached.',
     ['src/ekf/ekf.cpp', 'src/utility/math_helper.cpp', 'src/utility/type_helper.cpp'],
     [('constant-rate integration of the body state', 'src/ekf/ekf.cpp PredictModel'), ('rotation vector to quaternion', 'src/utility/type_helper.cpp RotVecToQuat')],
     ['h_predict_state.cpp'],
     'PredictModel is executed symbolically from the LLVM IR of the current sources with every body-state component, the start time and the interval symbolic; each component of the resulting state is asserted equal to the kinematic model for all values.',
     'one prediction step; components in [-2,2] (accelerations [-12,12]), attitude any unit quaternion, interval in [-1,2] s',
     observe=['filter state after prediction', 'filter time'])

prop('P02', 'Prediction propagates the covariance by the motion model',
     'After predicting over an interval, the covariance equals the previous one propagated through the constant-velocity transition of the body state with process noise proportional to the interval added, including all cross terms to calibrations and clones. '
     'Calibration states receive exactly the noise given by their own stability settings, and clones receive none. '
     'This holds for the full and for the square-root form of the covariance.',
     ['inputs', 'configurations'], 'every covariance, interval and noise setting, for each kind of calibrated sensor and a clone, both covariance forms',
     'The tests look at the covariance after prediction for at most one configuration, never the cross terms, never all stability settings, and never the square-root form against the full one.',
     ['src/ekf/ekf.cpp', 'src/utility/math_helper.cpp'],
     [('transition of the body block and cross blocks', 'src/ekf/ekf.cpp PredictModel, GetStateTransition'), ('process noise layout', 'src/ekf/ekf.cpp RefreshIndices'), ('QR update of the square-root form', 'src/utility/math_helper.cpp QR_r')],
     ['h_predict_cov.cpp'],
     'PredictModel is executed with every covariance entry, the interval and all noise settings symbolic; each covariance entry is asserted equal to the analytic propagation.  In square-root form the factor returned by QR_r is abstracted by its contract (upper triangular with the required Gram matrix), which P04 decides for QR_r itself.',
     'one prediction step; body plus each sensor kind, plus one clone; covariance entries in [-2,2]; interval in [0,2]; the order in which noise and transition are applied in the full form is the one of the code',
     observe=['covariance after prediction'])

prop('P03', 'A measurement correction is the minimum-variance update',
     'Correcting with a residual, a measurement Jacobian and a measurement noise moves the state by the minimum-variance gain times the residual and replaces the covariance by the corresponding posterior covariance. '
     'This holds for the full and for the square-root form of the covariance, and for every state the measurement touches directly or through correlation.',
     ['inputs', 'configurations'], 'every residual, Jacobian, noise and covariance of the stated shapes, both covariance forms',
     'Tests run a few numeric updates and look at coarse tolerances; they cannot show that gain and posterior are optimal for all covariances.',
     ['src/ekf/update/updater.cpp', 'src/ekf/ekf.cpp', 'src/utility/math_helper.cpp'],
     [('gain, state correction, Joseph or square-root posterior', 'src/ekf/update/updater.cpp KalmanUpdate, KalmanUpdateRoot')],
     ['h_kalman.cpp'],
     'The correction is executed symbolically on states with sensors attached and compared, entry by entry as rational functions of all inputs, with the textbook posterior; the innovation covariance is inverted by Cramer\'s rule in the oracle.',
     'one or two measured values; 18 to 24 states; dense covariance with two observed states, or sparse covariance with all states observed; correlated or singular noise in square-root form for a sparse covariance and five noise matrices (one symbolic correlation)',
     observe=['state and covariance after a correction'])

prop('P05', 'State layout and covariance stay consistent over any registration history',
     'After any sequence of sensor registrations and clone insertions the parts of the state tile it without gaps or overlaps, and all reported sizes, counts, indices and the covariance dimensions agree. '
     'Each registration leaves every previously held variance and covariance attached to the same quantity, gives the new sensor its own prior, and leaves it uncorrelated. '
     'Sensors that are not calibrated occupy no state.',
     ['histories', 'configurations'], 'every order of registration of up to three parts (any identifiers, any kinds, calibrated or not, clones present or not), every covariance, both covariance forms',
     'Tests register sensors in ascending order with fixed identifiers; identifiers that sort before existing ones and sensors added while clones exist are never tried with a non-trivial covariance.',
     ['src/ekf/ekf.cpp', 'src/ekf/types.cpp', 'src/utility/math_helper.cpp'],
     [('index assignment', 'src/ekf/ekf.cpp RefreshIndices'), ('prior insertion', 'src/ekf/ekf.cpp Register*, InsertInMatrix')],
     ['h_layout.cpp'],
     'Registration sequences are executed with symbolic identifiers (ordering decided by the solver), symbolic priors and an arbitrary symbolic covariance before the last step; the whole covariance afterwards is compared entry by entry with the relocated one.',
     'up to three parts besides the body; identifiers in 0..9; priors diagonal and positive; covariance entries in [-1,1]',
     observe=['reported sizes, counts and indices', 'covariance'])

prop('P07', 'Corrections and vector form address every state by its own index',
     'Adding a correction vector to the state moves each estimated vector by its own segment and turns each estimated attitude by the rotation of its own segment, applied on the right; quantities that are not estimated stay put. '
     'The vector form of the state holds each estimated quantity at its index, has the length of the state, and setting the state from a vector reproduces it.',
     ['inputs', 'configurations'], 'every correction vector and state, over mixes of calibrated and uncalibrated sensors of each kind and clones',
     'Tests convert one hand-built state; mixes with uncalibrated sensors in between, intrinsic-only inertial units or several cameras are not exercised.',
     ['src/ekf/types.cpp', 'src/ekf/types.hpp'],
     [('addition of a correction to the state and to each class of states', 'src/ekf/types.cpp operator+='), ('conversion to and from a vector', 'src/ekf/types.cpp ToVector, SetState')],
     ['h_correct.cpp'],
     'The operators are executed with all states and correction vectors symbolic over six sensor mixes; each field is asserted equal to its own segment.  One attitude at a time is symbolic, the others take fixed distinct values.',
     'six mixes of five parts each; components in [-2,2]; any one attitude an arbitrary unit quaternion',
     observe=['state after a correction', 'vector form'])

prop('P04', 'Reducing square-root factors preserves the covariance they represent',
     'Reducing two stacked factors gives one square upper-triangular factor with the same number of columns. '
     'Its Gram matrix is the sum of the Gram matrices of the two factors, so that the square-root form of the filter represents exactly the covariance the full form would hold.',
     ['inputs'], 'every pair of factors of the stated shapes',
     'The tests reduce one or two numeric matrices; the square-root form of the whole filter silently depends on this contract for every factor.',
     ['src/utility/math_helper.cpp'],
     [('orthogonal-triangular reduction', 'src/utility/math_helper.cpp QR_r')],
     ['h_qr.cpp'],
     'QR_r, with the Householder reduction of the linear algebra library it instantiates, is executed with all entries symbolic; the Gram matrix of the result is compared with the sum of the Gram matrices as polynomials in the entries and square roots.',
     'one to three columns; dense, triangular and diagonal factors of two to six stacked rows',
     observe=['reduced factor'])

prop('P06', 'A registration that cannot be accepted changes nothing',
     'Registering a sensor under an identifier that its kind already uses leaves the state, the layout, the covariance, the window settings and the filter time as they were. '
     'The identifiers of different kinds of sensors do not collide with one another.',
     ['histories', 'inputs'], 'every repetition of a registration with different parameters, every identifier, both covariance forms',
     'The existing tests register each sensor once; what a second registration does to priors, indices and clone settings is not observed.',
     ['src/ekf/ekf.cpp'],
     [('duplicate guards', 'src/ekf/ekf.cpp RegisterIMU, RegisterGPS, RegisterCamera, RegisterFiducial')],
     ['h_dup.cpp'],
     'Registrations are executed twice with symbolic identifiers and parameters; everything observable of the filter is compared before and after the rejected one.',
     'one accepted and one rejected registration of each kind; identifiers 0..9',
     observe=['filter state, covariance and settings'])

prop('P08', 'Clones copy the body pose and its uncertainty exactly',
     'Cloning the body pose for a camera frame stores the current position, attitude, time and frame, and leaves the body as it was. '
     'The covariance of the clone, with itself and with every other state, equals that of the body pose it copies, and all other covariances stay. '
     'A clone is taken for exactly the cameras and frames the augmentation mode names.',
     ['inputs', 'histories', 'configurations'], 'every body state and covariance, modes without clones, primary camera only, and all cameras, both covariance forms',
     'Tests insert clones into an identity covariance, where the cross terms of the clone with calibrations and earlier clones are zero and cannot be seen to be wrong.',
     ['src/ekf/ekf.cpp'],
     [('clone insertion', 'src/ekf/ekf.cpp AugmentStateIfNeeded'), ('covariance augmentation', 'src/ekf/ekf.cpp AugmentCovariance')],
     ['h_clone.cpp'],
     'Clones are inserted with every body component and covariance entry symbolic and with sensors and earlier clones present; each entry of the larger covariance is compared with the entry it must copy.',
     'up to three clones, two cameras and one antenna; covariance entries in [-1,1]; one attitude at a time symbolic',
     observe=['clone list', 'covariance'])

prop('P09', 'The clone window is bounded and discarding a clone removes it alone',
     'When clones are taken by time or by error, one is taken exactly when a frame arrived and the interval or the error since the last clone is exceeded. '
     'The number of clones kept for a camera never exceeds the window, and the clones discarded are the oldest ones, or, when clones are taken by time or by error, exactly those no longer needed to interpolate within the longest track. '
     'Discarding a clone removes its rows from the state and its covariance, and every remaining state keeps its value, its variances and its covariances.',
     ['histories', 'inputs', 'configurations'], 'every sequence of clone insertions of the stated length, every clone time, every covariance, both covariance forms',
     'Tests never fill the window with a covariance whose entries differ, and never prune by time or by error.',
     ['src/ekf/ekf.cpp', 'src/utility/math_helper.cpp'],
     [('eviction by count and pruning by time or error', 'src/ekf/ekf.cpp AugmentStateIfNeeded'), ('removal from the covariance', 'src/utility/math_helper.cpp RemoveFromMatrix')],
     ['h_window.cpp'],
     'Histories of insertions are executed with symbolic times and covariances; after each step the surviving clones, indices and covariance entries are compared with a reference list.',
     'windows of one to three frames; up to five clones; one or two cameras',
     observe=['clone list', 'state layout', 'covariance'])

prop('P10', 'A camera frame is attributed its clone or the pose between clones',
     'A frame that was cloned is attributed exactly its clone. '
     'When clones are taken by time, by error or for another camera, a frame is attributed the pose interpolated between the clones around its time - linearly in position, along the shortest arc in attitude - or between the latest clone and the current body pose, or the first clone when it precedes all. '
     'The reported fraction and clone index name the interval used.',
     ['inputs', 'histories', 'configurations'], 'every frame time relative to every placement of the clones, all augmentation modes, no clones at all',
     'Tests ask for stored frames only; interpolation at, between, before and after clones is never exercised.',
     ['src/ekf/ekf.cpp'],
     [('frame lookup and interpolation', 'src/ekf/ekf.cpp GetAugState')],
     ['h_lookup.cpp'],
     'The lookup is executed with symbolic clone times, poses and query time; the result is compared with linear and shortest-arc interpolation of the bracketing poses.',
     'up to three clones; clone spacing 0.125 to 1 s; clone attitudes fixed and distinct, one pair more than 180 degrees apart in quaternion space',
     observe=['attributed pose, time, fraction and index'])

prop('P11', 'A GPS measurement corrects by antenna position and its exact Jacobian',
     'The predicted measurement is the body position plus the antenna offset of that antenna turned into the local frame, and its Jacobian is the derivative of that prediction with respect to every state (zero for states it does not depend on, and for the offset of an antenna that is not calibrated). '
     'A measurement predicts the filter to its time and corrects it with the measured position expressed in the local frame of the reference minus the prediction, weighted by the given covariance. '
     'While no reference exists, the measurement only moves the filter in time and is remembered together with the current position.',
     ['inputs', 'configurations', 'histories'], 'every body state and antenna offset, one to three antennas beside other sensors, calibrated or not, both covariance forms, every heading of the reference',
     'The tests compare the Jacobian numerically at the identity attitude with a single antenna; a wrong lever arm at another attitude, a wrong antenna among several or a wrong residual is not reached.',
     ['src/ekf/update/gps_updater.cpp', 'src/utility/gps_helper.cpp', 'src/utility/math_helper.cpp', 'src/ekf/ekf.cpp'],
     [('prediction and Jacobian', 'src/ekf/update/gps_updater.cpp PredictMeasurement, GetMeasurementJacobian'), ('correction', 'src/ekf/update/gps_updater.cpp UpdateEKF'), ('local frame', 'src/utility/gps_helper.cpp enu_to_local')],
     ['h_gps.cpp'],
     'The prediction is differentiated symbolically (dual numbers through the oracle model) and each Jacobian entry compared with that derivative; the update is compared with an independently written correction through the generic Kalman step, which P03 decides.',
     'any attitude; one update from a fixed attitude and covariance with symbolic position, measurement, heading and time; up to three measurements without a reference; derivatives are with respect to the correction of the attitude as P07 applies it',
     observe=['predicted measurement', 'Jacobian', 'filter state after the update'])

prop('P12', 'A board detection corrects by the board pose and its exact Jacobian',
     'The predicted detection is the pose of that board as seen from that camera, and its Jacobian is the derivative of that prediction (position, and rotation seen from the camera) with respect to every state, zero for calibrations that are not estimated. '
     'A detection predicts the filter to its time and corrects it with the measured minus the predicted position and the rotation from the predicted to the measured attitude, weighted by the variances stated with the detection.',
     ['inputs', 'configurations'], 'every body, camera and board position and attitude, several cameras and boards, calibrated or not, both covariance forms',
     'The tests compare the Jacobian at identity attitudes only, where all rotations drop out, and never look at what an update does to the attitude.',
     ['src/ekf/update/fiducial_updater.cpp', 'src/utility/math_helper.cpp', 'src/utility/type_helper.cpp'],
     [('prediction and Jacobian', 'src/ekf/update/fiducial_updater.cpp PredictMeasurement, GetMeasurementJacobian'), ('residual and correction', 'src/ekf/update/fiducial_updater.cpp UpdateEKF')],
     ['h_fiducial.cpp'],
     'The oracle pose of the board in the camera is differentiated symbolically with dual numbers and each Jacobian entry compared with that derivative; the update is compared with an independently written correction through the generic Kalman step, which P03 decides.',
     'Jacobian: one attitude at a time arbitrary, the other two fixed and distinct; prediction: 64 combinations of fixed attitudes with symbolic positions; update: fixed pose and covariance, symbolic measured position, four measured rotations; derivatives are with respect to the correction of the attitude as P07 applies it',
     observe=['predicted detection', 'Jacobian', 'filter state after the update'])

prop('P14', 'An IMU reading predicts, or corrects by, the motion of its body',
     'The predicted reading of an IMU is its biases plus acceleration and angular rate of the body at the mounting point, including tangential and centripetal terms, seen in the frame of that IMU; its Jacobian is the derivative of that prediction with respect to every state, zero for calibrations that are not estimated. '
     'Once motion was detected, the reading of the only IMU sets the rates of the body, without its biases and turned into the local frame, before prediction to the time of the reading; with several IMUs it corrects the filter with the measured minus the predicted reading, weighted by the given covariances.',
     ['inputs', 'configurations'], 'every body motion, mounting position and attitude, bias and reading, one to three IMUs beside other sensors, with extrinsic, intrinsic, both or no calibration, both covariance forms',
     'The tests compare the Jacobian at the identity attitude or with zero rates, where lever-arm terms and frames cancel.',
     ['src/ekf/update/imu_updater.cpp', 'src/utility/math_helper.cpp', 'src/ekf/ekf.cpp'],
     [('prediction and Jacobian', 'src/ekf/update/imu_updater.cpp PredictMeasurement, GetMeasurementJacobian'), ('correction', 'src/ekf/update/imu_updater.cpp UpdateEKF')],
     ['h_imu.cpp'],
     'The reading of a moving rigid body is written down independently, differentiated symbolically with dual numbers and compared with each Jacobian entry; what a reading does to the filter is compared with independently set rates or with the generic Kalman step, which P03 decides.',
     'Jacobian: one attitude at a time arbitrary; one IMU: symbolic position, velocity, accelerations, biases and time, fixed angular rates; several IMUs: fixed pose and covariance (the columns of the body attitude are two known findings), one component of the reading at a time symbolic; derivatives are with respect to the correction of the attitude as P07 applies it',
     observe=['predicted reading', 'Jacobian', 'filter state after a reading'])

prop('P15', 'Readings of a resting body hold it still until motion is detected',
     'Until a sensor has detected motion, each of its readings is taken as one of a body at rest: after prediction to its time the filter is corrected by the reading minus biases and gravity seen from the IMU, with the exact Jacobian of that model, and the rates are set to rest. '
     'Motion is detected exactly when gravity is initialised and the reading misses the model by more than the configured chi-squared threshold under the current uncertainty plus the scaled noise; a reading below the threshold initialises gravity. '
     'A sensor that detected motion never takes its body for resting again.',
     ['inputs', 'histories', 'configurations'], 'every reading, mounting, bias and attitude, gravity initialised or not, all calibrations, other sensors before and after, both covariance forms',
     'The tests check one Jacobian at identity and one stationary reading; rotated mountings, the square-root form, the threshold and what follows after motion are not reached.',
     ['src/ekf/update/imu_updater.cpp', 'src/ekf/ekf.cpp', 'src/utility/math_helper.cpp'],
     [('rest model and decision', 'src/ekf/update/imu_updater.cpp ZeroAccelerationUpdate, GetZeroAccelerationJacobian'), ('effect on prediction', 'src/ekf/ekf.cpp SetZeroAcceleration, InitializeGravity')],
     ['h_zero.cpp'],
     'The reading of a resting IMU is written down independently and differentiated with dual numbers; an oracle filter decides rest or motion from its own score and applies the corresponding correction, and whole filters are compared.',
     'Jacobian: one attitude at a time arbitrary; decision: fixed state and covariance, one reading component symbolic within 40 of the model, a margin of 1e-6 around the threshold left out; attitudes after a symbolic correction are compared for fixed readings only; sequences of four readings; the body does not rotate while at rest; either sign convention of the residual is accepted; derivatives are with respect to the correction of the attitude as P07 applies it',
     observe=['Jacobian of the rest model', 'filter state after a reading', 'gravity flag'])

prop('P16', 'Attitudes and rotation vectors convert into each other exactly',
     'A rotation vector becomes the unit quaternion that turns by its length about its direction, and a quaternion becomes the rotation vector of the same rotation, at most half a turn long, whichever sign the quaternion has. '
     'The derivative of that chart is the right Jacobian, and its transpose the left Jacobian, of every attitude. '
     'Yaw, pitch and roll compose in that order, a quaternion given as four parameters is normalised and anything else is the identity, a vector of parameters keeps its length and values, and the skew matrix is the cross product.',
     ['inputs'], 'every rotation vector and attitude, either sign of the quaternion, every parameter list of up to five numbers',
     'The tests convert a few angles; the derivative of the chart is compared at one or two attitudes.',
     ['src/utility/type_helper.cpp', 'src/utility/math_helper.cpp'],
     [('conversions', 'src/utility/type_helper.cpp RotVecToQuat, QuatToRotVec, EigVecToQuat, StdToEigQuat, StdToEigVec'), ('derivative', 'src/utility/math_helper.cpp QuaternionJacobian, SkewSymmetric')],
     ['h_rotation.cpp'],
     'The conversions are executed symbolically and composed: the rotation of exp(log(q)) is compared with q, and the product of the Jacobian with the symbolic derivative of the logarithm (dual numbers) with the identity.',
     'rotation vectors within 4 rad per component (thorough: 12); quaternions with a vector part above 1e-8, and the identity in both signs; conversions that go through OpenCV (Rodrigues) are outside',
     observe=['rotation vectors', 'quaternions', 'Jacobian of the chart'])

prop('P17', 'Geodetic, earth-centred, ENU and local coordinates agree with WGS84',
     'A geodetic position lies its height along the vertical above a point of the WGS84 ellipsoid to which that vertical is normal. '
     'East-north-up coordinates are a rigid frame at the reference in which longitude increases to the east, latitude to the north and height upwards at the rates of the ellipsoid; conversion to earth-centred coordinates and back is the identity. '
     'The local frame is that frame turned about the vertical by the heading, and converts back exactly.',
     ['inputs'], 'every latitude between 89.5 degrees south and north, longitude, height, offset and heading',
     'The tests convert a handful of places on axes of the earth.',
     ['src/utility/gps_helper.cpp'],
     [('conversions', 'src/utility/gps_helper.cpp lla_to_ecef, ecef_to_enu, enu_to_ecef, lla_to_enu, enu_to_local, local_to_enu, wgs84_m_to_deg')],
     ['h_geodesy.cpp'],
     'The conversions are executed on symbolic coordinates with sine and cosine as constrained function symbols; the geometric definition (foot on the ellipsoid, normal, derivative along each geodetic coordinate by dual numbers, round trips) is asserted.',
     'heights and offsets within 10 km; headings within 7 rad; out-of-range coordinates and the recovery of geodetic from earth-centred coordinates (P28) are outside',
     observe=['converted coordinates'])
prop('P19', 'A sighting of a feature is predicted through the camera that made it',
     'A feature is predicted at the pixel where the camera, carried by the body as it was at that frame (its clone, the pose between clones, or the body itself), sees it: perspective projection, lens distortion (radial and tangential), focal lengths and image centre. '
     'The residual of every sighting is the measured minus the predicted pixel, and its Jacobian is the derivative of the prediction with respect to the feature and to every state: clones, body, calibration of that camera; zero for everything else.',
     ['inputs', 'configurations'], 'every feature in front of the camera, every lens, clones at every frame, at some frames or none, calibrated cameras or not, other sensors and clones beside',
     'The tests compare projection and distortion Jacobians at one point with unit coefficients and never look at the residual, at the rows a sighting contributes or at interpolated poses.',
     ['src/ekf/update/msckf_updater.cpp', 'src/ekf/ekf.cpp', 'src/utility/math_helper.cpp'],
     [('projection and distortion', 'src/ekf/update/msckf_updater.cpp Project, Distort, ProjectionJacobian, DistortionJacobian'), ('rows of a sighting', 'src/ekf/update/msckf_updater.cpp UpdateEKF'), ('pose of the body', 'src/ekf/ekf.cpp EKF::GetAugState')],
     ['h_msckf.cpp'],
     'The rows that the real update hands to the elimination of the feature are caught there and compared with the derivative of an independently written camera model (dual numbers), as rational functions of the position of the feature; projection and distortion are decided for every point and coefficient.',
     'two to four frames at fixed poses; feature within 45 degrees of the optical axis of the first camera, 4 to 64 m away and at least 0.5 m in front of every camera; in the rows three lenses (in the distortion, any coefficients within 1); key points fixed (the residual is linear in them); between clones the attitude is taken to move in proportion',
     observe=['projection', 'distortion', 'residual and Jacobian before the feature is eliminated'])

prop('P20', 'Feature tracks correct the filter by what they say about its poses',
     'A feature is triangulated where the sum of its squared distances from the rays of its sightings is least; seen without error, that is where it is, wherever the world begins and however large it is. It is used if its depth in the first camera is neither below the configured distance nor above 100 m. '
     'All used tracks of a frame correct the filter together by the minimum-variance update of their reprojection errors, free of the position of the features, each coordinate with the standard deviation stated in pixels (not less than half a pixel); clones, calibration, body and everything correlated with them move accordingly, in either covariance form. '
     'Tracks that are not used, a single remaining equation or an empty list only move the filter to the time of the frame.',
     ['inputs', 'configurations', 'histories'], 'every position of the world and scale of the scene, every body position and velocity, closest distance; one or two tracks over the same or different frames; clones at every or some frames; both covariance forms',
     'The only test feeds one track with the true feature position and compares nothing with a reference.',
     ['src/ekf/update/msckf_updater.cpp', 'src/ekf/update/updater.cpp', 'src/ekf/ekf.cpp', 'src/utility/math_helper.cpp'],
     [('triangulation', 'src/ekf/update/msckf_updater.cpp TriangulateFeature'), ('update', 'src/ekf/update/msckf_updater.cpp UpdateEKF'), ('poses', 'src/ekf/ekf.cpp EKF::GetAugState')],
     ['h_tracks.cpp'],
     'Scenes are scaled and shifted symbolically and handed to the real triangulation and update; whole filters are compared with a reference that triangulates by least squares, differentiates its own camera model, projects out the feature and applies the generic Kalman step, which P03 decides.',
     'two to four frames at fixed relative poses, three features, three lenses; scale between 1/16 and 64, closest distance between 0.25 and 8 m; a margin of 1e-3 around the limits (pixels are single precision); in the update relative poses, key points and covariance are fixed, and the error in pixels is one of four values (thorough: any between 0.5 and 4)',
     observe=['triangulated position', 'filter state after the update'])

prop('P21', 'First-estimate Jacobians hold on to first estimates in Jacobians only',
     'With first-estimate Jacobians the Jacobian of every measurement of an antenna, a board or a feature is taken at the first estimate of the calibration it depends on (antenna, camera, board), and at the current estimate of everything else; without them at the current estimates. '
     'Predicted measurements and residuals always follow the current estimates, so that a correction of the calibration takes effect in the next residual.',
     ['inputs', 'histories'], 'every position of body, antenna, camera, board and feature over two or three measurements, calibrated or not, with and without first-estimate Jacobians, in either covariance form',
     'No test turns first-estimate Jacobians on for more than one measurement.',
     ['src/ekf/update/gps_updater.cpp', 'src/ekf/update/fiducial_updater.cpp', 'src/ekf/update/msckf_updater.cpp'],
     [('antenna', 'src/ekf/update/gps_updater.cpp PredictMeasurement, GetMeasurementJacobian'), ('board', 'src/ekf/update/fiducial_updater.cpp PredictMeasurement, GetMeasurementJacobian, RefreshStates'), ('features', 'src/ekf/update/msckf_updater.cpp UpdateEKF')],
     ['h_fej.cpp'],
     'The same updater is asked repeatedly while body and calibration change symbolically in between; predictions are compared with the independent models of P11, P12 and P19 at the current state, Jacobians with their symbolic derivatives at the state in which only the calibration is the first one.',
     'attitudes fixed and changing between measurements; two measurements of boards and features, two or three of antennas; the first measurement is predicted and differentiated before anything changes',
     observe=['predicted measurement', 'Jacobian', 'residual'])

prop('P22', 'Features are followed through pictures and handed over once, with their clones',
     'Every feature that is matched unambiguously (each is the best match of the other, clearly better than the second best) and moves like the others (within the stated outlier rejection) is followed to the next picture, in coordinates of the full picture. '
     'Consecutive sightings of a feature form one track, with the frame and the pixel of every sighting; a track ends when the feature is not seen in a picture (also one without any features) or the track has reached its greatest length, and is then handed to the filter exactly once, if it is long enough, in the frame that ended it. '
     'For every sighting handed over the filter still holds the clone of that frame, of the time it was taken. '
     'Simulated tracks follow the same rules with the true pixels of each feature; down-sampling to a grid keeps the first feature of every cell.',
     ['histories', 'inputs'], 'every sequence of five (thorough six) pictures in which a feature is seen, hidden or an outlier, or no feature is found, at any increasing times and places in the picture',
     'The tests track one pair of constant pictures and never observe what reaches the filter.',
     ['src/trackers/feature_tracker.cpp', 'src/trackers/sim/sim_feature_tracker.cpp', 'src/sensors/camera.cpp', 'src/ekf/ekf.cpp'],
     [('tracks', 'src/trackers/feature_tracker.cpp FeatureTracker::Track'), ('matching', 'src/trackers/feature_tracker.cpp RatioTest, SymmetryTest, DistanceTest'), ('grid', 'src/trackers/feature_tracker.cpp GridFeatures'),
      ('simulated tracks', 'src/trackers/sim/sim_feature_tracker.cpp GenerateMessages'), ('clones', 'src/sensors/camera.cpp Camera::Callback, src/ekf/ekf.cpp AugmentStateIfNeeded')],
     ['h_lifecycle.cpp'],
     'Detector, extractor, matcher and the epipolar outlier test are stand-ins that play a symbolic script; pictures go through Camera::Callback and the real tracker and filter, and what reaches MsckfUpdater is recorded and compared with the tracks of the script.',
     'ten features that are always there and one that is scripted, pixels within 8 px of fixed places, steps of 1/16 to 1/2 s; greatest length 3 or 4, least 2 or 3, equal to the window of the filter; three pictures of any down-sampled size; ratio and symmetry test over three candidates with any distances (more than 1e-3 from the thresholds); grid of up to four features',
     observe=['tracks handed to the filter', 'matches kept', 'clones'],
     assumptions=['detector, extractor, matcher and findFundamentalMat of OpenCV are stand-ins'])

prop('P23', 'Sensors register as configured and hand every measurement to the filter as it is',
     'A sensor or board enters the filter with the position, attitude, biases, stabilities and intrinsics it is configured with, has states exactly for what is to be calibrated, and these start uncorrelated with the configured variances (of IMU and camera never below 1e-6). '
     'Every message reaches the filter once, with its own time, values and covariances and by the calibration of its own sensor. '
     'A picture that is used brings the filter to its time and leaves a clone; then features are tracked, and boards correct the filter exactly when their pose was found, from the markers that were found and with the intrinsics of the camera. '
     'Messages of several sensors are ordered by time.',
     ['inputs', 'configurations'], 'every configuration and message of IMU, GPS, camera, board and tracker within the bounds, whatever is calibrated and registered before',
     'The tests construct sensors and send single messages, but compare few of the values that arrive.',
     ['src/sensors/imu.cpp', 'src/sensors/gps.cpp', 'src/sensors/camera.cpp', 'src/sensors/sensor.cpp', 'src/trackers/fiducial_tracker.cpp', 'src/ekf/ekf.cpp'],
     [('configuration', 'src/sensors/imu.cpp IMU::IMU, src/sensors/gps.cpp GPS::GPS, src/sensors/camera.cpp Camera::Camera, src/trackers/fiducial_tracker.cpp FiducialTracker::FiducialTracker'), ('messages', 'src/sensors/*.cpp Callback'),
      ('boards', 'src/trackers/fiducial_tracker.cpp FiducialTracker::Track, InterpolateCorners, EstimatePoseBoard'), ('order', 'src/sensors/sensor.cpp MessageCompare')],
     ['h_sensors.cpp'],
     'Sensors are constructed with symbolic parameters on a real filter and receive symbolic messages; the updaters are stand-ins that record what reaches them, the board detection of OpenCV a stand-in that finds markers, squares and a pose or not.',
     'two attitudes per sensor; any value of the other parameters within [-2, 2], variances within [1/16, 4] or at, around and below the floor; two markers and four squares or none; one message per sensor; three messages of any times',
     observe=['state and covariance after construction', 'arguments of the updates'],
     assumptions=['detection of markers and pose by OpenCV are stand-ins'])

prop('P24', 'Simulated trajectories are consistent motions',
     'In a simulated trajectory the velocity and acceleration are the derivatives of the position, and the angular rate and acceleration those of the attitude, expressed in the body. '
     'The body waits at its first pose, at rest, until the trajectory starts. '
     'A spline trajectory passes through the configured poses in their order, at times in proportion to the distances between them, within the configured duration. '
     'A recorded trajectory is joined linearly between its poses, sampled at the configured rate with velocities and rates by differences, begins and ends at its first and last pose, and is held outside of them.',
     ['inputs'], 'every time, start and parameter of a cyclic trajectory; every time on splines of several shapes; every recorded position and time asked for',
     'The tests compare values at a few times; a wrong term in a derivative, or the behaviour before the start and after the end, is not reached.',
     ['src/infrastructure/sim/truth_engine_cyclic.cpp', 'src/infrastructure/sim/truth_engine_spline.cpp', 'src/infrastructure/sim/truth_engine_smoother.cpp', 'src/infrastructure/sim/truth_engine.cpp'],
     [('cyclic', 'src/infrastructure/sim/truth_engine_cyclic.cpp Get*'), ('spline', 'src/infrastructure/sim/truth_engine_spline.cpp Get*, the constructor'), ('recorded', 'src/infrastructure/sim/truth_engine_smoother.cpp the constructor, Get*')],
     ['h_truth.cpp'],
     'The trajectory engines are executed with the time (and parameters) symbolic, the splines of Eigen included; the derivative of the returned pose is taken symbolically and compared with the returned velocities, rates and accelerations.',
     'cyclic: every parameter free (frequencies 1/8 to 2, any set of axes), up to 8 s after the start; splines: three paths of up to five poses, turning about each single axis (one path about several), waiting 0 or 1.5 s; recorded: three poses at fixed times and 8 Hz, attitudes one axis at a time at times 1/16 s apart; known finding: angular rates of a spline that turns about several axes',
     observe=['pose, velocities, rates and accelerations at a time'], assumptions=['poses are configured without an error of their own'])

prop('P25', 'Simulated measurements follow the true motion, mounting and biases',
     'Every simulated reading equals the measurement model at the true motion of its time, with the true (configured or drawn) mounting, biases and antenna position of its own sensor, plus noise drawn with the stated deviation; without errors it equals the model exactly. '
     'The covariances handed to the filter are the squared deviations. '
     'Messages come at the rate of the sensor, carry its id and increasing times, and are off by one common offset at most besides the timing error; pictures have distinct frames and one detection per board. '
     'A simulated picture first brings the filter to its time and leaves a clone, and then uses its tracks and visible boards.',
     ['inputs', 'configurations'], 'every motion, mounting, bias, noise draw and deviation, with errors on and off',
     'The tests count messages and look at the order of a few.',
     ['src/sensors/sim/sim_imu.cpp', 'src/sensors/sim/sim_gps.cpp', 'src/sensors/sim/sim_camera.cpp', 'src/sensors/sim/sim_sensor.cpp', 'src/trackers/sim/sim_fiducial_tracker.cpp'],
     [('inertial readings', 'src/sensors/sim/sim_imu.cpp GenerateMessages'), ('GPS readings', 'src/sensors/sim/sim_gps.cpp GenerateMessages'), ('pictures', 'src/sensors/sim/sim_camera.cpp GenerateMessages, Callback'),
      ('times', 'src/sensors/sim/sim_sensor.cpp GenerateMeasurementTimes'), ('boards', 'src/trackers/sim/sim_fiducial_tracker.cpp GenerateMessages')],
     ['h_simulated.cpp'],
     'Simulated sensors are built on a trajectory with symbolic pose and motion and symbolic true mounting; their random draws are stand-ins that return any value, told apart by the deviation they are asked for; every message is compared with the measurement model written down independently.',
     'up to four messages per sensor; two attitudes per sensor; values in [-2, 2]; a board that is always in view; tracks of features are covered by P22',
     observe=['messages of simulated sensors', 'arguments of the updates'], assumptions=['random draws are stand-ins', 'boards are in view'])

prop('P26', 'Logs hold what their headers announce',
     'Every row of a log has exactly the columns of its header, in order: the time, the state and calibration after the update, the reading and the residual it corrected with (zero where nothing was corrected), and the variances of the states named, whichever form of the covariance is kept. '
     'Logs of the truth hold the true motion at multiples of the period through the whole simulation, the mounting and biases of each sensor, the reference and the boards and features. '
     'A log writes its first row, then as many rows as its rate allows since then and no more; without a rate it writes every row, and nothing when it is off.',
     ['inputs', 'configurations', 'histories'], 'every state, covariance in both forms, reading and calibration configuration, and every sequence of five rows at any non-decreasing times',
     'The tests write rows of fixed text and count some of them; none compares a row with its header or with the filter.',
     ['src/infrastructure/data_logger.cpp', 'src/ekf/ekf.cpp', 'src/ekf/update/imu_updater.cpp', 'src/ekf/update/gps_updater.cpp', 'src/ekf/update/fiducial_updater.cpp', 'src/ekf/update/msckf_updater.cpp', 'src/infrastructure/sim/truth_engine.cpp', 'src/utility/string_helper.cpp'],
     [('rows of the updates', 'src/ekf/update/*_updater.cpp constructors and UpdateEKF'), ('rows of the body and of clones', 'src/ekf/ekf.cpp LogBodyStateIfNeeded, AugmentStateIfNeeded'), ('rate', 'src/infrastructure/data_logger.cpp RateLimitedLog'), ('truth', 'src/infrastructure/sim/truth_engine.cpp WriteTruthData')],
     ['h_logs.cpp'],
     'The real updaters, filter and truth engine write into log files in memory; numbers written to a stream are kept as references to their symbolic values, so that every cell of a row is compared, for every value, with the state, covariance or reading its column names.',
     'one row of each kind (truth: two or four per configuration of up to two IMUs, two cameras, one GPS receiver and two boards); five rows at rates of 0, 2 and 4 per second over up to 3 s, starting at zero or later; digits of printed numbers, execution times, the triangulated point and the row in which the GPS reference is just found are outside',
     observe=['rows and headers of log files'], assumptions=['corrections, compression and the local conversion of readings are stand-ins (decided by P03, P04, P13, P17)'])

prop('P27', 'Simulated pictures show what the camera can see',
     'A simulated picture shows a feature exactly when it lies in front of the camera and projects into the picture, with the true pose and mounting of that camera at that time and its lens, at the true pixel, or the nearest one when errors are simulated. '
     'When fewer features than configured are visible, as many new ones as are missing appear, all of them in view (without distortion); features keep their number and place for good. '
     'The features a simulation starts with lie on the walls of the room.',
     ['inputs', 'configurations'], 'every place of a feature, every position of the body and camera, with and without distortion and rounding',
     'The tests count the messages of one simulated camera.',
     ['src/trackers/sim/sim_feature_tracker.cpp', 'src/infrastructure/sim/truth_engine.cpp', 'src/ekf/types.cpp'],
     [('visibility', 'src/trackers/sim/sim_feature_tracker.cpp GetVisibleKeypoints, FilterInvisiblePoints'), ('new features', 'src/infrastructure/sim/truth_engine.cpp GenerateVisibleFeatures'), ('walls', 'src/infrastructure/sim/truth_engine.cpp GenerateGridFeatures')],
     ['h_visible.cpp'],
     'The simulated tracker looks at symbolic features through a camera with symbolic position; what it reports is compared with the projection written down independently, both ways: what is seen is in view, and what is in view is seen.',
     'two features, one of them with symbolic direction, at depths 2, 1/4, -1/8 and -2; two mountings of the camera; one lens; with distortion one direction varies at a time and positions are fixed; up to two new features at eight places',
     observe=['visible features'], assumptions=['projectPoints of OpenCV is a stand-in with its documented model (replays use the real one)', 'random draws are stand-ins'])

prop('P29', 'All sensors share one clock, and every interval is integrated once',
     'A filter that was not started with a time takes that of the first measurement of any sensor as its zero; every later measurement of any sensor lies at the difference to it, and a filter started with a time counts on from there. '
     'In whatever order measurements arrive, the time of the filter is that of the latest one so far and never runs backward, the motion is integrated exactly once over every interval, and the clone of a picture has the time and pose of the filter at that picture.',
     ['histories', 'schedules'], 'every sequence of three (thorough four) measurements of an IMU, a GPS receiver and a camera, in any order and at any times, also late ones, with and without an initial time',
     'The tests send measurements of one sensor in order, from time zero.',
     ['src/ekf/ekf.cpp', 'src/sensors/camera.cpp', 'src/sensors/imu.cpp', 'src/sensors/gps.cpp', 'src/ekf/update/imu_updater.cpp', 'src/ekf/update/gps_updater.cpp', 'src/ekf/update/fiducial_updater.cpp', 'src/ekf/update/msckf_updater.cpp'],
     [('local time', 'src/ekf/ekf.cpp CalculateLocalTime, Initialize'), ('prediction before every use', 'src/ekf/ekf.cpp PredictModel, src/ekf/update/*_updater.cpp UpdateEKF, src/sensors/camera.cpp Callback')],
     ['h_clock.cpp'],
     'Messages with symbolic times go through the real sensors, trackers\' callbacks, updaters and prediction of a body that moves at a constant symbolic velocity; time and position of the filter and of the clones are compared with those of the latest message.',
     'three measurements of any sensors (thorough four) or four pictures, up to 1 s before and 2 s after the first; reference times in [-4, 4096] s; a body at constant velocity',
     observe=['time of the filter', 'position of the filter and of clones'], assumptions=['corrections are stand-ins that leave the state alone', 'what a picture shows is a stand-in'])

NOT_APPLICABLE['P28'] = dict(title='Geodetic coordinates are recovered accurately from earth-centred ones',
     statement='Converting a geodetic position to earth-centred coordinates and back returns the position to within a millimetre, for every place on earth.',
     over=['inputs'], qtext='every latitude, longitude and height',
     why='The tests convert a handful of places.',
     files=['src/utility/gps_helper.cpp'], mech=[('inverse conversion', 'src/utility/gps_helper.cpp ecef_to_lla, enu_to_lla')], observe=['geodetic coordinates'],
     reason='ecef_to_lla evaluates an approximate root of a quartic through nested square and cube roots and one Newton step; it is accurate, not exact, so no algebraic identity holds, and bounding the error needs verified transcendental interval arithmetic over polynomials of degree above 30: z3 and cvc5 return unknown on the branch conditions already (tried).')

prop('P13', 'Eliminating a feature and compressing measurements lose no information',
     'The projection that removes a feature position from the stacked sightings has orthonormal rows that annihilate the feature Jacobian, has as many rows as sightings exceed unknowns, and is applied alike to the state Jacobian and the residual, so the noise stays white and the result does not depend on where the feature is. '
     'Compressing stacked measurements keeps their information matrix and information vector, whatever states they touch, and leaves no more rows than states.',
     ['inputs'], 'every feature Jacobian, state Jacobian and residual within the bounds, including any pattern of states the measurements do not touch',
     'The tests check the sizes of one projection and the values of two compressions without gaps between the states.',
     ['src/utility/math_helper.cpp', 'src/ekf/update/msckf_updater.cpp', 'src/ekf/update/gps_updater.cpp'],
     [('projection', 'src/utility/math_helper.cpp ApplyLeftNullspace'), ('compression', 'src/utility/math_helper.cpp CompressMeasurements')],
     ['h_feature.cpp'],
     'Both functions are executed on symbolic matrices, Eigen\'s Householder and Givens code included; the recovered projection and the Gram matrices before and after are compared.',
     'projection: up to 3 measurements of 1 unknown with every entry free, 3 of 2 and up to 6 of 3 with one entry free at a time, away from (1e-3) columns that are already reduced; compression: up to 3 x 1 and 2 x 2 with all (quick: 3 of 4) entries free, 3 x 2 with one (thorough: two) free, 3 x 3 (thorough 4 x 3) with any pattern of empty columns and one empty row, 12 x 12 with one entry of the last column free; entries below the 1e-9 cut-off are covered by the tolerance 1e-7',
     observe=['projected and compressed Jacobian', 'projected and compressed residual'])

prop('P18', 'The GPS reference ties the local frame to the earth',
     'Once at least four readings are accepted, the reference lies at the origin of the local frame and its heading, sign included, turns east-north-up into local axes, so that a reading converted with it falls on the position of the antenna (not of the body) at the time of the reading; the alignment is the least-squares rotation about the vertical, wherever the two frames have their origins. '
     'A reference is accepted exactly when the configured criterion holds: the standard errors of the alignment are below the thresholds, or the readings span the configured baseline; never before the fourth reading. '
     'A reference that was given or accepted stays. The readings remembered until then correct the filter once, together, each with its own antenna position.',
     ['inputs', 'history'], 'every position of the local origin, acceptance threshold and given reference, at several places, headings and reading patterns',
     'The tests align one pattern with a positive heading and never check the resulting reference.',
     ['src/ekf/ekf.cpp', 'src/ekf/update/gps_updater.cpp', 'src/utility/math_helper.cpp'],
     [('initialisation', 'src/ekf/ekf.cpp EKF::AttemptGpsInitialization, SetGpsReference'), ('alignment', 'src/utility/math_helper.cpp kabsch_2d, affine_angle, maximum_distance'),
      ('catching up', 'src/ekf/update/gps_updater.cpp GpsUpdater::UpdateEKF, MultiUpdateEKF')],
     ['h_gpsref.cpp'],
     'Sequences of readings go through the real updater while the position of the body is moved by a symbolic offset of the local frame; Eigen\'s SVD is executed as it is. The earth-centred point that the filter converts into its reference is compared with the local origin; thresholds are symbolic and the verdict of the filter is compared with standard errors recomputed from the residuals.',
     'four readings (eight when catching up), three error patterns, six headings, two places (thorough three); offset within 100 m (1 km for the alignment); thresholds more than 1e-3 from the error they are compared with, baselines more than 3 m from the span (positions are truncated to metres); ecef_to_lla is replaced by the inverse at the witness of the path, since it cannot be encoded (P28), so the reference is judged by the point handed to it',
     observe=['reference position and heading', 'whether a reference exists', 'filter state after catching up'],
     assumptions=['ecef_to_lla inverts lla_to_ecef'])
