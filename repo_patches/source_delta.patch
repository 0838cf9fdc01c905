From ba49e916bf70913e632fc02b9620f346bbe26e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:22 +0000
Subject: [PATCH 01/23] fix: geo: keep asin and square root arguments inside
 their domain

Rounding can push the haversine term slightly above one for antipodal points
and the asin argument slightly above one for points at a pole, which returned
NaN positions and distances.
---
 geo/geo.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/geo/geo.cpp b/geo/geo.cpp
index ec9e671..54366d8 100644
--- a/geo/geo.cpp
+++ b/geo/geo.cpp
@@ -142,7 +142,9 @@ int map_projection_reproject(const struct map_projection_reference_s *ref, float
 		const double sin_c = sin(c);
 		const double cos_c = cos(c);
 
-		const double lat_rad = asin(cos_c * ref->sin_lat + (x_rad * sin_c * ref->cos_lat) / c);
+		// rounding can push the argument slightly outside of the domain of asin
+		const double arg = math::constrain(cos_c * ref->sin_lat + (x_rad * sin_c * ref->cos_lat) / c, -1.0, 1.0);
+		const double lat_rad = asin(arg);
 		const double lon_rad = (ref->lon_rad + atan2(y_rad * sin_c, c * ref->cos_lat * cos_c - x_rad * ref->sin_lat * sin_c));
 
 		*lat = math::degrees(lat_rad);
@@ -166,7 +168,8 @@ float get_distance_to_next_waypoint(double lat_now, double lon_now, double lat_n
 
 	const double a = sin(d_lat / 2.0) * sin(d_lat / 2.0) + sin(d_lon / 2.0) * sin(d_lon / 2.0) * cos(lat_now_rad) * cos(lat_next_rad);
 
-	const double c = atan2(sqrt(a), sqrt(1.0 - a));
+	// rounding can push 1 - a slightly below zero for antipodal points
+	const double c = atan2(sqrt(a), sqrt(math::max(1.0 - a, 0.0)));
 
 	return static_cast<float>(CONSTANTS_RADIUS_OF_EARTH * 2.0 * c);
 }
@@ -192,7 +195,9 @@ void waypoint_from_heading_and_distance(double lat_start, double lon_start, floa
 	double lat_start_rad = math::radians(lat_start);
 	double lon_start_rad = math::radians(lon_start);
 
-	*lat_target = asin(sin(lat_start_rad) * cos(radius_ratio) + cos(lat_start_rad) * sin(radius_ratio) * cos((double)bearing));
+	// rounding can push the argument slightly outside of the domain of asin
+	*lat_target = asin(math::constrain(sin(lat_start_rad) * cos(radius_ratio) + cos(lat_start_rad) * sin(radius_ratio) * cos((
+			double)bearing), -1.0, 1.0));
 	*lon_target = lon_start_rad + atan2(sin((double)bearing) * sin(radius_ratio) * cos(lat_start_rad),
 					    cos(radius_ratio) - sin(lat_start_rad) * sin(*lat_target));
 
@@ -416,7 +421,8 @@ float get_distance_to_point_global_wgs84(double lat_now, double lon_now, float a
 	double d_lon = y_rad - current_y_rad;
 
 	double a = sin(d_lat / 2.0) * sin(d_lat / 2.0) + sin(d_lon / 2.0) * sin(d_lon / 2.0) * cos(current_x_rad) * cos(x_rad);
-	double c = 2 * atan2(sqrt(a), sqrt(1 - a));
+	// rounding can push 1 - a slightly below zero for antipodal points
+	double c = 2 * atan2(sqrt(a), sqrt(math::max(1 - a, 0.0)));
 
 	const float dxy = static_cast<float>(CONSTANTS_RADIUS_OF_EARTH * c);
 	const float dz = static_cast<float>(alt_now - alt_next);
-- 
2.43.0


From d602d947b4b1996fc2a5265986e585165285958c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:27 +0000
Subject: [PATCH 02/23] fix: EKF: wind covariance reset without airspeed uses
 the variance, not the standard deviation

---
 EKF/covariance.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EKF/covariance.cpp b/EKF/covariance.cpp
index 94bafce..05c10d0 100644
--- a/EKF/covariance.cpp
+++ b/EKF/covariance.cpp
@@ -1116,6 +1116,6 @@ void Ekf::resetWindCovariance()
 
 	} else {
 		// without airspeed, start with a small initial uncertainty to improve the initial estimate
-		P.uncorrelateCovarianceSetVariance<2>(22, _params.initial_wind_uncertainty);
+		P.uncorrelateCovarianceSetVariance<2>(22, sq(_params.initial_wind_uncertainty));
 	}
 }
-- 
2.43.0


From 23222e12644bd722cbcf0bea018bab36dab143b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:15 +0000
Subject: [PATCH 03/23] fix: EKF: magnetometer rejection is reported in the
 magnetometer bits, not one bit lower

---
 EKF/mag_fusion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/mag_fusion.cpp b/EKF/mag_fusion.cpp
index 9d3a55a..ce152b4 100644
--- a/EKF/mag_fusion.cpp
+++ b/EKF/mag_fusion.cpp
@@ -176,10 +176,10 @@ void Ekf::fuseMag()
 
 		if (_mag_test_ratio(index) > 1.0f) {
 			all_innovation_checks_passed = false;
-			_innov_check_fail_status.value |= (1 << (index + 3));
+			_innov_check_fail_status.value |= (1 << (index + 4));
 
 		} else {
-			_innov_check_fail_status.value &= ~(1 << (index + 3));
+			_innov_check_fail_status.value &= ~(1 << (index + 4));
 		}
 	}
 
-- 
2.43.0


From b143244321cbab18d71c8b657af57f28d7e18eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:15 +0000
Subject: [PATCH 04/23] fix: EKF: optical flow rejection is reported in the
 optical flow bits, not one bit lower

---
 EKF/optflow_fusion.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/optflow_fusion.cpp b/EKF/optflow_fusion.cpp
index a5b5415..58c0fe3 100644
--- a/EKF/optflow_fusion.cpp
+++ b/EKF/optflow_fusion.cpp
@@ -245,10 +245,10 @@ void Ekf::fuseOptFlow()
 	for (uint8_t obs_index = 0; obs_index <= 1; obs_index++) {
 		if (test_ratio[obs_index] > 1.0f) {
 			flow_fail = true;
-			_innov_check_fail_status.value |= (1 << (obs_index + 10));
+			_innov_check_fail_status.value |= (1 << (obs_index + 11));
 
 		} else {
-			_innov_check_fail_status.value &= ~(1 << (obs_index + 10));
+			_innov_check_fail_status.value &= ~(1 << (obs_index + 11));
 
 		}
 	}
-- 
2.43.0


From 954dcd3086ad1a4a763903905affe593f5417f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:42 +0000
Subject: [PATCH 05/23] fix: make the fault status word wide enough for all of
 its flags

The union has 18 flags but its value had 16 bits, so that clearing or testing
the value missed bad_acc_vertical and bad_acc_clipping.
---
 EKF/common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EKF/common.h b/EKF/common.h
index 28ec23a..37f3c85 100644
--- a/EKF/common.h
+++ b/EKF/common.h
@@ -407,7 +407,7 @@ union fault_status_u {
 		bool bad_acc_vertical: 1; ///< 16 - true if bad vertical accelerometer data has been detected
 		bool bad_acc_clipping: 1; ///< 17 - true if delta velocity data contains clipping (asymmetric railing)
 	} flags;
-	uint16_t value;
+	uint32_t value;
 
 };
 
-- 
2.43.0


From eb094284681bf636bac71e102cf5bf2ac054e8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:42 +0000
Subject: [PATCH 06/23] fix: clear the unused bits of the reported solution
 status

---
 EKF/ekf_helper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 24e8c87..b00cc18 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -960,7 +960,7 @@ void Ekf::get_innovation_test_status(uint16_t &status, float &mag, float &vel, f
 // return a bitmask integer that describes which state estimates are valid
 void Ekf::get_ekf_soln_status(uint16_t *status) const
 {
-	ekf_solution_status soln_status;
+	ekf_solution_status soln_status{};
 	// TODO: Is this accurate enough?
 	soln_status.flags.attitude = _control_status.flags.tilt_align && _control_status.flags.yaw_align && (_fault_status.value == 0);
 	soln_status.flags.velocity_horiz = (isHorizontalAidingActive() || (_control_status.flags.fuse_beta && _control_status.flags.fuse_aspd)) && (_fault_status.value == 0);
-- 
2.43.0


From 04279cf65c51d550d1c9f258f2e3d82f68f2e6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:34 +0000
Subject: [PATCH 07/23] fix: scale reported IMU bias variances by the squared
 filter interval

The bias states are increments over the filter interval, so the variance of
the bias per second is their variance over the squared interval.
---
 EKF/ekf.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/ekf.h b/EKF/ekf.h
index ade36dd..f6549d5 100644
--- a/EKF/ekf.h
+++ b/EKF/ekf.h
@@ -224,8 +224,8 @@ public:
 	Vector3f getAccelBias() const { return _state.delta_vel_bias / _dt_ekf_avg; } // get the accelerometer bias in m/s**2
 	const Vector3f &getMagBias() const { return _state.mag_B; }
 
-	Vector3f getGyroBiasVariance() const { return Vector3f{P(10, 10), P(11, 11), P(12, 12)} / _dt_ekf_avg; } // get the gyroscope bias variance in rad/s
-	Vector3f getAccelBiasVariance() const { return Vector3f{P(13, 13), P(14, 14), P(15, 15)} / _dt_ekf_avg; } // get the accelerometer bias variance in m/s**2
+	Vector3f getGyroBiasVariance() const { return Vector3f{P(10, 10), P(11, 11), P(12, 12)} / sq(_dt_ekf_avg); } // get the gyroscope bias variance in rad/s
+	Vector3f getAccelBiasVariance() const { return Vector3f{P(13, 13), P(14, 14), P(15, 15)} / sq(_dt_ekf_avg); } // get the accelerometer bias variance in m/s**2
 	Vector3f getMagBiasVariance() const { return Vector3f{P(19, 19), P(20, 20), P(21, 21)}; }
 
 	// get GPS check status
-- 
2.43.0


From ea08b9cf6d940b104547def6390e6d7d0e0250a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:58 +0000
Subject: [PATCH 08/23] fix: give the yaw estimator the accuracy of GPS
 velocity, not of GPS height

---
 EKF/ekf_helper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index b00cc18..1c8d16c 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -1654,9 +1654,9 @@ void Ekf::runYawEKFGSF()
 	_yawEstimator.update(_imu_sample_delayed, _control_status.flags.in_air, TAS, imu_gyro_bias);
 
 	// basic sanity check on GPS velocity data
-	if (_gps_data_ready && _gps_sample_delayed.vacc > FLT_EPSILON &&
+	if (_gps_data_ready && _gps_sample_delayed.sacc > FLT_EPSILON &&
 	    ISFINITE(_gps_sample_delayed.vel(0)) && ISFINITE(_gps_sample_delayed.vel(1))) {
-		_yawEstimator.setVelocity(_gps_sample_delayed.vel.xy(), _gps_sample_delayed.vacc);
+		_yawEstimator.setVelocity(_gps_sample_delayed.vel.xy(), _gps_sample_delayed.sacc);
 	}
 }
 
-- 
2.43.0


From c1939f8865e2a6cb4ebe129f16afc818c4feb730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:21 +0000
Subject: [PATCH 09/23] fix: wind estimator: initial wind covariance uses the
 Jacobian of the initial wind

The Jacobian had been derived with the arguments of atan2 swapped.
---
 airdata/WindEstimator.cpp             | 12 +++++-------
 airdata/python/wind_est_derivation.py |  2 +-
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/airdata/WindEstimator.cpp b/airdata/WindEstimator.cpp
index f755893..acdf8d6 100644
--- a/airdata/WindEstimator.cpp
+++ b/airdata/WindEstimator.cpp
@@ -63,16 +63,14 @@ WindEstimator::initialise(const matrix::Vector3f &velI, const matrix::Vector2f &
 	float L1 = v_n * v_n;
 	float L2 = L0 + L1;
 	float L3 = tas_meas / (L2 * sqrtf(L2));
-	float L4 = L3 * v_e * v_n + 1.0f;
-	float L5 = 1.0f / sqrtf(L2);
-	float L6 = -L5 * tas_meas;
+	float L4 = L3 * v_e * v_n;
 
 	matrix::Matrix3f L;
 	L.setZero();
-	L(0, 0) = L4;
-	L(0, 1) = L0 * L3 + L6;
-	L(1, 0) = L1 * L3 + L6;
-	L(1, 1) = L4;
+	L(0, 0) = 1.0f - L0 * L3;
+	L(0, 1) = L4;
+	L(1, 0) = L4;
+	L(1, 1) = 1.0f - L1 * L3;
 	L(2, 2) = 1.0f;
 
 	// get an estimate of the state covariance matrix given the estimated variance of ground velocity
diff --git a/airdata/python/wind_est_derivation.py b/airdata/python/wind_est_derivation.py
index e05d580..a51e72e 100644
--- a/airdata/python/wind_est_derivation.py
+++ b/airdata/python/wind_est_derivation.py
@@ -172,7 +172,7 @@ write_simplified(P_m_simple, "beta_fusion.txt", "P_next")
 # wind covariance initialisation via velocity
 
 # estimate heading from ground velocity
-heading_est = atan2(v_n, v_e)
+heading_est = atan2(v_e, v_n)
 
 # calculate wind speed estimate from vehicle ground velocity, heading and
 # airspeed measurement
-- 
2.43.0


From aad71764382fcb9e468ad736ad8f0aadced6a878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:21 +0000
Subject: [PATCH 10/23] fix: wind estimator: north and east wind have
 independent process noise

They shared one noise source, so that the covariance grew only along the
north-east diagonal and wind changes across it were never followed.
---
 airdata/WindEstimator.cpp             | 5 ++---
 airdata/python/wind_est_derivation.py | 8 +++++---
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/airdata/WindEstimator.cpp b/airdata/WindEstimator.cpp
index acdf8d6..1524ab9 100644
--- a/airdata/WindEstimator.cpp
+++ b/airdata/WindEstimator.cpp
@@ -118,14 +118,13 @@ WindEstimator::update(uint64_t time_now)
 
 	float SPP0 = dt * dt;
 	float SPP1 = SPP0 * q_w;
-	float SPP2 = SPP1 + _P(0, 1);
 
 	matrix::Matrix3f P_next;
 
 	P_next(0, 0) = SPP1 + _P(0, 0);
-	P_next(0, 1) = SPP2;
+	P_next(0, 1) = _P(0, 1);
 	P_next(0, 2) = _P(0, 2);
-	P_next(1, 0) = SPP2;
+	P_next(1, 0) = _P(0, 1);
 	P_next(1, 1) = SPP1 + _P(1, 1);
 	P_next(1, 2) = _P(1, 2);
 	P_next(2, 0) = _P(0, 2);
diff --git a/airdata/python/wind_est_derivation.py b/airdata/python/wind_est_derivation.py
index a51e72e..c7f0b1d 100644
--- a/airdata/python/wind_est_derivation.py
+++ b/airdata/python/wind_est_derivation.py
@@ -100,9 +100,11 @@ dt = Symbol("dt", real=True)
 # process model. We only need to provide formula for covariance prediction
 
 # create process noise matrix for covariance prediction
-state_new = state + Matrix([q_w, q_w, q_k_tas]) * dt
-Q = diag(q_w, q_k_tas)
-L = state_new.jacobian([q_w, q_k_tas])
+# each state has its own, independent noise source
+noise = Matrix(symbols("n_w_n n_w_e n_k_tas", real=True))
+state_new = state + noise * dt
+Q = diag(q_w, q_w, q_k_tas)
+L = state_new.jacobian(noise)
 Q = L * Q * Transpose(L)
 
 # define symbolic covariance matrix
-- 
2.43.0


From 70aa684782828db3abb0a93af99dc13d56fc8be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:37 +0000
Subject: [PATCH 11/23] fix: EKF: vertical gates look at the declared bad
 vertical acceleration, not at a flag nobody sets

---
 EKF/ekf.h              | 1 -
 EKF/vel_pos_fusion.cpp | 4 ++--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/EKF/ekf.h b/EKF/ekf.h
index f6549d5..199f5cd 100644
--- a/EKF/ekf.h
+++ b/EKF/ekf.h
@@ -524,7 +524,6 @@ private:
 	// imu fault status
 	uint64_t _time_bad_vert_accel{0};	///< last time a bad vertical accel was detected (uSec)
 	uint64_t _time_good_vert_accel{0};	///< last time a good vertical accel was detected (uSec)
-	bool _bad_vert_accel_detected{false};	///< true when bad vertical accelerometer data has been detected
 	uint16_t _clip_counter{0};		///< counter that increments when clipping ad decrements when not
 
 	// variables used to control range aid functionality
diff --git a/EKF/vel_pos_fusion.cpp b/EKF/vel_pos_fusion.cpp
index 9631304..f3b2bfb 100644
--- a/EKF/vel_pos_fusion.cpp
+++ b/EKF/vel_pos_fusion.cpp
@@ -86,7 +86,7 @@ bool Ekf::fuseVerticalVelocity(const Vector3f &innov, const Vector2f &innov_gate
 	// if there is bad vertical acceleration data, then don't reject measurement,
 	// but limit innovation to prevent spikes that could destabilise the filter
 	float innovation;
-	if (_bad_vert_accel_detected && !innov_check_pass) {
+	if (_fault_status.flags.bad_acc_vertical && !innov_check_pass) {
 		const float innov_limit = innov_gate(1) * sqrtf(innov_var(2));
 		innovation = math::constrain(innov(2), -innov_limit, innov_limit);
 		innov_check_pass = true;
@@ -157,7 +157,7 @@ bool Ekf::fuseVerticalPosition(const Vector3f &innov, const Vector2f &innov_gate
 	// if there is bad vertical acceleration data, then don't reject measurement,
 	// but limit innovation to prevent spikes that could destabilise the filter
 	float innovation;
-	if (_bad_vert_accel_detected && !innov_check_pass) {
+	if (_fault_status.flags.bad_acc_vertical && !innov_check_pass) {
 		const float innov_limit = innov_gate(1) * sqrtf(innov_var(2));
 		innovation = math::constrain(innov(2), -innov_limit, innov_limit);
 		innov_check_pass = true;
-- 
2.43.0


From ae12c232e5534cd9aea3a78eac2612e97006a2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:27 +0000
Subject: [PATCH 12/23] fix: EKF: subtract sensor delays from time stamps in
 integers, not in single precision

---
 EKF/estimator_interface.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/EKF/estimator_interface.cpp b/EKF/estimator_interface.cpp
index d94cd57..68565ef 100644
--- a/EKF/estimator_interface.cpp
+++ b/EKF/estimator_interface.cpp
@@ -153,7 +153,7 @@ void EstimatorInterface::setMagData(const magSample &mag_sample)
 
 		// Use the time in the middle of the downsampling interval for the sample
 		mag_sample_new.time_us = 1000 * (_mag_timestamp_sum / _mag_sample_count);
-		mag_sample_new.time_us -= _params.mag_delay_ms * 1000;
+		mag_sample_new.time_us -= static_cast<uint64_t>(_params.mag_delay_ms * 1000);
 		mag_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		mag_sample_new.mag = _mag_data_sum / _mag_sample_count;
@@ -192,7 +192,7 @@ void EstimatorInterface::setGpsData(const gps_message &gps)
 
 		gpsSample gps_sample_new;
 
-		gps_sample_new.time_us = gps.time_usec - _params.gps_delay_ms * 1000;
+		gps_sample_new.time_us = gps.time_usec - static_cast<uint64_t>(_params.gps_delay_ms * 1000);
 		gps_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		gps_sample_new.vel = gps.vel_ned;
@@ -264,7 +264,7 @@ void EstimatorInterface::setBaroData(const baroSample &baro_sample)
 
 		// Use the time in the middle of the downsampling interval for the sample
 		baro_sample_new.time_us = 1000 * (_baro_timestamp_sum / _baro_sample_count);
-		baro_sample_new.time_us -= _params.baro_delay_ms * 1000;
+		baro_sample_new.time_us -= static_cast<uint64_t>(_params.baro_delay_ms * 1000);
 		baro_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_baro_buffer.push(baro_sample_new);
@@ -298,7 +298,7 @@ void EstimatorInterface::setAirspeedData(const airspeedSample &airspeed_sample)
 
 		airspeedSample airspeed_sample_new = airspeed_sample;
 
-		airspeed_sample_new.time_us -= _params.airspeed_delay_ms * 1000;
+		airspeed_sample_new.time_us -= static_cast<uint64_t>(_params.airspeed_delay_ms * 1000);
 		airspeed_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_airspeed_buffer.push(airspeed_sample_new);
@@ -327,7 +327,7 @@ void EstimatorInterface::setRangeData(const rangeSample &range_sample)
 		_time_last_range = range_sample.time_us;
 
 		rangeSample range_sample_new = range_sample;
-		range_sample_new.time_us -= _params.range_delay_ms * 1000;
+		range_sample_new.time_us -= static_cast<uint64_t>(_params.range_delay_ms * 1000);
 		range_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_range_buffer.push(range_sample_new);
@@ -357,7 +357,7 @@ void EstimatorInterface::setOpticalFlowData(const flowSample &flow)
 
 		flowSample optflow_sample_new = flow;
 
-		optflow_sample_new.time_us -= _params.flow_delay_ms * 1000;
+		optflow_sample_new.time_us -= static_cast<uint64_t>(_params.flow_delay_ms * 1000);
 		optflow_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_flow_buffer.push(optflow_sample_new);
@@ -388,7 +388,7 @@ void EstimatorInterface::setExtVisionData(const extVisionSample &evdata)
 
 		extVisionSample ev_sample_new = evdata;
 		// calculate the system time-stamp for the mid point of the integration period
-		ev_sample_new.time_us -= _params.ev_delay_ms * 1000;
+		ev_sample_new.time_us -= static_cast<uint64_t>(_params.ev_delay_ms * 1000);
 		ev_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_ext_vision_buffer.push(ev_sample_new);
@@ -418,7 +418,7 @@ void EstimatorInterface::setAuxVelData(const auxVelSample &auxvel_sample)
 
 		auxVelSample auxvel_sample_new = auxvel_sample;
 
-		auxvel_sample_new.time_us -= _params.auxvel_delay_ms * 1000;
+		auxvel_sample_new.time_us -= static_cast<uint64_t>(_params.auxvel_delay_ms * 1000);
 		auxvel_sample_new.time_us -= FILTER_UPDATE_PERIOD_MS * 1000 / 2;
 
 		_auxvel_buffer.push(auxvel_sample_new);
-- 
2.43.0


From 451ca01c6d35ab6de49b35edb28df89d1dbb46d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:27 +0000
Subject: [PATCH 13/23] fix: EKF: never size the buffers for less than two
 samples (division by zero)

---
 EKF/estimator_interface.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/EKF/estimator_interface.cpp b/EKF/estimator_interface.cpp
index 68565ef..217c38d 100644
--- a/EKF/estimator_interface.cpp
+++ b/EKF/estimator_interface.cpp
@@ -513,6 +513,10 @@ bool EstimatorInterface::initialise_interface(uint64_t timestamp)
 	const float ekf_delay_ms = max_time_delay_ms * 1.5f;
 	_obs_buffer_length = ceilf(ekf_delay_ms / _params.sensor_interval_min_ms);
 
+	// at least two samples are required to define an interval between observations
+	_imu_buffer_length = math::max(_imu_buffer_length, (uint8_t)2);
+	_obs_buffer_length = math::max(_obs_buffer_length, (uint8_t)2);
+
 	// limit to be no longer than the IMU buffer (we can't process data faster than the EKF prediction rate)
 	_obs_buffer_length = math::min(_obs_buffer_length, _imu_buffer_length);
 
-- 
2.43.0


From e0cb6060e679bec8e828aef84324941d24a53da0 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 02:34:12 +0000
Subject: [PATCH 14/23] fix: EKF: the last velocity observation variance is
 that of the auxiliary observation

---
 EKF/control.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 2a354f5..e52caec 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -1344,7 +1344,7 @@ void Ekf::controlAuxVelFusion()
 
 		_last_vel_obs = _auxvel_sample_delayed.vel;
 		_aux_vel_innov = _state.vel - _last_vel_obs;
-		_last_vel_obs_var = _aux_vel_innov_var;
+		_last_vel_obs_var = _auxvel_sample_delayed.velVar;
 
 		fuseHorizontalVelocity(_aux_vel_innov, aux_vel_innov_gate, _auxvel_sample_delayed.velVar,
 				_aux_vel_innov_var, _aux_vel_test_ratio);
-- 
2.43.0


From 7423f8104b4fd09bbed5dadddfd4b68f6b977d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:22 +0000
Subject: [PATCH 15/23] fix: EKF: do not fuse a vision position change before
 there is a previous position to compare with

---
 EKF/control.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index e52caec..55ca2de 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -235,6 +235,8 @@ void Ekf::controlExternalVisionFusion()
 			const Vector3f pos_offset_earth = _R_to_earth * pos_offset_body;
 			_ev_sample_delayed.pos -= pos_offset_earth;
 
+			bool is_ev_pos_innov_available = true;
+
 			// Use an incremental position fusion method for EV position data if GPS is also used
 			if (_params.fusion_mode & MASK_USE_GPS) {
 				_fuse_hpos_as_odom = true;
@@ -246,6 +248,7 @@ void Ekf::controlExternalVisionFusion()
 				if (!_hpos_prev_available) {
 					// no previous observation available to calculate position change
 					_hpos_prev_available = true;
+					is_ev_pos_innov_available = false;
 
 				} else {
 					// calculate the change in position since the last measurement
@@ -298,7 +301,9 @@ void Ekf::controlExternalVisionFusion()
 			// innovation gate size
 			ev_pos_innov_gates(0) = fmaxf(_params.ev_pos_innov_gate, 1.0f);
 
-			fuseHorizontalPosition(_ev_pos_innov, ev_pos_innov_gates, ev_pos_obs_var, _ev_pos_innov_var, _ev_pos_test_ratio);
+			if (is_ev_pos_innov_available) {
+				fuseHorizontalPosition(_ev_pos_innov, ev_pos_innov_gates, ev_pos_obs_var, _ev_pos_innov_var, _ev_pos_test_ratio);
+			}
 		}
 
 		// determine if we should use the velocity observations
-- 
2.43.0


From 5981cf2feb5049f3c6449fc4dd651d682d4eec89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:32 +0000
Subject: [PATCH 16/23] fix: EKF: an accepted GPS position counts as absolute
 position fusion when vision is fused as odometry

---
 EKF/control.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index 55ca2de..f4fbcd7 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -719,6 +719,9 @@ void Ekf::controlGpsFusion()
 			gps_pos_innov_gates(0) = fmaxf(_params.gps_pos_innov_gate, 1.0f);
 			gps_vel_innov_gates(0) = gps_vel_innov_gates(1) = fmaxf(_params.gps_vel_innov_gate, 1.0f);
 
+			// GPS is an absolute position observation, also when vision position is fused as odometry
+			_fuse_hpos_as_odom = false;
+
 			// fuse GPS measurement
 			fuseHorizontalVelocity(_gps_vel_innov, gps_vel_innov_gates, _last_vel_obs_var, _gps_vel_innov_var, _gps_vel_test_ratio);
 			fuseVerticalVelocity(_gps_vel_innov, gps_vel_innov_gates, _last_vel_obs_var, _gps_vel_innov_var, _gps_vel_test_ratio);
-- 
2.43.0


From 2192c0fb1c837d8eae603dbcb33eab2919633cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:41 +0000
Subject: [PATCH 17/23] fix: EKF: every horizontal position reset invalidates
 the previous odometry position

---
 EKF/ekf_helper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 1c8d16c..2feb054 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -159,9 +159,6 @@ void Ekf::resetVerticalVelocityTo(float new_vert_vel)
 
 void Ekf::resetHorizontalPosition()
 {
-	// let the next odometry update know that the previous value of states cannot be used to calculate the change in position
-	_hpos_prev_available = false;
-
 	if (_control_status.flags.gps) {
 		// this reset is only called if we have new gps data at the fusion time horizon
 		resetHorizontalPositionToGps();
@@ -218,6 +215,9 @@ void Ekf::resetHorizontalPositionToVision()
 
 void Ekf::resetHorizontalPositionTo(const Vector2f &new_horz_pos)
 {
+	// let the next odometry update know that the previous value of states cannot be used to calculate the change in position
+	_hpos_prev_available = false;
+
 	const Vector2f delta_horz_pos{new_horz_pos - Vector2f{_state.pos}};
 	_state.pos.xy() = new_horz_pos;
 
-- 
2.43.0


From 6edb1044edbbc9230b261334f7f6540159e78441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:42 +0000
Subject: [PATCH 18/23] fix: EKF: compute vision innovations after a timeout
 reset, not before

---
 EKF/control.cpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/EKF/control.cpp b/EKF/control.cpp
index f4fbcd7..b3f1585 100644
--- a/EKF/control.cpp
+++ b/EKF/control.cpp
@@ -273,6 +273,17 @@ void Ekf::controlExternalVisionFusion()
 				_hpos_pred_prev = _state.pos.xy();
 
 			} else {
+				// check if we have been deadreckoning too long
+				if (isTimedOut(_time_last_hor_pos_fuse, _params.reset_timeout_max)) {
+					// only reset velocity if we have no another source of aiding constraining it
+					if (isTimedOut(_time_last_of_fuse, (uint64_t)1E6) &&
+					    isTimedOut(_time_last_hor_vel_fuse, (uint64_t)1E6)) {
+						resetVelocity();
+					}
+
+					resetHorizontalPosition();
+				}
+
 				// use the absolute position
 				Vector3f ev_pos_meas = _ev_sample_delayed.pos;
 				Matrix3f ev_pos_var = matrix::diag(_ev_sample_delayed.posVar);
@@ -285,17 +296,6 @@ void Ekf::controlExternalVisionFusion()
 
 				ev_pos_obs_var(0) = fmaxf(ev_pos_var(0, 0), sq(0.01f));
 				ev_pos_obs_var(1) = fmaxf(ev_pos_var(1, 1), sq(0.01f));
-
-				// check if we have been deadreckoning too long
-				if (isTimedOut(_time_last_hor_pos_fuse, _params.reset_timeout_max)) {
-					// only reset velocity if we have no another source of aiding constraining it
-					if (isTimedOut(_time_last_of_fuse, (uint64_t)1E6) &&
-					    isTimedOut(_time_last_hor_vel_fuse, (uint64_t)1E6)) {
-						resetVelocity();
-					}
-
-					resetHorizontalPosition();
-				}
 			}
 
 			// innovation gate size
@@ -311,9 +311,6 @@ void Ekf::controlExternalVisionFusion()
 
 			Vector2f ev_vel_innov_gates;
 
-			_last_vel_obs = getVisionVelocityInEkfFrame();
-			_ev_vel_innov = _state.vel - _last_vel_obs;
-
 			// check if we have been deadreckoning too long
 			if (isTimedOut(_time_last_hor_vel_fuse, _params.reset_timeout_max)) {
 				// only reset velocity if we have no another source of aiding constraining it
@@ -323,6 +320,9 @@ void Ekf::controlExternalVisionFusion()
 				}
 			}
 
+			_last_vel_obs = getVisionVelocityInEkfFrame();
+			_ev_vel_innov = _state.vel - _last_vel_obs;
+
 			_last_vel_obs_var = matrix::max(getVisionVelocityVarianceInEkfFrame(), sq(0.05f));
 
 			ev_vel_innov_gates.setAll(fmaxf(_params.ev_vel_innov_gate, 1.0f));
-- 
2.43.0


From 0845391fb6ef02cc1c10deffee1c6d8c6ac05d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:14 +0000
Subject: [PATCH 19/23] fix: EKF: initialise the vertical innovation ratios and
 times used to detect bad accelerometer data

---
 EKF/ekf.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/EKF/ekf.h b/EKF/ekf.h
index 199f5cd..fb576e3 100644
--- a/EKF/ekf.h
+++ b/EKF/ekf.h
@@ -401,10 +401,10 @@ private:
 	Vector3f _last_vel_obs;			///< last velocity observation (m/s)
 	Vector3f _last_vel_obs_var;		///< last velocity observation variance (m/s)**2
 	Vector2f _last_fail_hvel_innov;		///< last failed horizontal velocity innovation (m/s)**2
-	float _vert_pos_innov_ratio;		///< vertical position innovation divided by estimated standard deviation of innovation
-	uint64_t _vert_pos_fuse_attempt_time_us;	///< last system time in usec vertical position measurement fuson was attempted
-	float _vert_vel_innov_ratio;		///< standard deviation of vertical velocity innovation
-	uint64_t _vert_vel_fuse_time_us;	///< last system time in usec time vertical velocity measurement fuson was attempted
+	float _vert_pos_innov_ratio{0.0f};		///< vertical position innovation divided by estimated standard deviation of innovation
+	uint64_t _vert_pos_fuse_attempt_time_us{0};	///< last system time in usec vertical position measurement fuson was attempted
+	float _vert_vel_innov_ratio{0.0f};		///< standard deviation of vertical velocity innovation
+	uint64_t _vert_vel_fuse_time_us{0};	///< last system time in usec time vertical velocity measurement fuson was attempted
 
 	Vector3f _gps_vel_innov;	///< GPS velocity innovations (m/sec)
 	Vector3f _gps_vel_innov_var;	///< GPS velocity innovation variances ((m/sec)**2)
-- 
2.43.0


From be73645d2d3a4bd97773029864b17af46589cfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:49 +0000
Subject: [PATCH 20/23] fix: EKF: status words start with all bits cleared, not
 only the named flags

---
 EKF/common.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/EKF/common.h b/EKF/common.h
index 37f3c85..8153a66 100644
--- a/EKF/common.h
+++ b/EKF/common.h
@@ -407,7 +407,7 @@ union fault_status_u {
 		bool bad_acc_vertical: 1; ///< 16 - true if bad vertical accelerometer data has been detected
 		bool bad_acc_clipping: 1; ///< 17 - true if delta velocity data contains clipping (asymmetric railing)
 	} flags;
-	uint32_t value;
+	uint32_t value{0};
 
 };
 
@@ -428,7 +428,7 @@ union innovation_fault_status_u {
 		bool reject_optflow_X: 1;	///< 11 - true if the X optical flow observation has been rejected
 		bool reject_optflow_Y: 1;	///< 12 - true if the Y optical flow observation has been rejected
 	} flags;
-	uint16_t value;
+	uint16_t value{0};
 
 };
 
@@ -446,7 +446,7 @@ union gps_check_fail_status_u {
 		uint16_t hspeed : 1; ///< 8 - true if horizontal speed is excessive (can only be used when stationary on ground)
 		uint16_t vspeed : 1; ///< 9 - true if vertical speed error is excessive
 	} flags;
-	uint16_t value;
+	uint16_t value{0};
 };
 
 // bitmask containing filter control status
@@ -480,7 +480,7 @@ union filter_control_status_u {
 		uint32_t synthetic_mag_z : 1; ///< 25 - true when we are using a synthesized measurement for the magnetometer Z component
 		uint32_t vehicle_at_rest : 1; ///< 26 - true when the vehicle is at rest
 	} flags;
-	uint32_t value;
+	uint32_t value{0};
 };
 
  // Mavlink bitmask containing state of estimator solution
@@ -499,7 +499,7 @@ union ekf_solution_status {
 		uint16_t gps_glitch         : 1; ///< 10 - True if the EKF has detected a GPS glitch
 		uint16_t accel_error        : 1; ///< 11 - True if the EKF has detected bad accelerometer data
 	} flags;
-	uint16_t value;
+	uint16_t value{0};
 };
 
 union terrain_fusion_status_u {
@@ -507,7 +507,7 @@ union terrain_fusion_status_u {
 		bool range_finder: 1;	///< 0 - true if we are fusing range finder data
 		bool flow: 1;		///< 1 - true if we are fusing flow data
 	} flags;
-	uint8_t value;
+	uint8_t value{0};
 };
 
 // define structure used to communicate information events
@@ -527,7 +527,7 @@ union information_event_status_u {
 		bool starting_vision_yaw_fusion	: 1; ///< 11 - true when the filter starts using vision system yaw  measurements to correct the state estimates
 		bool yaw_aligned_to_imu_gps	: 1; ///< 12 - true when the filter resets the yaw to an estimate derived from IMU and GPS data
 	} flags;
-	uint32_t value;
+	uint32_t value{0};
 };
 
 // define structure used to communicate information events
@@ -545,7 +545,7 @@ union warning_event_status_u {
 		bool vision_data_stopped		: 1; ///< 9 - true when the vision system data has stopped for a significant time period
 		bool emergency_yaw_reset_mag_stopped	: 1; ///< 10 - true when the filter has detected bad magnetometer data, has reset the yaw to anothter source of data and has stopped further use of the magnetomer data
 	} flags;
-	uint32_t value;
+	uint32_t value{0};
 };
 
 }
-- 
2.43.0


From dad93f6d2da15d674e4a47c2b407df4089cdcffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:25 +0000
Subject: [PATCH 21/23] fix: EKF: wrap the declination error used to fuse and
 limit the magnetic declination

---
 EKF/mag_fusion.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/EKF/mag_fusion.cpp b/EKF/mag_fusion.cpp
index ce152b4..70da50c 100644
--- a/EKF/mag_fusion.cpp
+++ b/EKF/mag_fusion.cpp
@@ -882,7 +882,7 @@ void Ekf::fuseDeclination(float decl_sigma)
 		Kfusion(row) = -HK9*(HK5*P(16,row) - P(17,row));
 	}
 
-	const float innovation = math::constrain(atan2f(magE, magN) - getMagDeclination(), -0.5f, 0.5f);
+	const float innovation = math::constrain(wrap_pi(atan2f(magE, magN) - getMagDeclination()), -0.5f, 0.5f);
 
 	const bool is_fused = measurementUpdate(Kfusion, Hfusion, innovation);
 
@@ -935,11 +935,11 @@ void Ekf::limitDeclination()
 	constexpr float decl_tolerance = 0.5f;
 	const float decl_max = decl_reference + decl_tolerance;
 	const float decl_min = decl_reference - decl_tolerance;
-	const float decl_estimate = atan2f(_state.mag_I(1) , _state.mag_I(0));
-	if (decl_estimate > decl_max)  {
+	const float decl_error = wrap_pi(atan2f(_state.mag_I(1) , _state.mag_I(0)) - decl_reference);
+	if (decl_error > decl_tolerance)  {
 		_state.mag_I(0) = h_field * cosf(decl_max);
 		_state.mag_I(1) = h_field * sinf(decl_max);
-	} else if (decl_estimate < decl_min)  {
+	} else if (decl_error < -decl_tolerance)  {
 		_state.mag_I(0) = h_field * cosf(decl_min);
 		_state.mag_I(1) = h_field * sinf(decl_min);
 	}
-- 
2.43.0


From 6f399461c02e22768b604024bbc630a746e58f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:53 +0000
Subject: [PATCH 22/23] fix: geo: distance to an arc tests the sector from the
 centre, places its ends around the centre and is signed as documented

---
 geo/geo.cpp | 62 ++++++++++++-----------------------------------------
 1 file changed, 14 insertions(+), 48 deletions(-)

diff --git a/geo/geo.cpp b/geo/geo.cpp
index 54366d8..b7a9ba5 100644
--- a/geo/geo.cpp
+++ b/geo/geo.cpp
@@ -314,9 +314,8 @@ int get_distance_to_arc(struct crosstrack_error_s *crosstrack_error, double lat_
 
 	// Determine if the current position is inside or outside the sector between the line from the center
 	// to the arc start and the line from the center to the arc end
-	float bearing_sector_start = 0.0f;
-	float bearing_sector_end = 0.0f;
-	float bearing_now = get_bearing_to_next_waypoint(lat_now, lon_now, lat_center, lon_center);
+	const float bearing_to_center = get_bearing_to_next_waypoint(lat_now, lon_now, lat_center, lon_center);
+	const float bearing_from_center = get_bearing_to_next_waypoint(lat_center, lon_center, lat_now, lon_now);
 
 	int return_value = -1;		// Set error flag, cleared when valid result calculated.
 	crosstrack_error->past_end = false;
@@ -328,66 +327,33 @@ int get_distance_to_arc(struct crosstrack_error_s *crosstrack_error, double lat_
 		return return_value;
 	}
 
-	if (arc_sweep >= 0.0f) {
-		bearing_sector_start = arc_start_bearing;
-		bearing_sector_end = arc_start_bearing + arc_sweep;
-
-		if (bearing_sector_end > 2.0f * M_PI_F) { bearing_sector_end -= (2 * M_PI_F); }
-
-	} else {
-		bearing_sector_end = arc_start_bearing;
-		bearing_sector_start = arc_start_bearing - arc_sweep;
-
-		if (bearing_sector_start < 0.0f) { bearing_sector_start += (2 * M_PI_F); }
-	}
-
-	bool in_sector = false;
-
-	// Case where sector does not span zero
-	if (bearing_sector_end >= bearing_sector_start && bearing_now >= bearing_sector_start
-	    && bearing_now <= bearing_sector_end) {
-
-		in_sector = true;
-	}
-
-	// Case where sector does span zero
-	if (bearing_sector_end < bearing_sector_start && (bearing_now > bearing_sector_start
-			|| bearing_now < bearing_sector_end)) {
-
-		in_sector = true;
-	}
+	// angle travelled along the arc from its start to the current position
+	const float direction = (arc_sweep >= 0.0f) ? 1.0f : -1.0f;
+	const float angle_from_start = wrap_2pi(direction * (bearing_from_center - arc_start_bearing));
+	const bool in_sector = (angle_from_start <= fabsf(arc_sweep));
 
 	// If in the sector then calculate distance and bearing to closest point
 	if (in_sector) {
 		crosstrack_error->past_end = false;
 		float dist_to_center = get_distance_to_next_waypoint(lat_now, lon_now, lat_center, lon_center);
 
+		// the center is on the right side of a clockwise arc
+		crosstrack_error->distance = direction * (radius - dist_to_center);
+
 		if (dist_to_center <= radius) {
-			crosstrack_error->distance = radius - dist_to_center;
-			crosstrack_error->bearing = bearing_now + M_PI_F;
+			crosstrack_error->bearing = bearing_to_center + M_PI_F;
 
 		} else {
-			crosstrack_error->distance = dist_to_center - radius;
-			crosstrack_error->bearing = bearing_now;
+			crosstrack_error->bearing = bearing_to_center;
 		}
 
 		// If out of the sector then calculate dist and bearing to start or end point
 
 	} else {
 
-		// Use the approximation  that 111,111 meters in the y direction is 1 degree (of latitude)
-		// and 111,111 * cos(latitude) meters in the x direction is 1 degree (of longitude) to
-		// calculate the position of the start and end points.  We should not be doing this often
-		// as this function generally will not be called repeatedly when we are out of the sector.
-
-		double start_disp_x = (double)radius * sin((double)arc_start_bearing);
-		double start_disp_y = (double)radius * cos((double)arc_start_bearing);
-		double end_disp_x = (double)radius * sin((double)wrap_pi(arc_start_bearing + arc_sweep));
-		double end_disp_y = (double)radius * cos((double)wrap_pi(arc_start_bearing + arc_sweep));
-		double lon_start = lon_now + start_disp_x / 111111.0;
-		double lat_start = lat_now + start_disp_y * cos(lat_now) / 111111.0;
-		double lon_end = lon_now + end_disp_x / 111111.0;
-		double lat_end = lat_now + end_disp_y * cos(lat_now) / 111111.0;
+		double lat_start, lon_start, lat_end, lon_end;
+		waypoint_from_heading_and_distance(lat_center, lon_center, arc_start_bearing, radius, &lat_start, &lon_start);
+		waypoint_from_heading_and_distance(lat_center, lon_center, arc_start_bearing + arc_sweep, radius, &lat_end, &lon_end);
 		float dist_to_start = get_distance_to_next_waypoint(lat_now, lon_now, lat_start, lon_start);
 		float dist_to_end = get_distance_to_next_waypoint(lat_now, lon_now, lat_end, lon_end);
 
-- 
2.43.0


From 00d7258fbf25e8440dbcf175288c36f1481b3ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:09 +0000
Subject: [PATCH 23/23] fix: EKF: report no height innovation test ratio
 without height source instead of leaving it unwritten

---
 EKF/ekf_helper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/EKF/ekf_helper.cpp b/EKF/ekf_helper.cpp
index 2feb054..385da15 100644
--- a/EKF/ekf_helper.cpp
+++ b/EKF/ekf_helper.cpp
@@ -947,6 +947,9 @@ void Ekf::get_innovation_test_status(uint16_t &status, float &mag, float &vel, f
 
 	} else if (_control_status.flags.ev_hgt) {
 		hgt = sqrtf(_ev_pos_test_ratio(1));
+
+	} else {
+		hgt = NAN;
 	}
 
 	// return the airspeed fusion innovation test ratio
-- 
2.43.0

