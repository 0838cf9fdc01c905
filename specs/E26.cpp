// E26: the public interface sets exactly what it is told and reports exactly the quantity it names
#include "fusion.h"
#ifndef ECLVC_LAYOUT
#include "vc_layout.h"
#include <initializer_list>

alignas(16) static unsigned char before_[sizeof(Ekf)];
static void snapshot(const Ekf &e) { memcpy(before_, &e, sizeof(Ekf)); }
struct Part { const void *p; size_t n; };
// every member of the filter other than these is what it was
static void frame(const Ekf &e, std::initializer_list<Part> parts, const char *what)
{
	const unsigned char *now = (const unsigned char *)&e;
	for (const vc_member &m : Ekf_members) {
		bool allowed = false;
		for (const Part &p : parts) { const size_t o = (size_t)((const unsigned char *)p.p - now); allowed = allowed || (m.off >= o && m.off + m.size <= o + p.n); }
		if (allowed) { continue; }
		bool same = true;
		for (unsigned i = 0; i < m.size; i++) { same = same && now[m.off + i] == before_[m.off + i]; }
		vc_assert(same, what);
	}
}
#define PART(x) Part{&(x), sizeof(x)}
VC_PROOF(E26_settings)
{
	Ekf &e = any_ekf();
	vc_mode("uf");
	const bool b = vc_bool("flag"); const float f = vc_f32("f"), g = vc_f32("g"), h = vc_f32("h");
	VC_SCOPE {
		snapshot(e); filter_control_status_u c = e._control_status;
		const uint64_t ground = e._time_last_on_ground_us, air = e._time_last_in_air;
		e.set_in_air_status(b); c.flags.in_air = b;
		vc_assert(e._control_status.value == c.value && e.get_in_air_status() == b && e._time_last_on_ground_us == (b ? ground : e._time_last_imu) && e._time_last_in_air == (b ? e._time_last_imu : air), "landed status, and when it last was");
		frame(e, {PART(e._control_status), PART(e._time_last_on_ground_us), PART(e._time_last_in_air)}, "landed status changes nothing else");
	}
	VC_SCOPE {
		snapshot(e); filter_control_status_u c = e._control_status;
		e.set_is_fixed_wing(b); c.flags.fixed_wing = b;
		vc_assert(e._control_status.value == c.value, "vehicle type");
		frame(e, {PART(e._control_status)}, "vehicle type changes nothing else");
	}
	VC_SCOPE {
		snapshot(e); filter_control_status_u c = e._control_status;
		e.set_fuse_beta_flag(b); c.flags.fuse_beta = b && c.flags.in_air;
		vc_assert(e._control_status.value == c.value, "synthetic sideslip only in flight");
		frame(e, {PART(e._control_status)}, "synthetic sideslip changes nothing else");
	}
	VC_SCOPE {
		snapshot(e); filter_control_status_u c = e._control_status;
		e.set_gnd_effect_flag(b); c.flags.gnd_effect = b;
		vc_assert(e._control_status.value == c.value && e._time_last_gnd_effect_on == e._time_last_imu, "ground effect, and when it was set");
		frame(e, {PART(e._control_status), PART(e._time_last_gnd_effect_on)}, "ground effect changes nothing else");
	}
	VC_SCOPE {
		snapshot(e); filter_control_status_u c = e._control_status;
		e.set_air_density(f);
		vc_assert(vc_same(e._air_density, f), "air density");
		frame(e, {PART(e._air_density)}, "air density changes nothing else");
	}
	VC_SCOPE {
		snapshot(e); filter_control_status_u c = e._control_status;
		e.set_rangefinder_limits(f, g);
		vc_assert(vc_same(e._range_sensor.getValidMinVal(), f) && vc_same(e._range_sensor.getValidMaxVal(), g), "range finder limits");
		frame(e, {PART(e._range_sensor._rng_valid_min_val), PART(e._range_sensor._rng_valid_max_val)}, "range finder limits change nothing else");
	}
	VC_SCOPE {
		snapshot(e); filter_control_status_u c = e._control_status;
		e.set_optical_flow_limits(f, g, h);
		vc_assert(vc_same(e._flow_max_rate, f) && vc_same(e._flow_min_distance, g) && vc_same(e._flow_max_distance, h), "flow limits");
		frame(e, {PART(e._flow_max_rate), PART(e._flow_min_distance), PART(e._flow_max_distance)}, "flow limits change nothing else");
	}
	VC_SCOPE {
		snapshot(e); filter_control_status_u c = e._control_status;
		const uint32_t t = vc_u64_in("t", 0, 0xffffffffu);
		e.set_min_required_gps_health_time(t);
		vc_assert(e._min_gps_health_time_us == t, "time GPS must be healthy");
		frame(e, {PART(e._min_gps_health_time_us)}, "time GPS must be healthy changes nothing else");
	}
	VC_SCOPE {
		snapshot(e); filter_control_status_u c = e._control_status;
		e.requestEmergencyNavReset();
		vc_assert(e._do_ekfgsf_yaw_reset, "a yaw and navigation reset is requested");
		frame(e, {PART(e._do_ekfgsf_yaw_reset)}, "the request changes nothing else");
	}
	VC_SCOPE {
		snapshot(e); filter_control_status_u c = e._control_status;
		e.clear_warning_events();
		vc_assert(e.warning_event_status().value == 0, "warnings are cleared");
		frame(e, {PART(e._warning_events)}, "clearing warnings changes nothing else");
	}
	VC_SCOPE {
		snapshot(e); filter_control_status_u c = e._control_status;
		e.clear_information_events();
		vc_assert(e.information_event_status().value == 0, "information is cleared");
		frame(e, {PART(e._information_events)}, "clearing information changes nothing else");
	}
}
VC_PROOF(E26_innovations)
{
	Ekf &e = any_ekf();
	vc_mode("uf");
	float a, b, c; float p[3], q[3];
#define SCALAR(get, x) e.get(a); vc_assert(vc_same(a, x), #get)
	SCALAR(getBaroHgtInnov, e._baro_hgt_innov(2)); SCALAR(getBaroHgtInnovVar, e._baro_hgt_innov_var(2)); SCALAR(getBaroHgtInnovRatio, e._baro_hgt_test_ratio(1));
	SCALAR(getRngHgtInnov, e._rng_hgt_innov(2)); SCALAR(getRngHgtInnovVar, e._rng_hgt_innov_var(2)); SCALAR(getRngHgtInnovRatio, e._rng_hgt_test_ratio(1));
	SCALAR(getAuxVelInnovRatio, e._aux_vel_test_ratio(0)); SCALAR(getFlowInnovRatio, e._optflow_test_ratio);
	SCALAR(getHeadingInnov, e._heading_innov); SCALAR(getHeadingInnovVar, e._heading_innov_var); SCALAR(getHeadingInnovRatio, e._yaw_test_ratio);
	SCALAR(getAirspeedInnov, e._airspeed_innov); SCALAR(getAirspeedInnovVar, e._airspeed_innov_var); SCALAR(getAirspeedInnovRatio, e._tas_test_ratio);
	SCALAR(getBetaInnov, e._beta_innov); SCALAR(getBetaInnovVar, e._beta_innov_var); SCALAR(getBetaInnovRatio, e._beta_test_ratio);
	SCALAR(getHaglInnov, e._hagl_innov); SCALAR(getHaglInnovVar, e._hagl_innov_var); SCALAR(getHaglInnovRatio, e._hagl_test_ratio);
#define VECTOR(get, x, n) e.get(p); for (int i = 0; i < n; i++) { vc_assert(vc_same(p[i], x(i)), #get); }
	VECTOR(getFlowInnov, e._flow_innov, 2) VECTOR(getFlowInnovVar, e._flow_innov_var, 2) VECTOR(getMagInnov, e._mag_innov, 3) VECTOR(getMagInnovVar, e._mag_innov_var, 3)
	VECTOR(getDragInnov, e._drag_innov, 2) VECTOR(getDragInnovVar, e._drag_innov_var, 2) VECTOR(getDragInnovRatio, e._drag_test_ratio, 2)
#define SAME(get, x, n) for (int i = 0; i < n; i++) { vc_assert(vc_same(e.get()(i), x(i)), #get); }
	SAME(getFlowVelBody, e._flow_vel_body, 2) SAME(getFlowVelNE, e._flow_vel_ne, 2) SAME(getFlowCompensated, e._flow_compensated_XY_rad, 2) SAME(getFlowUncompensated, e._flow_sample_delayed.flow_xy_rad, 2) SAME(getFlowGyro, e._flow_sample_delayed.gyro_xyz, 3)
	SAME(getMagBias, e._state.mag_B, 3) SAME(getOutputTrackingError, e._output_tracking_error, 3) SAME(getImuVibrationMetrics, e._vibe_metrics, 3) SAME(getVelocityDerivative, e._vel_deriv, 3)
	VC_SCOPE {
		vc_mode("fp");
		const Vector3f r = e._mag_test_ratio;
		vc_assume(r(0) >= 0.f && r(1) >= 0.f && r(2) >= 0.f);
		e.getMagInnovRatio(c);
		vc_assert((c == r(0) || c == r(1) || c == r(2)) && c >= r(0) && c >= r(1) && c >= r(2), "getMagInnovRatio is the largest");
	}
	VC_SCOPE {
		float d;
#define VELPOS(get, v, x) e.get(p, b, q, d); for (int i = 0; i < 2; i++) { vc_assert(vc_same(p[i], v(i)) && vc_same(q[i], x(i)), #get " horizontal"); } vc_assert(vc_same(b, v(2)) && vc_same(d, x(2)), #get " vertical");
		VELPOS(getGpsVelPosInnov, e._gps_vel_innov, e._gps_pos_innov) VELPOS(getGpsVelPosInnovVar, e._gps_vel_innov_var, e._gps_pos_innov_var)
		VELPOS(getEvVelPosInnov, e._ev_vel_innov, e._ev_pos_innov) VELPOS(getEvVelPosInnovVar, e._ev_vel_innov_var, e._ev_pos_innov_var)
#define RATIOS(get, v, x) e.get(a, b, c, d); vc_assert(vc_same(a, v(0)) && vc_same(b, v(1)) && vc_same(c, x(0)) && vc_same(d, x(1)), #get);
		RATIOS(getGpsVelPosInnovRatio, e._gps_vel_test_ratio, e._gps_pos_test_ratio) RATIOS(getEvVelPosInnovRatio, e._ev_vel_test_ratio, e._ev_pos_test_ratio)
		VECTOR(getAuxVelInnov, e._aux_vel_innov, 2) VECTOR(getAuxVelInnovVar, e._aux_vel_innov_var, 2)
	}
}
VC_PROOF(E26_status)
{
	Ekf &e = any_ekf();
	vc_mode("uf");
	const bool origin = e._NED_origin_initialised, local = !e._deadreckon_time_exceeded && !e._using_synthetic_position;
	vc_assert(e.local_position_is_valid() == local && e.global_position_is_valid() == (local && origin) && e.global_origin_valid() == origin, "position is valid while not dead reckoning too long, held or without origin");
	vc_assert(e.isTerrainEstimateValid() == e._hagl_valid && e.getTerrainEstimateSensorBitfield() == e._hagl_sensor_status.value && vc_same(e.getTerrainVertPos(), e._terrain_vpos) && vc_same(e.get_terrain_var(), e._terrain_var), "terrain");
	vc_assert(e.inertial_dead_reckoning() == e._is_dead_reckoning && e.isVehicleAtRest() == e._control_status.flags.vehicle_at_rest && e.get_wind_status() == e._control_status.flags.wind && e.get_in_air_status() == e._control_status.flags.in_air, "motion status");
	uint16_t s; e.get_gps_check_status(&s);
	vc_assert(s == e._gps_check_fail_status.value, "GPS checks");
	vc_assert(&e.control_status() == &e._control_status && &e.control_status_flags() == &e._control_status.flags && &e.control_status_prev() == &e._control_status_prev && &e.control_status_prev_flags() == &e._control_status_prev.flags && &e.fault_status() == &e._fault_status && &e.fault_status_flags() == &e._fault_status.flags && &e.innov_check_fail_status() == &e._innov_check_fail_status && &e.innov_check_fail_status_flags() == &e._innov_check_fail_status.flags && &e.warning_event_status() == &e._warning_events && &e.warning_event_flags() == &e._warning_events.flags && &e.information_event_status() == &e._information_events && &e.information_event_flags() == &e._information_events.flags, "status words");
	vc_assert(vc_same(e.getEkfGlobalOriginAltitude(), e._gps_alt_ref) && &e.global_origin() == &e._pos_ref, "origin");
	vc_assert(&e.get_imu_sample_delayed() == &e._imu_sample_delayed && &e.get_baro_sample_delayed() == &e._baro_sample_delayed && vc_same(e.get_dt_imu_avg(), e._dt_imu_avg) && e.getParamHandle() == &e._params, "delayed samples, interval and parameters");
	for (int i = 0; i < 4; i++) { for (int j = 0; j < 4; j++) { vc_assert(vc_same(e.orientation_covariances()(i, j), e.P(i, j)), "orientation covariance"); } }
	for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { vc_assert(vc_same(e.velocity_covariances()(i, j), e.P(4 + i, 4 + j)) && vc_same(e.position_covariances()(i, j), e.P(7 + i, 7 + j)), "velocity and position covariance"); } }
	vc_assert(&e.covariances() == &e.P, "covariance");
	const Quatf turn = e.getVisionAlignmentQuaternion(), want(Dcmf(e._R_ev_to_ekf));
	for (int i = 0; i < 4; i++) { vc_assert(vc_same(turn(i), want(i)), "rotation from the vision frame"); }
}
VC_PROOF(E26_yaw_estimator)
{
	Ekf &e = any_ekf();
	vc_mode("uf");
	float y = -1.f, v = -2.f, yaw[5] = {}, n[5] = {}, ea[5] = {}, w[5] = {};
	EKFGSF_yaw &g = e._yawEstimator;
	const bool on = g._ekf_gsf_vel_fuse_started;
	vc_assert(e.getDataEKFGSF(&y, &v, yaw, n, ea, w) == on, "available once it runs");
	vc_assert(vc_same(y, on ? g._gsf_yaw : -1.f) && vc_same(v, on ? g._gsf_yaw_variance : -2.f), "combined yaw and its variance");
	for (int i = 0; i < 5; i++) {
		vc_assert(vc_same(yaw[i], on ? g._ekf_gsf[i].X(2) : 0.f) && vc_same(n[i], on ? g._ekf_gsf[i].innov(0) : 0.f) && vc_same(ea[i], on ? g._ekf_gsf[i].innov(1) : 0.f) && vc_same(w[i], on ? g._model_weights(i) : 0.f), "each hypothesis");
	}
}
#endif
