// E14: what the estimator reports about the quality of its own solution
#include "output.h"

static Ekf &setup()
{
	vc_mode("real"); vc_tol(1e-4, 1e-4);
	Ekf &e = any_ekf();
	symmetric_P(e);
	vc_assume(e._time_last_imu < (1ull << 50));
	return e;
}
static bool recent(const Ekf &e, uint64_t t, uint64_t limit) { return t + limit > e._time_last_imu; }
static int sources(const Ekf &e)
{
	const auto &c = e._control_status.flags;
	return (c.gps ? 1 : 0) + (c.opt_flow ? 1 : 0) + (c.ev_pos ? 1 : 0) + (c.ev_vel ? 1 : 0) + (c.fuse_aspd && c.fuse_beta ? 1 : 0);
}
VC_PROOF(E14_dead_reckoning)
{
	Ekf &e = setup();
	const stateSample s = e._state;
	const auto c = e._control_status.flags;
	const uint64_t now = e._time_last_imu, lim = e._params.no_aid_timeout_max;
	vc_assume(now > lim && e._params.valid_timeout_max >= 0);
	const bool vp = (c.gps || c.ev_pos || c.ev_vel) && (recent(e, e._time_last_hor_pos_fuse, lim) || recent(e, e._time_last_hor_vel_fuse, lim) || recent(e, e._time_last_delpos_fuse, lim));
	const bool of = c.opt_flow && recent(e, e._time_last_of_fuse, lim);
	const bool air = c.wind && recent(e, e._time_last_arsp_fuse, lim) && recent(e, e._time_last_beta_fuse, lim);
	const uint64_t t0 = e._time_last_aiding;
	e.update_deadreckoning_status();
	vc_assert(e.inertial_dead_reckoning() == (!vp && !of && !air), "dead reckoning: no aiding source was fused recently");
	vc_assert(e._is_wind_dead_reckoning == (!vp && !of && air), "wind dead reckoning: air data only");
	const uint64_t t1 = vp || of || air ? now - lim : t0;
	vc_assert(e._time_last_aiding == t1, "time aiding stopped");
	vc_assert(e._deadreckon_time_exceeded == (t1 == 0 || t1 + (uint64_t)e._params.valid_timeout_max < now), "too long without aiding, or never aided");
	vc_assert(e.local_position_is_valid() == (!e._deadreckon_time_exceeded && !e._using_synthetic_position), "local position is valid while aided, without made-up observations");
	vc_assert(e.global_position_is_valid() == (e.local_position_is_valid() && e._NED_origin_initialised), "global position also needs an origin");
	frame_state(e, s, "state untouched"); frame_P(e, "covariance untouched");
}
VC_PROOF(E14_sources)
{
	Ekf &e = setup();
	const bool f = vc_bool("flag");
	vc_assert(e.getNumberOfActiveHorizontalAidingSources() == sources(e), "number of aiding sources");
	vc_assert(e.isHorizontalAidingActive() == (sources(e) > 0), "aiding");
	vc_assert(e.isOtherSourceOfHorizontalAidingThan(f) == (sources(e) > (f ? 1 : 0)), "other aiding than the given one");
	vc_assert(e.isOnlyActiveSourceOfHorizontalAiding(f) == (f && sources(e) <= 1), "the given source is the only one");
	vc_assert(e.attitude_valid() == (isfinite(e._output_new.quat_nominal(0)) && e._control_status.flags.tilt_align), "attitude is usable");
}
VC_PROOF(E14_solution)
{
	Ekf &e = setup();
	const auto c = e._control_status.flags;
	const auto ft = e._fault_status.flags;
	const bool bad = ft.bad_mag_x || ft.bad_mag_y || ft.bad_mag_z || ft.bad_hdg || ft.bad_mag_decl || ft.bad_airspeed || ft.bad_sideslip || ft.bad_optflow_X || ft.bad_optflow_Y || ft.bad_vel_N || ft.bad_vel_E || ft.bad_vel_D || ft.bad_pos_N || ft.bad_pos_E || ft.bad_pos_D || ft.bad_acc_bias || ft.bad_acc_vertical || ft.bad_acc_clipping;
	uint32_t raw; memcpy(&raw, &e._fault_status, sizeof(raw)); vc_assume((raw >> 18) == 0);   // unused bits of the fault word are never set
	uint16_t v = 0; e.get_ekf_soln_status(&v);
	const bool hgt = c.baro_hgt || c.ev_hgt || c.gps_hgt || c.rng_hgt, aid = sources(e) > 0;
	const bool glitch = (e._gps_vel_test_ratio(0) > 1.f || e._gps_vel_test_ratio(1) > 1.f || e._gps_pos_test_ratio(0) > 1.f) && e._mag_test_ratio.max() < 1.f && e._yaw_test_ratio < 1.f;
	const bool want[16] = {c.tilt_align && c.yaw_align && !bad, aid && !bad, hgt && !bad, (c.gps || c.ev_pos || c.opt_flow) && !bad, (c.gps || c.ev_pos) && !bad, hgt && !bad, e._hagl_valid,
		!(aid && !bad), (c.gps || c.ev_pos || c.opt_flow) && !bad, (c.gps || c.ev_pos) && !bad, glitch, ft.bad_acc_vertical, false, false, false, false};
	const char *what[16] = {"attitude good", "horizontal velocity good", "vertical velocity good", "relative position good", "absolute position good", "height good", "height above ground good", "constant position mode", "relative position predicted", "absolute position predicted", "GPS glitch", "accelerometer error", "unused bit is clear", "unused bit is clear", "unused bit is clear", "unused bit is clear"};
	for (int i = 0; i < 16; i++) { vc_assert((((v >> i) & 1) != 0) == want[i], what[i]); }
}
VC_PROOF(E14_reset_clears_faults)
{
	Ekf &e = setup();
	vc_assume(e._params.range_valid_quality_s >= 0.f && e._params.range_valid_quality_s < 1000.f);
	e.reset();
	const auto f = e._fault_status.flags;
	vc_assert(!f.bad_mag_x && !f.bad_mag_y && !f.bad_mag_z && !f.bad_hdg && !f.bad_mag_decl && !f.bad_airspeed && !f.bad_sideslip && !f.bad_optflow_X && !f.bad_optflow_Y, "no fault after a reset");
	vc_assert(!f.bad_vel_N && !f.bad_vel_E && !f.bad_vel_D && !f.bad_pos_N && !f.bad_pos_E && !f.bad_pos_D && !f.bad_acc_bias, "no fault after a reset");
	vc_assert(!f.bad_acc_vertical && !f.bad_acc_clipping, "no accelerometer fault after a reset");
	vc_assert(e._innov_check_fail_status.value == 0, "no rejected innovation after a reset");
	vc_assert(!e._filter_initialised && !e._terrain_initialised && !e._NED_origin_initialised && !e._imu_updated && !e._gps_speed_valid, "the filter starts over");
	vc_assert(e._control_status.value == 0 && e._control_status_prev.value == 0, "no sensor is in use");
	vc_assert(e._dt_ekf_avg > 0.009999f && e._dt_ekf_avg < 0.010001f, "filter interval restarts");
	vc_assert(vc_same(e._gps_alt_ref, 0.f), "altitude reference restarts");
	vc_assert(vc_same(e._prev_dvel_bias_var(0), 0.f) && vc_same(e._prev_dvel_bias_var(1), 0.f) && vc_same(e._prev_dvel_bias_var(2), 0.f), "no bias variance history");
	for (int i = 0; i < 24; i++) { if (i != 0) { vc_assert(vc_same(state_at(e._state, i), 0.f), idx_label("state restarts", i, 0)); } }
	vc_assert(vc_same(e._state.quat_nominal(0), 1.f), "orientation restarts level");
	for (int i = 1; i < 4; i++) { vc_assert(vc_same(e._output_new.quat_nominal(i), 0.f), "output orientation restarts"); }
	for (int i = 0; i < 3; i++) { vc_assert(vc_same(e._output_new.vel(i), 0.f) && vc_same(e._output_new.pos(i), 0.f) && vc_same(e._delta_angle_corr(i), 0.f), "output restarts"); }
}
// ---- accuracies
static float hyp(float a, float b) { return sqrtf(a * a + b * b); }
static float mx(float a, float b) { return a < b ? b : a; }
VC_PROOF(E14_accuracy)
{
	Ekf &e = setup();
	for (int i = 4; i < 10; i++) { vc_assume(e.P(i, i) >= 0.f); }
	const auto c = e._control_status.flags;
	float eph, epv, lh, lv, vh, vv;
	e.get_ekf_gpos_accuracy(&eph, &epv);
	e.get_ekf_lpos_accuracy(&lh, &lv);
	e.get_ekf_vel_accuracy(&vh, &vv);
	const float gi = hyp(e._gps_pos_innov(0), e._gps_pos_innov(1)), vi = hyp(e._ev_pos_innov(0), e._ev_pos_innov(1)), vvi = hyp(e._ev_vel_innov(0), e._ev_vel_innov(1)), fi = hyp(e._flow_innov(0), e._flow_innov(1));
	const float oh = e._gps_origin_eph, ov = e._gps_origin_epv, p = sqrtf(e.P(7, 7) + e.P(8, 8)), g = sqrtf(e.P(7, 7) + e.P(8, 8) + oh * oh), v = sqrtf(e.P(4, 4) + e.P(5, 5));
	vc_assert(vc_eq(epv, sqrtf(e.P(9, 9) + ov * ov)) && vc_eq(lv, sqrtf(e.P(9, 9))) && vc_eq(vv, sqrtf(e.P(6, 6))), "vertical accuracy is the standard deviation, with that of the origin");
	const bool dr = e._is_dead_reckoning, ex = e._deadreckon_time_exceeded;
	vc_assert(vc_eq(eph, mx(g, dr && c.gps ? gi : (dr && c.ev_pos ? vi : 0.f))), "global position accuracy, at least the rejected innovation when dead reckoning");
	vc_assert(vc_eq(lh, mx(p, ex && c.gps ? gi : 0.f)), "local position accuracy, at least the rejected innovation when dead reckoning for too long");
	float w = 0.f;
	if (ex) {
		const float clear = mx(e._params.rng_gnd_clearance, 0.1f), h = mx(e._terrain_vpos - e._state.pos(2), clear);
		if (c.opt_flow) { w = h * fi; }
		if (c.gps) { w = mx(w, gi); } else if (c.ev_pos) { w = mx(w, vi); }
		if (c.ev_vel) { w = mx(w, vvi); }
	}
	vc_assert(vc_eq(vh, mx(v, w)), "velocity accuracy, at least the rejected innovations when dead reckoning for too long");
}
VC_PROOF(E14_limits)
{
	Ekf &e = setup();
	const auto c = e._control_status.flags;
	float vxy, vz, lo, hi;
	const bool rng = c.rng_hgt && !e._params.range_aid, flow = c.opt_flow && sources(e) <= 1;
	const float rmin = e._range_sensor.getValidMinVal(), rmax = 0.75f * e._range_sensor.getValidMaxVal();
	const float fr = e._flow_max_rate, fmin = e._flow_min_distance, fmax = e._flow_max_distance, h = e._terrain_vpos - e._state.pos(2);
	e.get_ekf_ctrl_limits(&vxy, &vz, &lo, &hi);
	vc_assert(isnan(vz), "no vertical speed limit");
	VC_SCOPE { vc_assume(flow); vc_assert(vc_eq(vxy, mx(0.5f * fr * h, 0.f)), "speed limit keeps flow within half of its range"); vc_assert(vc_eq(lo, mx(rmin, fmin)) && vc_eq(hi, rmax < fmax ? rmax : fmax), "height limits of flow and range finder"); }
	VC_SCOPE { vc_assume(!flow); vc_assert(isnan(vxy), "no speed limit unless flow is the only aiding"); }
	VC_SCOPE { vc_assume(!flow && rng); vc_assert(vc_eq(lo, rmin) && vc_eq(hi, rmax), "height limits of the range finder"); }
	VC_SCOPE { vc_assume(!flow && !rng); vc_assert(isnan(lo) && isnan(hi), "no height limit"); }
}
VC_PROOF(E14_innovation_tests)
{
	Ekf &e = setup();
	const auto c = e._control_status.flags;
	float *r[] = {&e._yaw_test_ratio, &e._mag_test_ratio(0), &e._mag_test_ratio(1), &e._mag_test_ratio(2), &e._gps_vel_test_ratio(0), &e._gps_vel_test_ratio(1), &e._ev_vel_test_ratio(0), &e._ev_vel_test_ratio(1), &e._gps_pos_test_ratio(0), &e._ev_pos_test_ratio(0), &e._baro_hgt_test_ratio(1), &e._gps_pos_test_ratio(1), &e._rng_hgt_test_ratio(1), &e._ev_pos_test_ratio(1), &e._tas_test_ratio, &e._hagl_test_ratio, &e._beta_test_ratio};
	for (float *x : r) { vc_assume(*x >= 0.f); }
	uint16_t st; float mag, vel, pos, hgt = vc_f32("before"), tas, hagl, beta;
	e.get_innovation_test_status(st, mag, vel, pos, hgt, tas, hagl, beta);
	vc_assert(st == e._innov_check_fail_status.value, "pass/fail bits");
	vc_assert(vc_eq(mag, sqrtf(mx(mx(*r[0], *r[1]), mx(*r[2], *r[3])))), "largest magnetometer or yaw ratio");
	vc_assert(vc_eq(vel, sqrtf(mx(mx(*r[4], *r[5]), mx(*r[6], *r[7])))), "largest velocity ratio");
	vc_assert(vc_eq(pos, sqrtf(mx(*r[8], *r[9]))), "largest horizontal position ratio");
	VC_SCOPE { vc_assume(c.baro_hgt); vc_assert(vc_eq(hgt, sqrtf(*r[10])), "height ratio of the primary source"); }
	VC_SCOPE { vc_assume(!c.baro_hgt && c.gps_hgt); vc_assert(vc_eq(hgt, sqrtf(*r[11])), "height ratio of the primary source"); }
	VC_SCOPE { vc_assume(!c.baro_hgt && !c.gps_hgt && c.rng_hgt); vc_assert(vc_eq(hgt, sqrtf(*r[12])), "height ratio of the primary source"); }
	VC_SCOPE { vc_assume(!c.baro_hgt && !c.gps_hgt && !c.rng_hgt && c.ev_hgt); vc_assert(vc_eq(hgt, sqrtf(*r[13])), "height ratio of the primary source"); }
	VC_SCOPE { vc_assume(!c.baro_hgt && !c.gps_hgt && !c.rng_hgt && !c.ev_hgt); vc_assert(isnan(hgt), "no height ratio without a height source"); }
	vc_assert(vc_eq(tas, sqrtf(*r[14])) && vc_eq(hagl, sqrtf(*r[15])) && vc_eq(beta, sqrtf(*r[16])), "air data and terrain ratios");
}
// ---- plain reports
VC_PROOF(E14_reports)
{
	Ekf &e = setup();
	const auto x = e.getStateAtFusionHorizonAsVector();
	for (int i = 0; i < 24; i++) { vc_assert(vc_same(x(i), state_at(e._state, i)), idx_label("state vector", i, 0)); vc_assert(vc_same(e.covariances_diagonal()(i), e.P(i, i)), idx_label("variance", i, 0)); }
	float hv[2], vv, hp[2], vp, a, b, c, d;
	for (int k = 0; k < 4; k++) {
		if (k == 0) { e.getGpsVelPosInnov(hv, vv, hp, vp); } else if (k == 1) { e.getGpsVelPosInnovVar(hv, vv, hp, vp); } else if (k == 2) { e.getEvVelPosInnov(hv, vv, hp, vp); } else { e.getEvVelPosInnovVar(hv, vv, hp, vp); }
		const Vector3f &v = k == 0 ? e._gps_vel_innov : k == 1 ? e._gps_vel_innov_var : k == 2 ? e._ev_vel_innov : e._ev_vel_innov_var;
		const Vector3f &p = k == 0 ? e._gps_pos_innov : k == 1 ? e._gps_pos_innov_var : k == 2 ? e._ev_pos_innov : e._ev_pos_innov_var;
		vc_assert(vc_same(hv[0], v(0)) && vc_same(hv[1], v(1)) && vc_same(vv, v(2)) && vc_same(hp[0], p(0)) && vc_same(hp[1], p(1)) && vc_same(vp, p(2)), "velocity and position innovations and variances");
	}
	e.getGpsVelPosInnovRatio(a, b, c, d);
	vc_assert(vc_same(a, e._gps_vel_test_ratio(0)) && vc_same(b, e._gps_vel_test_ratio(1)) && vc_same(c, e._gps_pos_test_ratio(0)) && vc_same(d, e._gps_pos_test_ratio(1)), "GPS test ratios");
	e.getEvVelPosInnovRatio(a, b, c, d);
	vc_assert(vc_same(a, e._ev_vel_test_ratio(0)) && vc_same(b, e._ev_vel_test_ratio(1)) && vc_same(c, e._ev_pos_test_ratio(0)) && vc_same(d, e._ev_pos_test_ratio(1)), "vision test ratios");
	float av[2], aw[2]; e.getAuxVelInnov(av); e.getAuxVelInnovVar(aw);
	for (int i = 0; i < 2; i++) { vc_assert(vc_same(av[i], e._aux_vel_innov(i)) && vc_same(aw[i], e._aux_vel_innov_var(i)), "auxiliary velocity innovations"); }
	const float dt = e._dt_ekf_avg; vc_assume(dt > 1e-3f && dt < 1.f);
	const Vector3f gb = e.getGyroBias(), ab = e.getAccelBias(), gv = e.getGyroBiasVariance(), bv = e.getAccelBiasVariance(), mv = e.getMagBiasVariance();
	for (int i = 0; i < 3; i++) {
		vc_assert(vc_eq(gb(i) * dt, e._state.delta_ang_bias(i)) && vc_eq(ab(i) * dt, e._state.delta_vel_bias(i)), "sensor biases per second");
		vc_assert(vc_eq(gv(i) * dt * dt, e.P(10 + i, 10 + i)) && vc_eq(bv(i) * dt * dt, e.P(13 + i, 13 + i)), "variance of the reported bias: that of the increment over the squared interval");
		vc_assert(vc_same(mv(i), e.P(19 + i, 19 + i)), "magnetometer bias variance");
		vc_assert(vc_same(e.getVelocityVariance()(i), e.P(4 + i, 4 + i)) && vc_same(e.getPositionVariance()(i), e.P(7 + i, 7 + i)), "velocity and position variances");
	}
	for (int i = 0; i < 2; i++) { vc_assert(vc_same(e.getWindVelocityVariance()(i), e.P(22 + i, 22 + i)) && vc_same(e.getWindVelocity()(i), e._state.wind_vel(i)), "wind and its variance"); }
	float m = -1.f;
	const bool save = e._NED_origin_initialised && (e._params.mag_declination_source & MASK_SAVE_GEO_DECL);
	vc_assert(e.get_mag_decl_deg(&m) == save && vc_eq(m, save ? e._mag_declination_gps * 57.295779513f : -1.f), "declination to save");
	float tas; e.get_true_airspeed(&tas);
	const float n = e._state.vel(0) - e._state.wind_vel(0), o = e._state.vel(1) - e._state.wind_vel(1), z = e._state.vel(2);
	vc_assert(vc_eq(tas, sqrtf(n * n + o * o + z * z)), "true airspeed is the velocity relative to the wind");
}
// ---- resets of learned sensor biases
static void bias(Ekf &e, int which)
{
	const stateSample s = e._state;
	const float g = e._params.switch_on_gyro_bias * 0.01f, a = e._params.switch_on_accel_bias * 0.01f, m = e._params.mag_noise;
	const float sv = e._saved_mag_bf_variance[0];
	if (which == 0) { e.resetGyroBias(); } else if (which == 1) { e.resetAccelBias(); } else if (which == 2) { e.resetImuBias(); } else { e.resetMagBias(); }
	for (int i = 0; i < 24; i++) {
		const bool gi = i >= 10 && i < 13 && (which == 0 || which == 2), ai = i >= 13 && i < 16 && (which == 1 || which == 2), mi = i >= 19 && i < 22 && which == 3;
		if (gi || ai || mi) { vc_assert(vc_same(state_at(e._state, i), 0.f), "the bias restarts at zero"); } else { vc_assert(vc_same(state_at(e._state, i), state_at(s, i)), "other states kept"); }
		for (int j = 0; j < 24; j++) {
			const bool gj = j >= 10 && j < 13 && (which == 0 || which == 2), aj = j >= 13 && j < 16 && (which == 1 || which == 2), mj = j >= 19 && j < 22 && which == 3;
			if (gi || ai || mi || gj || aj || mj) { vc_assert(vc_eq(e.P(i, j), i != j ? 0.f : gi ? g * g : ai ? a * a : m * m), idx_label("with its initial variance, uncorrelated", i, j)); }
			else { vc_assert(vc_same(e.P(i, j), P0[i][j]), idx_label("other covariances kept", i, j)); }
		}
	}
	if (which == 1 || which == 2) { for (int i = 0; i < 3; i++) { vc_assert(vc_eq(e._prev_dvel_bias_var(i), a * a), "bias variance history restarts"); } }
	if (which == 3) { for (int i = 1; i < 4; i++) { vc_assert(vc_same(e._saved_mag_bf_variance[i], 0.f), "saved body field variances are dropped"); } vc_assert(vc_same(e._saved_mag_bf_variance[0], sv), "the earth field variance is kept"); }
}
VC_PROOF(E14_bias_resets) { vc_tol(1e-9, 1e-5); Ekf &e = setup(); for (int k = 0; k < 4; k++) { VC_SCOPE { bias(e, k); } } }
