// E20: when GPS is used, what of it is fused, and how the estimator recovers from bad GPS or bad heading
#include "fusion.h"

static bool late(const Ekf &e, uint64_t t, uint64_t p) { return t + p < e._time_last_imu; }
// ---- what is observed of the callees
enum Call { MAG_HEADING, POS_GPS, VEL_GPS, POS, VEL, GSF, COURSE, YAW_FUSE, YAW_RESET };
static Call calls[12]; static int ncalls;
static void add(Call c) { if (ncalls < 12) { calls[ncalls] = c; } ncalls++; }
static int count(Call c) { int n = 0; for (int i = 0; i < 12; i++) { n += (i < ncalls && calls[i] == c); } return n; }
static bool heading_ok, gsf_ok, course_ok, yaw_fused, yaw_ok;
static Vector3f vel_start, heading_from;
static bool on_mag_heading(Ekf *, const Vector3f &m, bool, bool) { add(MAG_HEADING); heading_from = m; return heading_ok; }
static void new_state(Ekf *e) { vc_havoc(&e->_state.vel, sizeof(e->_state.vel), "vel_after"); vc_havoc(&e->_state.pos, sizeof(e->_state.pos), "pos_after"); }
static void on_pos_gps(Ekf *) { add(POS_GPS); }
static void on_vel_gps(Ekf *e) { add(VEL_GPS); e->_state.vel = vel_start; }
static void on_pos(Ekf *e) { add(POS); vc_havoc(&e->_state.pos, sizeof(e->_state.pos), "pos_reset"); }
static void on_vel(Ekf *e) { add(VEL); vc_havoc(&e->_state.vel, sizeof(e->_state.vel), "vel_reset"); }
// (E12) on success heading is aligned, the magnetometer is no longer trusted, velocity and position are reset
static bool on_gsf(Ekf *e)
{
	add(GSF);
	if (gsf_ok) { e->_control_status.flags.yaw_align = true; if (e->_params.mag_fusion_type != 5) { e->_control_status.flags.mag_fault = true; } new_state(e); }
	return gsf_ok;
}
static bool on_course(Ekf *) { add(COURSE); return course_ok; }
static void on_yaw_fuse(Ekf *e) { add(YAW_FUSE); if (yaw_fused) { e->_time_last_gps_yaw_fuse = e->_time_last_imu; } }
static bool on_yaw_reset(Ekf *e) { add(YAW_RESET); if (yaw_ok) { e->_time_last_gps_yaw_fuse = e->_time_last_imu; } return yaw_ok; }
struct Fuse { int n, order; Vector3f innov, obs; Vector2f gate; const void *innov_at, *var, *ratio; bool inhibit, odom; };
static Fuse hv, vv, hp; static int fuses;
static void rec(Ekf *e, Fuse &f, const Vector3f &i, const Vector2f &g, const Vector3f &o, Vector3f &v, Vector2f &r)
{
	f.n++; f.order = fuses++; f.innov = i; f.obs = o; f.gate = g; f.innov_at = &i; f.var = &v; f.ratio = &r; f.odom = e->_fuse_hpos_as_odom;
}
static bool on_hv(Ekf *e, const Vector3f &i, const Vector2f &g, const Vector3f &o, Vector3f &v, Vector2f &r) { rec(e, hv, i, g, o, v, r); return vc_bool("hv"); }
static bool on_vv(Ekf *e, const Vector3f &i, const Vector2f &g, const Vector3f &o, Vector3f &v, Vector2f &r) { rec(e, vv, i, g, o, v, r); return vc_bool("vv"); }
static bool on_hp(Ekf *e, const Vector3f &i, const Vector2f &g, const Vector3f &o, Vector3f &v, Vector2f &r, bool inhibit) { rec(e, hp, i, g, o, v, r); hp.inhibit = inhibit; return vc_bool("hp"); }
static void observe()
{
	ncalls = fuses = hv.n = vv.n = hp.n = 0;
	heading_ok = vc_bool("heading_ok"); gsf_ok = vc_bool("gsf_ok"); course_ok = vc_bool("course_ok"); yaw_fused = vc_bool("yaw_fused"); yaw_ok = vc_bool("yaw_ok");
	for (int i = 0; i < 3; i++) { vel_start(i) = vc_f32("vel_start"); }
	vc_replace("Ekf::resetMagHeading", on_mag_heading);
	vc_replace("Ekf::resetHorizontalPositionToGps", on_pos_gps);
	vc_replace("Ekf::resetVelocityToGps", on_vel_gps);
	vc_replace("Ekf::resetHorizontalPosition", on_pos);
	vc_replace("Ekf::resetVelocity", on_vel);
	vc_replace("Ekf::resetYawToEKFGSF", on_gsf);
	vc_replace("Ekf::realignYawGPS", on_course);
	vc_replace("Ekf::fuseGpsYaw", on_yaw_fuse);
	vc_replace("Ekf::resetYawToGps", on_yaw_reset);
	vc_replace("Ekf::fuseHorizontalVelocity", on_hv);
	vc_replace("Ekf::fuseVerticalVelocity", on_vv);
	vc_replace("Ekf::fuseHorizontalPosition", on_hp);
}
static Ekf &setup()
{
	vc_mode("real"); vc_tol(1e-4, 1e-3);
	Ekf &e = any_ekf();
	symmetric_P(e);
	observe();
	vc_assume(e._params.reset_timeout_max < (1u << 31) && e._params.EKFGSF_reset_count_limit < 256);
	return e;
}
static bool others(const filter_control_status_u &c) { return c.flags.opt_flow || c.flags.ev_pos || c.flags.ev_vel || (c.flags.fuse_aspd && c.flags.fuse_beta); }
static bool zero3(const Vector3f &v) { return v(0) == 0.f && v(1) == 0.f && v(2) == 0.f; }
static bool zero2(const Vector2f &v) { return v(0) == 0.f && v(1) == 0.f; }
static void stopped(const Ekf &e)
{
	vc_assert(zero3(e._gps_pos_innov) && zero3(e._gps_pos_innov_var) && zero2(e._gps_pos_test_ratio) && zero3(e._gps_vel_innov) && zero3(e._gps_vel_innov_var) && zero2(e._gps_vel_test_ratio), "unused GPS reports no innovation");
}
static void stop(filter_control_status_u &c) { c.flags.gps = c.flags.gps_hgt = c.flags.gps_yaw = false; }

// ---- GPS heading
struct Yaw { bool faulty; uint64_t t; };
static Yaw yaw_model(const Ekf &e, filter_control_status_u &c, bool finite)
{
	Yaw y = { e._is_gps_yaw_faulty, e._time_last_gps_yaw_fuse };
	if (!(e._params.fusion_mode & MASK_USE_GPSYAW) || y.faulty) { c.flags.gps_yaw = false; return y; }
	if (finite && c.flags.gps_yaw) { if (yaw_fused) { y.t = e._time_last_imu; } }
	else if (finite && c.flags.tilt_align && !e._gps_hgt_intermittent && yaw_ok) {
		c.flags.yaw_align = c.flags.gps_yaw = true;
		c.flags.mag_dec = c.flags.ev_yaw = c.flags.mag_hdg = c.flags.mag_3D = false;
		y.t = e._time_last_imu;
	}
	if (c.flags.gps_yaw && late(e, y.t, 5000000u)) { y.faulty = true; c.flags.gps_yaw = false; }
	return y;
}
VC_PROOF(E20_yaw)
{
	Ekf &e = any_ekf(); symmetric_P(e); observe();
	filter_control_status_u want = e._control_status; const filter_control_status_u c0 = want;
	const bool finite = isfinite(e._gps_sample_delayed.yaw), usable = (e._params.fusion_mode & MASK_USE_GPSYAW) && !e._is_gps_yaw_faulty;
	const Yaw y = yaw_model(e, want, finite);
	const bool inter = e._gps_hgt_intermittent;
	e.controlGpsYawFusion();
	vc_assert(e._control_status.value == want.value, "heading source");
	vc_assert(e._is_gps_yaw_faulty == y.faulty && e._time_last_gps_yaw_fuse == y.t, "GPS heading not fused for five seconds is faulty");
	vc_assert(count(YAW_FUSE) == (usable && finite && c0.flags.gps_yaw), "a heading sample is fused while in use");
	vc_assert(count(YAW_RESET) == (usable && finite && !c0.flags.gps_yaw && c0.flags.tilt_align && !inter) && ncalls <= 1, "first heading sample aligns");
	frame_P(e, "covariance kept");
}

// ---- velocity and position
// a heading error shows as an angle between the observed and the estimated velocity
static bool wrong_course(const Ekf &e, const Vector3f &v, const Vector3f &o, const Vector3f &ov)
{
	const float no = o(0) * o(0) + o(1) * o(1), nv = v(0) * v(0) + v(1) * v(1);
	const float lo = fmaxf(16.f * (ov(0) + ov(1)), 1.f), lv = fmaxf(16.f * (e.P(4, 4) + e.P(5, 5)), 1.f);
	const float dot = o(0) * v(0) + o(1) * v(1), c2 = dot * dot / (nv * no), cl = cosf(math::radians(25.f)), lim = cl * cl;
	const bool fast = no > lo && nv > lv;
	vc_assume(!vc_eq(no, lo) && !vc_eq(nv, lv));
	vc_assume(!fast || (!vc_eq(c2, lim) && !vc_eq(dot, 0.f)));
	return fast && (c2 < lim || dot < 0.f);
}
static void run(bool mask, bool used, bool certain = false)
{
	Ekf &e = setup();
	e._gps_data_ready = true;
	vc_assume(((e._params.fusion_mode & MASK_USE_GPS) != 0) == mask);
	e._control_status.flags.gps = used;
	if (certain) {
		e._control_status.flags.tilt_align = e._control_status.flags.yaw_align = e._NED_origin_initialised = true;
		e._control_status.flags.ev_yaw = e._control_status.flags.opt_flow = e._mag_inhibit_yaw_reset_req = false;
		e._is_gps_yaw_faulty = true; e._last_gps_fail_us = 0; vc_assume(e._time_last_imu > 5000000u);
	}
	auto &p = e._params;
	const filter_control_status_u c0 = e._control_status;
	filter_control_status_u want = c0;
	const bool finite = isfinite(e._gps_sample_delayed.yaw);
	// the comparison of velocities after a start is the subject of the certain start
	if (!used && !certain) { e._last_vel_obs.setZero(); }
	const Yaw y = yaw_model(e, want, finite);
	const uint64_t now = e._time_last_imu;
	const bool passing = late(e, e._last_gps_fail_us, 5000000u), failing = late(e, e._last_gps_pass_us, 5000000u);
	const bool need_heading = !want.flags.yaw_align || want.flags.ev_yaw || e._mag_inhibit_yaw_reset_req;
	bool started = false, lost = false, mag = false; bool inh = e._mag_inhibit_yaw_reset_req; const bool inh0 = inh;
	warning_event_status_u w = e._warning_events; information_event_status_u inf = e._information_events;
	if (mask && !used) {
		if (want.flags.tilt_align && e._NED_origin_initialised && passing) {
			mag = need_heading && !want.flags.mag_field_disturbed && p.mag_fusion_type != 5;
			if (mag) { want.flags.ev_yaw = false; want.flags.yaw_align = heading_ok; inh = false; }
			if (want.flags.yaw_align) { started = true; want.flags.gps = true; inf.flags.starting_gps_fusion = true; }
		}
	} else if (!mask) { want.flags.gps = false; }
	if (want.flags.gps && failing && others(want)) { lost = true; stop(want); w.flags.gps_quality_poor = true; }
	const bool back_to_vision = lost && c0.flags.ev_pos && !(p.fusion_mode & MASK_ROTATE_EV);
	const bool gsf_due = late(e, (uint64_t)e._ekfgsf_yaw_reset_time, 5000000u), asked = e._do_ekfgsf_yaw_reset;
	const bool align = !want.flags.gps && asked && gsf_due;
	// recovery while GPS is used
	const unsigned tmax = p.reset_timeout_max; const int n0 = e._ekfgsf_yaw_reset_count;
	const uint64_t tp = e._time_last_hor_pos_fuse, tv = e._time_last_hor_vel_fuse, td = e._time_last_delpos_fuse, tf = e._time_last_of_fuse, tg = e._time_last_on_ground_us;
	const bool timeout = (late(e, tp, tmax) && late(e, td, tmax) && late(e, tv, tmax) && late(e, tf, tmax)) || late(e, tp, 2 * tmax);
	const bool takeoff = c0.flags.in_air && !late(e, tg, 30000000u) && late(e, tv, p.EKFGSF_reset_delay) && tv > tg;
	const bool flight = c0.flags.in_air && timeout && tv > tg && tp > tg;
	const Vector3f vel = started && !want.flags.opt_flow ? vel_start : e._state.vel;
	const bool course = wrong_course(e, vel, e._last_vel_obs, e._last_vel_obs_var);
	const bool bad_yaw = (takeoff || flight) && tv > 0 && course;
	const bool rec_yaw = want.flags.gps && (asked || bad_yaw) && n0 < (int)p.EKFGSF_reset_count_limit && gsf_due && !late(e, e._time_prev_gps_us, 1000000u);
	const bool rec_pos = want.flags.gps && !rec_yaw && timeout, fw = rec_pos && c0.flags.fixed_wing && c0.flags.in_air;
	if ((align || rec_yaw) && gsf_ok) { want.flags.yaw_align = true; if (p.mag_fusion_type != 5) { want.flags.mag_fault = true; } }
	if (fw) { want.flags.mag_aligned_in_flight = course_ok; }
	if (rec_pos) { w.flags.gps_fusion_timout = true; }
	const bool vp = e._velpos_reset_request; const int64_t gsf_t = e._ekfgsf_yaw_reset_time;
	const gpsSample g = e._gps_sample_delayed;
	const matrix::Dcmf R = e._R_to_earth;
	const Vector3f off = p.gps_pos_body - p.imu_pos_body, om = e._ang_rate_delayed_raw;
	const bool fuse = want.flags.gps;
	const Vector3f lo0 = e._last_vel_obs, lv0 = e._last_vel_obs_var; const bool odom0 = e._fuse_hpos_as_odom;

	e.controlGpsFusion();

	vc_assert(e._control_status.value == want.value, "active sources");
	vc_assert(e._is_gps_yaw_faulty == y.faulty && e._time_last_gps_yaw_fuse == y.t, "GPS heading health");
	vc_assert(e._mag_inhibit_yaw_reset_req == inh, "a heading reset demanded by inhibition is served");
	vc_assert(e._warning_events.value == w.value && e._information_events.value == inf.value, "what is announced");
	if (mask && !used) {
		vc_assert(count(MAG_HEADING) == mag, "heading is aligned to the magnetic field before GPS is used");
		vc_assert(count(POS_GPS) == started && count(VEL_GPS) == (started && !c0.flags.opt_flow), "states start from GPS, velocity unless optical flow provides it");
		for (int j = 0; j < 24; j++) { vc_assert(vc_eq(e.P(12, j), mag && inh0 ? (j == 12 ? p.switch_on_gyro_bias * p.switch_on_gyro_bias * 1e-4f : 0.f) : P0[12][j]) && vc_same(e.P(12, j), e.P(j, 12)), "an unobserved yaw gyro bias starts over"); }
		for (int i = 0; i < 24; i++) { for (int j = 0; j < 24; j++) { if (i != 12 && j != 12) { vc_assert(vc_same(e.P(i, j), P0[i][j]), "other covariances kept"); } } }
	} else {
		vc_assert(count(MAG_HEADING) == 0 && count(POS_GPS) == 0 && count(VEL_GPS) == 0, "no start");
		frame_P(e, "covariance kept");
	}
	vc_assert(count(GSF) == (align || rec_yaw), "emergency heading: on request before GPS is used, or when velocities disagree in direction, rarely and not after a GPS outage");
	vc_assert(count(COURSE) == fw && count(VEL) == rec_pos && count(POS) == (back_to_vision ? 1 : 0) + rec_pos, "reset to GPS after too long without it");
	vc_assert(e._velpos_reset_request == (rec_pos ? false : vp), "a pending velocity and position reset is served");
	const bool done = (align || rec_yaw) && gsf_ok, ryd = rec_yaw && gsf_ok;
	vc_assert(e._ekfgsf_yaw_reset_time == (done ? (int64_t)now : gsf_t) && e._do_ekfgsf_yaw_reset == (asked && !done) && e._ekfgsf_yaw_reset_count == n0 + ryd, "emergency resets are counted and spaced");
	vc_assert(e._time_last_hor_pos_fuse == (ryd || rec_pos ? now : tp) && e._time_last_hor_vel_fuse == (ryd || rec_pos ? now : tv) && e._time_last_delpos_fuse == (ryd ? now : td) && e._time_last_of_fuse == (ryd ? now : tf), "a reset restarts the timeouts");
	if (mask) VC_SCOPE { vc_assume(lost); stopped(e); }
	vc_assert(hv.n == fuse && vv.n == fuse && hp.n == fuse, "each component is fused once while GPS is used");
	if (!mask) { vc_assert(!fuse, "GPS is not used unless configured"); }
	VC_SCOPE {
		vc_assume(!fuse);
		for (int i = 0; i < 3; i++) { vc_assert(vc_same(e._last_vel_obs(i), lo0(i)) && vc_same(e._last_vel_obs_var(i), lv0(i)), "last observation kept"); }
		for (int i = 0; i < 3; i++) { vc_assert(vc_same(e._gps_sample_delayed.vel(i), g.vel(i)), "sample kept"); }
		vc_assert(e._fuse_hpos_as_odom == odom0 , "odometry state kept");
	}
	if (mask) VC_SCOPE {
		vc_assume(fuse);
		const Vector3f rot(om(1) * off(2) - om(2) * off(1), om(2) * off(0) - om(0) * off(2), om(0) * off(1) - om(1) * off(0));
		const float gn = fmaxf(g.sacc, p.gps_vel_noise), v = gn * gn;
		const float lo = fmaxf(p.gps_pos_noise, 0.01f), hi = fmaxf(p.pos_noaid_noise, lo), h = others(want) ? fmaxf(g.hacc, lo) : clampf(g.hacc, lo, hi);
		vc_mode("poly");
		for (int i = 0; i < 3; i++) {
			const float vo = R(i, 0) * rot(0) + R(i, 1) * rot(1) + R(i, 2) * rot(2), po = R(i, 0) * off(0) + R(i, 1) * off(1) + R(i, 2) * off(2);
			vc_assert(vc_eq(e._gps_sample_delayed.vel(i), g.vel(i) - vo), idx_label("velocity of the antenna moved to the IMU", i, 0));
			vc_assert(vc_eq(i < 2 ? e._gps_sample_delayed.pos(i) : e._gps_sample_delayed.hgt, i < 2 ? g.pos(i) - po : g.hgt + po), idx_label("position of the antenna moved to the IMU", i, 0));
			vc_assert(vc_eq(hv.innov(i), e._state.vel(i) - e._gps_sample_delayed.vel(i)) && vc_same(vv.innov(i), hv.innov(i)), idx_label("velocity innovation", i, 0));
			vc_assert(vc_same(e._last_vel_obs(i), e._gps_sample_delayed.vel(i)) && vc_same(e._last_vel_obs_var(i), hv.obs(i)), idx_label("last velocity observation", i, 0));
			if (i < 2) { vc_assert(vc_eq(hp.innov(i), e._state.pos(i) - e._gps_sample_delayed.pos(i)), idx_label("position innovation", i, 0)); }
		}
		vc_mode("real");
		for (int i = 0; i < 3; i++) { vc_assert(vc_eq(hv.obs(i), i < 2 ? v : 2.25f * v) && vc_same(vv.obs(i), hv.obs(i)), idx_label("velocity noise: reported, at least the configured", i, 0)); }
		for (int i = 0; i < 2; i++) { vc_assert(vc_eq(hp.obs(i), h * h), idx_label("position noise: reported, limited when nothing else constrains attitude", i, 0)); }
		const float gv = fmaxf(p.gps_vel_innov_gate, 1.f), gp = fmaxf(p.gps_pos_innov_gate, 1.f);
		vc_assert(vc_eq(hv.gate(0), gv) && vc_eq(vv.gate(1), gv) && vc_eq(hp.gate(0), gp), "gates");
		vc_assert(hv.innov_at == &e._gps_vel_innov && hv.var == &e._gps_vel_innov_var && hv.ratio == &e._gps_vel_test_ratio && vv.innov_at == hv.innov_at && vv.var == hv.var && vv.ratio == hv.ratio, "reported as GPS velocity");
		vc_assert(hp.innov_at == &e._gps_pos_innov && hp.var == &e._gps_pos_innov_var && hp.ratio == &e._gps_pos_test_ratio && !hp.inhibit, "reported as GPS position, gated");
		vc_assert(!hp.odom, "GPS is an absolute position");
	}
}
VC_PROOF(E20_start) { run(true, false); }
VC_PROOF(E20_start_certain) { run(true, false, true); }
VC_PROOF(E20_use) { run(true, true); }
VC_PROOF(E20_off) { run(false, true); }
VC_PROOF(E20_unused) { run(false, false); }

VC_PROOF(E20_no_data)
{
	Ekf &e = setup();
	e._gps_data_ready = false;
	const filter_control_status_u c0 = e._control_status;
	filter_control_status_u want = c0; warning_event_status_u w = e._warning_events;
	const uint64_t age = e._imu_sample_delayed.time_us - e._gps_sample_delayed.time_us;
	vc_assume(e._imu_sample_delayed.time_us >= e._gps_sample_delayed.time_us);
	const bool ten = c0.flags.gps && age > 10000000u, one = c0.flags.gps && !ten && age > 1000000u && others(c0);
	if (ten || one) { stop(want); }
	if (ten) { w.flags.gps_data_stopped = true; }
	if (one) { w.flags.gps_data_stopped_using_alternate = true; }
	e.controlGpsFusion();
	vc_assert(e._control_status.value == want.value, "GPS is given up ten seconds after its last data, one second when something else aids");
	vc_assert(e._warning_events.value == w.value, "the stop is announced");
	vc_assert(ncalls == 0 && fuses == 0, "nothing is fused or reset");
	VC_SCOPE { vc_assume(ten || one); stopped(e); }
	frame_P(e, "covariance kept");
}
