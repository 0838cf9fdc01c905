// E22: when optical flow is used, and what is made of a flow sample
#include "fusion.h"

static bool late(const Ekf &e, uint64_t t, uint64_t p) { return t + p < e._time_last_imu; }
static bool recent(const Ekf &e, uint64_t t, uint64_t p) { return t + p > e._time_last_imu; }
// ---- what is observed of the callees
static int pos_resets, vel_resets, headings, fuses, comps; static bool heading_ok, comp_ok; static Vector2f comp_at_fuse; static Vector3f heading_from;
static void on_pos(Ekf *e) { pos_resets++; vc_havoc(&e->_state.pos, sizeof(e->_state.pos), "pos_reset"); }
static void on_vel(Ekf *e) { vel_resets++; vc_havoc(&e->_state.vel, sizeof(e->_state.vel), "vel_reset"); }
static bool on_heading(Ekf *, const Vector3f &m, bool, bool) { headings++; heading_from = m; return heading_ok; }
static void on_fuse(Ekf *e) { fuses++; comp_at_fuse = e->_flow_compensated_XY_rad; vc_havoc(&e->_state.pos, sizeof(e->_state.pos), "pos_fused"); }
// (E08) the rotation measured over the sample is known unless it was not watched for too long; watching starts again
static bool on_comp(Ekf *e)
{
	comps++;
	vc_havoc(&e->_flow_sample_delayed.gyro_xyz, sizeof(e->_flow_sample_delayed.gyro_xyz), "gyro");
	e->_imu_del_ang_of.setZero(); e->_delta_time_of = 0.f;
	return comp_ok;
}
static Ekf &setup()
{
	vc_mode("real"); vc_tol(1e-4, 1e-3);
	Ekf &e = any_ekf();
	symmetric_P(e);
	pos_resets = vel_resets = headings = fuses = comps = 0;
	heading_ok = vc_bool("heading_ok"); comp_ok = vc_bool("comp_ok");
	vc_replace("Ekf::resetHorizontalPosition", on_pos);
	vc_replace("Ekf::resetVelocity", on_vel);
	vc_replace("Ekf::resetMagHeading", on_heading);
	vc_replace("Ekf::fuseOptFlow", on_fuse);
	vc_replace("Ekf::calcOptFlowBodyRateComp", on_comp);
	return e;
}
static bool others(const filter_control_status_u &c) { return c.flags.gps || c.flags.ev_pos || c.flags.ev_vel || (c.flags.fuse_aspd && c.flags.fuse_beta); }
static bool zero2(const Vector2f &v) { return v(0) == 0.f && v(1) == 0.f; }

// ---- is the motion on ground suitable
VC_PROOF(E22_motion)
{
	Ekf &e = setup();
	e._flow_data_ready = false; e._control_status.flags.opt_flow = false;
	const Vector3f a = e._accel_vec_filt;
	const float n = sqrtf(a(0) * a(0) + a(1) * a(1) + a(2) * a(2)), c30 = cosf(math::radians(30.f));
	const float om = e._ang_rate_magnitude_filt, r = e._R_to_earth(2, 2), lim = e._flow_max_rate;
	const uint64_t now = e._imu_sample_delayed.time_us, bad0 = e._time_bad_motion_us, good0 = e._time_good_motion_us;
	const bool air = e._control_status.flags.in_air, bad = n > 1.5f * CONSTANTS_ONE_G || n < 0.5f * CONSTANTS_ONE_G || om > lim || r < c30;
	e.controlOpticalFlowFusion();
	// away from the thresholds, where rounding does not matter
	vc_assume(!vc_eq(n, 1.5f * CONSTANTS_ONE_G) && !vc_eq(n, 0.5f * CONSTANTS_ONE_G) && !vc_eq(r, c30));
	vc_assert(e._time_bad_motion_us == (air ? 0 : bad ? now : bad0) && e._time_good_motion_us == (air || !bad ? now : good0), "shaking, fast turns and tilt on ground make flow unusable");
}
// ---- the rotation between samples is accumulated
VC_PROOF(E22_accumulate)
{
	Ekf &e = setup();
	e._flow_data_ready = false;
	const Vector3f d0 = e._imu_del_ang_of, i = e._imu_sample_delayed.delta_ang, b = e._state.delta_ang_bias; const float t0 = e._delta_time_of, dt = e._imu_sample_delayed.delta_ang_dt;
	const filter_control_status_u c0 = e._control_status; filter_control_status_u want = c0;
	const bool stop = c0.flags.opt_flow && e._imu_sample_delayed.time_us > e._flow_sample_delayed.time_us + 10000000u;
	if (stop) { want.flags.opt_flow = false; }
	e.controlOpticalFlowFusion();
	for (int k = 0; k < 3; k++) { vc_assert(vc_eq(e._imu_del_ang_of(k), d0(k) + i(k) - b(k)), idx_label("body rotation is accumulated without bias", k, 0)); }
	vc_assert(vc_eq(e._delta_time_of, t0 + dt), "time is accumulated");
	vc_assert(e._control_status.value == want.value, "flow is given up ten seconds after its last data");
	vc_assert(pos_resets == 0 && vel_resets == 0 && headings == 0 && fuses == 0 && comps == 0 && !e._flow_data_ready, "nothing is fused or reset");
	VC_SCOPE { vc_assume(stop); vc_assert(zero2(e._flow_innov) && zero2(e._flow_innov_var) && e._optflow_test_ratio == 0.f, "unused flow reports no innovation"); }
}

// ---- what is made of a sample
struct Sample { bool keep, compensated; float dt; };
static Sample sample_model(const Ekf &e, float span)
{
	const auto &f = e._flow_sample_delayed;
	const float lo = fmaxf(0.8f * span, 0.001f), hi = fminf(1.2f * span, 0.2f), m2 = f.flow_xy_rad(0) * f.flow_xy_rad(0) + f.flow_xy_rad(1) * f.flow_xy_rad(1), lim = f.dt * e._flow_max_rate;
	const bool dt_ok = f.dt >= lo && f.dt <= hi;
	const bool good = f.quality >= e._params.flow_qual_min && m2 <= lim * lim && e._R_to_earth(2, 2) > e._params.range_cos_max_tilt && dt_ok;
	vc_assume(!vc_eq(f.dt, lo) && !vc_eq(f.dt, hi) && !vc_eq(m2, lim * lim));
	Sample s;
	s.compensated = good && comp_ok;
	s.keep = s.compensated || (!e._control_status.flags.in_air && comp_ok);
	s.dt = s.keep && !s.compensated && !dt_ok ? lo : f.dt;
	return s;
}
static void run(bool air, bool used)
{
	Ekf &e = setup();
	e._flow_data_ready = true;
	e._control_status.flags.in_air = air; e._control_status.flags.opt_flow = used;
	auto &p = e._params;
	vc_assume(e._flow_max_rate >= 0.f && e._flow_sample_delayed.dt >= 0.f && e._flow_sample_delayed.dt < 1.f && e._delta_time_of >= 0.f && e._delta_time_of < 10.f && e._imu_sample_delayed.delta_ang_dt > 0.f && e._imu_sample_delayed.delta_ang_dt < 1.f);
	const float span = e._delta_time_of + e._imu_sample_delayed.delta_ang_dt;
	const Sample s = sample_model(e, span);
	const filter_control_status_u c0 = e._control_status; filter_control_status_u want = c0; const auto c = c0.flags;
	const bool terrain = e._flow_for_terrain_data_ready, inh0 = e._inhibit_flow_use;
	const uint64_t now = e._imu_sample_delayed.time_us, stamp = e._flow_sample_delayed.time_us, good0 = e._time_good_motion_us, bad0 = e._time_bad_motion_us, last = e._time_last_of_fuse;
	const bool sel = p.fusion_mode & MASK_USE_OF, hagl = e._hagl_valid, dead = e._is_dead_reckoning, rng = recent(e, e._time_last_hagl_fuse, 10000000u);
	const float err = e._gps_error_norm, lim = used ? 0.7f : 1.f;
	const auto f = e._flow_sample_delayed;
	const Vector2f known0 = e._last_known_posNE, comp0 = e._flow_compensated_XY_rad;
	const uint32_t w0 = e._warning_events.value, i0 = e._information_events.value;

	e.controlOpticalFlowFusion();

	const auto gyro = e._flow_sample_delayed.gyro_xyz;
	vc_assert(comps == 1, "rotation over the sample is computed once");
	vc_assert(vc_same(e._flow_sample_delayed.dt, s.dt), "a missing interval on ground becomes the smallest plausible one");
	for (int i = 0; i < 2; i++) { vc_assert(vc_eq(e._flow_compensated_XY_rad(i), s.compensated ? f.flow_xy_rad(i) - gyro(i) : s.keep ? 0.f : comp0(i)), idx_label("line of sight rotation without body rotation, zero for a bad sample on ground", i, 0)); }
	vc_assert(e._flow_for_terrain_data_ready == (terrain && s.keep), "a bad sample in the air is not used for terrain either");
	// decision
	const uint64_t good = e._time_good_motion_us, bad = e._time_bad_motion_us;   // this cycle, see E22_motion
	vc_assert(air ? good == now && bad == 0 : (good == now && bad == bad0) || (good == good0 && bad == now), "motion is judged first");
	const bool need = air && (dead || (used && !others(c0)) || (c.gps && err > lim));
	const bool unfit = (!air && (now > good + 100000u || now < bad + 5000000u)) || (air && !hagl);
	const bool inhibit = (unfit && !need) || !c.tilt_align;
	const bool stop = used && (s.keep ? !sel || inhibit : now > stamp + 10000000u);
	const bool try_start = s.keep && !used && sel && !inhibit, align = try_start && !c.yaw_align;
	if (align) { want.flags.yaw_align = heading_ok; }
	const bool start = try_start && want.flags.yaw_align, only = start && !others(c0);
	if (start) { want.flags.opt_flow = true; }
	if (stop) { want.flags.opt_flow = false; }
	const bool active = s.keep && want.flags.opt_flow;
	const bool passed = now > stamp - (uint32_t)(1e6f * s.dt) / 2;
	const uint64_t t = start ? e._time_last_imu : last;
	const bool lost = active && late(e, t, p.reset_timeout_max) && !others(c0);
	vc_assert(e._control_status.value == want.value, "flow is used while selected, fit or needed, and level; heading is aligned first");
	vc_assert(e._inhibit_flow_use == (s.keep ? inhibit : inh0), "fitness of flow is reported");
	vc_assert(headings == align, "heading is aligned before flow starts");
	vc_assert(e._time_last_of_fuse == t, "the timeout starts with the use of flow");
	vc_assert(pos_resets == (only ? 1 : 0) + lost && vel_resets == (only ? 1 : 0) + lost, "velocity and position are reset when only flow aids, on start and on timeout");
	vc_assert(fuses == (active && passed && rng), "flow is fused once when its midpoint has passed and height above ground was seen lately");
	vc_assert(e._flow_data_ready == (s.keep && !(active && passed)), "a fused or discarded sample is consumed");
	vc_assert(e._warning_events.value == w0 && e._information_events.value == i0, "nothing is announced");
	if (used) VC_SCOPE { vc_assume(stop); vc_assert(zero2(e._flow_innov) && zero2(e._flow_innov_var) && e._optflow_test_ratio == 0.f, "unused flow reports no innovation"); }
	VC_SCOPE {
		vc_assume(fuses == 1);
		for (int i = 0; i < 2; i++) { vc_assert(vc_same(comp_at_fuse(i), e._flow_compensated_XY_rad(i)), "the compensated sample is fused"); }
	}
	VC_SCOPE {
		vc_assume(fuses == 1 && !lost);
		for (int i = 0; i < 2; i++) { vc_assert(vc_same(e._last_known_posNE(i), e._state.pos(i)), "the position is remembered"); }
	}
	VC_SCOPE {
		vc_assume(fuses == 0);
		for (int i = 0; i < 2; i++) { vc_assert(vc_same(e._last_known_posNE(i), known0(i)), "the last position is kept"); }
	}
	frame_P(e, "covariance kept");
}
VC_PROOF(E22_ground_start) { run(false, false); }
VC_PROOF(E22_ground_use) { run(false, true); }
VC_PROOF(E22_air_start) { run(true, false); }
VC_PROOF(E22_air_use) { run(true, true); }
