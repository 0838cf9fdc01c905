// E11: state resets: applied to the filter, the output history and the covariance, and announced to the user
#include "output.h"
#include "buffers.h"

struct Snap { stateSample s; outputSample o; outputVert ov; outputSample ob[8]; outputVert vb[8]; uint8_t c[5]; float d[10]; };
static const unsigned N = 3;
static void reset_status(const Ekf &e, uint8_t c[5], float d[10])
{
	const auto &r = e.state_reset_status();
	c[0] = r.velNE_counter; c[1] = r.velD_counter; c[2] = r.posNE_counter; c[3] = r.posD_counter; c[4] = r.quat_counter;
	d[0] = r.velNE_change(0); d[1] = r.velNE_change(1); d[2] = r.velD_change; d[3] = r.posNE_change(0); d[4] = r.posNE_change(1); d[5] = r.posD_change;
	for (int i = 0; i < 4; i++) { d[6 + i] = r.quat_change(i); }
}
static void snap(const Ekf &e, Snap &x)
{
	x.s = e._state; x.o = e._output_new; x.ov = e._output_vert_new;
	for (unsigned i = 0; i < N; i++) { x.ob[i] = out_store[i]; x.vb[i] = vert_store[i]; }
	reset_status(e, x.c, x.d);
}
static Ekf &setup()
{
	vc_mode("real"); vc_tol(1e-3, 1e-3);
	Ekf &e = any_ekf();
	output_buffers(e, N);
	symmetric_P(e);
	return e;
}
// velocity axes dv, position axes dp shifted by d[]; everything else unchanged
static void shifted(const Ekf &e, const Snap &x, const bool dv[3], const bool dp[3], const float nv[3], const float np[3])
{
	uint8_t c[5]; float d[10];
	reset_status(e, c, d);
	float sv[3], sp[3];
	for (int k = 0; k < 3; k++) { sv[k] = dv[k] ? nv[k] - x.s.vel(k) : 0.f; sp[k] = dp[k] ? np[k] - x.s.pos(k) : 0.f; }
	for (int i = 0; i < 24; i++) {
		const bool v = i >= 4 && i < 7 && dv[i - 4], p = i >= 7 && i < 10 && dp[i - 7];
		if (v) { vc_assert(vc_same(state_at(e._state, i), nv[i - 4]), "the velocity state takes the new value"); }
		else if (p) { vc_assert(vc_same(state_at(e._state, i), np[i - 7]), "the position state takes the new value"); }
		else { vc_assert(vc_same(state_at(e._state, i), state_at(x.s, i)), "other states are kept"); }
	}
	for (unsigned b = 0; b <= N; b++) {
		const outputSample &n = b < N ? out_store[b] : e._output_new, &o = b < N ? x.ob[b] : x.o;
		const outputVert &nw = b < N ? vert_store[b] : e._output_vert_new, &ow = b < N ? x.vb[b] : x.ov;
		for (int k = 0; k < 3; k++) {
			vc_assert(vc_eq(n.vel(k), o.vel(k) + sv[k]), "output velocities are shifted alike");
			vc_assert(vc_eq(n.pos(k), o.pos(k) + sp[k]), "output positions are shifted alike");
		}
		for (int k = 0; k < 4; k++) { vc_assert(vc_same(n.quat_nominal(k), o.quat_nominal(k)), "output orientation is kept"); }
		vc_assert(vc_eq(nw.vert_vel, ow.vert_vel + sv[2]), "the vertical velocity output is shifted alike");
		vc_assert(vc_eq(nw.vert_vel_integ, dp[2] && b == N ? np[2] : ow.vert_vel_integ + sp[2]), "the vertical position output is shifted, the newest restarts at the filter height");
		vc_assert(n.time_us == o.time_us && nw.time_us == ow.time_us && vc_same(nw.dt, ow.dt), "times are kept");
	}
	const bool r[5] = {dv[0], dv[2], dp[0], dp[2], false};
	for (int k = 0; k < 5; k++) { vc_assert(c[k] == (uint8_t)(x.c[k] + (r[k] ? 1 : 0)), "exactly the reset that happened is counted"); }
	const float ch[6] = {sv[0], sv[1], sv[2], sp[0], sp[1], sp[2]};
	const int which[6] = {0, 0, 1, 2, 2, 3};
	for (int k = 0; k < 6; k++) { if (r[which[k]]) { vc_assert(vc_eq(d[k], ch[k]), "the change is recorded"); } else { vc_assert(vc_same(d[k], x.d[k]), "other records are kept"); } }
	for (int k = 6; k < 10; k++) { vc_assert(vc_same(d[k], x.d[k]), "other records are kept"); }
	frame_P(e, "the state reset itself leaves the covariance");
}
VC_PROOF(E11_velocity)
{
	Ekf &e = setup(); Snap x; snap(e, x);
	Vector3f v; vc_havoc(&v, sizeof(v), "velocity");
	const float nv[3] = {v(0), v(1), v(2)};
	VC_SCOPE { e.resetHorizontalVelocityTo(Vector2f(v)); const bool dv[3] = {true, true, false}, dp[3] = {}; shifted(e, x, dv, dp, nv, nv); }
	VC_SCOPE { e.resetVerticalVelocityTo(v(2)); const bool dv[3] = {false, false, true}, dp[3] = {}; shifted(e, x, dv, dp, nv, nv); }
	VC_SCOPE { e.resetVelocityTo(v); const bool dv[3] = {true, true, true}, dp[3] = {}; shifted(e, x, dv, dp, nv, nv); }
}
VC_PROOF(E11_position)
{
	Ekf &e = setup(); Snap x; snap(e, x);
	Vector3f p; vc_havoc(&p, sizeof(p), "position");
	const float np[3] = {p(0), p(1), p(2)};
	VC_SCOPE { e.resetHorizontalPositionTo(Vector2f(p)); const bool dp[3] = {true, true, false}, dv[3] = {}; shifted(e, x, dv, dp, np, np); }
	VC_SCOPE { e.resetVerticalPositionTo(p(2)); const bool dp[3] = {false, false, true}, dv[3] = {}; shifted(e, x, dv, dp, np, np); }
}

// ---- yaw
static matrix::Dcmf *newR;
static float yaw_arg, yawvar_arg; static int yawvars;
static matrix::Dcmf upd_yaw(float yaw, const matrix::Dcmf &) { yaw_arg = yaw; return *newR; }
static void inc_yaw(Ekf *, float v) { yawvars++; yawvar_arg = v; }
static int uncs;
static void unc(Ekf *) { uncs++; }
VC_PROOF(E11_yaw)
{
	Ekf &e = setup(); Snap x; snap(e, x);
	matrix::Dcmf R; vc_havoc(&R, sizeof(R), "R_new"); newR = &R;
	vc_replace("updateYawInRotMat", upd_yaw);
	vc_replace("Ekf::increaseQuatYawErrVariance", inc_yaw);
	vc_replace("Ekf::uncorrelateQuatFromOtherStates", unc);
	yawvars = uncs = 0;
	const float yaw = vc_f32("yaw"), var = vc_f32("yaw_variance");
	const bool buf = vc_bool("update_buffer");
	e.resetQuatStateYaw(yaw, var, buf);
	const Quatf q(R), dq = (q * x.s.quat_nominal.inversed()).normalized();
	uint8_t c[5]; float d[10];
	reset_status(e, c, d);
	vc_assert(vc_same(yaw_arg, yaw), "the requested yaw is used");
	for (int i = 0; i < 9; i++) { vc_assert(vc_same(e._R_to_earth(i / 3, i % 3), R(i / 3, i % 3)), "rotation matrix with the new yaw"); }
	for (int i = 0; i < 4; i++) { vc_assert(vc_eq(e._state.quat_nominal(i), q(i)), "the orientation state takes the new value"); vc_assert(vc_eq(d[6 + i], dq(i)), "the change is recorded"); }
	for (int i = 4; i < 24; i++) { vc_assert(vc_same(state_at(e._state, i), state_at(x.s, i)), "other states are kept"); }
	vc_assert(uncs == 1, "attitude is uncorrelated from the other states");
	vc_assert(yawvars == (var > 1.1920929e-7f ? 1 : 0) && vc_implies(yawvars == 1, vc_same(yawvar_arg, var)), "the yaw variance is applied");
	const Quatf rq(d[6], d[7], d[8], d[9]);
	for (unsigned b = 0; b <= N; b++) {
		const outputSample &n = b < N ? out_store[b] : e._output_new, &o = b < N ? x.ob[b] : x.o;
		const Quatf s = rq * o.quat_nominal;
		for (int i = 0; i < 4; i++) { vc_assert(vc_eq(n.quat_nominal(i), buf ? s(i) : o.quat_nominal(i)), "output orientations are rotated alike"); }
		frame_output(n, o, false, true, true, "output velocity and position are kept");
	}
	for (int k = 0; k < 5; k++) { vc_assert(c[k] == (uint8_t)(x.c[k] + (k == 4)), "exactly the reset that happened is counted"); }
	for (int k = 0; k < 6; k++) { vc_assert(vc_same(d[k], x.d[k]), "other records are kept"); }
}

// ---- the same for an output history of any length: one arbitrary entry stands for all
static Ekf &any_length()
{
	vc_mode("real"); vc_tol(1e-3, 1e-3);
	Ekf &e = any_ekf();
	any_output_buffers(e);
	symmetric_P(e);
	return e;
}
static void entry_shifted()
{
	any_slot_done("output orientation is kept", "output velocities are shifted alike", "output positions are shifted alike", "the vertical outputs are shifted alike");
}
VC_PROOF(E11_horizontal_velocity_any_length)
{
	Ekf &e = any_length();
	const float x = vc_f32("vx"), y = vc_f32("vy");
	L_o1.vel(0) += x - e._state.vel(0); L_o1.vel(1) += y - e._state.vel(1);
	any_loops(); e.resetHorizontalVelocityTo(Vector2f(x, y)); entry_shifted();
}
VC_PROOF(E11_vertical_velocity_any_length)
{
	Ekf &e = any_length();
	const float z = vc_f32("vz");
	L_o1.vel(2) += z - e._state.vel(2); L_v1.vert_vel += z - e._state.vel(2);
	any_loops(); e.resetVerticalVelocityTo(z); entry_shifted();
}
VC_PROOF(E11_horizontal_position_any_length)
{
	Ekf &e = any_length();
	const float x = vc_f32("px"), y = vc_f32("py");
	L_o1.pos(0) += x - e._state.pos(0); L_o1.pos(1) += y - e._state.pos(1);
	any_loops(); e.resetHorizontalPositionTo(Vector2f(x, y)); entry_shifted();
}
VC_PROOF(E11_vertical_position_any_length)
{
	Ekf &e = any_length();
	const float z = vc_f32("pz");
	L_o1.pos(2) += z - e._state.pos(2); L_v1.vert_vel_integ += z - e._state.pos(2);
	any_loops(); e.resetVerticalPositionTo(z); entry_shifted();
}
VC_PROOF(E11_yaw_any_length)
{
	Ekf &e = any_length();
	matrix::Dcmf R; vc_havoc(&R, sizeof(R), "R_new"); newR = &R;
	vc_replace("updateYawInRotMat", upd_yaw);
	vc_replace("Ekf::increaseQuatYawErrVariance", inc_yaw);
	vc_replace("Ekf::uncorrelateQuatFromOtherStates", unc);
	const bool buf = vc_bool("update_buffer");
	const Quatf dq = (Quatf(R) * e._state.quat_nominal.inversed()).normalized();
	if (buf) { L_o1.quat_nominal = dq * L_o0.quat_nominal; }
	any_loops(); e.resetQuatStateYaw(vc_f32("yaw"), vc_f32("yaw_variance"), buf);
	any_slot_done("output orientations are rotated alike", "output velocities are kept", "output positions are kept", "the vertical outputs are kept");
}

// ---- where the new values come from
static Snap before;
static void expect_resets(const Ekf &e) { reset_status(e, before.c, before.d); }
// number of announced resets of horizontal / vertical velocity, horizontal / vertical position
static bool announced(const Ekf &e, int hv, int vv, int hp, int vp)
{
	uint8_t c[5]; float d[10];
	reset_status(e, c, d);
	return c[0] == (uint8_t)(before.c[0] + hv) && c[1] == (uint8_t)(before.c[1] + vv) && c[2] == (uint8_t)(before.c[2] + hp) && c[3] == (uint8_t)(before.c[3] + vp) && c[4] == before.c[4];
}
static void cov(const Ekf &e, int first, int n, const float *var, bool cond = true)
{
	for (int i = 0; i < 24; i++) {
		for (int j = 0; j < 24; j++) {
			const bool in = (i >= first && i < first + n) || (j >= first && j < first + n);
			if (in && cond) { vc_assert(vc_eq(e.P(i, j), i == j ? var[i - first] : 0.f), "variances of the reset states are those of the source, correlations are dropped"); }
			else { vc_assert(vc_same(e.P(i, j), P0[i][j]), "the rest of the covariance is kept"); }
		}
	}
}
static float flow_var; static float flowvar(Ekf *) { return flow_var; }
VC_PROOF(E11_velocity_sources)
{
	Ekf &e = setup(); expect_resets(e);
	const Vector3f g = e._gps_sample_delayed.vel;
	const float a = e._gps_sample_delayed.sacc * e._gps_sample_delayed.sacc;
	const float v3[3] = {a, a, a};
	VC_SCOPE {
		e.resetVelocityToGps();
		vc_assert(announced(e, 1, 1, 0, 0), "announced");
		for (int i = 0; i < 3; i++) { vc_assert(vc_same(e._state.vel(i), g(i)), "GPS velocity is used"); }
		cov(e, 4, 3, v3);
		vc_assert(e._information_events.flags.reset_vel_to_gps, "announced");
	}
	VC_SCOPE {
		e.resetHorizontalVelocityToZero();
		const float z[2] = {25.f, 25.f};
		vc_assert(announced(e, 1, 0, 0, 0), "announced");
		vc_assert(vc_eq(e._state.vel(0), 0.f) && vc_eq(e._state.vel(1), 0.f), "velocity becomes zero");
		cov(e, 4, 2, z);
		vc_assert(e._information_events.flags.reset_vel_to_zero, "announced");
	}
	VC_SCOPE {
		flow_var = vc_f32("flow_var");
		vc_replace("Ekf::calcOptFlowMeasVar", flowvar);
		const float clr = e._params.rng_gnd_clearance, range = fmaxf(e._terrain_vpos - e._state.pos(2), clr) / e._range_sensor.getCosTilt();
		const float bx = -range * e._flow_compensated_XY_rad(1) / e._flow_sample_delayed.dt, by = range * e._flow_compensated_XY_rad(0) / e._flow_sample_delayed.dt;
		e.resetHorizontalVelocityToOpticalFlow();
		const float z[2] = {range * range * flow_var, range * range * flow_var};
		const bool use = range - clr > 0.3f;
		vc_assert(announced(e, 1, 0, 0, 0), "announced");
		for (int i = 0; i < 2; i++) { vc_assert(vc_eq(e._state.vel(i), use ? e._R_to_earth(i, 0) * bx + e._R_to_earth(i, 1) * by : 0.f), "flow velocity is used when far enough from the ground, zero otherwise"); }
		cov(e, 4, 2, z);
		vc_assert(e._information_events.flags.reset_vel_to_flow, "announced");
	}
}
static int w_gps, w_flow, w_vis, w_zero;
static void d_gps(Ekf *) { w_gps++; } static void d_flow(Ekf *) { w_flow++; } static void d_vis(Ekf *) { w_vis++; } static void d_zero(Ekf *) { w_zero++; }
VC_PROOF(E11_velocity_choice)
{
	Ekf &e = setup();
	w_gps = w_flow = w_vis = w_zero = 0;
	vc_replace("Ekf::resetVelocityToGps", d_gps); vc_replace("Ekf::resetHorizontalVelocityToOpticalFlow", d_flow);
	vc_replace("Ekf::resetVelocityToVision", d_vis); vc_replace("Ekf::resetHorizontalVelocityToZero", d_zero);
	const auto f = e._control_status.flags;
	const bool gps = f.gps && e._last_gps_fail_us + (uint64_t)e._min_gps_health_time_us < e._time_last_imu;
	e.resetVelocity();
	const bool flow = !gps && f.opt_flow, vis = !gps && !flow && f.ev_vel;
	vc_assert(w_gps == gps && w_flow == flow && w_vis == vis && w_zero == (!gps && !flow && !vis), "healthy GPS, then flow, then vision, then zero");
}
VC_PROOF(E11_position_choice)
{
	Ekf &e = setup(); expect_resets(e);
	const auto f = e._control_status.flags;
	const extVisionSample ev = e._ev_sample_delayed; const gpsSample g = e._gps_sample_delayed;
	const bool rot = e._params.fusion_mode & MASK_ROTATE_EV;
	const Matrix3f R = e._R_ev_to_ekf;
	const float noaid = e._params.pos_noaid_noise;
	const Vector2f last = e._last_known_posNE;
	e.resetHorizontalPosition();
	vc_assert(announced(e, 0, 0, 1, 0) && !e._hpos_prev_available, "position is reset, no displacement is computed across it");
	VC_SCOPE { vc_assume(f.gps);
		const float v[2] = {g.hacc * g.hacc, g.hacc * g.hacc};
		vc_assert(vc_same(e._state.pos(0), g.pos(0)) && vc_same(e._state.pos(1), g.pos(1)), "GPS position is used"); cov(e, 7, 2, v); vc_assert(e._information_events.flags.reset_pos_to_gps, "announced"); }
	VC_SCOPE { vc_assume(!f.gps && f.ev_pos);
		const float v[2] = {ev.posVar(0), ev.posVar(1)};
		for (int i = 0; i < 2; i++) { vc_assert(vc_eq(e._state.pos(i), rot ? R(i, 0) * ev.pos(0) + R(i, 1) * ev.pos(1) + R(i, 2) * ev.pos(2) : ev.pos(i)), "vision position in the navigation frame is used"); }
		cov(e, 7, 2, v); vc_assert(e._information_events.flags.reset_pos_to_vision, "announced"); }
	VC_SCOPE { vc_assume(!f.gps && !f.ev_pos);
		const bool zero = f.opt_flow && !f.in_air;
		const float a = f.opt_flow ? 0.f : noaid * noaid;
		const float v[2] = {a, a};
		for (int i = 0; i < 2; i++) { vc_assert(vc_eq(e._state.pos(i), zero ? 0.f : last(i)), "otherwise the last known position, or the origin when flow starts on the ground"); }
		cov(e, 7, 2, v); vc_assert(e._information_events.flags.reset_pos_to_last_known, "announced"); }
}
VC_PROOF(E11_height)
{
	Ekf &e = setup(); expect_resets(e);
	fill_any(e._gps_buffer); fill_any(e._baro_buffer); fill_any(e._ext_vision_buffer);
	const gpsSample g = e._gps_buffer._buffer[e._gps_buffer._head]; const baroSample b = e._baro_buffer._buffer[e._baro_buffer._head]; const extVisionSample ev = e._ext_vision_buffer._buffer[e._ext_vision_buffer._head];
	const auto f = e._control_status.flags;
	const float off = e._hgt_sensor_offset, boff = e._baro_hgt_offset, alt = e._gps_alt_ref, rn = e._params.range_noise, bn = e._params.baro_noise, dist = e._range_sensor.getDistBottom();
	const bool bad_baro = e._baro_hgt_faulty, bad_gps = e._gps_hgt_intermittent;
	const extVisionSample evd = e._ev_sample_delayed;
	const float z0 = e._state.pos(2);
	e.resetHeight();
	const bool rng = f.rng_hgt, baro = !rng && f.baro_hgt, gps = !rng && !baro && f.gps_hgt, vis = !rng && !baro && !gps && f.ev_hgt;
	const bool moved = rng || (baro && !bad_baro) || (gps && !bad_gps) || vis;
	vc_assert(announced(e, 0, 1, 0, moved ? 1 : 0), "height is reset when its source is usable, vertical velocity always");
	float z = rng ? off - dist : baro ? boff - b.hgt : gps ? off - g.hgt + alt : ev.time_us >= evd.time_us ? ev.pos(2) : evd.pos(2);
	vc_assert(vc_eq(e._state.pos(2), moved ? z : z0), "height comes from the source in use");
	const bool shift = rng || (gps && !bad_gps);
	vc_assert(vc_eq(e._baro_hgt_offset, shift ? b.hgt + z : boff), "the barometer offset follows, for use as a backup");
	const bool gv = f.gps && !bad_gps;
	vc_assert(vc_eq(e._state.vel(2), gv ? g.vel(2) : 0.f), "vertical velocity comes from GPS or becomes zero");
	const float vv = gv ? 1.5f * g.sacc * 1.5f * g.sacc : 10.f;
	const float vz = rng ? rn * rn : baro ? bn * bn : g.vacc * g.vacc;
	VC_SCOPE {
		vc_assume(moved && !vis);
		for (int i = 0; i < 24; i++) { for (int j = 0; j < 24; j++) {
			if (i == 6 || j == 6) { vc_assert(vc_eq(e.P(i, j), i == j ? vv : 0.f), "variance of the vertical velocity"); }
			else if (i == 9 || j == 9) { vc_assert(vc_eq(e.P(i, j), i == j ? vz : 0.f), "variance of the height is that of its source"); }
			else { vc_assert(vc_same(e.P(i, j), P0[i][j]), "the rest of the covariance is kept"); }
		} }
	}
	VC_SCOPE { vc_assume(!moved || vis); const float v[1] = {vv}; cov(e, 6, 1, v); }
}

// ---- vision in the navigation frame
VC_PROOF(E11_vision)
{
	Ekf &e = setup(); expect_resets(e);
	const bool body = vc_bool("body_frame"), rot = e._params.fusion_mode & MASK_ROTATE_EV;
	e._ev_sample_delayed.vel_frame = body ? velocity_frame_t::BODY_FRAME_FRD : velocity_frame_t::LOCAL_FRAME_FRD;
	const extVisionSample ev = e._ev_sample_delayed;
	const Matrix3f B = e._R_to_earth, V = e._R_ev_to_ekf;
	float off[3], w[3];
	for (int i = 0; i < 3; i++) { off[i] = e._params.ev_pos_body(i) - e._params.imu_pos_body(i); }
	for (int i = 0; i < 3; i++) { const int j = (i + 1) % 3, k = (i + 2) % 3; w[i] = e._ang_rate_delayed_raw(j) * off[k] - e._ang_rate_delayed_raw(k) * off[j]; }
	e.resetVelocityToVision();
	vc_assert(announced(e, 1, 1, 0, 0) && e._information_events.flags.reset_vel_to_vision, "announced");
	float var[3];
	for (int i = 0; i < 3; i++) {
		float lever = 0.f, vb = 0.f, vr = 0.f, vbb = 0.f, vrr = 0.f;
		for (int j = 0; j < 3; j++) {
			lever += B(i, j) * w[j]; vb += B(i, j) * ev.vel(j); vr += V(i, j) * ev.vel(j);
			for (int k = 0; k < 3; k++) { vbb += B(i, j) * ev.velCov(j, k) * B(i, k); vrr += V(i, j) * ev.velCov(j, k) * V(i, k); }
		}
		vc_assert(vc_eq(e._state.vel(i), (body ? vb : rot ? vr : ev.vel(i)) - lever), "vision velocity is rotated into the navigation frame and moved to the IMU");
		var[i] = body ? vbb : rot ? vrr : ev.velCov(i, i);
	}
	cov(e, 4, 3, var);
}
VC_PROOF(E11_vision_rotation)
{
	Ekf &e = setup();
	const Quatf q = (e._state.quat_nominal * e._ev_sample_delayed.quat.inversed()).normalized();
	e.calcExtVisRotMat();
	const Dcmf R(q);
	for (int i = 0; i < 9; i++) { vc_assert(vc_eq(e._R_ev_to_ekf(i / 3, i % 3), R(i / 3, i % 3)), "rotation from the vision to the navigation frame"); }
}
// ---- reports
VC_PROOF(E11_reports)
{
	Ekf &e = setup(); vc_mode("uf");
	uint8_t c[5], r[5]; float d[10], v[2], p[2], vd, pd, q[4];
	reset_status(e, c, d);
	e.get_velNE_reset(v, &r[0]); e.get_velD_reset(&vd, &r[1]); e.get_posNE_reset(p, &r[2]); e.get_posD_reset(&pd, &r[3]); e.get_quat_reset(q, &r[4]);
	for (int i = 0; i < 5; i++) { vc_assert(r[i] == c[i], "reset counts are reported"); }
	vc_assert(vc_same(v[0], d[0]) && vc_same(v[1], d[1]) && vc_same(vd, d[2]) && vc_same(p[0], d[3]) && vc_same(p[1], d[4]) && vc_same(pd, d[5]), "reset amounts are reported");
	for (int i = 0; i < 4; i++) { vc_assert(vc_same(q[i], d[6 + i]), "reset rotation is reported"); }
}
