// E21: when external vision is used and what of it is fused
#include "fusion.h"

static bool late(const Ekf &e, uint64_t t, uint64_t p) { return t + p < e._time_last_imu; }
static bool recent(const Ekf &e, uint64_t t, uint64_t p) { return t + p > e._time_last_imu; }
// ---- what is observed of the callees
static int pos_resets, vel_resets, yaw_resets, headings, rotations; static float yaw_to, yaw_var; static bool yaw_out;
static void on_pos(Ekf *e) { pos_resets++; e->_hpos_prev_available = false; vc_havoc(&e->_state.pos, sizeof(e->_state.pos), "pos_reset"); }
static void on_vel(Ekf *e) { vel_resets++; vc_havoc(&e->_state.vel, sizeof(e->_state.vel), "vel_reset"); }
static void on_yaw(Ekf *, float y, float v, bool b) { yaw_resets++; yaw_to = y; yaw_var = v; yaw_out = b; }
static void on_heading(Ekf *) { headings++; }
static void on_rotation(Ekf *e) { rotations++; vc_havoc(&e->_R_ev_to_ekf, sizeof(e->_R_ev_to_ekf), "R_ev_to_ekf"); }
struct Fuse { int n; Vector3f innov, obs; Vector2f gate; const void *innov_at, *var, *ratio; bool inhibit, odom; };
static Fuse hv, vv, hp;
static void rec(Ekf *e, Fuse &f, const Vector3f &i, const Vector2f &g, const Vector3f &o, Vector3f &v, Vector2f &r)
{
	f.n++; f.innov = i; f.obs = o; f.gate = g; f.innov_at = &i; f.var = &v; f.ratio = &r; f.odom = e->_fuse_hpos_as_odom;
}
static bool on_hv(Ekf *e, const Vector3f &i, const Vector2f &g, const Vector3f &o, Vector3f &v, Vector2f &r) { rec(e, hv, i, g, o, v, r); return vc_bool("hv"); }
static bool on_vv(Ekf *e, const Vector3f &i, const Vector2f &g, const Vector3f &o, Vector3f &v, Vector2f &r) { rec(e, vv, i, g, o, v, r); return vc_bool("vv"); }
static bool on_hp(Ekf *e, const Vector3f &i, const Vector2f &g, const Vector3f &o, Vector3f &v, Vector2f &r, bool inhibit) { rec(e, hp, i, g, o, v, r); hp.inhibit = inhibit; return vc_bool("hp"); }
static Ekf &setup()
{
	vc_mode("real"); vc_tol(1e-4, 1e-3);
	Ekf &e = any_ekf();
	symmetric_P(e);
	pos_resets = vel_resets = yaw_resets = headings = rotations = hv.n = vv.n = hp.n = 0;
	vc_replace("Ekf::resetHorizontalPosition", on_pos);
	vc_replace("Ekf::resetVelocity", on_vel);
	vc_replace("Ekf::resetQuatStateYaw", on_yaw);
	vc_replace("Ekf::fuseHeading", on_heading);
	vc_replace("Ekf::calcExtVisRotMat", on_rotation);
	vc_replace("Ekf::fuseHorizontalVelocity", on_hv);
	vc_replace("Ekf::fuseVerticalVelocity", on_vv);
	vc_replace("Ekf::fuseHorizontalPosition", on_hp);
	vc_assume(e._ev_sample_delayed.vel_frame == velocity_frame_t::BODY_FRAME_FRD || e._ev_sample_delayed.vel_frame == velocity_frame_t::LOCAL_FRAME_FRD);
	return e;
}
static bool zero3(const Vector3f &v) { return v(0) == 0.f && v(1) == 0.f && v(2) == 0.f; }
static bool zero2(const Vector2f &v) { return v(0) == 0.f && v(1) == 0.f; }

static void run(bool with_gps, bool rotate)
{
	Ekf &e = setup();
	e._ev_data_ready = true;
	auto &p = e._params;
	vc_assume(((p.fusion_mode & MASK_USE_GPS) != 0) == with_gps && ((p.fusion_mode & MASK_ROTATE_EV) != 0) == rotate);
	const bool up = p.fusion_mode & MASK_USE_EVPOS, uv = p.fusion_mode & MASK_USE_EVVEL, uy = p.fusion_mode & MASK_USE_EVYAW;
	const filter_control_status_u c0 = e._control_status; filter_control_status_u want = c0;
	const auto c = c0.flags;
	information_event_status_u inf = e._information_events; const warning_event_status_u w = e._warning_events;
	const bool rot = rotate && (up || uv) && !c.ev_yaw;
	const bool frequent = recent(e, e._time_last_ext_vision, 400000u), aligned = c.tilt_align && c.yaw_align;
	const bool sp = aligned && frequent && up && !c.ev_pos, sv = aligned && frequent && uv && !c.ev_vel, sy = frequent && !c.gps && uy && !c.ev_yaw && c.tilt_align;
	if (sp) { want.flags.ev_pos = true; inf.flags.starting_vision_pos_fusion = true; }
	if (sv) { want.flags.ev_vel = true; inf.flags.starting_vision_vel_fusion = true; }
	if (sy) { want.flags.ev_yaw = want.flags.yaw_align = true; want.flags.mag_dec = want.flags.mag_hdg = want.flags.mag_3D = false; inf.flags.starting_vision_yaw_fusion = true; }
	const bool pos = want.flags.ev_pos, vel = want.flags.ev_vel;
	const uint64_t tmax = p.reset_timeout_max;
	const bool lp = late(e, e._time_last_hor_pos_fuse, tmax), lv = late(e, e._time_last_hor_vel_fuse, tmax), lf1 = late(e, e._time_last_of_fuse, 1000000u), lv1 = late(e, e._time_last_hor_vel_fuse, 1000000u), lp1 = late(e, e._time_last_hor_pos_fuse, 1000000u);
	const bool rp = pos && !with_gps && lp, rv = (rp && lf1 && lv1), rv2 = vel && lv && lf1 && lp1;
	const bool prev = e._hpos_prev_available && !sp;
	const Vector3f meas_prev = e._pos_meas_prev; const Vector2f pred_prev = e._hpos_pred_prev;
	const extVisionSample s = e._ev_sample_delayed;
	const matrix::Dcmf R = e._R_to_earth;
	const Vector3f off = p.ev_pos_body - p.imu_pos_body;
	const bool odom0 = e._fuse_hpos_as_odom;
	const Vector3f lo0 = e._last_vel_obs, lov0 = e._last_vel_obs_var;

	e.controlExternalVisionFusion();

	vc_assert(e._control_status.value == want.value, "vision position, velocity and heading start when configured, aligned and frequent");
	vc_assert(e._information_events.value == inf.value && e._warning_events.value == w.value, "a start is announced");
	vc_assert(rotations == rot, "the rotation between frames is found while vision heading is not used");
	vc_assert(pos_resets == (sp ? 1 : 0) + rp && vel_resets == (sv ? 1 : 0) + rv + rv2, "position and velocity are reset on start and on timeout, velocity only if nothing else constrains it");
	vc_assert(yaw_resets == sy && headings == want.flags.ev_yaw, "heading is reset on start and fused");
	vc_assert(hp.n == (pos && (!with_gps || prev)) && hv.n == vel && vv.n == vel, "each component is fused once, a position change only with a previous position");
	if (!rotate) VC_SCOPE {
		vc_assume(sy);
		vc_assert(vc_same(yaw_to, getEuler321Yaw(s.quat)) && vc_eq(yaw_var, fmaxf(s.angVar, 1e-4f)) && yaw_out, "heading starts at the vision heading");
	}
	const auto &T = e._R_ev_to_ekf;
	VC_SCOPE {
		vc_assume(pos);
		vc_mode("poly");
		for (int i = 0; i < 3; i++) { vc_assert(vc_eq(e._ev_sample_delayed.pos(i), s.pos(i) - (R(i, 0) * off(0) + R(i, 1) * off(1) + R(i, 2) * off(2))), idx_label("position of the camera moved to the IMU", i, 0)); }
		vc_assert(e._fuse_hpos_as_odom == with_gps, "position is fused as change when GPS gives the absolute position");
		if (with_gps) {
			vc_assert(e._hpos_prev_available, "position is remembered");
			for (int i = 0; i < 3; i++) { vc_assert(vc_same(e._pos_meas_prev(i), e._ev_sample_delayed.pos(i)), "measured position is remembered"); }
			for (int i = 0; i < 2; i++) { vc_assert(vc_same(e._hpos_pred_prev(i), e._state.pos(i)), "estimated position is remembered"); }
		}
	}
	VC_SCOPE {
		vc_assume(hp.n == 1);
		const extVisionSample &n = e._ev_sample_delayed;
		vc_assert(vc_eq(hp.gate(0), fmaxf(p.ev_pos_innov_gate, 1.f)) && !hp.inhibit && hp.odom == with_gps, "position gate");
		vc_assert(hp.innov_at == &e._ev_pos_innov && hp.var == &e._ev_pos_innov_var && hp.ratio == &e._ev_pos_test_ratio, "reported as vision position");
		for (int i = 0; i < 2; i++) {
			float v = 0.f, d = 0.f;
			for (int j = 0; j < 3; j++) {
				v += (rotate || with_gps) ? T(i, j) * T(i, j) * n.posVar(j) : (i == j ? n.posVar(j) : 0.f);
				const float m = with_gps ? n.pos(j) - meas_prev(j) : n.pos(j);
				d += (rotate || with_gps) ? T(i, j) * m : (i == j ? m : 0.f);
			}
			vc_mode("poly");
			vc_assert(vc_eq(hp.innov(i), with_gps ? e._state.pos(i) - pred_prev(i) - d : e._state.pos(i) - d), idx_label("position innovation", i, 0));
			vc_assert(vc_eq(hp.obs(i), fmaxf(v, with_gps ? 0.25f : 1e-4f)), idx_label("position noise, rotated and at least the floor", i, 0));
		}
	}
	VC_SCOPE {
		vc_assume(vel);
		const Vector3f m = e.getVisionVelocityInEkfFrame(), v = e.getVisionVelocityVarianceInEkfFrame();
		vc_mode("poly");
		for (int i = 0; i < 3; i++) {
			vc_assert(vc_eq(e._last_vel_obs(i), m(i)) && vc_eq(e._ev_vel_innov(i), e._state.vel(i) - m(i)), idx_label("velocity innovation", i, 0));
			vc_assert(vc_eq(e._last_vel_obs_var(i), fmaxf(v(i), 0.0025f)), idx_label("velocity noise has a floor", i, 0));
			vc_assert(vc_same(hv.innov(i), e._ev_vel_innov(i)) && vc_same(vv.innov(i), e._ev_vel_innov(i)) && vc_same(hv.obs(i), e._last_vel_obs_var(i)) && vc_same(vv.obs(i), e._last_vel_obs_var(i)), idx_label("velocity is fused", i, 0));
		}
		vc_mode("real");
		const float g = fmaxf(p.ev_vel_innov_gate, 1.f);
		vc_assert(vc_eq(hv.gate(0), g) && vc_eq(vv.gate(1), g), "velocity gates");
		vc_assert(hv.innov_at == &e._ev_vel_innov && hv.var == &e._ev_vel_innov_var && hv.ratio == &e._ev_vel_test_ratio && vv.innov_at == hv.innov_at && vv.var == hv.var && vv.ratio == hv.ratio, "reported as vision velocity");
	}
	VC_SCOPE {
		vc_assume(!pos);
		vc_assert(e._fuse_hpos_as_odom == odom0, "odometry state kept");
		for (int i = 0; i < 3; i++) { vc_assert(vc_same(e._ev_sample_delayed.pos(i), s.pos(i)), "sample kept"); }
	}
	VC_SCOPE {
		vc_assume(!vel);
		for (int i = 0; i < 3; i++) { vc_assert(vc_same(e._last_vel_obs(i), lo0(i)) && vc_same(e._last_vel_obs_var(i), lov0(i)), "last velocity observation kept"); }
	}
	frame_P(e, "covariance kept");
}
VC_PROOF(E21_absolute) { run(false, false); }
VC_PROOF(E21_rotated) { run(false, true); }
VC_PROOF(E21_change) { run(true, false); }
VC_PROOF(E21_change_rotated) { run(true, true); }

// ---- the velocity of the camera moved to the IMU and into the frame of the estimator
static void velocity(bool body, bool rotate)
{
	Ekf &e = setup();
	e._ev_sample_delayed.vel_frame = body ? velocity_frame_t::BODY_FRAME_FRD : velocity_frame_t::LOCAL_FRAME_FRD;
	vc_assume(((e._params.fusion_mode & MASK_ROTATE_EV) != 0) == rotate);
	const Vector3f off = e._params.ev_pos_body - e._params.imu_pos_body, om = e._ang_rate_delayed_raw;
	const Vector3f w(om(1) * off(2) - om(2) * off(1), om(2) * off(0) - om(0) * off(2), om(0) * off(1) - om(1) * off(0));
	const auto &s = e._ev_sample_delayed;
	const matrix::Dcmf R = e._R_to_earth, T = e._R_ev_to_ekf;
	const Vector3f v = e.getVisionVelocityInEkfFrame(), q = e.getVisionVelocityVarianceInEkfFrame();
	vc_mode("poly");
	for (int i = 0; i < 3; i++) {
		float m = 0.f, c = 0.f;
		for (int j = 0; j < 3; j++) {
			m += (body ? R(i, j) : rotate ? T(i, j) : (i == j ? 1.f : 0.f)) * s.vel(j) - R(i, j) * w(j);
			for (int k = 0; k < 3; k++) { c += (body ? R(i, j) * R(i, k) : rotate ? T(i, j) * T(i, k) : (i == j && i == k ? 1.f : 0.f)) * s.velCov(j, k); }
		}
		vc_assert(vc_eq(v(i), m), idx_label("velocity in the frame of the estimator", i, 0));
		vc_assert(vc_eq(q(i), c), idx_label("velocity variance in the frame of the estimator", i, 0));
	}
}
VC_PROOF(E21_velocity_body) { velocity(true, false); }
VC_PROOF(E21_velocity_local) { velocity(false, false); }
VC_PROOF(E21_velocity_rotated) { velocity(false, true); }

VC_PROOF(E21_no_data)
{
	Ekf &e = setup();
	e._ev_data_ready = false;
	const filter_control_status_u c0 = e._control_status; filter_control_status_u want = c0; warning_event_status_u w = e._warning_events;
	const bool stop = (c0.flags.ev_pos || c0.flags.ev_vel || c0.flags.ev_yaw) && late(e, e._time_last_ext_vision, e._params.reset_timeout_max);
	if (stop) { want.flags.ev_pos = want.flags.ev_vel = want.flags.ev_yaw = false; w.flags.vision_data_stopped = true; }
	e.controlExternalVisionFusion();
	vc_assert(e._control_status.value == want.value && e._warning_events.value == w.value, "vision is given up, and this is announced, when its data stop");
	vc_assert(pos_resets == 0 && vel_resets == 0 && yaw_resets == 0 && headings == 0 && rotations == 0 && hp.n == 0 && hv.n == 0 && vv.n == 0, "nothing is fused or reset");
	VC_SCOPE {
		vc_assume(stop);
		vc_assert(zero3(e._ev_pos_innov) && zero3(e._ev_pos_innov_var) && zero2(e._ev_pos_test_ratio) && zero3(e._ev_vel_innov) && zero3(e._ev_vel_innov_var) && zero2(e._ev_vel_test_ratio), "unused vision reports no innovation");
	}
	frame_P(e, "covariance kept");
}
