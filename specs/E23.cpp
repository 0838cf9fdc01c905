// E23: wind from air data, sideslip and drag; position hold without aiding; auxiliary velocity
#include "fusion.h"

static bool late(const Ekf &e, uint64_t t, uint64_t p) { return t + p < e._time_last_imu; }
// ---- what is observed of the callees
static int wind_states_resets, wind_cov_resets, aspd, beta, drag, pos_resets, vel_resets; static bool order_ok;
static void on_ws(Ekf *) { wind_states_resets++; }
static void on_wc(Ekf *) { wind_cov_resets++; order_ok = wind_states_resets == wind_cov_resets; }
static void on_aspd(Ekf *) { aspd++; }
static void on_beta(Ekf *) { beta++; }
static void on_drag(Ekf *) { drag++; }
static void on_pos(Ekf *e) { pos_resets++; vc_havoc(&e->_state.pos, sizeof(e->_state.pos), "pos_reset"); }
static void on_vel(Ekf *e) { vel_resets++; vc_havoc(&e->_state.vel, sizeof(e->_state.vel), "vel_reset"); }
struct Fuse { int n; Vector3f innov, obs; Vector2f gate; const void *innov_at, *var, *ratio; bool inhibit, odom; };
static Fuse hv, vv, hp;
static void rec(Ekf *e, Fuse &f, const Vector3f &i, const Vector2f &g, const Vector3f &o, Vector3f &v, Vector2f &r)
{
	f.n++; f.innov = i; f.obs = o; f.gate = g; f.innov_at = &i; f.var = &v; f.ratio = &r; f.odom = e->_fuse_hpos_as_odom;
}
static bool on_hv(Ekf *e, const Vector3f &i, const Vector2f &g, const Vector3f &o, Vector3f &v, Vector2f &r) { rec(e, hv, i, g, o, v, r); return vc_bool("hv"); }
static bool on_vv(Ekf *e, const Vector3f &i, const Vector2f &g, const Vector3f &o, Vector3f &v, Vector2f &r) { rec(e, vv, i, g, o, v, r); return vc_bool("vv"); }
static bool on_hp(Ekf *e, const Vector3f &i, const Vector2f &g, const Vector3f &o, Vector3f &v, Vector2f &r, bool inhibit) { rec(e, hp, i, g, o, v, r); hp.inhibit = inhibit; return vc_bool("hp"); }
// (R01) the newest sample not newer than the horizon, if there is one
static bool have; static int pops; static uint64_t pop_at;
static bool on_pop_drag(RingBuffer<estimator::dragSample> *, const uint64_t &t, estimator::dragSample *s) { pops++; pop_at = t; if (have) { vc_havoc(s, sizeof(*s), "drag_sample"); } return have; }
static bool on_pop_aux(RingBuffer<estimator::auxVelSample> *, const uint64_t &t, estimator::auxVelSample *s) { pops++; pop_at = t; if (have) { vc_havoc(s, sizeof(*s), "aux_sample"); } return have; }
static Ekf &setup()
{
	vc_mode("real"); vc_tol(1e-4, 1e-3);
	Ekf &e = any_ekf();
	symmetric_P(e);
	wind_states_resets = wind_cov_resets = aspd = beta = drag = pos_resets = vel_resets = hv.n = vv.n = hp.n = pops = 0; order_ok = true;
	have = vc_bool("have_sample");
	vc_replace("Ekf::resetWindStates", on_ws);
	vc_replace("Ekf::resetWindCovariance", on_wc);
	vc_replace("Ekf::fuseAirspeed", on_aspd);
	vc_replace("Ekf::fuseSideslip", on_beta);
	vc_replace("Ekf::fuseDrag", on_drag);
	vc_replace("Ekf::resetHorizontalPosition", on_pos);
	vc_replace("Ekf::resetVelocity", on_vel);
	vc_replace("Ekf::fuseHorizontalVelocity", on_hv);
	vc_replace("Ekf::fuseVerticalVelocity", on_vv);
	vc_replace("Ekf::fuseHorizontalPosition", on_hp);
	vc_replace("RingBuffer<estimator::dragSample>::pop_first_older_than", on_pop_drag);
	vc_replace("RingBuffer<estimator::auxVelSample>::pop_first_older_than", on_pop_aux);
	return e;
}
static bool aided(const filter_control_status_u &c) { return c.flags.gps || c.flags.opt_flow || c.flags.ev_pos || c.flags.ev_vel || (c.flags.fuse_aspd && c.flags.fuse_beta); }
static void wind_reset(bool started) { vc_assert(wind_states_resets == started && wind_cov_resets == started && order_ok, "wind starts over when its estimation starts"); }

VC_PROOF(E23_airspeed)
{
	Ekf &e = setup();
	const filter_control_status_u c0 = e._control_status; filter_control_status_u want = c0;
	const bool synth = e._using_synthetic_position, at = late(e, e._time_last_arsp_fuse, 10000000u), bt = late(e, e._time_last_beta_fuse, 10000000u), use_drag = e._params.fusion_mode & MASK_USE_DRAG;
	const uint64_t t0 = e._time_last_arsp_fuse, b0 = e._time_last_beta_fuse;
	if (synth || (at && bt && !use_drag)) { want.flags.wind = false; }
	if (at) { want.flags.fuse_aspd = false; }
	const bool fuse = !synth && e._tas_data_ready && c0.flags.in_air, start = fuse && !want.flags.wind;
	if (start) { want.flags.wind = true; }
	e.controlAirDataFusion();
	vc_assert(e._control_status.value == want.value, "wind is estimated while something observes it, airspeed aids while it is fused");
	wind_reset(start);
	vc_assert(aspd == fuse, "airspeed is fused in flight");
	vc_assert(e._time_last_arsp_fuse == (start ? e._time_last_imu : t0) && e._time_last_beta_fuse == b0, "the timeout starts with the estimation");
	vc_assert(beta == 0 && drag == 0 && pos_resets == 0 && vel_resets == 0, "nothing else happens");
}
VC_PROOF(E23_sideslip)
{
	Ekf &e = setup();
	vc_assume(e._params.beta_avg_ft_us >= 0.f && e._params.beta_avg_ft_us < 1e9f);
	const filter_control_status_u c0 = e._control_status; filter_control_status_u want = c0;
	const uint64_t b0 = e._time_last_beta_fuse, t0 = e._time_last_arsp_fuse;
	const bool fuse = !e._using_synthetic_position && late(e, b0, (uint64_t)e._params.beta_avg_ft_us) && c0.flags.fuse_beta && c0.flags.in_air, start = fuse && !c0.flags.wind;
	if (start) { want.flags.wind = true; }
	e.controlBetaFusion();
	vc_assert(e._control_status.value == want.value, "wind is estimated");
	wind_reset(start);
	vc_assert(beta == fuse, "sideslip is fused at its interval in flight when enabled");
	vc_assert(e._time_last_beta_fuse == (start ? e._time_last_imu : b0) && e._time_last_arsp_fuse == t0, "the timeout starts with the estimation");
	vc_assert(aspd == 0 && drag == 0 && pos_resets == 0 && vel_resets == 0, "nothing else happens");
}
VC_PROOF(E23_drag)
{
	Ekf &e = setup();
	const filter_control_status_u c0 = e._control_status; filter_control_status_u want = c0;
	const bool on = (e._params.fusion_mode & MASK_USE_DRAG) && !e._using_synthetic_position && c0.flags.in_air && !e._mag_inhibit_yaw_reset_req, start = on && !c0.flags.wind;
	if (start) { want.flags.wind = true; }
	e.controlDragFusion();
	vc_assert(e._control_status.value == want.value, "wind is estimated");
	wind_reset(start);
	vc_assert(drag == (on && !start && have) && pops == (on && !start) && (!pops || pop_at == e._imu_sample_delayed.time_us), "drag is fused in flight when selected, with a sample behind the horizon");
	vc_assert(aspd == 0 && beta == 0 && pos_resets == 0 && vel_resets == 0, "nothing else happens");
}
VC_PROOF(E23_hold)
{
	Ekf &e = setup();
	auto &p = e._params;
	const filter_control_status_u c0 = e._control_status;
	const bool on = !aided(c0);
	const uint64_t t0 = e._time_last_fake_pos, now = e._time_last_imu;
	vc_assume(t0 <= now && now < (1ull << 62));
	const bool due = on && late(e, t0, 200000u), again = on && late(e, t0, 400000u), odom0 = e._fuse_hpos_as_odom;
	warning_event_status_u w = e._warning_events;
	if (again && t0 != 0) { w.flags.stopping_navigation = true; }
	const Vector2f known = e._last_known_posNE; const Vector3f x = e._state.pos;
	e.controlFakePosFusion();
	vc_assert(e._using_synthetic_position == on, "position is held when nothing aids");
	vc_assert(e._control_status.value == c0.value && e._warning_events.value == w.value, "the end of navigation is announced");
	vc_assert(e._time_last_fake_pos == (due ? now : t0), "at most every 200 ms");
	vc_assert(pos_resets == again && vel_resets == again, "velocity and position are reset when holding starts");
	for (int i = 0; i < 2; i++) { vc_assert(vc_same(e._last_known_posNE(i), again ? x(i) : known(i)), "the position is held where it was"); }
	vc_assert(e._fuse_hpos_as_odom == (again ? false : odom0), "the held position is absolute");
	vc_assert(hp.n == due && hv.n == 0 && vv.n == 0, "the held position is fused");
	VC_SCOPE {
		vc_assume(due);
		const float n = c0.flags.in_air && c0.flags.tilt_align ? fmaxf(p.pos_noaid_noise, p.gps_pos_noise) : c0.flags.vehicle_at_rest ? 0.1f : 0.5f;
		for (int i = 0; i < 2; i++) {
			vc_assert(vc_eq(hp.innov(i), e._state.pos(i) - e._last_known_posNE(i)), idx_label("innovation of the held position", i, 0));
			vc_assert(vc_eq(hp.obs(i), n * n), idx_label("noise of the held position: tight at rest, loose in flight", i, 0));
		}
		vc_assert(vc_eq(hp.gate(0), 3.f) && hp.inhibit, "the held position is not rejected");
		vc_assert(hp.innov_at == &e._gps_pos_innov && hp.var == &e._gps_pos_innov_var && hp.ratio == &e._gps_pos_test_ratio, "reported in place of GPS");
	}
	frame_P(e, "covariance kept");
}
VC_PROOF(E23_auxiliary)
{
	Ekf &e = setup();
	const filter_control_status_u c0 = e._control_status;
	const bool fuse = have && aided(c0);
	const Vector3f lo = e._last_vel_obs, lv = e._last_vel_obs_var;
	e.controlAuxVelFusion();
	const auto &s = e._auxvel_sample_delayed;
	vc_assert(pops == 1 && pop_at == e._imu_sample_delayed.time_us, "the sample behind the horizon is taken");
	vc_assert(hv.n == fuse && vv.n == 0 && hp.n == 0, "auxiliary horizontal velocity is fused while something aids");
	vc_assert(e._control_status.value == c0.value, "no other change");
	for (int i = 0; i < 3; i++) {
		vc_assert(vc_same(e._last_vel_obs(i), fuse ? s.vel(i) : lo(i)) && vc_same(e._last_vel_obs_var(i), fuse ? s.velVar(i) : lv(i)), "last velocity observation and its variance");
	}
	VC_SCOPE {
		vc_assume(fuse);
		for (int i = 0; i < 2; i++) {
			vc_assert(vc_eq(hv.innov(i), e._state.vel(i) - s.vel(i)), idx_label("velocity innovation", i, 0));
			vc_assert(vc_same(hv.obs(i), s.velVar(i)), idx_label("velocity noise as given", i, 0));
		}
		vc_assert(vc_same(hv.gate(0), e._params.auxvel_gate), "gate");
		vc_assert(hv.innov_at == &e._aux_vel_innov && hv.var == &e._aux_vel_innov_var && hv.ratio == &e._aux_vel_test_ratio, "reported as auxiliary velocity");
	}
	frame_P(e, "covariance kept");
}
VC_PROOF(E23_aiding)
{
	Ekf &e = setup();
	const filter_control_status_u c = e._control_status;
	const int n = (int)c.flags.gps + (int)c.flags.opt_flow + (int)c.flags.ev_pos + (int)c.flags.ev_vel + ((c.flags.fuse_aspd && c.flags.fuse_beta) ? 1 : 0);
	const bool f = vc_bool("flag");
	vc_assert(e.isHorizontalAidingActive() == (n > 0) && e.getNumberOfActiveHorizontalAidingSources() == n, "aiding is counted, air data with sideslip as one");
	vc_assert(e.isOtherSourceOfHorizontalAidingThan(f) == (n > (f ? 1 : 0)) && e.isOnlyActiveSourceOfHorizontalAiding(f) == (f && n <= 1), "other sources are counted");
	e.stopAuxVelFusion();
	bool z = true;
	for (int i = 0; i < 3; i++) { z = z && e._aux_vel_innov(i) == 0.f && e._aux_vel_innov_var(i) == 0.f; }
	vc_assert(z && e._aux_vel_test_ratio(0) == 0.f && e._aux_vel_test_ratio(1) == 0.f && e._control_status.value == c.value, "unused auxiliary velocity reports no innovation");
}
// the wind that starts it over: zero sideslip with recent airspeed, calm otherwise
VC_PROOF(E23_wind_start)
{
	vc_mode("real"); vc_tol(1e-3, 1e-4);
	Ekf &e = any_ekf();
	const airspeedSample &a = e._airspeed_sample_delayed;
	const bool fresh = e._tas_data_ready && e._imu_sample_delayed.time_us - a.time_us < 500000ull;
	const float yaw = getEuler321Yaw(e._state.quat_nominal);
	const stateSample s0 = e._state;
	e.resetWindStates();
	vc_assert(vc_eq(e._state.wind_vel(0), fresh ? s0.vel(0) - a.true_airspeed * cosf(yaw) : 0.f) && vc_eq(e._state.wind_vel(1), fresh ? s0.vel(1) - a.true_airspeed * sinf(yaw) : 0.f), "wind starts at ground velocity less recent airspeed along the heading, else calm");
	for (int i = 0; i < 3; i++) { vc_assert(vc_same(e._state.vel(i), s0.vel(i)) && vc_same(e._state.pos(i), s0.pos(i)) && vc_same(e._state.mag_B(i), s0.mag_B(i)) && vc_same(e._state.mag_I(i), s0.mag_I(i)) && vc_same(e._state.delta_vel_bias(i), s0.delta_vel_bias(i)) && vc_same(e._state.delta_ang_bias(i), s0.delta_ang_bias(i)), "starting the wind over changes no other state"); }
	for (int i = 0; i < 4; i++) { vc_assert(vc_same(e._state.quat_nominal(i), s0.quat_nominal(i)), "starting the wind over changes no other state"); }
}
