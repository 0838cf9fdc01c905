// E19: when and how the magnetometer is used for heading
#include "fusion.h"

// ---- what is observed of the callees
enum Call { HEADING, MAG, DECL };
struct Fusion { Call what; float noise; bool decl_reset; };
static Fusion fus[4]; static int nfus;
static void add(Call c, float n, bool r) { if (nfus < 4) { fus[nfus].what = c; fus[nfus].noise = n; fus[nfus].decl_reset = r; } nfus++; }
static void on_heading(Ekf *e) { add(HEADING, 0.f, e->_mag_decl_cov_reset); }
static void on_mag(Ekf *e) { add(MAG, 0.f, e->_mag_decl_cov_reset); }
static void on_decl(Ekf *e, float s) { add(DECL, s, e->_mag_decl_cov_reset); }
static int aligns_gps, aligns_mag, vel_resets, pos_resets; static bool align_ok, new_velpos, new_fault; static Vector3f align_from; static bool align_var, align_buf;
// (E07/E11) a course alignment may find the magnetometer faulty and ask for a velocity and position reset
static bool on_realign(Ekf *e)
{
	aligns_gps++;
	e->_velpos_reset_request = new_velpos; e->_control_status.flags.mag_fault = new_fault;
	return align_ok;
}
static bool on_mag_heading(Ekf *, const Vector3f &m, bool v, bool b) { aligns_mag++; align_from = m; align_var = v; align_buf = b; return align_ok; }
static void on_vel(Ekf *) { vel_resets++; }
static void on_pos(Ekf *) { pos_resets++; }
static void observe()
{
	nfus = aligns_gps = aligns_mag = vel_resets = pos_resets = 0;
	align_ok = vc_bool("aligned"); new_velpos = vc_bool("velpos_request"); new_fault = vc_bool("found_faulty");
	vc_replace("Ekf::fuseHeading", on_heading);
	vc_replace("Ekf::fuseMag", on_mag);
	vc_replace("Ekf::fuseDeclination", on_decl);
	vc_replace("Ekf::realignYawGPS", on_realign);
	vc_replace("Ekf::resetMagHeading", on_mag_heading);
	vc_replace("Ekf::resetVelocity", on_vel);
	vc_replace("Ekf::resetHorizontalPosition", on_pos);
}
static Ekf &setup()
{
	vc_mode("real"); vc_tol(1e-4, 1e-3);
	Ekf &e = any_ekf();
	symmetric_P(e);
	observe();
	return e;
}
static bool quiet() { return aligns_gps == 0 && aligns_mag == 0 && vel_resets == 0 && pos_resets == 0; }

// ---- field strength
VC_PROOF(E19_strength)
{
	Ekf &e = setup();
	e._params.mag_fusion_type = 0; e._control_status.flags.mag_fault = true; // nothing but the check
	const bool chk = e._params.check_mag_strength;
	const Vector3f m = e._mag_sample_delayed.mag;
	const float n = sqrtf(m(0) * m(0) + m(1) * m(1) + m(2) * m(2));
	const bool known = e._NED_origin_initialised;
	const float mid = known ? e._mag_strength_gps : 0.45f, gate = known ? 0.2f : 0.4f;
	const float lo = mid - gate, hi = mid + gate;
	e.controlMagFusion();
	// away from the thresholds, where rounding does not matter
	vc_assume(!vc_eq(n, lo) && !vc_eq(n, hi));
	vc_assert(e._control_status.flags.mag_field_disturbed == (chk && !(n > lo && n < hi)), "a field is disturbed when its strength is not the expected one");
}

// ---- observability
static Ekf &automatic()
{
	Ekf &e = setup();
	e._params.mag_fusion_type = 0; e._mag_data_ready = true;
	e._control_status.flags.mag_fault = e._control_status.flags.ev_yaw = e._control_status.flags.gps_yaw = e._control_status.flags.in_air = false;
	e._control_status.flags.yaw_align = true;
	return e;
}
VC_PROOF(E19_yaw_observable)
{
	Ekf &e = automatic();
	const float g = e._params.mag_acc_gate;
	vc_assume(g > 0.f);
	const bool was = e._yaw_angle_observable, aided = e._control_status.flags.gps || e._control_status.flags.ev_pos;
	const float ax = e._accel_lpf_NE(0), ay = e._accel_lpf_NE(1), lim = was ? g : 2.f * g;
	vc_assume(!vc_eq(ax * ax + ay * ay, lim * lim));
	e.controlMagFusion();
	vc_assert(e._yaw_angle_observable == (aided && ax * ax + ay * ay > lim * lim), "yaw is observable while accelerating horizontally with position aiding, with hysteresis");
}
VC_PROOF(E19_bias_observable)
{
	Ekf &e = automatic();
	const float g = e._params.mag_yaw_rate_gate, r = e._yaw_rate_lpf_ef, d = e._yaw_delta_ef;
	const bool was = e._mag_bias_observable;
	const uint64_t now = e._imu_sample_delayed.time_us;
	vc_assume(now >= e._time_yaw_started && now - e._time_yaw_started < (1ull << 40));
	const float need = 0.5f * g * (1e-6f * (float)(now - e._time_yaw_started));
	vc_assume(!vc_eq(fabsf(d), need));
	e.controlMagFusion();
	vc_assert(e._mag_bias_observable == (was ? fabsf(d) > need : fabsf(r) > g), "field biases are observable while turning: started by rate, held by half the angle");
	vc_assert(e._yaw_delta_ef == 0.f && e._time_yaw_started == now, "the turn is measured again from now");
}

// ---- the whole decision, one proof per configured type
enum Type { AUTO, HDG, INDOOR, THREE };
static void run(Type t)
{
	Ekf &e = setup();
	switch (t) {
	case AUTO: vc_assume(e._params.mag_fusion_type <= 0); break;
	case HDG: e._params.mag_fusion_type = 1; break;
	case THREE: e._params.mag_fusion_type = 2; break;
	case INDOOR: e._params.mag_fusion_type = 4; break;
	}
	const filter_control_status_u c0 = e._control_status;
	filter_control_status_u want = c0;
	const auto c = c0.flags;
	const bool none = !c.ev_yaw && !c.gps_yaw, air = c.in_air, ready = e._mag_data_ready, dreset = e._mag_decl_cov_reset;
	const int bad = e._num_bad_flight_yaw_events;
	const uint64_t now = e._imu_sample_delayed.time_us, last_ok = e._mag_use_not_inhibit_us, last_mov = e._time_last_mov_3d_mag_suitable;
	vc_assume(now >= last_ok && now - last_ok < (1ull << 32) && now >= last_mov);
	const bool inhibited0 = e._is_yaw_fusion_inhibited, req0 = e._mag_yaw_reset_req, vp0 = e._velpos_reset_request, prev0 = e._non_mag_yaw_aiding_running_prev, ireq0 = e._mag_inhibit_yaw_reset_req;
	const float ground = e._hagl_valid ? e._terrain_vpos : e._last_on_ground_posD, climb = ground - e._state.pos(2);
	vc_assume(!vc_eq(climb, 1.5f));
	const Vector3f lpf = e._mag_lpf.getState();
	const stateSample st = e._state;

	e.controlMagFusion();

	const bool disturbed = e._control_status.flags.mag_field_disturbed, obs_yaw = e._yaw_angle_observable, obs_bias = e._mag_bias_observable;
	bool aligned = air && c.mag_aligned_in_flight, req = req0 || (none && prev0);
	const bool stop = c.mag_fault || !c.yaw_align, use = !stop && none && ready;
	if (use && air && !aligned) { req = req || climb > 1.5f; }
	const bool attempt = use && req && !inhibited0;
	const bool by_gps = attempt && air && c.fixed_wing, by_mag = attempt && !by_gps && !disturbed;
	const bool done = (by_gps || by_mag) && align_ok;
	if (attempt) { req = !done; if (air) { aligned = done; } }
	const bool velpos = use && air && (by_gps ? new_velpos : vp0);
	const uint64_t mov = t == AUTO && use && (obs_yaw || obs_bias) ? now : last_mov;
	const bool m3 = use && (t == THREE || (t == AUTO && aligned && now - mov < 2000000u));
	const bool dec = m3 && (!c.gps || (e._params.mag_declination_source & MASK_FUSE_DECL));
	const bool inhibit = disturbed || (t == INDOOR && !c.gps && !c.ev_pos && !c.ev_vel);

	want.flags.mag_field_disturbed = disturbed;
	want.flags.mag_aligned_in_flight = aligned;
	if (by_gps) { want.flags.mag_fault = new_fault; }
	if (stop) { want.flags.mag_3D = want.flags.mag_hdg = false; }
	// continuing three-axis fusion leaves the heading flag alone
	if (use) { want.flags.mag_hdg = m3 ? (c.mag_3D && c.mag_hdg) : true; want.flags.mag_3D = m3; want.flags.mag_dec = dec; }
	vc_assert(e._control_status.value == want.value, "heading source");
	vc_assert(e._num_bad_flight_yaw_events == (air ? bad : 0), "bad yaw events are counted per flight");
	vc_assert(e._mag_yaw_reset_req == (stop ? req0 : req), "a heading reset stays requested until it is done");
	vc_assert(e._non_mag_yaw_aiding_running_prev == (stop ? prev0 : !none), "the end of other heading sources is noticed once");
	vc_assert(aligns_gps == by_gps && aligns_mag == by_mag, "heading is reset when requested: from the GPS course for fixed wings in flight, else from an undisturbed field");
	vc_assert(vc_implies(by_mag, vc_same(align_from(0), lpf(0)) && vc_same(align_from(1), lpf(1)) && vc_same(align_from(2), lpf(2)) && align_var && align_buf), "heading is reset to the filtered field");
	vc_assert(vel_resets == velpos && pos_resets == velpos, "velocity and position are reset when a bad heading spoiled them");
	vc_assert(e._velpos_reset_request == (use && air ? false : vp0), "the velocity and position reset request is served once");
	vc_assert(e._is_yaw_fusion_inhibited == (use ? inhibit : inhibited0), "heading is not corrected indoors without aiding or in a disturbed field");
	vc_assert(e._mag_use_not_inhibit_us == (use && !inhibit ? now : last_ok), "time of the last use");
	vc_assert(e._mag_inhibit_yaw_reset_req == (ireq0 || (use && inhibit && now - last_ok > 5000000u)), "after five seconds without use a heading reset is needed");
	vc_assert(e._time_last_mov_3d_mag_suitable == mov, "time of the last motion that makes biases observable");
	if (t != HDG && t != INDOOR) VC_SCOPE {
		vc_assume(m3);
		// the covariance flag of the declination after starting three-axis fusion is kept
		vc_assert(nfus == (dreset ? (dec ? 2 : 1) : 2), "number of measurements");
		vc_assert(fus[dreset ? 0 : 1].what == MAG, "three-axis field is fused");
		vc_assert(dreset || (fus[0].what == DECL && vc_eq(fus[0].noise, 0.02f) && fus[1].decl_reset), "after a field reset the declination is enforced first");
		vc_assert(!dreset || !dec || (fus[1].what == DECL && vc_eq(fus[1].noise, 0.5f)), "declination is fused loosely afterwards");
		vc_assert(e._mag_decl_cov_reset, "declination has been used");
	}
	if (t != THREE) VC_SCOPE {
		vc_assume(use && !m3);
		vc_assert(nfus == 1 && fus[0].what == HEADING, "heading is fused once");
	}
	VC_SCOPE {
		vc_assume(!use);
		vc_assert(nfus == 0 && quiet(), "nothing is fused or reset");
	}
	VC_SCOPE {
		vc_assume(stop);
		vc_assert(!e._mag_decl_cov_reset, "the declination must be enforced again");
		for (int i = 16; i < 22; i++) { vc_assert(e.P(i, i) == 0.f, "unused field states have no covariance"); }
	}
	frame_state(e, st, "state kept");
}
VC_PROOF(E19_auto) { run(AUTO); }
VC_PROOF(E19_heading) { run(HDG); }
VC_PROOF(E19_indoor) { run(INDOOR); }
VC_PROOF(E19_3d) { run(THREE); }
VC_PROOF(E19_none)
{
	Ekf &e = setup();
	e._params.mag_fusion_type = 5;
	const filter_control_status_u c = e._control_status;
	const bool none = !c.flags.ev_yaw && !c.flags.gps_yaw, i0 = e._is_yaw_fusion_inhibited;
	e.controlMagFusion();
	vc_assert(nfus == none && (!none || fus[0].what == HEADING), "without a magnetometer only the zero yaw motion is fused");
	vc_assert(e._is_yaw_fusion_inhibited == (none || i0), "heading itself is not corrected");
	vc_assert(e._control_status.value == c.value && quiet(), "nothing else changes");
}
VC_PROOF(E19_unknown)
{
	Ekf &e = setup();
	vc_assume(e._params.mag_fusion_type > 5);
	const filter_control_status_u c = e._control_status;
	e.controlMagFusion();
	vc_assert(nfus == 0 && quiet() && e._control_status.value == c.value, "an unknown type does nothing");
}
