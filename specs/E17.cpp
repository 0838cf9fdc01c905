// E17: which height source is used, what of it is fused, and what happens when it fails
#include "fusion.h"
#include "buffers.h"

static Ekf &setup()
{
	vc_mode("real"); vc_tol(1e-4, 1e-3);
	Ekf &e = any_ekf();
	fill_any(e._gps_buffer); fill_any(e._baro_buffer); fill_any(e._ext_vision_buffer);
	return e;
}
static bool late(const Ekf &e, uint64_t t, uint64_t p) { return t + p < e._time_last_imu; }
static bool recent(const Ekf &e, uint64_t t, uint64_t p) { return t + p > e._time_last_imu; }
enum Src { NONE, BARO, GPS, RNG, EV };
static Src source(const filter_control_status_u &c)
{
	return c.flags.baro_hgt ? BARO : c.flags.gps_hgt ? GPS : c.flags.rng_hgt ? RNG : c.flags.ev_hgt ? EV : NONE;
}
static bool exclusive(const filter_control_status_u &c)
{
	return (int)c.flags.baro_hgt + (int)c.flags.gps_hgt + (int)c.flags.rng_hgt + (int)c.flags.ev_hgt <= 1;
}
static void select_source(filter_control_status_u &c, Src s)
{
	c.flags.baro_hgt = s == BARO; c.flags.gps_hgt = s == GPS; c.flags.rng_hgt = s == RNG; c.flags.ev_hgt = s == EV;
}
// ---- what is observed of the callees
static int resets; static uint32_t reset_src;
static void on_reset(Ekf *e) { resets++; reset_src = e->_control_status.value; }
static int fuses; static float f_innov, f_gate, f_obs; static const void *f_dest, *f_var, *f_ratio;
static bool on_fuse(Ekf *, const Vector3f &innov, const Vector2f &gate, const Vector3f &obs, Vector3f &var, Vector2f &ratio)
{
	fuses++; f_innov = innov(2); f_gate = gate(1); f_obs = obs(2);
	f_dest = &innov; f_var = &var; f_ratio = &ratio;
	return vc_bool("accepted");
}
static void observe()
{
	resets = fuses = 0;
	vc_replace("Ekf::resetHeight", on_reset);
	vc_replace("Ekf::fuseVerticalPosition", on_fuse);
}

// ---- switching
VC_PROOF(E17_switch)
{
	Ekf &e = setup();
	const filter_control_status_u c0 = e._control_status; const filter_control_status_u p = e._control_status_prev;
	const float off = e._hgt_sensor_offset, g = e._gps_sample_delayed.hgt - e._gps_alt_ref + e._state.pos(2);
	filter_control_status_u want = c0;
	VC_SCOPE { e.setControlBaroHeight(); select_source(want, BARO); vc_assert(e._control_status.value == want.value, "barometer is the only height source"); }
	VC_SCOPE { e.setControlGPSHeight(); select_source(want, GPS); vc_assert(e._control_status.value == want.value, "GPS is the only height source"); }
	VC_SCOPE { e.setControlRangeHeight(); select_source(want, RNG); vc_assert(e._control_status.value == want.value, "range finder is the only height source"); }
	VC_SCOPE { e.setControlEVHeight(); select_source(want, EV); vc_assert(e._control_status.value == want.value, "vision is the only height source"); }
	VC_SCOPE {
		e.startBaroHgtFusion();
		select_source(want, BARO);
		if (late(e, e._time_last_gnd_effect_on, 10000000u)) { want.flags.gnd_effect = false; }
		vc_assert(e._control_status.value == want.value, "barometer is the only height source, ground effect compensation times out");
		vc_assert(vc_eq(e._hgt_sensor_offset, 0.f), "no sensor offset with the barometer");
	}
	VC_SCOPE {
		e.startGpsHgtFusion();
		select_source(want, GPS);
		vc_assert(e._control_status.value == want.value, "GPS is the only height source");
		vc_assert(vc_eq(e._hgt_sensor_offset, p.flags.gps_hgt ? off : g), "a switch to GPS keeps the height estimate");
	}
}
VC_PROOF(E17_gps_variance)
{
	Ekf &e = setup();
	const float lo = fmaxf(1.5f * e._params.gps_pos_noise, 0.01f), hi = fmaxf(1.5f * e._params.pos_noaid_noise, lo), n = clampf(e._gps_sample_delayed.vacc, lo, hi);
	const float v = e.getGpsHeightVariance();
	vc_assert(vc_eq(v, n * n), "reported vertical accuracy inside the configured limits");
	vc_assert(v > 0.f, "variance is positive");
}
VC_PROOF(E17_baro_offset)
{
	Ekf &e = setup();
	vc_assume(e._delta_time_baro_us < (1ull << 40));
	const float off = e._baro_hgt_offset, dt = clampf(1e-6f * (float)e._delta_time_baro_us, 0.f, 1.f);
	const float err = e._baro_sample_delayed.hgt + e._state.pos(2) - off;
	const bool track = !e._control_status.flags.baro_hgt && e._baro_data_ready;
	e.updateBaroHgtOffset();
	const float step = dt * clampf(0.1f * err, -0.1f, 0.1f);
	vc_assert(vc_eq(e._baro_hgt_offset, track ? off + step : off), "offset of an unused barometer is low passed with limited rate");
}

// ---- range aid
VC_PROOF(E17_range_aid)
{
	Ekf &e = setup();
	const auto &p = e._params;
	const bool was = e._is_range_aid_suitable;
	vc_assume(p.max_vel_for_range_aid >= 0.f && p.range_aid_innov_gate > 0.f && e._hagl_innov_var > 0.f && p.max_hagl_for_range_aid >= 0.f);
	const float h = e._terrain_vpos - e._state.pos(2);
	const float ratio = e._hagl_innov * e._hagl_innov / (p.range_aid_innov_gate * p.range_aid_innov_gate * e._hagl_innov_var);
	const float vx = e._state.vel(0), vy = e._state.vel(1), vm = p.max_vel_for_range_aid * (was ? 1.f : 0.7f);
	const auto c = e._control_status.flags;
	const bool usable = c.in_air && e._range_sensor._is_sample_valid && e._hagl_valid;
	const bool aiding = c.gps || c.opt_flow || c.ev_pos || c.ev_vel || (c.fuse_aspd && c.fuse_beta);
	const float hm = p.max_hagl_for_range_aid * (was ? 1.f : 0.7f), rm = was ? 1.f : 0.01f;
	e.checkRangeAidSuitability();
	// away from the thresholds, where rounding does not matter
	vc_assume(!vc_eq(h, hm) && !vc_eq(ratio, rm) && !vc_eq(vx * vx + vy * vy, vm * vm));
	vc_assert(e._is_range_aid_suitable == (usable && h < hm && ratio < rm && (!aiding || vx * vx + vy * vy < vm * vm)), "in the air, valid, low, consistent and slow, with hysteresis");
}

// ---- bad vertical acceleration
struct Vertical { bool falling, independent, clip; };
static Vertical vertical(const Ekf &e)
{
	const auto c = e._control_status.flags;
	const bool *k = e._imu_sample_delayed.delta_vel_clipping;
	const float v = e._vert_vel_innov_ratio, p = e._vert_pos_innov_ratio, lim = e._params.vert_innov_test_lim;
	const bool pos = recent(e, e._vert_pos_fuse_attempt_time_us, 1000000u), both = pos && recent(e, e._vert_vel_fuse_time_us, 1000000u);
	Vertical r;
	r.clip = k[0] || k[1] || k[2];
	r.falling = both ? (v > lim && p > 0.f) || (p > lim && v > 0.f) : pos && p > lim;
	r.independent = both && !(c.gps_hgt && c.gps) && !(c.ev_hgt && c.ev_vel);
	return r;
}
VC_PROOF(E17_bad_accel)
{
	Ekf &e = setup();
	const Vertical v = vertical(e);
	const bool clip = v.clip;
	const unsigned n = e._clip_counter;
	vc_assume(n <= 100);
	const uint64_t bad0 = e._time_bad_vert_accel, good0 = e._time_good_vert_accel, now = e._time_last_imu;
	const bool was = e._fault_status.flags.bad_acc_vertical;
	fault_status_u f = e._fault_status;
	observe();
	e.controlHeightSensorTimeouts();
	const unsigned m = e._clip_counter;
	vc_assert(clip ? (n < 100 ? m == n + 1 : m == n || m == n - 1) : m == (n > 0 ? n - 1 : 0), "clipped samples are counted up, others down");
	vc_assert(m <= 100, "one second of samples is remembered");
	const bool bad = v.falling && (v.independent || m > 0);
	vc_assert(e._time_bad_vert_accel == (bad ? now : bad0) && e._time_good_vert_accel == (bad ? good0 : now), "bad when vertical innovations say falling and either two independent sensors agree or there is clipping");
	f.flags.bad_acc_vertical = was ? recent(e, bad ? now : bad0, 10000000u) : bad;
	vc_assert(e._fault_status.value == f.value, "declared bad for at least ten seconds");
}

// ---- fallback when height is not fused
static void fallback(Src s)
{
	Ekf &e = setup(); observe();
	select_source(e._control_status, s);
	// vertical acceleration is judged first (E17_bad_accel)
	vc_assume(e._clip_counter <= 100);
	const Vertical vert = vertical(e);
	const bool bad_accel = vert.falling && (vert.independent || vert.clip || e._clip_counter > 1);
	const uint64_t t_bad = bad_accel ? e._time_last_imu : e._time_bad_vert_accel, t_good = bad_accel ? e._time_good_vert_accel : e._time_last_imu;
	filter_control_status_u want = e._control_status;
	const filter_control_status_u prev = e._control_status_prev;
	const gpsSample g = e._gps_buffer._buffer[e._gps_buffer._head]; const baroSample b = e._baro_buffer._buffer[e._baro_buffer._head]; const extVisionSample v = e._ext_vision_buffer._buffer[e._ext_vision_buffer._head];
	const auto &p = e._params;
	vc_assume(p.bad_acc_reset_delay_us >= 0 && p.req_vacc > 0.f && p.baro_innov_gate > 0.f && p.baro_noise > 0.f && e.P(9, 9) >= 0.f);
	const bool trigger = late(e, e._time_last_hgt_fuse, 5000000u) || late(e, t_good, (uint64_t)p.bad_acc_reset_delay_us);
	const bool accurate = g.vacc < p.req_vacc, baro_bad = e._baro_hgt_faulty, gps_bad = e._gps_hgt_intermittent;
	const float bi = e._state.pos(2) + b.hgt - e._baro_hgt_offset - e._hgt_sensor_offset;
	const bool consistent = fabsf(bi) < (p.baro_noise * p.baro_noise + e.P(9, 9)) * p.baro_innov_gate * p.baro_innov_gate;
	const uint64_t t0 = e._time_last_hgt_fuse; const uint32_t w0 = e._warning_events.value;
	const float off = e._hgt_sensor_offset, goff = e._gps_sample_delayed.hgt - e._gps_alt_ref + e._state.pos(2);
	Src to = NONE;
	switch (s) {
	case BARO: to = !gps_bad && ((accurate && !recent(e, t_bad, 10000000u)) || baro_bad) ? GPS : !baro_bad ? BARO : NONE; break;
	case GPS: to = !baro_bad && ((consistent && !accurate) || gps_bad) ? BARO : !gps_bad ? GPS : NONE; break;
	case RNG: to = e._range_sensor._is_sample_valid ? RNG : !baro_bad ? BARO : NONE; break;
	case EV: to = recent(e, v.time_us, 400000u) ? EV : !baro_bad ? BARO : NONE; break;
	default: break;
	}
	e.controlHeightSensorTimeouts();
	vc_assert(exclusive(e._control_status), "at most one height source");
	VC_SCOPE {
		vc_assume(!trigger || to == NONE);
		vc_assert(resets == 0 && e._time_last_hgt_fuse == t0, "no reset while height is fused or when nothing is left to reset to");
		vc_assert(e._control_status.value == want.value && vc_same(e._hgt_sensor_offset, off), "the source is kept");
		vc_assert(e._warning_events.value == w0 && e._baro_hgt_faulty == baro_bad, "nothing is reported");
	}
	if (s != NONE) VC_SCOPE {
		vc_assume(trigger && to != NONE);
		// away from the threshold of the consistency check, where rounding does not matter
		vc_assume(!vc_eq(fabsf(bi), (p.baro_noise * p.baro_noise + e.P(9, 9)) * p.baro_innov_gate * p.baro_innov_gate));
		if (to != s) { select_source(want, to); if (to == BARO && late(e, e._time_last_gnd_effect_on, 10000000u)) { want.flags.gnd_effect = false; } }
		vc_assert(e._control_status.value == want.value, "height falls back to the best source left");
		vc_assert(resets == 1 && reset_src == want.value, "height is reset once, to that source");
		vc_assert(e._time_last_hgt_fuse == e._time_last_imu, "the timeout restarts");
		warning_event_status_u w; w.value = w0; w.flags.height_sensor_timeout = true;
		vc_assert(e._warning_events.value == w.value, "the timeout is reported");
		vc_assert(e._baro_hgt_faulty == (baro_bad || (s == BARO && to == GPS)), "a barometer given up for GPS is marked faulty");
		vc_assert(vc_eq(e._hgt_sensor_offset, to == s ? off : to == BARO ? 0.f : prev.flags.gps_hgt ? off : goff), "offset of the new source");
	}
}
VC_PROOF(E17_fallback_baro) { fallback(BARO); }
VC_PROOF(E17_fallback_gps) { fallback(GPS); }
VC_PROOF(E17_fallback_range) { fallback(RNG); }
VC_PROOF(E17_fallback_vision) { fallback(EV); }
VC_PROOF(E17_fallback_none) { fallback(NONE); }

// ---- selection and fusion
static bool aid;
static void aid_check(Ekf *e) { e->_is_range_aid_suitable = aid; }
static void baro_off(Ekf *) { }
static void control(int type)
{
	Ekf &e = setup(); observe();
	aid = vc_bool("range_aid_suitable");
	vc_replace("Ekf::checkRangeAidSuitability", aid_check);
	auto &p = e._params;
	if (type < 4) { p.vdist_sensor_type = type; } else { vc_assume(p.vdist_sensor_type > 3 || p.vdist_sensor_type < 0); }
	vc_assume(exclusive(e._control_status) && exclusive(e._control_status_prev));
	vc_assume(e._delta_time_baro_us < (1ull << 40));
	const filter_control_status_u c0 = e._control_status, prev = e._control_status_prev;
	filter_control_status_u want = c0;
	const Src s0 = source(c0), p0 = source(prev);
	const bool use_aid = p.range_aid == 1 && aid;
	const bool rng = e._range_sensor._is_sample_ready && e._range_sensor._is_sample_valid;
	const bool baro = e._baro_data_ready && !e._baro_hgt_faulty, gps = e._gps_data_ready && !e._gps_hgt_intermittent, gps_ok = !e._gps_hgt_intermittent && e._gps_checks_passed;
	const bool air = c0.flags.in_air;
	const float z = e._state.pos(2), bottom0 = e._range_sensor._sample.rng * e._range_sensor._cos_tilt_rng_to_earth;
	const float goff = e._gps_sample_delayed.hgt - e._gps_alt_ref + z;
	const float boff0 = e._baro_hgt_offset;
	const float pd = p.rng_gnd_clearance;
	Src s = s0; float off = e._hgt_sensor_offset; bool fuse = false, started_baro = false, reset = false;
	switch (type) {
	case 2:
		if (rng) {
			s = RNG; fuse = true;
			if (p0 != RNG) { off = !air ? pd : e._hagl_valid ? e._terrain_vpos : bottom0 + z; }
		} else { fuse = s0 == BARO && baro; }
		break;
	case 1:
		if (p0 != RNG && use_aid && rng) { s = RNG; off = e._terrain_vpos; }
		else if (p0 == RNG && !use_aid) { s = gps_ok ? GPS : !e._baro_hgt_faulty ? BARO : s0; if (gps_ok) { off = goff; } else if (!e._baro_hgt_faulty) { off = 0.f; started_baro = true; } }
		else if (s0 == BARO && !use_aid && gps_ok) { s = GPS; if (p0 != GPS) { off = goff; } }
		fuse = (s == GPS && e._gps_data_ready) || (s == RNG && rng) || (s == BARO && baro);
		break;
	case 3:
		if (s0 != EV && recent(e, e._time_last_ext_vision, 400000u)) { s = EV; reset = true; }
		fuse = s == EV || (s == BARO && baro);
		break;
	default:
		if (use_aid && rng) { s = RNG; fuse = true; if (p0 != RNG) { off = e._terrain_vpos; } }
		else if (!use_aid && baro) { s = BARO; fuse = true; off = 0.f; started_baro = true; }
		else if (s0 == GPS && gps) { fuse = true; if (p0 != GPS) { off = goff; } }
		break;
	}
	select_source(want, s);
	if (started_baro && late(e, e._time_last_gnd_effect_on, 10000000u)) { want.flags.gnd_effect = false; }
	const bool synth = s == RNG && late(e, e._time_last_hgt_fuse, 400000u) && !rng && e._range_sensor._is_regularly_sending_data && !air;
	if (synth) { fuse = true; }
	const float rr = synth ? pd : e._range_sensor._sample.rng, bottom = rr * e._range_sensor._cos_tilt_rng_to_earth;
	const float bstep = clampf(1e-6f * (float)e._delta_time_baro_us, 0.f, 1.f) * clampf(0.1f * (e._baro_sample_delayed.hgt + z - boff0), -0.1f, 0.1f);
	const bool r0 = e._range_sensor._is_sample_ready, v0 = e._range_sensor._is_sample_valid;
	const float vp = z;
	const stateSample st = e._state;
	e.controlHeightFusion();
	vc_assert(e._control_status.value == want.value, "height source");
	vc_assert(exclusive(e._control_status), "at most one height source");
	vc_assert(vc_eq(e._hgt_sensor_offset, off), "sensor offset");
	vc_assert(resets == (reset ? 1 : 0) && (!reset || reset_src == want.value), "height is reset when vision starts");
	vc_assert(vc_eq(e._baro_hgt_offset, s != BARO && e._baro_data_ready ? boff0 + bstep : boff0), "barometer offset is tracked while it is not the source");
	vc_assert(e._range_sensor._is_sample_ready == (synth || r0) && e._range_sensor._is_sample_valid == (synth || v0) && vc_same(e._range_sensor._sample.rng, rr), "on ground a missing range is replaced by the clearance");
	vc_assert(fuses == (fuse && s != NONE ? 1 : 0), "height is fused exactly when the source has data");
	frame_state(e, st, "state kept");
	VC_SCOPE {
		vc_assume(fuses == 1 && s == BARO);
		const float i = vp + e._baro_sample_delayed.hgt - e._baro_hgt_offset, dz = p.gnd_effect_deadzone;
		vc_assume(dz >= 0.f);
		const bool gnd = want.flags.gnd_effect;
		vc_assert(vc_eq(f_innov, !gnd || i >= 0.f ? i : i <= -dz ? i + dz : 0.f), "barometer innovation, with the ground effect deadzone");
		const float n = fmaxf(p.baro_noise, 0.01f);
		vc_assert(vc_eq(f_obs, n * n) && vc_eq(f_gate, fmaxf(p.baro_innov_gate, 1.f)), "barometer noise and gate");
		vc_assert(f_dest == &e._baro_hgt_innov && f_var == &e._baro_hgt_innov_var && f_ratio == &e._baro_hgt_test_ratio, "reported as barometer");
	}
	if (type != 2 && type != 3) VC_SCOPE {
		vc_assume(fuses == 1 && s == GPS);
		vc_assert(vc_eq(f_innov, vp + e._gps_sample_delayed.hgt - e._gps_alt_ref - off), "GPS height innovation");
		const float lo = fmaxf(1.5f * p.gps_pos_noise, 0.01f), hi = fmaxf(1.5f * p.pos_noaid_noise, lo), n = clampf(e._gps_sample_delayed.vacc, lo, hi);
		vc_assert(vc_eq(f_obs, n * n) && vc_eq(f_gate, fmaxf(p.baro_innov_gate, 1.f)), "GPS height noise and gate");
		vc_assert(f_dest == &e._gps_pos_innov && f_var == &e._gps_pos_innov_var && f_ratio == &e._gps_pos_test_ratio, "reported as GPS");
	}
	VC_SCOPE {
		vc_assume(fuses == 1 && s == RNG);
		vc_assert(vc_eq(f_innov, vp + fmaxf(bottom, pd) - off), "range height innovation");
		const float a = p.range_noise, b = p.range_noise_scaler * bottom;
		vc_assert(vc_eq(f_obs, fmaxf(a * a + b * b, 0.01f)) && vc_eq(f_gate, fmaxf(p.range_innov_gate, 1.f)), "range noise and gate");
		vc_assert(f_dest == &e._rng_hgt_innov && f_var == &e._rng_hgt_innov_var && f_ratio == &e._rng_hgt_test_ratio, "reported as range finder");
	}
	if (type == 3) VC_SCOPE {
		vc_assume(fuses == 1 && s == EV);
		vc_assert(vc_eq(f_innov, vp - e._ev_sample_delayed.pos(2)), "vision height innovation");
		vc_assert(vc_eq(f_obs, fmaxf(e._ev_sample_delayed.posVar(2), 1e-4f)) && vc_eq(f_gate, fmaxf(p.ev_pos_innov_gate, 1.f)), "vision noise and gate");
		vc_assert(f_dest == &e._ev_pos_innov && f_var == &e._ev_pos_innov_var && f_ratio == &e._ev_pos_test_ratio, "reported as vision");
	}
}
VC_PROOF(E17_mode_baro) { control(0); }
VC_PROOF(E17_mode_gps) { control(1); }
VC_PROOF(E17_mode_range) { control(2); }
VC_PROOF(E17_mode_vision) { control(3); }
VC_PROOF(E17_mode_invalid) { control(4); }
