// E13: GPS quality checks and the geographic origin
#include "output.h"

static Ekf &setup()
{
	vc_mode("real"); vc_tol(1e-3, 1e-3);
	return any_ekf();
}
// ---- contract of the projection (P01): what is asked is recorded, the answer is arbitrary
static int projects, reprojects; static double prj_lat, prj_lon; static uint64_t prj_ref_time; static float prj_x, prj_y, rep_x, rep_y; static double rep_lat, rep_lon, rep_ref_lat;
static int project(const map_projection_reference_s *ref, double lat, double lon, float *x, float *y)
{
	projects++; prj_lat = lat; prj_lon = lon; prj_ref_time = ref->timestamp;
	*x = prj_x; *y = prj_y;
	return 0;
}
static int reproject(const map_projection_reference_s *ref, float x, float y, double *lat, double *lon)
{
	reprojects++; rep_x = x; rep_y = y; rep_ref_lat = ref->lat_rad;
	*lat = rep_lat; *lon = rep_lon;
	return 0;
}
static void expect_projection()
{
	projects = reprojects = 0;
	prj_x = vc_f32("projected_x"); prj_y = vc_f32("projected_y"); rep_lat = vc_f64("reprojected_lat"); rep_lon = vc_f64("reprojected_lon");
	vc_replace("map_projection_project", project); vc_replace("map_projection_reproject", reproject);
}
static void reference(const map_projection_reference_s &r, double lat, double lon, uint64_t t, const char *what)
{
	const double D = 3.14159265358979323846 / 180.0;
	vc_assert(r.init_done && r.timestamp == t && vc_eq(r.lat_rad, lat * D) && vc_eq(r.lon_rad, lon * D), what);
	vc_assert(vc_eq(r.sin_lat, sin(lat * D)) && vc_eq(r.cos_lat, cos(lat * D)), what);
}

// ---- quality checks
static void quality(bool air, bool rest)
{
	Ekf &e = setup(); expect_projection();
	gps_message g; vc_havoc(&g, sizeof(g), "gps");
	e._control_status.flags.in_air = air; e._control_status.flags.vehicle_at_rest = rest;
	const auto &p = e._params;
	vc_assume(p.req_hacc > 0.f && p.req_vacc > 0.f && p.req_sacc > 0.f && p.req_hdrift > 0.f && p.req_vdrift > 0.f);
	vc_assume(e._time_last_imu > 0 && e._time_last_imu < (1ull << 50) && e._last_gps_fail_us <= e._time_last_imu && e._min_gps_health_time_us < 0x40000000u);
	symmetric_P(e);
	const stateSample s = e._state;
	const auto f0 = e._gps_check_fail_status.flags;
	const map_projection_reference_s prev = e._gps_pos_prev, ref = e._pos_ref;
	const Vector3f drift = e._gps_pos_deriv_filt;
	const Vector2f vel = e._gps_velNE_filt;
	const float velD = e._gps_velD_diff_filt, m0[3] = {e._gps_drift_metrics[0], e._gps_drift_metrics[1], e._gps_drift_metrics[2]};
	const float alt_prev = e._gps_alt_prev, alt = 1e-3f * (float)g.alt;
	const uint64_t fail0 = e._last_gps_fail_us, pass0 = e._last_gps_pass_us, now = e._time_last_imu;
	const uint32_t cs = e._control_status.value;
	vc_assume(prev.timestamp <= now);
	const float dt = clampf((float)(int64_t)(now - prev.timestamp) * 1e-6f, 0.001f, 10.f), a = dt / 10.f;
	const bool ok = e.gps_is_good(g);
	const auto f = e._gps_check_fail_status.flags;
	vc_assert(f.fix == (g.fix_type < 3), "no 3D fix");
	vc_assert(f.nsats == (g.nsats < p.req_nsats), "too few satellites");
	vc_assert(f.pdop == (g.pdop > p.req_pdop), "dilution of precision too large");
	vc_assert(f.hacc == (g.eph > p.req_hacc), "horizontal accuracy");
	vc_assert(f.vacc == (g.epv > p.req_vacc), "vertical accuracy");
	vc_assert(f.sacc == (g.sacc > p.req_sacc), "speed accuracy");
	vc_assert(vc_eq(e._gps_error_norm, fmaxf(fmaxf(g.eph / p.req_hacc, g.epv / p.req_vacc), g.sacc / p.req_sacc)), "degradation is the worst accuracy relative to its requirement");
	const double lat = g.lat * 1.0e-7, lon = g.lon * 1.0e-7;
	const bool first = prev.timestamp == 0;
	if (!air && rest) {
		vc_assert(projects == (first ? 0 : 1), "movement since the previous fix");
		VC_SCOPE { vc_assume(!first); vc_assert(vc_eq(prj_lat, lat) && vc_eq(prj_lon, lon) && prj_ref_time == prev.timestamp, "movement is measured from the previous fix"); }
		const float d[3] = {first ? 0.f : prj_x, first ? 0.f : prj_y, first ? 0.f : alt_prev - alt};
		float n[3];
		for (int i = 0; i < 3; i++) {
			const float lim = 10.f * (i < 2 ? p.req_hdrift : p.req_vdrift);
			n[i] = clampf(d[i] / dt, -lim, lim) * a + drift(i) * (1.f - a);
			vc_assert(vc_eq(e._gps_pos_deriv_filt(i), n[i]), "drift is the limited, low passed position change rate");
		}
		const float hd = sqrtf(n[0] * n[0] + n[1] * n[1]), vd = fabsf(n[2]);
		vc_assert(vc_eq(e._gps_drift_metrics[0], hd) && vc_eq(e._gps_drift_metrics[1], vd), "drift metrics");
		vc_assert(f.hdrift == (e._gps_drift_metrics[0] > p.req_hdrift) && f.vdrift == (e._gps_drift_metrics[1] > p.req_vdrift), "drift limits");
		float w[2];
		for (int i = 0; i < 2; i++) {
			w[i] = clampf(g.vel_ned(i), -10.f * p.req_hdrift, 10.f * p.req_hdrift) * a + vel(i) * (1.f - a);
			vc_assert(vc_eq(e._gps_velNE_filt(i), w[i]), "horizontal speed is limited and low passed");
		}
		vc_assert(vc_eq(e._gps_drift_metrics[2], sqrtf(w[0] * w[0] + w[1] * w[1])), "speed metric");
		vc_assert(f.hspeed == (e._gps_drift_metrics[2] > p.req_hdrift), "speed limit");
		vc_assert(e._gps_drift_updated, "metrics are new");
	} else {
		vc_assert(projects == 0, "no drift measurement while moving");
		vc_assert(f.hdrift == (air ? 0 : f0.hdrift) && f.vdrift == (air ? 0 : f0.vdrift) && f.hspeed == (air ? 0 : f0.hspeed), "drift checks pass in flight and are held while moving on ground");
		for (int i = 0; i < 3; i++) { vc_assert(vc_eq(e._gps_pos_deriv_filt(i), 0.f)&& vc_same(e._gps_drift_metrics[i], m0[i]), "drift filters restart, metrics are held"); }
		vc_assert(vc_eq(e._gps_velNE_filt(0), 0.f) && vc_eq(e._gps_velNE_filt(1), 0.f), "speed filter restarts");
		vc_assert(e._gps_drift_updated == !air, "metrics are refreshed only on ground");
	}
	reference(e._gps_pos_prev, lat, lon, now, "the fix becomes the previous one");
	vc_assert(vc_eq(e._gps_alt_prev, alt), "and its altitude");
	const float zl = 10.f * p.req_vdrift;
		vc_assert(vc_eq(e._gps_velD_diff_filt, clampf(g.vel_ned(2) - s.vel(2), -zl, zl) * a + velD * (1.f - a)), "vertical speed difference to the filter is limited and low passed");
	vc_assert(f.vspeed == (fabsf(e._gps_velD_diff_filt) > p.req_vdrift), "vertical speed limit");
	const unsigned m = (unsigned)p.gps_check_mask;
	const bool bad = f.fix || (f.nsats && (m & 1)) || (f.pdop && (m & 2)) || (f.hacc && (m & 4)) || (f.vacc && (m & 8)) || (f.sacc && (m & 16)) || (f.hdrift && (m & 32)) || (f.vdrift && (m & 64)) || (f.hspeed && (m & 128)) || (f.vspeed && (m & 256));
	vc_assert(e._last_gps_fail_us == (bad || fail0 == 0 ? now : fail0), "a failing enabled check restarts the health period");
	vc_assert(e._last_gps_pass_us == (bad ? pass0 : now), "time of the last good fix");
	vc_assert(ok == (e._last_gps_fail_us + e._min_gps_health_time_us < now), "good only after the full period without any failure");
	vc_assert(!ok || !bad, "never good with a failing check");
	frame_state(e, s, "state untouched"); frame_P(e, "covariance untouched");
	vc_assert(e._control_status.value == cs && e._pos_ref.init_done == ref.init_done && e._pos_ref.timestamp == ref.timestamp, "nothing else is decided here");
}
VC_PROOF(E13_rest) { quality(false, true); }
VC_PROOF(E13_moving) { quality(false, false); }
VC_PROOF(E13_air) { quality(true, false); }
VC_PROOF(E13_air_rest) { quality(true, true); }

// ---- origin
static bool good; static int goods;
static bool is_good(Ekf *, const gps_message &) { goods++; return good; }
static float mag_d, mag_i, mag_s; static double tab_lat, tab_lon; static int tabs;
static float tab(int k, double lat, double lon, float v) { tabs += k; tab_lat = lat; tab_lon = lon; return v; }
static float decl(float lat, float lon) { return tab(1, lat, lon, mag_d); }
static float incl(float lat, float lon) { return tab(100, lat, lon, mag_i); }
static float stre(float lat, float lon) { return tab(10000, lat, lon, mag_s); }
static Ekf &collect_setup(gps_message &g)
{
	Ekf &e = setup(); expect_projection();
	vc_havoc(&g, sizeof(g), "gps");
	good = vc_bool("good"); goods = tabs = 0;
	mag_d = vc_f32("mag_declination"); mag_i = vc_f32("mag_inclination"); mag_s = vc_f32("mag_strength");
	vc_replace("Ekf::gps_is_good", is_good);
	vc_replace("get_mag_declination_radians", decl); vc_replace("get_mag_inclination_radians", incl); vc_replace("get_mag_strength_gauss", stre);
	e._baro_buffer._buffer = nullptr;
	symmetric_P(e);
	return e;
}
VC_PROOF(E13_origin)
{
	gps_message g; Ekf &e = collect_setup(g);
	const stateSample s = e._state;
	const auto c = e._control_status.flags;
	const bool had = e._NED_origin_initialised, set = e._filter_initialised && !had && good, mapped = e._pos_ref.init_done;
	const bool rough = !set && !had && g.fix_type >= 2 && g.eph < 1000.f;
	const bool aiding = c.gps || c.opt_flow || c.ev_pos || c.ev_vel || (c.fuse_aspd && c.fuse_beta);
	const map_projection_reference_s ref = e._pos_ref;
	const float alt0 = e._gps_alt_ref, eph0 = e._gps_origin_eph, epv0 = e._gps_origin_epv, decl0 = e._mag_declination_gps;
	const bool known = vc_bool("declination_known");
	if (!known) { e._mag_declination_gps = NAN; }
	const Vector3f rate0 = e._earth_rate_NED;
	const bool yawreq = e._mag_yaw_reset_req, gsfreq = e._do_ekfgsf_yaw_reset; const uint64_t gsft = e._ekfgsf_yaw_reset_time, ot0 = e._last_gps_origin_time_us;
	const bool none = e._params.mag_fusion_type == MAG_FUSE_TYPE_NONE;
	const warning_event_status_u w = e._warning_events; information_event_status_u inf = e._information_events;
	const bool r = e.collect_gps(g);
	if (set) { inf.flags.gps_checks_passed = true; }
	vc_assert(e._warning_events.value == w.value && e._information_events.value == inf.value, "passing the checks is announced");
	const double lat = g.lat * 1.0e-7, lon = g.lon * 1.0e-7;
	vc_assert(goods == 1 && e._gps_checks_passed == good, "the quality checks always run");
	vc_assert(e._NED_origin_initialised == (had || set), "the origin is set once, by the first good fix of an initialised filter");
	vc_assert(r == (e._NED_origin_initialised && g.fix_type >= 3), "fixes are used once there is an origin, and only 3D ones");
	VC_SCOPE {
		vc_assume(set);
		vc_assert(vc_eq(e._gps_alt_ref, 1e-3f * (float)g.alt + s.pos(2)), "altitude of the origin: GPS altitude less height of the vehicle");
		vc_assert(e._last_gps_origin_time_us == e._time_last_imu && vc_same(e._gps_origin_eph, g.eph) && vc_same(e._gps_origin_epv, g.epv), "time and accuracy of the origin");
		vc_assert(reprojects == (!mapped && aiding), "an origin is moved by the distance already travelled");
		VC_SCOPE { vc_assume(!mapped && !aiding); reference(e._pos_ref, lat, lon, e._time_last_imu, "the origin is the fix"); }
		VC_SCOPE { vc_assume(!mapped && aiding); reference(e._pos_ref, rep_lat, rep_lon, e._time_last_imu, "the origin is the fix moved back"); vc_assert(vc_eq(rep_x, -s.pos(0)) && vc_eq(rep_y, -s.pos(1)) && vc_eq(rep_ref_lat, lat * (3.14159265358979323846 / 180.0)), "by minus the position relative to the fix"); }
		VC_SCOPE { vc_assume(mapped); vc_assert(e._pos_ref.timestamp == ref.timestamp && vc_same(e._pos_ref.lat_rad, ref.lat_rad) && vc_same(e._pos_ref.lon_rad, ref.lon_rad), "an origin that was set externally is kept"); }
		vc_assert(e._do_ekfgsf_yaw_reset == (gsfreq || none) && e._ekfgsf_yaw_reset_time == (none ? 0 : gsft), "without a magnetometer the independent yaw is requested");
		vc_assert(e._mag_yaw_reset_req == (yawreq || (!none && !known)), "else yaw is reset when the declination was unknown");
		const bool gh = e._params.vdist_sensor_type == VDIST_SENSOR_GPS && !c.gps_hgt;
		vc_assert(e._control_status.flags.gps_hgt == (gh || c.gps_hgt), "GPS height starts if it is the selected source");
		const float L = (float)e._pos_ref.lat_rad, W = 7.2921150e-5f;
		vc_tol(1e-8, 1e-4);
		vc_assert(vc_eq(e._earth_rate_NED(0), W * cosf(L)) && vc_eq(e._earth_rate_NED(1), 0.f) && vc_eq(e._earth_rate_NED(2), -W * sinf(L)), "earth rotation at the latitude of the origin");
	}
	VC_SCOPE {
		vc_assume(set || rough);
		vc_assert(tabs == 10101 && vc_eq(tab_lat, (float)lat) && vc_eq(tab_lon, (float)lon), "the magnetic field model is looked up at the fix");
		vc_assert(vc_same(e._mag_declination_gps, mag_d) && vc_same(e._mag_inclination_gps, mag_i) && vc_same(e._mag_strength_gps, mag_s), "and its values are used");
	}
	VC_SCOPE {
		vc_assume(!set);
		vc_assert(reprojects == 0 && vc_same(e._gps_alt_ref, alt0) && vc_same(e._gps_origin_eph, eph0) && vc_same(e._gps_origin_epv, epv0) && e._last_gps_origin_time_us == ot0 && e._pos_ref.init_done == mapped && e._pos_ref.timestamp == ref.timestamp && vc_same(e._pos_ref.lat_rad, ref.lat_rad), "otherwise the origin is untouched");
		vc_assert(e._do_ekfgsf_yaw_reset == gsfreq && e._control_status.value == *(const uint32_t *)&c, "and so are the fusion modes");
		vc_assert(e._mag_yaw_reset_req == (yawreq || (rough && !none && !known && isfinite(mag_d))), "the first declination requests a yaw reset");
		VC_SCOPE { vc_assume(!rough); vc_assert(tabs == 0 && vc_same(e._mag_declination_gps, known ? decl0 : NAN), "without a fix the declination is kept"); for (int i = 0; i < 3; i++) { vc_assert(vc_same(e._earth_rate_NED(i), rate0(i)), "and the earth rate"); } }
		VC_SCOPE { vc_assume(rough); vc_tol(1e-8, 1e-4); const float L = (float)(lat * (3.14159265358979323846 / 180.0)), W = 7.2921150e-5f; vc_assert(vc_eq(e._earth_rate_NED(0), W * cosf(L)) && vc_eq(e._earth_rate_NED(1), 0.f) && vc_eq(e._earth_rate_NED(2), -W * sinf(L)), "earth rotation at the latitude of the fix"); }
	}
	frame_state(e, s, "state untouched"); frame_P(e, "covariance untouched");
}

// ---- origin reported and set by the user
VC_PROOF(E13_report)
{
	Ekf &e = setup();
	uint64_t t; double la, lo; float al;
	const bool r = e.getEkfGlobalOrigin(t, la, lo, al);
	const double D = 180.0 / 3.14159265358979323846;
	vc_assert(r == e._NED_origin_initialised && t == e._last_gps_origin_time_us && vc_eq(la, e._pos_ref.lat_rad * D) && vc_eq(lo, e._pos_ref.lon_rad * D) && vc_same(al, e._gps_alt_ref), "origin in degrees with its time and altitude");
	float d[3]; bool b; const bool u = e._gps_drift_updated;
	const bool n = e.get_gps_drift_metrics(d, &b);
	vc_assert(n == u && !e._gps_drift_updated && b == !e._control_status.flags.vehicle_at_rest, "metrics are reported once");
	for (int i = 0; i < 3; i++) { vc_assert(vc_same(d[i], e._gps_drift_metrics[i]), "drift metrics"); }
}
VC_PROOF(E13_set_origin)
{
	Ekf &e = setup(); expect_projection();
	output_buffers(e, 2);
	const double lat = vc_f64("lat"), lon = vc_f64("lon"); const float alt = vc_f32("alt");
	const stateSample s = e._state;
	const auto c = e._control_status.flags;
	const bool aiding = e._pos_ref.init_done && (c.gps || c.opt_flow || c.ev_pos || c.ev_vel || (c.fuse_aspd && c.fuse_beta));
	const double ref_lat = e._pos_ref.lat_rad; const float alt0 = e._gps_alt_ref;
	const uint8_t pn = e._state_reset_status.posNE_counter, pd = e._state_reset_status.posD_counter;
	vc_assert(e.setEkfGlobalOrigin(lat, lon, alt), "the origin can always be set");
	reference(e._pos_ref, lat, lon, e._time_last_imu, "the new origin");
	vc_assert(vc_same(e._gps_alt_ref, alt), "the new altitude");
	VC_SCOPE {
		vc_assume(aiding);
		vc_assert(reprojects == 1 && vc_same(rep_x, s.pos(0)) && vc_same(rep_y, s.pos(1)) && vc_same(rep_ref_lat, ref_lat), "the vehicle stays where it is on earth");
		vc_assert(projects == 1 && vc_same(prj_lat, rep_lat) && vc_same(prj_lon, rep_lon), "its position is expressed relative to the new origin");
		vc_assert(vc_same(e._state.pos(0), prj_x) && vc_same(e._state.pos(1), prj_y), "horizontally");
		vc_assert(vc_eq(alt - e._state.pos(2), alt0 - s.pos(2)), "and vertically");
		vc_assert(e._state_reset_status.posNE_counter == (uint8_t)(pn + 1) && e._state_reset_status.posD_counter == (uint8_t)(pd + 1), "the jump is announced");
	}
	VC_SCOPE { vc_assume(!aiding); vc_assert(projects == 0 && reprojects == 0 && e._state_reset_status.posNE_counter == pn && e._state_reset_status.posD_counter == pd, "no jump without a position"); frame_state(e, s, "state untouched"); }
}
