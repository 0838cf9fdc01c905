// E24: the filter cycle: which samples reach the filter, what starts the filter, and that every aiding function runs on them
#include "fusion.h"
#include "buffers.h"
using namespace estimator;

static bool recent(const Ekf &e, uint64_t t, uint64_t p) { return t + p > e._time_last_imu; }
// ---- (R01) each buffer yields its newest sample not newer than the given time, or nothing
template <class S> struct Pop { bool have; int n; uint64_t at; S s; };
static Pop<gpsSample> gps; static Pop<magSample> mag; static Pop<baroSample> baro; static Pop<rangeSample> rng; static Pop<flowSample> flow; static Pop<extVisionSample> ev; static Pop<airspeedSample> tas;
static rangeSample *rng_at;
template <class S, Pop<S> &P> static bool on_pop(RingBuffer<S> *, const uint64_t &t, S *s)
{
	P.n++; P.at = t;
	if (P.have) { *s = P.s; }
	return P.have;
}
template <class S, Pop<S> &P> static void any_pop(const char *replaced, const char *name)
{
	vc_havoc(&P.s, sizeof(S), name);
	P.have = vc_bool("have"); P.n = 0;
	vc_replace(replaced, (on_pop<S, P>));
}
// ---- what the aiding functions are given
enum { HGT_TIMEOUT, MAG, FLOW, GPS, AIR, BETA, DRAG, HGT, EV, AUX, FAKE, DEADRECKON, CONTROLS };
static int calls[CONTROLS], order[CONTROLS], n_calls;
static bool seen[7]; static uint64_t seen_time[7];
template <int I> static void on_control(Ekf *e)
{
	if (n_calls == 0) {
		seen[0] = e->_gps_data_ready; seen[1] = e->_mag_data_ready; seen[2] = e->_baro_data_ready; seen[3] = e->_range_sensor._is_sample_ready; seen[4] = e->_flow_data_ready; seen[5] = e->_ev_data_ready; seen[6] = e->_tas_data_ready;
		seen_time[0] = e->_gps_sample_delayed.time_us; seen_time[1] = e->_mag_sample_delayed.time_us; seen_time[2] = e->_baro_sample_delayed.time_us; seen_time[3] = e->_range_sensor._sample.time_us; seen_time[4] = e->_flow_sample_delayed.time_us; seen_time[5] = e->_ev_sample_delayed.time_us; seen_time[6] = e->_airspeed_sample_delayed.time_us;
	}
	calls[I]++; order[I] = n_calls++;
}
// (E03, E12, E06, B01) used by contract
static Vector3f var_rot; static int var_calls; static Vector3f on_var(const Ekf *) { var_calls++; return var_rot; }
static int headings; static Vector3f heading_from; static bool heading_ok, inc, buf;
static bool on_heading(Ekf *, const Vector3f &m, bool i, bool b) { headings++; heading_from = m; inc = i; buf = b; return heading_ok; }
static int synths; static Vector3f synth_m, synth_b; static float synth_z;
static float on_synth(Ekf *, const Vector3f &m, const Vector3f &b) { synths++; synth_m = m; synth_b = b; return synth_z; }
static int checks; static uint64_t check_at; static bool check_ready; static Dcmf check_R; static float check_pitch, check_tilt, check_sp, check_cp; static uint64_t check_hyst; static rangeSample check_s; static bool rng_valid; static float rng_cos;
static void on_checks(sensor::SensorRangeFinder *r, uint64_t t, const Dcmf &R)
{
	checks++; check_at = t; check_R = R; check_ready = r->_is_sample_ready; check_s = r->_sample;
	check_pitch = r->_pitch_offset_rad; check_tilt = r->_range_cos_max_tilt; check_hyst = r->_quality_hyst_us; check_sp = r->_sin_pitch_offset; check_cp = r->_cos_pitch_offset;
	r->_is_sample_valid = rng_valid; r->_cos_tilt_rng_to_earth = rng_cos;
}
static gpsSample gps_new; static baroSample baro_new; static imuSample imu_new;   // newest samples
static Ekf &setup()
{
	vc_mode("real"); vc_tol(1e-4, 1e-3);
	Ekf &e = any_ekf();
	fill_any(e._gps_buffer); fill_any(e._baro_buffer); fill_any(e._imu_buffer);
	gps_new = e._gps_buffer._buffer[e._gps_buffer._head]; baro_new = e._baro_buffer._buffer[e._baro_buffer._head]; imu_new = e._imu_buffer._buffer[e._imu_buffer._head];
	any_pop<gpsSample, gps>("RingBuffer<estimator::gpsSample>::pop_first_older_than", "gps");
	any_pop<magSample, mag>("RingBuffer<estimator::magSample>::pop_first_older_than", "mag");
	any_pop<baroSample, baro>("RingBuffer<estimator::baroSample>::pop_first_older_than", "baro");
	any_pop<rangeSample, rng>("RingBuffer<estimator::rangeSample>::pop_first_older_than", "rng");
	any_pop<flowSample, flow>("RingBuffer<estimator::flowSample>::pop_first_older_than", "flow");
	any_pop<extVisionSample, ev>("RingBuffer<estimator::extVisionSample>::pop_first_older_than", "ev");
	any_pop<airspeedSample, tas>("RingBuffer<estimator::airspeedSample>::pop_first_older_than", "tas");
	n_calls = 0; for (int &c : calls) { c = 0; }
	vc_replace("Ekf::controlHeightSensorTimeouts", on_control<HGT_TIMEOUT>);
	vc_replace("Ekf::controlMagFusion", on_control<MAG>);
	vc_replace("Ekf::controlOpticalFlowFusion", on_control<FLOW>);
	vc_replace("Ekf::controlGpsFusion", on_control<GPS>);
	vc_replace("Ekf::controlAirDataFusion", on_control<AIR>);
	vc_replace("Ekf::controlBetaFusion", on_control<BETA>);
	vc_replace("Ekf::controlDragFusion", on_control<DRAG>);
	vc_replace("Ekf::controlHeightFusion", on_control<HGT>);
	vc_replace("Ekf::controlExternalVisionFusion", on_control<EV>);
	vc_replace("Ekf::controlAuxVelFusion", on_control<AUX>);
	vc_replace("Ekf::controlFakePosFusion", on_control<FAKE>);
	vc_replace("Ekf::update_deadreckoning_status", on_control<DEADRECKON>);
	vc_havoc(&var_rot, sizeof(var_rot), "tilt_var"); var_calls = headings = synths = checks = 0;
	heading_ok = vc_bool("heading_ok"); synth_z = vc_f32("synth_z"); rng_valid = vc_bool("rng_valid"); rng_cos = vc_f32_in("rng_cos", 0.3f, 1.f);
	vc_replace("Ekf::calcRotVecVariances", on_var);
	vc_replace("Ekf::resetMagHeading", on_heading);
	vc_replace("Ekf::calculate_synthetic_mag_z_measurement", on_synth);
	vc_replace("estimator::sensor::SensorRangeFinder::runChecks", on_checks);
	vc_assume(e._params.range_valid_quality_s >= 0.f && e._params.range_valid_quality_s < 1e6f);
	vc_assume(e._time_last_imu < (1ull << 62));
	return e;
}

VC_PROOF(E24_alignment)
{
	Ekf &e = setup();
	mag.have = false;
	const filter_control_status_u c0 = e._control_status; filter_control_status_u want = c0;
	const float v = var_rot(0) + var_rot(1), lim = math::radians(3.f) * math::radians(3.f);
	const bool now = !c0.flags.tilt_align && v < lim;
	vc_assume(fabsf(v - lim) > 1e-6f);   // away from the threshold, where rounding does not matter
	if (now) { want.flags.tilt_align = true; want.flags.yaw_align = heading_ok; }
	const Vector3f m = e._mag_lpf.getState();
	e.controlFusionModes();
	vc_assert(e._control_status.value == want.value, "tilt is aligned when its uncertainty falls below three degrees, and then yaw with it");
	vc_assert(e._control_status_prev.value == c0.value, "the status of the previous cycle is kept");
	vc_assert(headings == now && (!now || (vc_same(heading_from(0), m(0)) && vc_same(heading_from(1), m(1)) && vc_same(heading_from(2), m(2)) && inc && buf)), "yaw is aligned from the filtered field");
}
VC_PROOF(E24_samples)
{
	Ekf &e = setup();
	e._params.synthesize_mag_z = 0;
	const uint64_t t = e._imu_sample_delayed.time_us, g0 = e._gps_sample_delayed.time_us, b0 = e._baro_sample_delayed.time_us, m0 = e._mag_sample_delayed.time_us, r0 = e._range_sensor._sample.time_us, f0 = e._flow_sample_delayed.time_us, v0 = e._ev_sample_delayed.time_us, a0 = e._airspeed_sample_delayed.time_us;
	const bool flow0 = e._flow_data_ready, take_flow = !flow0 || !e._control_status.flags.opt_flow;
	const bool terrain0 = e._flow_for_terrain_data_ready;
	const uint64_t hagl = e._time_last_hagl_fuse, now = e._time_last_imu;
	vc_assume(hagl <= now);
	const Vector3f l0 = e._mag_lpf.getState(); const float alpha = e._mag_lpf._alpha;
	e.controlFusionModes();
	vc_assert(gps.n == 1 && mag.n == 1 && baro.n == 1 && rng.n == 1 && ev.n == 1 && tas.n == 1 && flow.n == take_flow, "each sensor is read once per cycle, flow only when the last sample is used up");
	vc_assert(gps.at == t && mag.at == t && baro.at == t && rng.at == t && ev.at == t && tas.at == t && (!take_flow || flow.at == t), "samples are taken at the delayed time");
	vc_assert(e._gps_data_ready == gps.have && e._mag_data_ready == mag.have && e._baro_data_ready == baro.have && e._range_sensor._is_sample_ready == rng.have && e._ev_data_ready == ev.have && e._tas_data_ready == tas.have && e._flow_data_ready == (take_flow ? flow.have : flow0), "new samples are announced");
	vc_assert(e._gps_sample_delayed.time_us == (gps.have ? gps.s.time_us : g0) && e._mag_sample_delayed.time_us == (mag.have ? mag.s.time_us : m0) && e._baro_sample_delayed.time_us == (baro.have ? baro.s.time_us : b0)
		  && e._range_sensor._sample.time_us == (rng.have ? rng.s.time_us : r0) && e._flow_sample_delayed.time_us == (take_flow && flow.have ? flow.s.time_us : f0) && e._ev_sample_delayed.time_us == (ev.have ? ev.s.time_us : v0) && e._airspeed_sample_delayed.time_us == (tas.have ? tas.s.time_us : a0), "the samples of this cycle are the ones used");
	vc_assert(e._time_prev_gps_us == g0, "the time of the previous GPS sample is kept");
	vc_assert(e._delta_time_baro_us == (baro.have ? baro.s.time_us - b0 : b0), "time between baro samples");
	vc_assert(e._baro_hgt_faulty == !recent(e, baro_new.time_us, 400000u) && e._gps_hgt_intermittent == !recent(e, gps_new.time_us, 1000000u), "height data is intermittent when two intervals pass without a sample");
	const bool fresh = e._flow_data_ready && e._control_status.flags.in_air && !terrain0;
	vc_assert(e._flow_for_terrain_data_ready == (fresh ? hagl + 5000000u < now && !e._control_status.flags.opt_flow && e._control_status.flags.gps : terrain0), "flow observes terrain only in flight, with GPS, when nothing else does");
	for (int i = 0; i < 3; i++) { vc_assert(vc_eq(e._mag_lpf.getState()(i), mag.have ? (1.f - alpha) * l0(i) + alpha * mag.s.mag(i) : l0(i)), "the field is filtered, each sample once"); }
	// every aiding function sees them
	bool once = true;
	for (int c : calls) { once = once && c == 1; }
	vc_assert(once, "every aiding function runs once per cycle");
	vc_assert(seen[0] == gps.have && seen[1] == mag.have && seen[2] == baro.have && seen[3] == rng.have && seen[4] == e._flow_data_ready && seen[5] == ev.have && seen[6] == tas.have, "samples are ready before any aiding");
	vc_assert(seen_time[0] == e._gps_sample_delayed.time_us && seen_time[1] == e._mag_sample_delayed.time_us && seen_time[2] == e._baro_sample_delayed.time_us && seen_time[3] == e._range_sensor._sample.time_us && seen_time[4] == e._flow_sample_delayed.time_us && seen_time[5] == e._ev_sample_delayed.time_us && seen_time[6] == e._airspeed_sample_delayed.time_us, "aiding sees the samples of this cycle");
	for (int i = 0; i < FAKE; i++) { vc_assert(order[i] < order[FAKE] && order[i] < order[DEADRECKON], "position hold and dead reckoning are judged after all aiding"); }
	vc_assert(order[FAKE] < order[DEADRECKON] && order[HGT_TIMEOUT] < order[HGT], "timeouts are handled before height fusion");
}
VC_PROOF(E24_synthetic)
{
	Ekf &e = setup();
	const auto &p = e._params;
	const bool cfg = p.synthesize_mag_z && (p.mag_declination_source & MASK_USE_GEO_DECL);
	e._control_status.flags.tilt_align = true;
	const bool known = e._NED_origin_initialised || ISFINITE(e._mag_declination_gps);
	vc_hint(-3, 3); vc_assume(fabsf(e._mag_declination_gps) < 4.f && fabsf(e._mag_inclination_gps) < 2.f && e._mag_strength_gps > 0.f && e._mag_strength_gps < 1.f);
	const bool on = mag.have && cfg, z0 = e._control_status.flags.synthetic_mag_z;
	const Vector3f m0 = e._mag_sample_delayed.mag;
	filter_control_status_u want = e._control_status;
	if (mag.have) { want.flags.synthetic_mag_z = on; }
	e.controlFusionModes();
	vc_assert(e._control_status.value == want.value && synths == on, "the vertical field is synthesised when selected and the earth field is known");
	for (int i = 0; i < 3; i++) { vc_assert(vc_same(e._mag_sample_delayed.mag(i), on && i == 2 ? synth_z : mag.have ? mag.s.mag(i) : m0(i)), "only the vertical field is synthesised"); }
	VC_SCOPE {
		vc_assume(on);
		const float d = e._mag_declination_gps, i = e._mag_inclination_gps, s = e._mag_strength_gps;
		for (int k = 0; k < 3; k++) { vc_assert(vc_same(synth_m(k), mag.s.mag(k)), "from the measured field"); }
		vc_assert(vc_eq(synth_b(0), s * cosf(d) * cosf(i)) && vc_eq(synth_b(1), s * sinf(d) * cosf(i)) && vc_eq(synth_b(2), s * sinf(i)), "from the expected earth field: declination, inclination and strength");
	}
}
VC_PROOF(E24_unknown_field)
{
	Ekf &e = setup();
	vc_mode("fp");
	const bool bad = !ISFINITE(e._mag_declination_gps);
	vc_assume(bad && !e._NED_origin_initialised);
	e.controlFusionModes();
	vc_assert(synths == 0 && (!mag.have || !e._control_status.flags.synthetic_mag_z), "without a known earth field the vertical field is not synthesised");
}
VC_PROOF(E24_range)
{
	Ekf &e = setup();
	mag.have = false;
	const auto &p = e._params;
	sensor::SensorRangeFinder &r = e._range_sensor;
	const float sp0 = r._sin_pitch_offset, cp0 = r._cos_pitch_offset, po0 = r._pitch_offset_rad, range0 = r._sample.rng;
	const bool changed = fabsf(po0 - p.rng_sens_pitch) > FLT_EPSILON;
	const uint8_t q0 = r._sample.quality;
	e.controlFusionModes();
	vc_assert(checks == 1 && check_at == e._imu_sample_delayed.time_us && check_ready == rng.have && check_s.time_us == r._sample.time_us && vc_same(check_s.rng, rng.have ? rng.s.rng : range0), "the range finder is checked once, on the sample of this cycle");
	for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { vc_assert(vc_same(check_R(i, j), e._R_to_earth(i, j)), "with the current orientation"); } }
	vc_assert(vc_same(check_tilt, p.range_cos_max_tilt), "with the configured tilt limit");
	VC_SCOPE { vc_mode("uf"); vc_assert(check_hyst == (uint64_t)(p.range_valid_quality_s * 1e6f), "with the configured quality hysteresis"); }
	vc_assert(vc_same(check_pitch, changed ? p.rng_sens_pitch : po0) && vc_same(check_sp, changed ? sinf(p.rng_sens_pitch) : sp0) && vc_same(check_cp, changed ? cosf(p.rng_sens_pitch) : cp0), "with the configured mounting angle");
	const Vector3f off = p.rng_pos_body - p.imu_pos_body;
	const float down = e._R_to_earth(2, 0) * off(0) + e._R_to_earth(2, 1) * off(1) + e._R_to_earth(2, 2) * off(2), raw = rng.have ? rng.s.rng : range0;
	const bool use = rng.have && rng_valid;
	VC_SCOPE { vc_assume(use); vc_mode("poly"); vc_assert(vc_eq(r._sample.rng, raw + down / rng_cos), "a used reading is corrected for the mounting position, once"); }
	VC_SCOPE { vc_mode("uf"); vc_assume(!use); vc_assert(vc_same(r._sample.rng, raw), "other readings are left alone"); }
}
// ---- starting the filter; the pieces it is built from (E03, E09, E10, E11, E12, E17) are used by contract
static int tilts, covs, yaw_vars, hagls, aligns, stage; static bool tilt_ok, hagl_ok; static float yaw_var; static bool in_order;
static bool on_tilt(Ekf *) { tilts++; return tilt_ok; }
static void on_cov(Ekf *) { covs++; in_order = in_order && tilts == 1 && headings == 1; }
static void on_yaw_var(Ekf *, float v) { yaw_vars++; yaw_var = v; in_order = in_order && covs == 1; }
static bool on_hagl(Ekf *) { hagls++; in_order = in_order && covs == 1; return hagl_ok; }
static void on_align(Ekf *) { aligns++; in_order = in_order && covs == 1; }
static Ekf &setup_init()
{
	Ekf &e = setup();
	tilts = covs = yaw_vars = hagls = aligns = 0; in_order = true; tilt_ok = vc_bool("tilt_ok"); hagl_ok = vc_bool("hagl_ok");
	vc_replace("Ekf::initialiseTilt", on_tilt);
	vc_replace("Ekf::initialiseCovariance", on_cov);
	vc_replace("Ekf::increaseQuatYawErrVariance", on_yaw_var);
	vc_replace("Ekf::initHagl", on_hagl);
	vc_replace("Ekf::alignOutputFilter", on_align);
	e._filter_initialised = false; e._imu_updated = false;
	return e;
}
static bool bad_dt() { return imu_new.delta_vel_dt < 1e-4f || imu_new.delta_ang_dt < 1e-4f; }
VC_PROOF(E24_start)
{
	Ekf &e = setup_init();
	const auto &p = e._params;
	const bool bad = bad_dt(), first = e._is_first_imu_sample;
	const float va = e._accel_lpf._alpha, wa = e._gyro_lpf._alpha, ma = e._mag_lpf._alpha;
	const Vector3f a0 = e._accel_lpf.getState(), w0 = e._gyro_lpf.getState(), m0 = e._mag_lpf.getState();
	const uint32_t mc = e._mag_counter, bc = e._baro_counter, need = e._obs_buffer_length;
	vc_assume(mc < (1u << 31) && bc < (1u << 31));
	const float b0 = e._baro_hgt_offset;
	const bool m = !bad && mag.have && mag.s.time_us != 0, b = !bad && baro.have && baro.s.time_us != 0;
	const bool uses_mag = p.mag_fusion_type <= MAG_FUSE_TYPE_3D;
	const bool enough = !bad && (!uses_mag || mc + (m ? 1 : 0) >= need) && bc + (b ? 1 : 0) >= need, start = enough && tilt_ok;
	const filter_control_status_u c0 = e._control_status; filter_control_status_u want = c0;
	if (enough) { want.flags.baro_hgt = true; want.flags.gps_hgt = want.flags.rng_hgt = want.flags.ev_hgt = false; }
	if (start) { want.flags.yaw_align = heading_ok; }
	const uint64_t t[7] = {e._time_last_hgt_fuse, e._time_last_hor_pos_fuse, e._time_last_delpos_fuse, e._time_last_hor_vel_fuse, e._time_last_hagl_fuse, e._time_last_flow_terrain_fuse, e._time_last_of_fuse};
	const bool terrain = e._terrain_initialised;
	const bool ok = e.initialiseFilter();
	vc_assert(ok == start, "the filter starts with enough samples, at rest");
	vc_assert(e._mag_counter == mc + (m ? 1 : 0) && e._baro_counter == bc + (b ? 1 : 0) && (bad || (mag.n == 1 && baro.n == 1 && mag.at == e._imu_sample_delayed.time_us && baro.at == e._imu_sample_delayed.time_us)), "samples are counted");
	vc_assert(e._is_first_imu_sample == (first && bad), "the first sample starts the filters");
	vc_assert(e._control_status.value == want.value, "height starts from pressure, heading from the field");
	vc_assert(tilts == enough && covs == start && hagls == start && aligns == start && headings == start && in_order, "tilt, heading, covariance, terrain and output are started, in order");
	vc_assert(!start || (!inc && !buf && vc_same(heading_from(0), e._mag_lpf.getState()(0)) && vc_same(heading_from(1), e._mag_lpf.getState()(1)) && vc_same(heading_from(2), e._mag_lpf.getState()(2))), "heading starts from the filtered field");
	vc_assert(yaw_vars == (start && uses_mag), "heading uncertainty is that of the field");
	const float n = fmaxf(p.mag_heading_noise, 1.0e-2f);
	VC_SCOPE { vc_assume(start && uses_mag && p.mag_heading_noise < 100.f); vc_assert(vc_eq(yaw_var, n * n), "heading uncertainty is that of the field"); }
	vc_assert(e._terrain_initialised == (start ? hagl_ok : terrain), "terrain starts if it can");
	const uint64_t t1[7] = {e._time_last_hgt_fuse, e._time_last_hor_pos_fuse, e._time_last_delpos_fuse, e._time_last_hor_vel_fuse, e._time_last_hagl_fuse, e._time_last_flow_terrain_fuse, e._time_last_of_fuse};
	for (int i = 0; i < 7; i++) { vc_assert(t1[i] == (start ? e._time_last_imu : t[i]), "timeouts start with the filter"); }
	for (int i = 0; i < 3; i++) {
		VC_SCOPE { vc_assume(!m); vc_assert(vc_same(e._mag_lpf.getState()(i), m0(i)), "the field is averaged"); }
		VC_SCOPE { vc_assume(m && mc == 0); vc_assert(vc_same(e._mag_lpf.getState()(i), mag.s.mag(i)), "the field is averaged"); }
		VC_SCOPE { vc_assume(m && mc > 0); vc_assert(vc_eq(e._mag_lpf.getState()(i), (1.f - ma) * m0(i) + ma * mag.s.mag(i)), "the field is averaged"); }
		VC_SCOPE { vc_assume(bad); vc_assert(vc_same(e._accel_lpf.getState()(i), a0(i)) && vc_same(e._gyro_lpf.getState()(i), w0(i)), "acceleration and rate are averaged"); }
		VC_SCOPE {
			vc_assume(!bad); vc_mode("poly");
			const float acc = imu_new.delta_vel(i) / imu_new.delta_vel_dt, rate = imu_new.delta_ang(i) / imu_new.delta_ang_dt;
			vc_assert(vc_eq(e._accel_lpf.getState()(i), first ? acc : (1.f - va) * a0(i) + va * acc), "acceleration and rate are averaged");
			vc_assert(vc_eq(e._gyro_lpf.getState()(i), first ? rate : (1.f - wa) * w0(i) + wa * rate), "acceleration and rate are averaged");
		}
	}
	VC_SCOPE { vc_assume(!b); vc_assert(vc_same(e._baro_hgt_offset, b0), "the pressure height is averaged"); }
	VC_SCOPE { vc_assume(b); vc_assert(vc_eq(e._baro_hgt_offset, bc == 0 ? baro.s.hgt : 0.9f * b0 + 0.1f * baro.s.hgt), "the pressure height is averaged"); }
}
// ---- one cycle
static int stages, inits, predicted, covered, controlled, terrains, yaws, outputs; static bool init_ok, cycle_order; static imuSample out_imu;
static bool on_init(Ekf *) { inits++; return init_ok; }
static void on_predict(Ekf *) { predicted = ++stages; }
static void on_cover(Ekf *) { covered = ++stages; }
static void on_modes(Ekf *) { controlled = ++stages; }
static void on_terrain(Ekf *) { terrains = ++stages; }
static void on_yaw(Ekf *) { yaws = ++stages; }
static void on_outputs(Ekf *, const imuSample &i) { outputs = ++stages; out_imu = i; }
VC_PROOF(E24_cycle)
{
	Ekf &e = any_ekf();
	vc_replace("Ekf::initialiseFilter", on_init);
	vc_replace("Ekf::predictState", on_predict);
	vc_replace("Ekf::predictCovariance", on_cover);
	vc_replace("Ekf::controlFusionModes", on_modes);
	vc_replace("Ekf::runTerrainEstimator", on_terrain);
	vc_replace("Ekf::runYawEKFGSF", on_yaw);
	vc_replace("Ekf::calculateOutputStates", on_outputs);
	stages = inits = predicted = covered = controlled = terrains = yaws = outputs = 0; init_ok = vc_bool("init_ok");
	const bool f0 = e._filter_initialised, run = f0 || init_ok, step = run && e._imu_updated;
	const bool updated = e.update();
	vc_assert(inits == !f0 && e._filter_initialised == run, "the filter starts once");
	vc_assert(updated == step && (predicted != 0) == step && (covered != 0) == step && (controlled != 0) == step && (terrains != 0) == step && (yaws != 0) == step, "the filter advances once for each down sampled sample");
	vc_assert(!step || (predicted < controlled && covered < controlled && predicted < covered && controlled < terrains && controlled < yaws && terrains < outputs && yaws < outputs), "prediction comes before fusion, the output after it");
	vc_assert((outputs != 0) == run && stages == (step ? 6 : run ? 1 : 0), "the output follows every sample once started");
	vc_assert(!run || (out_imu.time_us == e._newest_high_rate_imu_sample.time_us && vc_same(out_imu.delta_ang(0), e._newest_high_rate_imu_sample.delta_ang(0)) && vc_same(out_imu.delta_vel(2), e._newest_high_rate_imu_sample.delta_vel(2))), "the output uses the newest sample");
}
