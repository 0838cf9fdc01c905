// E18: what happens to sensor data on the way into the estimator
#include "fusion.h"
#include "buffers.h"

static const unsigned N = 3;   // slots of the observation buffers where their number does not matter
template <class T> struct Store { T slot[N]; };
template <class T> static T *storage(const char *name) { static Store<T> s; vc_havoc(&s, sizeof(s), name); return s.slot; }
template <class T> static void fill(RingBuffer<T> &b, const char *name)
{
	b._buffer = storage<T>(name); b._size = N; b._head = 1; b._tail = 0; b._first_write = false;
}

static Ekf &setup()
{
	Ekf &e = any_ekf();
	e._obs_buffer_length = e._imu_buffer_length = N;
	const auto &p = e._params;
	const float d[8] = {p.mag_delay_ms, p.baro_delay_ms, p.gps_delay_ms, p.airspeed_delay_ms, p.flow_delay_ms, p.range_delay_ms, p.ev_delay_ms, p.auxvel_delay_ms};
	for (int i = 0; i < 8; i++) { vc_assume(d[i] >= 0.f && d[i] <= 2000.f); }
	return e;
}
// the time stamp given to a measurement: made ms earlier than t, centred on the filter interval
static bool stamped(uint64_t stamp, uint64_t t, float delay_ms) { return stamp == t - (uint64_t)(delay_ms * 1000) - 5000; }

// T: sample, set: the function under contract, last: time of the last accepted sample, fail: allocation failed before
template <class T, class Set> static bool intake(Ekf &e, RingBuffer<T> &b, const bool &fail, uint64_t &last, uint64_t t, bool wanted, Set set)
{
	fill_any(b);
	const unsigned n = e._obs_buffer_length = e._imu_buffer_length = b._size, stored = live(b), head = b._head, tail = b._tail; const bool blank = b._first_write;
	const uint64_t last0 = last;
	const bool usable = e._initialised && !fail;
	const bool accept = usable && wanted && t - last0 > e._min_obs_interval_us;
	set();
	vc_assert(b._size == n && (accept ? live(b) == (stored < n ? stored + 1 : n) && !b._first_write : b._head == head && b._tail == tail && b._first_write == blank), "a sample is stored exactly when it is spaced by the minimum interval");
	vc_assert(last == (accept ? t : last0), "time of the last stored sample");
	return accept;
}
static uint64_t &stamp(gps_message &s) { return s.time_usec; }
template <class T> static uint64_t &stamp(T &s) { return s.time_us; }
template <class T> static T sample(const char *n) { T s; vc_havoc(&s, sizeof(s), n); vc_hint(1e10, 1e15); stamp(s) = vc_u64("t"); vc_assume(stamp(s) >= 3000000 && stamp(s) < (1ull << 56)); return s; }

VC_PROOF(E18_airspeed)
{
	Ekf &e = setup();
	const airspeedSample s = sample<airspeedSample>("s");
	const bool a = intake(e, e._airspeed_buffer, e._airspeed_buffer_fail, e._time_last_airspeed, s.time_us, true, [&] { e.setAirspeedData(s); });
	vc_assume(a);
	const airspeedSample &n = e._airspeed_buffer.get_newest();
	vc_assert(stamped(n.time_us, s.time_us, e._params.airspeed_delay_ms), "delay is taken off the time stamp to the microsecond");
	vc_assert(vc_same(n.true_airspeed, s.true_airspeed) && vc_same(n.eas2tas, s.eas2tas), "data unchanged");
}
VC_PROOF(E18_range)
{
	Ekf &e = setup();
	const rangeSample s = sample<rangeSample>("s");
	const bool a = intake(e, e._range_buffer, e._range_buffer_fail, e._time_last_range, s.time_us, true, [&] { e.setRangeData(s); });
	vc_assume(a);
	const rangeSample &n = e._range_buffer.get_newest();
	vc_assert(stamped(n.time_us, s.time_us, e._params.range_delay_ms), "delay is taken off the time stamp to the microsecond");
	vc_assert(vc_same(n.rng, s.rng) && n.quality == s.quality, "data unchanged");
}
VC_PROOF(E18_flow)
{
	Ekf &e = setup();
	const flowSample s = sample<flowSample>("s");
	const bool a = intake(e, e._flow_buffer, e._flow_buffer_fail, e._time_last_optflow, s.time_us, true, [&] { e.setOpticalFlowData(s); });
	vc_assume(a);
	const flowSample &n = e._flow_buffer.get_newest();
	vc_assert(stamped(n.time_us, s.time_us, e._params.flow_delay_ms), "delay is taken off the time stamp to the microsecond");
	for (int i = 0; i < 3; i++) { vc_assert(vc_same(n.gyro_xyz(i), s.gyro_xyz(i)), "data unchanged"); }
	vc_assert(vc_same(n.flow_xy_rad(0), s.flow_xy_rad(0)) && vc_same(n.flow_xy_rad(1), s.flow_xy_rad(1)) && vc_same(n.dt, s.dt) && n.quality == s.quality, "data unchanged");
}
VC_PROOF(E18_vision)
{
	Ekf &e = setup();
	const extVisionSample s = sample<extVisionSample>("s");
	const bool a = intake(e, e._ext_vision_buffer, e._ev_buffer_fail, e._time_last_ext_vision, s.time_us, true, [&] { e.setExtVisionData(s); });
	vc_assume(a);
	const extVisionSample &n = e._ext_vision_buffer.get_newest();
	vc_assert(stamped(n.time_us, s.time_us, e._params.ev_delay_ms), "delay is taken off the time stamp to the microsecond");
	for (int i = 0; i < 3; i++) {
		vc_assert(vc_same(n.pos(i), s.pos(i)) && vc_same(n.vel(i), s.vel(i)) && vc_same(n.posVar(i), s.posVar(i)), "data unchanged");
		for (int j = 0; j < 3; j++) { vc_assert(vc_same(n.velCov(i, j), s.velCov(i, j)), "data unchanged"); }
	}
	for (int i = 0; i < 4; i++) { vc_assert(vc_same(n.quat(i), s.quat(i)), "data unchanged"); }
	vc_assert(vc_same(n.angVar, s.angVar) && n.vel_frame == s.vel_frame, "data unchanged");
}
VC_PROOF(E18_auxvel)
{
	Ekf &e = setup();
	const auxVelSample s = sample<auxVelSample>("s");
	const bool a = intake(e, e._auxvel_buffer, e._auxvel_buffer_fail, e._time_last_auxvel, s.time_us, true, [&] { e.setAuxVelData(s); });
	vc_assume(a);
	const auxVelSample &n = e._auxvel_buffer.get_newest();
	vc_assert(stamped(n.time_us, s.time_us, e._params.auxvel_delay_ms), "delay is taken off the time stamp to the microsecond");
	for (int i = 0; i < 3; i++) { vc_assert(vc_same(n.vel(i), s.vel(i)) && vc_same(n.velVar(i), s.velVar(i)), "data unchanged"); }
}
// averaged sensors
VC_PROOF(E18_mag)
{
	vc_tol(1e-5, 1e-4);
	Ekf &e = setup();
	const magSample s = sample<magSample>("s");
	const uint8_t k = e._mag_sample_count, k1 = k + 1;
	vc_assume(k < 255 && e._mag_timestamp_sum < (1ull << 58) && e._mag_timestamp_sum >= 4000ull * k);
	const uint64_t ts = e._mag_timestamp_sum;
	const float s0[3] = {e._mag_data_sum(0), e._mag_data_sum(1), e._mag_data_sum(2)};
	const bool usable = e._initialised && !e._mag_buffer_fail;
	const bool a = intake(e, e._mag_buffer, e._mag_buffer_fail, e._time_last_mag, s.time_us, true, [&] { e.setMagData(s); });
	vc_assert(e._mag_sample_count == (a ? 0 : usable ? k1 : k) && e._mag_timestamp_sum == (a ? 0 : usable ? ts + s.time_us / 1000 : ts), "samples are collected until the next is stored");
	vc_mode("poly");
	for (int i = 0; i < 3; i++) { vc_assert(vc_eq(e._mag_data_sum(i), a ? 0.f : usable ? s0[i] + s.mag(i) : s0[i]), "samples are summed until the next is stored"); }
	vc_assume(a);
	const magSample &n = e._mag_buffer.get_newest();
	for (int i = 0; i < 3; i++) { vc_assert(vc_eq(n.mag(i), (s0[i] + s.mag(i)) / (float)k1), "the mean of the collected samples is stored"); }
	vc_mode("fp");
	vc_assert(stamped(n.time_us, (ts + s.time_us / 1000) / k1 * 1000, e._params.mag_delay_ms), "at their mean time less the delay, to the microsecond");
}
static float comp_arg, comp;
static float compensate(const Ekf *, float h) { comp_arg = h; return comp; }
VC_PROOF(E18_baro)
{
	vc_tol(1e-5, 1e-4);
	Ekf &e = setup();
	comp = vc_f32("compensated");
	vc_replace("Ekf::compensateBaroForDynamicPressure", compensate);
	const baroSample s = sample<baroSample>("s");
	const uint8_t k = e._baro_sample_count, k1 = k + 1;
	vc_assume(k < 255 && e._baro_timestamp_sum < (1ull << 58) && e._baro_timestamp_sum >= 4000ull * k);
	const uint64_t ts = e._baro_timestamp_sum;
	const float s0 = e._baro_alt_sum;
	const bool usable = e._initialised && !e._baro_buffer_fail;
	const bool a = intake(e, e._baro_buffer, e._baro_buffer_fail, e._time_last_baro, s.time_us, true, [&] { e.setBaroData(s); });
	vc_assert(e._baro_sample_count == (a ? 0 : usable ? k1 : k) && e._baro_timestamp_sum == (a ? 0 : usable ? ts + s.time_us / 1000 : ts), "samples are collected until the next is stored");
	vc_mode("real");
	vc_assert(vc_eq(e._baro_alt_sum, a ? 0.f : usable ? s0 + s.hgt : s0), "samples are summed until the next is stored");
	vc_assume(a);
	const baroSample &n = e._baro_buffer.get_newest();
	vc_assert(vc_eq(comp_arg, (s0 + s.hgt) / (float)k1) && vc_same(n.hgt, comp), "their mean, corrected for dynamic pressure, is stored");
	vc_mode("fp");
	vc_assert(stamped(n.time_us, (ts + s.time_us / 1000) / k1 * 1000, e._params.baro_delay_ms), "at their mean time less the delay, to the microsecond");
}
// GPS
static bool origin; static int collects;
static bool collect(Ekf *, const gps_message &) { collects++; return origin; }
static float prj_x, prj_y; static int projects;
static int project(const map_projection_reference_s *, double, double, float *x, float *y) { projects++; *x = prj_x; *y = prj_y; return 0; }
VC_PROOF(E18_gps)
{
	vc_tol(1e-3, 1e-4);
	Ekf &e = setup();
	gps_message g = sample<gps_message>("gps");
	origin = vc_bool("origin_set"); prj_x = vc_f32("x"); prj_y = vc_f32("y"); collects = projects = 0;
	vc_replace("Ekf::collect_gps", collect); vc_replace("map_projection_project", project);
	const bool wanted = ((e._params.fusion_mode & MASK_USE_GPS) || e._params.vdist_sensor_type == VDIST_SENSOR_GPS) && g.fix_type > 2;
	const bool v0 = e._gps_speed_valid; const float yo = e._gps_yaw_offset;
	const bool a = intake(e, e._gps_buffer, e._gps_buffer_fail, e._time_last_gps, g.time_usec, wanted, [&] { e.setGpsData(g); });
	vc_assert(collects == (a ? 1 : 0) && projects == (a && origin ? 1 : 0), "quality is checked for every stored fix");
	VC_SCOPE { vc_assume(!a); vc_assert(e._gps_speed_valid == v0 && vc_same(e._gps_yaw_offset, yo), "nothing of a refused fix is used"); }
	vc_assume(a);
	const gpsSample &n = e._gps_buffer.get_newest();
	vc_assert(stamped(n.time_us, g.time_usec, e._params.gps_delay_ms), "delay is taken off the time stamp to the microsecond");
	for (int i = 0; i < 3; i++) { vc_assert(vc_same(n.vel(i), g.vel_ned(i)), "velocity"); }
	vc_assert(vc_same(n.sacc, g.sacc) && vc_same(n.hacc, g.eph) && vc_same(n.vacc, g.epv), "accuracies");
	vc_assert(vc_same(n.yaw, g.yaw) && e._gps_speed_valid == g.vel_ned_valid, "heading and validity of velocity");
	vc_assert(origin ? vc_same(n.pos(0), prj_x) && vc_same(n.pos(1), prj_y) : n.pos(0) == 0.f && n.pos(1) == 0.f, "position relative to the origin, zero without one");
	const bool fin = g.yaw_offset - g.yaw_offset == 0.f;
	VC_SCOPE { vc_assume(fin); vc_assert(vc_same(e._gps_yaw_offset, g.yaw_offset), "antenna offset"); }
	VC_SCOPE { vc_assume(!fin); vc_assert(e._gps_yaw_offset == 0.f, "no antenna offset given"); }
	vc_mode("real");
	vc_assert(vc_eq(n.hgt, (float)g.alt * 1e-3f), "altitude in metres");
}

// ---- allocation on first use
static bool grant; static int allocs; static unsigned alloc_size;
template <class T> static bool allocate(RingBuffer<T> *b, uint8_t n)
{
	allocs++; alloc_size = n;
	if (grant) { fill(*b, "fresh"); b->_size = n; b->_first_write = true; b->_head = b->_tail = 0; }
	return grant;
}
template <class T, class Set> static void allocation(Ekf &e, RingBuffer<T> &b, bool &fail, uint64_t &last, const char *name, Set set)
{
	fill(b, "old"); b._size = 2;   // too small
	const unsigned n = e._obs_buffer_length = e._imu_buffer_length = vc_u8_in("required", 3, 255);
	allocs = 0; grant = vc_bool("memory"); e._initialised = true; fail = false;
	vc_replace(name, allocate<T>);
	const uint64_t l0 = last;
	set();
	vc_assert(allocs == 1 && alloc_size == n, "a buffer of the required length is allocated on first use");
	vc_assert(fail == !grant, "failure is remembered");
	VC_SCOPE { vc_assume(!grant); vc_assert(b._size == 2 && b._head == 1 && last == l0, "nothing is stored without memory"); set(); vc_assert(allocs == 1 && b._head == 1 && last == l0, "and allocation is not tried again"); }
	VC_SCOPE { vc_assume(grant); vc_assert(b._head == 0 && b._first_write == !(last != l0 || !b._first_write), "the first sample goes into the new buffer"); }
}
VC_PROOF(E18_allocate)
{
	Ekf &e = setup();
	vc_replace("Ekf::collect_gps", collect); vc_replace("map_projection_project", project); vc_replace("Ekf::compensateBaroForDynamicPressure", compensate);
	vc_assume(e._mag_sample_count < 255 && e._baro_sample_count < 255 && e._drag_sample_count < 4);
	vc_assume(e._mag_timestamp_sum < (1ull << 58) && e._mag_timestamp_sum >= 4000ull * e._mag_sample_count && e._baro_timestamp_sum < (1ull << 58) && e._baro_timestamp_sum >= 4000ull * e._baro_sample_count);
	VC_SCOPE { const magSample s = sample<magSample>("s"); allocation(e, e._mag_buffer, e._mag_buffer_fail, e._time_last_mag, "RingBuffer<estimator::magSample>::allocate", [&] { e.setMagData(s); }); }
	VC_SCOPE { const baroSample s = sample<baroSample>("s"); allocation(e, e._baro_buffer, e._baro_buffer_fail, e._time_last_baro, "RingBuffer<estimator::baroSample>::allocate", [&] { e.setBaroData(s); }); }
	VC_SCOPE { const gps_message s = sample<gps_message>("s"); allocation(e, e._gps_buffer, e._gps_buffer_fail, e._time_last_gps, "RingBuffer<estimator::gpsSample>::allocate", [&] { e.setGpsData(s); }); }
	VC_SCOPE { const airspeedSample s = sample<airspeedSample>("s"); allocation(e, e._airspeed_buffer, e._airspeed_buffer_fail, e._time_last_airspeed, "RingBuffer<estimator::airspeedSample>::allocate", [&] { e.setAirspeedData(s); }); }
	VC_SCOPE { const rangeSample s = sample<rangeSample>("s"); allocation(e, e._range_buffer, e._range_buffer_fail, e._time_last_range, "RingBuffer<estimator::rangeSample>::allocate", [&] { e.setRangeData(s); }); }
	VC_SCOPE { const flowSample s = sample<flowSample>("s"); allocation(e, e._flow_buffer, e._flow_buffer_fail, e._time_last_optflow, "RingBuffer<estimator::flowSample>::allocate", [&] { e.setOpticalFlowData(s); }); }
	VC_SCOPE { const extVisionSample s = sample<extVisionSample>("s"); allocation(e, e._ext_vision_buffer, e._ev_buffer_fail, e._time_last_ext_vision, "RingBuffer<estimator::extVisionSample>::allocate", [&] { e.setExtVisionData(s); }); }
	VC_SCOPE { const auxVelSample s = sample<auxVelSample>("s"); allocation(e, e._auxvel_buffer, e._auxvel_buffer_fail, e._time_last_auxvel, "RingBuffer<estimator::auxVelSample>::allocate", [&] { e.setAuxVelData(s); }); }
}

// ---- IMU data
static bool init_ok; static int inits; static uint64_t init_time;
static bool init(Ekf *, uint64_t t) { inits++; init_time = t; return init_ok; }
static imuSample *down; static bool ready; static int downs; static uint64_t down_time;
static bool update(ImuDownSampler *, const imuSample &s) { downs++; down_time = s.time_us; return ready; }
static imuSample down_sample(ImuDownSampler *) { return *down; }
static bool same_imu(const imuSample &a, const imuSample &b)
{
	bool s = a.time_us == b.time_us && vc_same(a.delta_ang_dt, b.delta_ang_dt) && vc_same(a.delta_vel_dt, b.delta_vel_dt);
	for (int i = 0; i < 3; i++) { s = s && vc_same(a.delta_ang(i), b.delta_ang(i)) && vc_same(a.delta_vel(i), b.delta_vel(i)) && a.delta_vel_clipping[i] == b.delta_vel_clipping[i]; }
	return s;
}
VC_PROOF(E18_imu)
{
	vc_mode("real"); vc_tol(1e-6, 1e-4);
	Ekf &e = any_ekf();
	e._obs_buffer_length = vc_u8_in("obs_length", 2, 255);   // established by initialise_interface
	fill_any(e._imu_buffer);
	const RingBuffer<imuSample> &b = e._imu_buffer;
	e._params.fusion_mode &= ~MASK_USE_DRAG;
	vc_replace("Ekf::init", init); vc_replace("ImuDownSampler::update", update); vc_replace("ImuDownSampler::getDownSampledImuAndTriggerReset", down_sample);
	imuSample s = sample<imuSample>("imu"), d = sample<imuSample>("down");
	down = &d; ready = vc_bool("ready"); init_ok = vc_bool("init"); inits = downs = 0;
	const unsigned n = b._size, stored = live(b), head = b._head, tail = b._tail; const bool blank = b._first_write;
	const unsigned past_oldest = tail + 1 < n ? tail + 1 : 0;
	const imuSample old = stored == 0 || n == 1 ? d : b._buffer[stored < n ? tail : past_oldest];   // the oldest once d is in
	vc_assume(old.time_us <= s.time_us);
	vc_assume(e._time_last_imu <= s.time_us && s.time_us < (1ull << 50) && e._time_last_move_detect_us <= s.time_us);
	const bool was = e._initialised;
	const float dt = clampf((float)(s.time_us - e._time_last_imu) / 1e6f, 1e-4f, 0.02f), avg = 0.8f * e._dt_imu_avg + 0.2f * dt;
	float dv[3], da[3], c[3], vb[3];
	for (int i = 0; i < 3; i++) { da[i] = s.delta_ang(i) - e._delta_ang_prev(i); dv[i] = s.delta_vel(i) - e._delta_vel_prev(i); vb[i] = e._vibe_metrics(i); }
	for (int i = 0; i < 3; i++) { const int j = (i + 1) % 3, k = (i + 2) % 3; c[i] = s.delta_ang(j) * e._delta_ang_prev(k) - s.delta_ang(k) * e._delta_ang_prev(j); }
	const uint64_t move0 = e._time_last_move_detect_us;
	const imuSample del0 = e._imu_sample_delayed; const unsigned mi = e._min_obs_interval_us;
	filter_control_status_u want = e._control_status;
	e.setIMUData(s);
	vc_assert(inits == (was ? 0 : 1) && (was || init_time == s.time_us) && e._initialised == (was || init_ok), "the estimator is initialised at the first sample");
	vc_assert(e._time_last_imu == s.time_us && same_imu(e._newest_high_rate_imu_sample, s), "newest sample");
	vc_assert(vc_eq(e._dt_imu_avg, avg), "average interval is low passed and limited");
	const float *q[3] = {c, da, dv};
	for (int i = 0; i < 3; i++) { vc_assert(vc_eq(e._vibe_metrics(i), 0.99f * vb[i] + 0.01f * sqrtf(q[i][0] * q[i][0] + q[i][1] * q[i][1] + q[i][2] * q[i][2])), "vibration metrics: coning, gyro and accelerometer"); }
	for (int i = 0; i < 3; i++) { vc_assert(vc_same(e._delta_ang_prev(i), s.delta_ang(i)) && vc_same(e._delta_vel_prev(i), s.delta_vel(i)), "kept for the next sample"); }
	const float m = e._params.is_moving_scaler;
	const float rate = sqrtf(s.delta_ang(0) * s.delta_ang(0) + s.delta_ang(1) * s.delta_ang(1) + s.delta_ang(2) * s.delta_ang(2)) / dt;
	const bool moving = want.flags.in_air || e._vibe_metrics(1) * 4.0E4f > m || e._vibe_metrics(2) * 2.1E2f > m || rate > 0.05f * m;
	vc_assert(e._time_last_move_detect_us == (moving ? s.time_us : move0), "time of the last motion");
	want.flags.vehicle_at_rest = !want.flags.in_air && s.time_us - e._time_last_move_detect_us > 1000000;
	vc_assert(e._control_status.value == want.value, "at rest after a second without motion on ground");
	vc_assert(downs == 1 && down_time == s.time_us && e._imu_updated == ready, "every sample goes into the down sampler");
	VC_SCOPE { vc_assume(!ready); vc_assert(b._head == head && b._tail == tail && b._first_write == blank && same_imu(e._imu_sample_delayed, del0) && e._min_obs_interval_us == mi, "no new filter interval"); }
	VC_SCOPE {
		vc_assume(ready);
		vc_assert(same_imu(b.get_newest(), d) && b._size == n && live(b) == (stored < n ? stored + 1 : n), "the down sampled data is buffered");
		vc_assert(same_imu(e._imu_sample_delayed, old), "the oldest sample is at the fusion horizon");
	}
}

// every buffer length that initialise_interface can ask for
VC_PROOF(E18_interval)
{
	Ekf &e = any_ekf();
	fill(e._imu_buffer, "imu_buffer");
	e._params.fusion_mode &= ~MASK_USE_DRAG; e._initialised = true; ready = true;
	vc_replace("ImuDownSampler::update", update); vc_replace("ImuDownSampler::getDownSampledImuAndTriggerReset", down_sample);
	const imuSample s = sample<imuSample>("imu"); imuSample d = sample<imuSample>("down");
	down = &d;
	const uint64_t old = e._imu_buffer._buffer[0].time_us;
	vc_assume(old <= s.time_us && s.time_us - old < 0x80000000u);
	for (unsigned k = 2; k <= 31; k++) VC_SCOPE {
		e._obs_buffer_length = k;
		e.setIMUData(s);
		vc_assert(e._min_obs_interval_us == (s.time_us - old) / (k - 1), "minimum interval between observations: as many as the buffer holds per horizon");
	}
}

// ---- drag
static void drag(unsigned imu_length, unsigned ratio)
{
	vc_mode("poly"); vc_tol(1e-4, 1e-3);
	Ekf &e = setup();
	e._imu_buffer_length = imu_length;
	RingBuffer<dragSample> &b = e._drag_buffer;
	fill_any(b);
	vc_assume(b._size >= N);
	const unsigned size = b._size, stored = live(b), head = b._head, tail = b._tail; const bool blank = b._first_write;
	const imuSample s = sample<imuSample>("imu");
	const unsigned k = e._drag_sample_count;
	vc_assume(k < ratio && e._drag_down_sampled.time_us < (1ull << 60) && e._drag_sample_time_dt >= 0.f && s.delta_vel_dt > 0.f && s.time_us < (1ull << 50));
	const bool use = (e._params.fusion_mode & MASK_USE_DRAG) && !e._drag_buffer_fail, full = use && k + 1 >= ratio;
	const float a[2] = {e._drag_down_sampled.accelXY(0), e._drag_down_sampled.accelXY(1)}, t = e._drag_sample_time_dt;
	const uint64_t ts = e._drag_down_sampled.time_us;
	e.setDragData(s);
	vc_assert(b._size == size && (full ? live(b) == (stored < size ? stored + 1 : size) && !b._first_write : b._head == head && b._tail == tail && b._first_write == blank), "a mean is stored when enough samples are collected");
	vc_assert(e._drag_sample_count == (full ? 0 : use ? k + 1 : k), "number of collected samples");
	vc_assert(e._drag_down_sampled.time_us == (full ? 0 : use ? ts + s.time_us : ts), "sum of time stamps");
	vc_assert(vc_eq(e._drag_sample_time_dt, full ? 0.f : use ? t + s.delta_vel_dt : t), "collected time");
	for (int i = 0; i < 2; i++) { vc_assert(vc_eq(e._drag_down_sampled.accelXY(i), full ? 0.f : use ? a[i] + s.delta_vel(i) : a[i]), "collected velocity change"); }
	vc_assume(full);
	const dragSample &n = e._drag_buffer.get_newest();
	vc_assert(n.time_us == (ts + s.time_us) / ratio, "mean time");
	for (int i = 0; i < 2; i++) { vc_assert(vc_eq(n.accelXY(i), (a[i] + s.delta_vel(i)) / (t + s.delta_vel_dt)), "mean specific force"); }
}
VC_PROOF(E18_drag) { VC_SCOPE { drag(3, 5); } VC_SCOPE { drag(16, 6); } VC_SCOPE { drag(30, 10); } }

// ---- buffer sizes
static int imu_allocs, out_allocs, vert_allocs; static uint8_t imu_n, out_n, vert_n; static bool imu_g, out_g, vert_g;
static bool alloc_imu(RingBuffer<imuSample> *, uint8_t n) { imu_allocs++; imu_n = n; return imu_g; }
static bool alloc_out(RingBuffer<outputSample> *, uint8_t n) { out_allocs++; out_n = n; return out_g; }
static bool alloc_vert(RingBuffer<outputVert> *, uint8_t n) { vert_allocs++; vert_n = n; return vert_g; }
VC_PROOF(E18_lengths)
{
	vc_mode("real");
	Ekf &e = any_ekf();
	vc_replace("RingBuffer<estimator::imuSample>::allocate", alloc_imu); vc_replace("RingBuffer<estimator::outputSample>::allocate", alloc_out); vc_replace("RingBuffer<estimator::outputVert>::allocate", alloc_vert);
	imu_allocs = out_allocs = vert_allocs = 0; imu_g = vc_bool("imu"); out_g = vc_bool("output"); vert_g = vc_bool("vertical");
	const auto &p = e._params;
	const float d[8] = {p.baro_delay_ms, p.auxvel_delay_ms, p.airspeed_delay_ms, p.mag_delay_ms, p.range_delay_ms, p.gps_delay_ms, p.flow_delay_ms, p.ev_delay_ms};
	for (int i = 0; i < 8; i++) { vc_assume(d[i] >= 0.f && d[i] <= 300.f); }   // documented parameter ranges
	vc_assume(p.sensor_interval_min_ms >= 10 && p.sensor_interval_min_ms <= 50);
	const int m = p.fusion_mode;
	const bool used[8] = {true, true, true, p.mag_fusion_type != MAG_FUSE_TYPE_NONE, p.range_aid || p.vdist_sensor_type == VDIST_SENSOR_RANGE, (m & MASK_USE_GPS) != 0, (m & MASK_USE_OF) != 0, (m & (MASK_USE_EVPOS | MASK_USE_EVYAW | MASK_USE_EVVEL)) != 0};
	const uint64_t t = vc_u64("t");
	const bool ok = e.initialise_interface(t);
	float most = 0.f;
	for (int i = 0; i < 8; i++) { if (used[i]) { most = fmaxf(most, d[i]); } }
	const unsigned n = e._imu_buffer_length, k = e._obs_buffer_length;
	vc_assert(n >= 2 && 10.f * (float)(n - 1) >= most, "the horizon covers the delay of every sensor in use");
	vc_assert(n == 2 || 10.f * (float)(n - 2) < most, "and is no longer than needed");
	vc_assert(k >= 2 && k <= n, "at least two observations and no more than IMU samples");
	vc_assert(k == n || (float)k * (float)p.sensor_interval_min_ms >= 1.5f * most, "observations at the highest rate fit into the delay with half as much again");
	vc_assert(imu_allocs == 1 && imu_n == n && (!imu_g || (out_allocs == 1 && out_n == n)) && (!imu_g || !out_g || (vert_allocs == 1 && vert_n == n)), "IMU and output buffers have the same length");
	vc_assert(ok == (imu_g && out_g && vert_g), "success exactly when all memory is there");
	vc_assume(ok);
	vc_assert(e._imu_sample_delayed.time_us == t && !e._imu_sample_delayed.delta_vel_clipping[0] && !e._imu_sample_delayed.delta_vel_clipping[1] && !e._imu_sample_delayed.delta_vel_clipping[2] && e._fault_status.value == 0, "start of operation without faults");
}
// ---- pressure error of the air flow
VC_PROOF(E18_pressure)
{
	vc_mode("poly"); vc_tol(1e-4, 1e-4);
	Ekf &e = any_ekf();
	const auto &p = e._params;
	vc_assume(e._air_density > 0.1f && e._air_density < 10.f && p.max_correction_airspeed >= 0.f);
	const Vector3f wind(e._state.wind_vel(0), e._state.wind_vel(1), 0.f);
	const Dcmf to_body(e._output_new.quat_nominal.inversed());
	const Vector3f v = to_body * (e._output_new.vel - e._vel_imu_rel_body_ned - wind);
	const float raw = vc_f32("baro_alt"), lim = p.max_correction_airspeed * p.max_correction_airspeed;
	for (int k = 0; k < 32; k++) {
		VC_SCOPE {
			const bool fwd = k & 1, right = k & 2;
			vc_assume((v(0) >= 0.f) == fwd && (v(1) >= 0.f) == right);
			float s[3];
			for (int i = 0; i < 3; i++) { const bool limited = k & (4 << i); vc_assume((v(i) * v(i) < lim) == !limited); s[i] = limited ? lim : v(i) * v(i); }
			const float err = s[0] * (fwd ? p.static_pressure_coef_xp : p.static_pressure_coef_xn) + s[1] * (right ? p.static_pressure_coef_yp : p.static_pressure_coef_yn) + s[2] * p.static_pressure_coef_z;
			const float got = e.compensateBaroForDynamicPressure(raw);
			vc_assert(vc_eq(got, raw + 0.5f * err / CONSTANTS_ONE_G), "pressure height is corrected for the flow along each body axis, each limited");
		}
	}
}
