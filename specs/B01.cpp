// B01: a range finder reading is accepted only under every one of its validity conditions (machine arithmetic)
#include "vc.h"
#include <EKF/sensor_range_finder.cpp>
using namespace estimator::sensor;
using namespace estimator;

static void mk(SensorRangeFinder &r)
{
	r._sample.time_us = vc_u64_in("s.t", 0, 1ull << 50); r._sample.rng = vc_f32("s.rng"); r._sample.quality = (int8_t)vc_u8("s.q");
	r._is_sample_ready = vc_bool("ready"); r._is_sample_valid = vc_bool("valid"); r._is_regularly_sending_data = vc_bool("regular");
	r._time_last_valid_us = vc_u64_in("t_valid", 0, 1ull << 50); r._is_stuck = vc_bool("stuck");
	r._stuck_min_val = vc_f32("smin"); r._stuck_max_val = vc_f32("smax");
	vc_hint(0, 4e6); r._dt_data_lpf = vc_f32("lpf"); r._range_cos_max_tilt = vc_f32_in("cmax", -1.f, 1.f);
	r._sin_pitch_offset = vc_f32_in("sp", -1.f, 1.f); r._cos_pitch_offset = vc_f32_in("cp", -1.f, 1.f);
	r._rng_valid_min_val = vc_f32("vmin"); r._rng_valid_max_val = vc_f32("vmax");
	r._time_bad_quality_us = vc_u64_in("t_bad", 0, 1ull << 50); r._quality_hyst_us = vc_u64_in("hyst", 0, 1ull << 40);
}
VC_PROOF(B01_validity)
{
	SensorRangeFinder r;
	mk(r);
	matrix::Dcmf R;
	for (int i = 0; i < 9; i++) { vc_hint(-1, 1); R(i / 3, i % 3) = vc_f32_i("R", i); }
	const uint64_t now = vc_u64_in("now", 0, 1ull << 50);
	vc_assume(r._sample.time_us <= now && r._time_bad_quality_us <= now && r._time_last_valid_us <= r._sample.time_us);
	const SensorRangeFinder p = r;
	r.runChecks(now, R);
	const bool stale = now - p._sample.time_us > 400000;
	const bool irregular = !(r._dt_data_lpf < 2e6f);
	const bool out = stale || irregular;
	vc_assert(r.isRegularlySendingData() == !out, "the stream is regular exactly when fresh and continuous");
	vc_assert(vc_implies(out, !r.isHealthy()), "a stale or irregular stream is never valid");
	vc_assert(vc_implies(!out && !p._is_sample_ready, r.isHealthy() == p._is_sample_valid), "without new data the verdict is kept");
	const bool good_q = p._sample.quality != 0 && now - p._time_bad_quality_us > p._quality_hyst_us;
	const bool tilt = r._cos_tilt_rng_to_earth > p._range_cos_max_tilt;
	const bool range = p._sample.rng >= p._rng_valid_min_val && p._sample.rng <= p._rng_valid_max_val;
	const bool considered = !out && p._is_sample_ready && good_q && tilt && range;
	vc_assert(vc_implies(p._is_sample_ready && !considered, !r.isHealthy()), "bad quality, tilt or range invalidates a new reading");
	vc_assert(vc_implies(considered, r.isHealthy() == !r._is_stuck), "a good reading is valid unless the sensor is stuck");
	const bool gap = p._sample.time_us - p._time_last_valid_us > 10000000;
	vc_assert(vc_implies(!(considered && gap), r._is_stuck == p._is_stuck && vc_same(r._stuck_min_val, p._stuck_min_val) && vc_same(r._stuck_max_val, p._stuck_max_val)), "the stuck state only changes for good readings after a long gap");
	vc_assert(vc_implies(considered && gap && p._stuck_max_val - p._stuck_min_val > 0.1f, !r._is_stuck), "enough variation clears the stuck state");
	vc_assert(vc_implies(considered && gap && !(p._stuck_max_val - p._stuck_min_val > 0.1f), r._is_stuck), "too little variation after a long gap marks the sensor stuck");
	vc_assert(vc_implies(considered && gap && r._is_stuck, vc_same(r._stuck_max_val, p._sample.rng > p._stuck_max_val ? p._sample.rng : p._stuck_max_val)), "the stuck window tracks the largest reading");
	vc_assert(vc_implies(considered && gap && r._is_stuck, vc_same(r._stuck_min_val, (p._stuck_min_val < 0.1f || p._sample.rng < p._stuck_min_val) ? p._sample.rng : p._stuck_min_val)), "the stuck window tracks the smallest reading");
	vc_assert(r._time_last_valid_us == (considered && !r._is_stuck ? p._sample.time_us : p._time_last_valid_us), "the time of the last valid reading is recorded");
	vc_assert(r._time_bad_quality_us == (!out && p._is_sample_ready && p._sample.quality == 0 ? now : p._time_bad_quality_us), "the time of bad quality is recorded");
	vc_assert(vc_implies(r._dt_data_lpf == r._dt_data_lpf, r._dt_data_lpf <= 4e6f), "the arrival time filter is bounded");
	vc_assert(vc_same(r.getRange(), p._sample.rng) && r._is_sample_ready == p._is_sample_ready, "checking does not alter the reading");
	vc_assert(r.isDataHealthy() == (r._is_sample_ready && r._is_sample_valid), "usable data is new and valid");
}
VC_PROOF(B01_tilt_and_filter)
{
	vc_mode("real"); vc_tol(1e-4, 1e-4);
	SensorRangeFinder r;
	mk(r);
	matrix::Dcmf R;
	for (int i = 0; i < 9; i++) { vc_hint(-1, 1); R(i / 3, i % 3) = vc_f32_i("R", i); }
	const uint64_t now = vc_u64_in("now", 0, 1ull << 50);
	vc_assume(r._sample.time_us <= now);
	const SensorRangeFinder p = r;
	const float age = (float)(now - p._sample.time_us);
	r.runChecks(now, R);
	// cosine of the angle between the sensor beam (body z rotated by the mounting pitch) and the vertical
	vc_assert(vc_eq(r.getCosTilt(), R(2, 0) * p._sin_pitch_offset + R(2, 2) * p._cos_pitch_offset), "the tilt is that of the beam against the vertical");
	vc_assert(vc_eq(r.getDistBottom(), p._sample.rng * r.getCosTilt()), "the distance to the ground is the vertical part of the range");
	const float lp = p._dt_data_lpf * 0.995f + 0.005f * age;
	vc_assert(vc_eq(r._dt_data_lpf, lp < 4e6f ? lp : 4e6f), "the arrival time is low passed with a two second time constant");
}
VC_PROOF(B01_setters)
{
	vc_mode("real"); vc_tol(1e-5, 1e-5);
	SensorRangeFinder r;
	mk(r);
	vc_hint(-3, 3);
	r._pitch_offset_rad = vc_f32("po");
	r._sin_pitch_offset = sinf(r._pitch_offset_rad); r._cos_pitch_offset = cosf(r._pitch_offset_rad);
	vc_hint(-3, 3);
	const float a = vc_f32("a");
	vc_assume(!(fabsf(r._pitch_offset_rad - a) <= 2e-7f) || a == r._pitch_offset_rad);
	r.setPitchOffset(a);
	vc_assert(vc_eq(r._sin_pitch_offset, sinf(a)) && vc_eq(r._cos_pitch_offset, cosf(a)), "the mounting pitch is applied");
	float lo = vc_f32("lo"), hi = vc_f32("hi");
	r.setLimits(lo, hi);
	vc_assert(vc_eq(r.getValidMinVal(), lo) && vc_eq(r.getValidMaxVal(), hi), "limits are stored");
	rangeSample s; s.time_us = vc_u64("n.t"); s.rng = vc_f32("n.r"); s.quality = (int8_t)vc_u8("n.q");
	r.setSample(s);
	vc_assert(r._is_sample_ready && vc_eq(r.getRange(), s.rng) && r._sample.time_us == s.time_us && r._sample.quality == s.quality, "a new sample is stored and marked new");
}
