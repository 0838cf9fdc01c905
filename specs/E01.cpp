// E01: strapdown state prediction at the delayed horizon
#include "ekf_all.h"

static float clampf(float x, float lo, float hi) { return x < lo ? lo : (x > hi ? hi : x); }
static constexpr float PERIOD = 10 * 0.001f;   // nominal filter update period
static constexpr float G0 = 9.80665f;

VC_PROOF(E01_predict)
{
	vc_mode("real"); vc_tol(1e-3, 1e-3);
	Ekf &e = any_ekf();
	const stateSample s = e._state;
	const imuSample imu = e._imu_sample_delayed;
	const Dcmf R0 = e._R_to_earth;
	const Vector3f earth_rate = e._earth_rate_NED;
	const Vector2f lpf = e._accel_lpf_NE;
	const float avg = e._dt_ekf_avg;
	const Vector3f raw = e._ang_rate_delayed_raw;
	const float bias_lim = e._params.acc_bias_lim;
	vc_assume(imu.delta_vel_dt >= 0.f && imu.delta_ang_dt >= 0.f && avg > 0.f && bias_lim >= 0.f);
	// orientation after the step: old orientation times the bias- and earth-rate-corrected rotation
	const Vector3f da = imu.delta_ang - s.delta_ang_bias - R0.transpose() * earth_rate * imu.delta_ang_dt;
	const Quatf q1 = s.quat_nominal * Quatf(AxisAnglef(da));
	const Quatf q = q1.normalized();
	const Vector3f dv = Dcmf(q) * (imu.delta_vel - s.delta_vel_bias);
	e.predictState();
	const stateSample &n = e._state;
	for (int i = 0; i < 4; i++) { vc_assert(vc_eq(n.quat_nominal(i), clampf(q(i), -1.f, 1.f)), "orientation is rotated by the corrected angle increment"); }
	for (int i = 0; i < 3; i++) {
		const float v = s.vel(i) + dv(i) + (i == 2 ? G0 * imu.delta_vel_dt : 0.f);
		vc_assert(vc_eq(n.vel(i), clampf(v, -1000.f, 1000.f)), "velocity integrates specific force plus gravity");
		vc_assert(vc_eq(n.pos(i), clampf(s.pos(i) + 0.5f * (s.vel(i) + v) * imu.delta_vel_dt, -1e6f, 1e6f)), "position integrates velocity by the trapezoid rule");
	}
	const Dcmf Rn(q);
	for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { vc_assert(vc_eq(e._R_to_earth(i, j), Rn(i, j)), "the rotation matrix is that of the predicted orientation"); } }
	const float dab = 20.f * (float)M_PI / 180.f * avg, dvb = bias_lim * avg;
	for (int i = 0; i < 3; i++) {
		vc_assert(vc_eq(n.delta_ang_bias(i), clampf(s.delta_ang_bias(i), -dab, dab)), "biases are only limited");
		vc_assert(vc_eq(n.delta_vel_bias(i), clampf(s.delta_vel_bias(i), -dvb, dvb)), "biases are only limited");
		vc_assert(vc_eq(n.mag_I(i), clampf(s.mag_I(i), -1.f, 1.f)) && vc_eq(n.mag_B(i), clampf(s.mag_B(i), -0.5f, 0.5f)), "field states are only limited");
	}
	for (int i = 0; i < 2; i++) { vc_assert(vc_eq(n.wind_vel(i), clampf(s.wind_vel(i), -100.f, 100.f)), "wind states are only limited"); }
	const float in = clampf(0.5f * (imu.delta_vel_dt + imu.delta_ang_dt), 0.5f * PERIOD, 2.f * PERIOD);
	vc_assert(vc_eq(e._dt_ekf_avg, 0.99f * avg + 0.01f * in), "average update interval");
	for (int i = 0; i < 2; i++) { vc_assert(vc_eq(e._accel_lpf_NE(i), lpf(i) * (1.f - imu.delta_vel_dt) + dv(i)), "filtered horizontal acceleration"); }
	for (int i = 0; i < 3; i++) {
		vc_assert(vc_eq(e._ang_rate_delayed_raw(i) * (imu.delta_ang_dt > 0.25f * PERIOD ? imu.delta_ang_dt : 1.f), imu.delta_ang_dt > 0.25f * PERIOD ? imu.delta_ang(i) : raw(i)), "raw angular rate");
	}
}
// the prediction touches nothing else
VC_PROOF(E01_frame)
{
	vc_mode("uf");
	Ekf &e = any_ekf();
	static float P0[24][24];
	for (int i = 0; i < 24; i++) { for (int j = 0; j < 24; j++) { P0[i][j] = e.P(i, j); } }
	const uint32_t cs = e._control_status.value;
	const auto fs = e._fault_status.value;
	const uint64_t t = e._imu_sample_delayed.time_us;
	e.predictState();
	for (int i = 0; i < 24; i++) { for (int j = 0; j < 24; j++) { vc_assert(vc_same(P0[i][j], e.P(i, j)), "covariance untouched"); } }
	vc_assert(e._control_status.value == cs && e._fault_status.value == fs && e._imu_sample_delayed.time_us == t, "modes untouched");
}
