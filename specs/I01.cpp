// I01: IMU down-sampling loses nothing (ideal reals; flags and time stamps exact)
#include "vc.h"
#include <EKF/imu_down_sampler.cpp>

static float q(const char *n, float lo, float hi) { return vc_f32_in(n, lo, hi); }
static imuSample sample()
{
	imuSample s;
	s.time_us = vc_u64("s.t");
	for (int i = 0; i < 3; i++) { vc_hint(-0.05, 0.05); s.delta_ang(i) = vc_f32_i("s.da", i); vc_hint(-1, 1); s.delta_vel(i) = vc_f32_i("s.dv", i); s.delta_vel_clipping[i] = vc_bool_i("s.clip", i); }
	s.delta_ang_dt = q("s.dta", 0.f, 0.1f); s.delta_vel_dt = q("s.dtv", 0.f, 0.1f);
	return s;
}
struct Pre { Quatf qa; Vector3f dv; float dta, dtv, adj; bool clip[3]; };
static Pre state(ImuDownSampler &d)
{
	Pre p;
	for (int i = 0; i < 4; i++) { vc_hint(i ? -0.2 : 0.9, i ? 0.2 : 1); d._delta_angle_accumulated(i) = vc_f32_i("q", i); }
	for (int i = 0; i < 3; i++) { vc_hint(-1, 1); d._imu_down_sampled.delta_vel(i) = vc_f32_i("dv", i); d._imu_down_sampled.delta_vel_clipping[i] = p.clip[i] = vc_bool_i("clip", i); }
	d._imu_down_sampled.delta_ang_dt = q("dta", 0.f, 0.1f); d._imu_down_sampled.delta_vel_dt = q("dtv", 0.f, 0.1f);
	d._imu_collection_time_adj = q("adj", -0.005f, 0.005f);
	d._do_reset = vc_bool("do_reset");
	p.qa = d._delta_angle_accumulated; p.dv = d._imu_down_sampled.delta_vel;
	p.dta = d._imu_down_sampled.delta_ang_dt; p.dtv = d._imu_down_sampled.delta_vel_dt; p.adj = d._imu_collection_time_adj;
	if (d._do_reset) {   // the interval starts afresh
		p.qa = Quatf(1, 0, 0, 0); p.dv = Vector3f(0, 0, 0); p.dta = 0; p.dtv = 0; p.clip[0] = p.clip[1] = p.clip[2] = false;
	}
	return p;
}
static constexpr float T = 0.01f;

VC_PROOF(I01_update)
{
	vc_mode("real"); vc_tol(1e-5, 1e-4);
	ImuDownSampler d(T);
	const Pre p = state(d);
	const imuSample s = sample();
	const bool fired = d.update(s);
	const imuSample &o = d._imu_down_sampled;
	vc_assert(vc_eq(o.delta_ang_dt, p.dta + s.delta_ang_dt) && vc_eq(o.delta_vel_dt, p.dtv + s.delta_vel_dt), "integration times add up");
	vc_assert(o.time_us == s.time_us, "the result carries the time stamp of its last sample");
	for (int i = 0; i < 3; i++) { vc_assert(o.delta_vel_clipping[i] == (p.clip[i] || s.delta_vel_clipping[i]), "a clipped sample marks the whole interval"); }
	vc_assert(fired == (o.delta_ang_dt >= T - p.adj), "an interval is delivered exactly when the target time is reached");
	// the collected rotation is the composition, up to normalisation
	const Quatf dq(AxisAnglef(s.delta_ang));
	const Quatf c = p.qa * dq;
	const Quatf &n = d._delta_angle_accumulated;
	vc_assert(vc_eq(n(0) * c.norm(), c(0)) && vc_eq(n(1) * c.norm(), c(1)) && vc_eq(n(2) * c.norm(), c(2)) && vc_eq(n(3) * c.norm(), c(3)), "rotations compose");
	// velocity increments are carried into the rotated frame
	const Vector3f e = Dcmf(dq).transpose() * (p.dv + s.delta_vel * 0.5f) + s.delta_vel * 0.5f;
	for (int i = 0; i < 3; i++) { vc_assert(vc_eq(o.delta_vel(i), e(i)), "velocity increments accumulate in the current frame"); }
	const Vector3f aa = AxisAnglef(n);
	for (int i = 0; i < 3; i++) { vc_assert(vc_implies(fired, vc_eq(o.delta_ang(i), aa(i))), "the delivered angle increment is the collected rotation"); }
	vc_assert(vc_le(-0.5f * T, d._imu_collection_time_adj) && vc_le(d._imu_collection_time_adj, 0.5f * T), "the collection time adjustment stays within half the target");
	vc_assert(!d._do_reset, "the interval is open after an update");
}
VC_PROOF(I01_take)
{
	vc_mode("uf");
	ImuDownSampler d(T);
	state(d);
	d._imu_down_sampled.time_us = vc_u64("t");
	for (int i = 0; i < 3; i++) { d._imu_down_sampled.delta_ang(i) = vc_f32_i("da", i); }
	const imuSample o = d.getDownSampledImuAndTriggerReset();
	const imuSample &m = d._imu_down_sampled;
	vc_assert(o.time_us == m.time_us && vc_same(o.delta_ang_dt, m.delta_ang_dt) && vc_same(o.delta_vel_dt, m.delta_vel_dt), "the delivered sample is the collected one");
	for (int i = 0; i < 3; i++) { vc_assert(vc_same(o.delta_ang(i), m.delta_ang(i)) && vc_same(o.delta_vel(i), m.delta_vel(i)) && o.delta_vel_clipping[i] == m.delta_vel_clipping[i], "the delivered sample is the collected one"); }
	vc_assert(d._do_reset, "taking a sample starts a new interval");
}
