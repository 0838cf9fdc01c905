// E08: optical flow fusion and its body rate compensation
#include "fusion.h"

static int full_reset;
static void full(Ekf *) { full_reset++; }
static float R_los;
static float meas_var(Ekf *) { return R_los; }
VC_PROOF(E08_flow)
{
	vc_mode("poly"); vc_tol(1e-3, 1e-3);
	Ekf &e = any_ekf();
	symmetric_P(e);
	full_reset = 0;
	R_los = vc_f32_in("R_los", 1e-3f, 100.f);
	vc_replace("Ekf::initialiseCovariance", full);
	vc_replace("Ekf::calcOptFlowMeasVar", meas_var);
	expect_updates();
	const stateSample s = e._state;
	// camera velocity and range
	float off[3], w[3], rel[3], v[3];
	for (int i = 0; i < 3; i++) {
		off[i] = e._params.flow_pos_body(i) - e._params.imu_pos_body(i);
		w[i] = -e._flow_sample_delayed.gyro_xyz(i) / e._flow_sample_delayed.dt;
	}
	for (int i = 0; i < 3; i++) { const int j = (i + 1) % 3, k = (i + 2) % 3; rel[i] = w[j] * off[k] - w[k] * off[j]; }
	for (int i = 0; i < 3; i++) { v[i] = s.vel(i); for (int j = 0; j < 3; j++) { v[i] += e._R_to_earth(i, j) * rel[j]; } }
	float down = 0.f;
	for (int j = 0; j < 3; j++) { down += e._R_to_earth(2, j) * off[j]; }
	const float hagl = fmaxf(e._terrain_vpos - s.pos(2) - down, fmaxf(e._params.rng_gnd_clearance, 0.1f));
	M q[4], R[3][3];
	for (int i = 0; i < 4; i++) { q[i] = M::var(s.quat_nominal(i), i); }
	rot_matrix(q, R);
	const float range = hagl / R[2][2].v;
	M b[2]; float pred[2];
	for (int i = 0; i < 2; i++) {
		for (int j = 0; j < 3; j++) { b[i] = b[i] + R[j][i] * M::var(s.vel(j), 4 + j); }
		pred[i] = R[0][i].v * v[0] + R[1][i].v * v[1] + R[2][i].v * v[2];
	}
	// flow about X sees the velocity along Y and vice versa, at the (fixed) range
	const M h[2] = {chain(0.f, b[1], 1.f / range), chain(0.f, b[0], -1.f / range)};
	float innov[2];
	for (int i = 0; i < 2; i++) {
		const float rate = e._flow_compensated_XY_rad(i) / e._flow_sample_delayed.dt + e._flow_gyro_bias(i);
		innov[i] = (i ? -pred[0] : pred[1]) / range - rate;
	}
	const float gate = fmaxf(e._params.flow_innov_gate, 1.f);
	const uint64_t t0 = e._time_last_of_fuse;
	const float v1 = e._flow_innov_var(1);
	e.fuseOptFlow();
	vc_assert(vc_eq(e._flow_innov(0), innov[0]) , "innovation is predicted minus measured flow, X");
	vc_assert(vc_eq(e._flow_innov(1), innov[1]) , "innovation is predicted minus measured flow, Y");
	vc_assert(vc_eq(e._flow_innov_var(0), innovation_variance(h[0], R_los)), "innovation variance is H P H' + R, X");
	VC_SCOPE {
		vc_assume(e._flow_innov_var(0) < R_los);
		vc_assert(upds == 0 && full_reset == 1 && e._time_last_of_fuse == t0, "a badly conditioned flow resets the covariance");
	}
	VC_SCOPE {
		vc_assume(!(e._flow_innov_var(0) < R_los));
		vc_assert(vc_eq(e._flow_innov_var(1), innovation_variance(h[1], R_los)), "innovation variance is H P H' + R, Y");
		VC_SCOPE {
			vc_assume(e._flow_innov_var(1) < R_los);
			vc_assert(upds == 0 && full_reset == 1 && e._time_last_of_fuse == t0, "a badly conditioned flow resets the covariance");
		}
		VC_SCOPE {
			vc_assume(!(e._flow_innov_var(1) < R_los));
			const float ix = e._flow_innov(0), iy = e._flow_innov(1);
			const float rx = ix * ix / (gate * gate * e._flow_innov_var(0)), ry = iy * iy / (gate * gate * e._flow_innov_var(1));
			vc_assert(vc_eq(e._optflow_test_ratio, rx > ry ? rx : ry), "test ratio is the worse of the two");
			vc_assert(e._innov_check_fail_status.flags.reject_optflow_X == (rx > 1.f), "rejection about X is reported");
			vc_assert(e._innov_check_fail_status.flags.reject_optflow_Y == (ry > 1.f), "rejection about Y is reported");
			vc_assert(upds == (rx > 1.f || ry > 1.f ? 0 : 2) && full_reset == 0, "both axes are fused, or none");
			VC_SCOPE {
				vc_assume(upds == 2);
				for (int i = 0; i < 2; i++) {
					vc_assert(vc_same(upd[i].innov, e._flow_innov(i)), "the innovation is fused");
					kalman(upd[i], h[i], e._flow_innov_var(i), all_states, i ? "Kalman gain of the Y flow" : "Kalman gain of the X flow");
				}
				vc_assert(e._fault_status.flags.bad_optflow_X == !upd[0].done && e._fault_status.flags.bad_optflow_Y == !upd[1].done, "numerical faults are reported per axis");
				vc_assert(e._time_last_of_fuse == (upd[0].done || upd[1].done ? e._time_last_imu : t0), "success is recorded");
			}
			vc_assert(vc_implies(upds == 0, e._time_last_of_fuse == t0), "a rejected flow is not recorded as fused");
		}
	}
	frame_state(e, s, "state kept");
	frame_P(e, "the covariance changes only in the update");
}

// compensation of the body rotation; the gyro of the flow sensor is preferred
VC_PROOF(E08_body_rate)
{
	vc_mode("real"); vc_tol(1e-4, 1e-3);
	Ekf &e = any_ekf();
	const bool gyro = vc_bool("flow_gyro");
	for (int i = 0; i < 3; i++) { vc_assume(isfinite(e._imu_del_ang_of(i))); }
	const Vector3f d = e._imu_del_ang_of, g = e._flow_sample_delayed.gyro_xyz, bias = e._flow_gyro_bias;
	const float dt = e._delta_time_of, fdt = e._flow_sample_delayed.dt;
	const bool ok = e.calcOptFlowBodyRateComp();
	vc_assert(ok == !(dt > 1.f), "compensated unless the accumulation interval is too long");
	vc_assert(vc_same(e._delta_time_of, 0.f) && vc_same(e._imu_del_ang_of(0), 0.f) && vc_same(e._imu_del_ang_of(1), 0.f) && vc_same(e._imu_del_ang_of(2), 0.f), "accumulation restarts");
	VC_SCOPE {
		vc_assume(!ok);
		for (int i = 0; i < 3; i++) { vc_assert(vc_same(e._flow_sample_delayed.gyro_xyz(i), g(i)) && vc_same(e._flow_gyro_bias(i), bias(i)), "nothing else changes"); }
	}
	VC_SCOPE {
		vc_assume(ok);
		const float m = fabsf(dt - fdt);
		const bool track = dt > 1.1920929e-7f && fdt > 1.1920929e-7f && m < 0.1f;
		for (int i = 0; i < 3; i++) {
			const float err = clampf(g(i) / fdt - d(i) / dt, -0.1f, 0.1f);
			vc_assert(vc_same(e._flow_sample_delayed.gyro_xyz(i), g(i)), "the sensor's own gyro is kept");
			vc_assert(vc_eq(e._flow_gyro_bias(i), track ? 0.99f * bias(i) + 0.01f * err : bias(i)), "its bias follows slowly, spikes limited");
		}
	}
}
VC_PROOF(E08_body_rate_imu)
{
	vc_mode("uf");
	Ekf &e = any_ekf();
	for (int i = 0; i < 3; i++) { e._flow_sample_delayed.gyro_xyz(i) = vc_bool_i("nan", i) ? NAN : e._flow_sample_delayed.gyro_xyz(i); }
	vc_assume(isnan(e._flow_sample_delayed.gyro_xyz(0)) || isnan(e._flow_sample_delayed.gyro_xyz(1)) || isnan(e._flow_sample_delayed.gyro_xyz(2)));
	vc_assume(!(e._delta_time_of > 1.f));
	const Vector3f d = e._imu_del_ang_of;
	const bool ok = e.calcOptFlowBodyRateComp();
	vc_assert(ok, "compensated from the IMU");
	for (int i = 0; i < 3; i++) {
		vc_assert(vc_same(e._flow_sample_delayed.gyro_xyz(i), -d(i)), "without a flow gyro the IMU rotation is used");
		vc_assert(vc_same(e._flow_gyro_bias(i), 0.f), "which has no bias against itself");
	}
}
// noise between best and worst quality
VC_PROOF(E08_noise)
{
	vc_mode("real"); vc_tol(1e-4, 1e-3);
	Ekf &e = any_ekf();
	const float best = fmaxf(e._params.flow_noise, 0.05f), worst = fmaxf(e._params.flow_noise_qual_min, 0.05f);
	const float span = 255.f - (float)e._params.flow_qual_min;
	const float q = (float)e._flow_sample_delayed.quality - (float)e._params.flow_qual_min;
	const float r = e.calcOptFlowMeasVar();
	const float w = span >= 1.f ? clampf(q / span, 0.f, 1.f) : 0.f;
	const float n = best * w + worst * (1.f - w);
	vc_assert(vc_eq(r, n * n), "noise is interpolated over the quality");
	vc_lemma(w >= 0.f && w <= 1.f, "the weight is a fraction");
	vc_lemma(n >= 0.05f, "between best and worst");
	vc_lemma(n * n >= 0.0025f, "its square is above the floor");
	vc_assert(r >= 0.00249f, "never below its floor");
}
