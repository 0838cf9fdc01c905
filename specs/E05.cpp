// E05: airspeed, sideslip and drag fusion
#include "fusion.h"

static int wind_states_reset, wind_cov_reset, full_reset;
static void reset_ws(Ekf *) { wind_states_reset++; }
static void reset_wc(Ekf *) { wind_cov_reset++; }
static void reset_full(Ekf *) { full_reset++; }
static Ekf &setup(bool wind_only)
{
	vc_mode("poly"); vc_tol(1e-3, 1e-3);
	Ekf &e = any_ekf();
	symmetric_P(e);
	e._is_wind_dead_reckoning = !wind_only;
	wind_states_reset = wind_cov_reset = full_reset = 0;
	vc_replace("Ekf::resetWindStates", reset_ws);
	vc_replace("Ekf::resetWindCovariance", reset_wc);
	vc_replace("Ekf::initialiseCovariance", reset_full);
	expect_updates();
	return e;
}
static void bad_conditioning(const Ekf &e, bool wind_only, const stateSample &s)
{
	vc_assert(upds == 0, "a badly conditioned measurement is not fused");
	vc_assert(wind_states_reset == (wind_only ? 1 : 0) && wind_cov_reset == (wind_only ? 1 : 0) && full_reset == (wind_only ? 0 : 1), "and the covariance is reset");
	for (int i = 0; i < 24; i++) { vc_assert(vc_same(state_at(e._state, i), !wind_only && i >= 22 ? 0.f : state_at(s, i)), "with no other state changed"); }
}

static void relative_wind(const Ekf &e, M v[3])
{
	for (int i = 0; i < 3; i++) { v[i] = M::var(e._state.vel(i), 4 + i); }
	for (int i = 0; i < 2; i++) { v[i] = v[i] - M::var(e._state.wind_vel(i), 22 + i); }
}
static void body_wind(const Ekf &e, M b[3])
{
	M v[3], q[4], R[3][3];
	relative_wind(e, v);
	for (int i = 0; i < 4; i++) { q[i] = M::var(e._state.quat_nominal(i), i); }
	rot_matrix(q, R);
	for (int i = 0; i < 3; i++) { b[i] = R[0][i] * v[0] + R[1][i] * v[1] + R[2][i] * v[2]; }
}

static void airspeed(bool wind_only)
{
	Ekf &e = setup(wind_only);
	const stateSample s = e._state;
	const float eas = clampf(e._params.eas_noise, 0.5f, 5.f) * clampf(e._airspeed_sample_delayed.eas2tas, 0.9f, 10.f);
	const float R = eas * eas;
	M v[3];
	relative_wind(e, v);
	const M h = dsqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]);
	const uint64_t t0 = e._time_last_arsp_fuse;
	const bool was = e._control_status.flags.fuse_aspd;
	const auto rej = e._innov_check_fail_status.value; const auto f0 = e._fault_status.value;
	const float var0 = e._airspeed_innov_var, in0 = e._airspeed_innov;
	e.fuseAirspeed();
	VC_SCOPE {
		vc_assume(h.v < 1.f);
		vc_assert(upds == 0 && wind_cov_reset == 0 && full_reset == 0, "no airspeed fusion at very low predicted airspeed");
		vc_assert(vc_same(e._airspeed_innov_var, var0) && vc_same(e._airspeed_innov, in0) && e._innov_check_fail_status.value == rej
			  && e._fault_status.value == f0 && e._time_last_arsp_fuse == t0 && e._control_status.flags.fuse_aspd == was, "no airspeed fusion at very low predicted airspeed");
		frame_state(e, s, "state kept");
	}
	VC_SCOPE {
		vc_assume(h.v >= 1.f);
		vc_assert(vc_eq(e._airspeed_innov_var, innovation_variance(h, R)), "innovation variance is H P H' + R");
		const bool reset = wind_cov_reset + full_reset > 0;
		VC_SCOPE {
			vc_assume(reset);
			bad_conditioning(e, wind_only, s);
			vc_assert(e._fault_status.flags.bad_airspeed, "the numerical fault is reported");
		}
		VC_SCOPE {
			vc_assume(!reset);
			frame_state(e, s, "state kept");
			const float innov = h.v - e._airspeed_sample_delayed.true_airspeed;
			vc_assert(vc_eq(e._airspeed_innov, innov), "innovation is predicted minus measured airspeed");
			const float gate = fmaxf(e._params.tas_innov_gate, 1.f);
			vc_assert(vc_eq(e._tas_test_ratio, innov * innov / (gate * gate * e._airspeed_innov_var)), "test ratio");
			vc_assert((upds == 1) == !(e._tas_test_ratio > 1.f) && upds <= 1, "fused exactly when inside the gate");
			vc_assert(e._innov_check_fail_status.flags.reject_airspeed == (upds == 0), "rejection is reported");
			const bool done = upds == 1 && upd[0].done;
			vc_assert(e._time_last_arsp_fuse == (done ? e._time_last_imu : t0) && e._control_status.flags.fuse_aspd == (was || done), "success is recorded");
			vc_assert(e._fault_status.flags.bad_airspeed == (upds == 1 && !upd[0].done), "numerical faults are reported");
		}
		VC_SCOPE {
			vc_assume(upds == 1);
			vc_assert(vc_same(upd[0].innov, e._airspeed_innov), "the innovation is fused");
			kalman(upd[0], h, e._airspeed_innov_var, wind_only ? wind_states : all_states, "Kalman gain of the airspeed");
		}
	}
	frame_P(e, "the covariance changes only in the update");
}
VC_PROOF(E05_airspeed_wind) { airspeed(true); }
VC_PROOF(E05_airspeed_full) { airspeed(false); }

static void sideslip(bool wind_only)
{
	Ekf &e = setup(wind_only);
	const stateSample s = e._state;
	const float R = e._params.beta_noise * e._params.beta_noise;
	M b[3];
	body_wind(e, b);
	const M h = b[1] / b[0];
	const uint64_t t0 = e._time_last_beta_fuse;
	const auto rej = e._innov_check_fail_status.value; const auto f0 = e._fault_status.value;
	const float var0 = e._beta_innov_var, in0 = e._beta_innov;
	const float speed = sqrtf(b[0].v * b[0].v + b[1].v * b[1].v + b[2].v * b[2].v);
	e.fuseSideslip();
	VC_SCOPE {
		vc_assume(!(speed > 7.f));
		vc_assert(upds == 0 && wind_cov_reset == 0 && full_reset == 0, "no sideslip fusion below 7 m/s airspeed");
		vc_assert(vc_same(e._beta_innov_var, var0) && vc_same(e._beta_innov, in0) && e._innov_check_fail_status.value == rej
			  && e._fault_status.value == f0 && e._time_last_beta_fuse == t0, "no sideslip fusion below 7 m/s airspeed");
		frame_state(e, s, "state kept");
	}
	VC_SCOPE {
		vc_assume(speed > 7.f);
		vc_assert(vc_eq(e._beta_innov_var, innovation_variance(h, R)), "innovation variance is H P H' + R");
		const bool reset = wind_cov_reset + full_reset > 0;
		VC_SCOPE {
			vc_assume(reset);
			bad_conditioning(e, wind_only, s);
			vc_assert(e._fault_status.flags.bad_sideslip, "the numerical fault is reported");
		}
		VC_SCOPE {
			vc_assume(!reset);
			frame_state(e, s, "state kept");
			vc_assert(vc_eq(e._beta_innov, h.v), "innovation is the predicted sideslip");
			const float gate = fmaxf(e._params.beta_innov_gate, 1.f);
			vc_assert(vc_eq(e._beta_test_ratio, h.v * h.v / (gate * gate * e._beta_innov_var)), "test ratio");
			vc_assert((upds == 1) == !(e._beta_test_ratio > 1.f) && upds <= 1, "fused exactly when inside the gate");
			vc_assert(e._innov_check_fail_status.flags.reject_sideslip == (upds == 0), "rejection is reported");
			const bool done = upds == 1 && upd[0].done;
			vc_assert(e._time_last_beta_fuse == (done ? e._time_last_imu : t0), "success is recorded");
			vc_assert(e._fault_status.flags.bad_sideslip == (upds == 1 && !upd[0].done), "numerical faults are reported");
		}
		VC_SCOPE {
			vc_assume(upds == 1);
			vc_assert(vc_same(upd[0].innov, e._beta_innov), "the innovation is fused");
			kalman(upd[0], h, e._beta_innov_var, wind_only ? wind_states : all_states, "Kalman gain of the sideslip");
		}
	}
	frame_P(e, "the covariance changes only in the update");
}
VC_PROOF(E05_sideslip_wind) { sideslip(true); }
VC_PROOF(E05_sideslip_full) { sideslip(false); }

// multi-rotor drag along the body axes
VC_PROOF(E05_drag)
{
	Ekf &e = setup(true);
	const stateSample s = e._state;
	vc_assume(e._params.bcoef_x >= 1.f && e._params.bcoef_y >= 1.f);
	const float R = fmaxf(e._params.drag_noise, 0.5f);
	const float rho = fmaxf(e._air_density, 0.1f);
	M b[3];
	body_wind(e, b);
	float var[2], innov[2]; M h[2];
	for (int i = 0; i < 2; i++) {
		const float bc = 1.f / (i ? e._params.bcoef_y : e._params.bcoef_x);
		const float acc = e._drag_sample_delayed.accelXY(i) - e._state.delta_vel_bias(i) / e._dt_ekf_avg;
		const float speed = sqrtf((2.f * fabsf(acc)) / (bc * rho));
		const float k = fmaxf(0.1f, rho * bc * speed);     // slope of the specific force with airspeed
		h[i] = chain(0.f, b[i], -k);
		var[i] = innovation_variance(h[i], R);
		// drag opposes the motion and grows with its square
		innov[i] = (b[i].v >= 0.f ? -1.f : 1.f) * 0.5f * bc * rho * b[i].v * b[i].v - acc;
	}
	e.fuseDrag();
	vc_assert(vc_eq(e._drag_innov_var(0), var[0]), "innovation variance is H P H' + R");
	VC_SCOPE {
		vc_assume(!(e._drag_innov_var(0) < R));
		vc_assert(vc_eq(e._drag_innov(0), innov[0]), "innovation is predicted minus measured specific force");
		vc_assert(vc_eq(e._drag_test_ratio(0), innov[0] * innov[0] / (25.f * e._drag_innov_var(0))), "test ratio");
		vc_assert(vc_eq(e._drag_innov_var(1), var[1]), "innovation variance is H P H' + R");
		VC_SCOPE {
			vc_assume(!(e._drag_innov_var(1) < R));
			vc_assert(vc_eq(e._drag_innov(1), innov[1]), "innovation is predicted minus measured specific force");
			vc_assert(vc_eq(e._drag_test_ratio(1), innov[1] * innov[1] / (25.f * e._drag_innov_var(1))), "test ratio");
			vc_assert(upds == (e._drag_test_ratio(0) <= 1.f ? 1 : 0) + (e._drag_test_ratio(1) <= 1.f ? 1 : 0), "each axis is fused exactly when inside its gate");
		}
	}
	vc_assert(vc_implies(e._drag_innov_var(0) < R, upds == 0), "a badly conditioned axis is not fused");
	vc_assert(upds <= 2, "at most one update per axis");
	VC_SCOPE {
		vc_assume(upds == 2);
		for (int i = 0; i < 2; i++) {
			vc_assert(e._drag_test_ratio(i) <= 1.f, "fused only inside the gate");
			vc_assert(vc_same(upd[i].innov, e._drag_innov(i)), "the innovation is fused");
			kalman(upd[i], h[i], e._drag_innov_var(i), wind_states, "Kalman gain of the drag, wind states only");
		}
	}
	VC_SCOPE {
		vc_assume(upds == 1);
		vc_assert(e._drag_test_ratio(0) <= 1.f || e._drag_test_ratio(1) <= 1.f, "fused only inside the gate");
	}
	frame_state(e, s, "state kept");
	frame_P(e, "the covariance changes only in the update");
}
VC_PROOF(E05_drag_off)
{
	Ekf &e = setup(true);
	const stateSample s = e._state;
	vc_assume(e._params.bcoef_x < 1.f || e._params.bcoef_y < 1.f);
	e.fuseDrag();
	vc_assert(upds == 0, "no drag fusion without valid ballistic coefficients");
	frame_state(e, s, "state kept");
	frame_P(e, "the covariance changes only in the update");
}
