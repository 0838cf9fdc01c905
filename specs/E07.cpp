// E07: heading fusion (3-2-1 and 3-1-2 yaw, GPS yaw) and the choice of the heading measurement
#include "fusion.h"

// ---- the Jacobian and innovation of the two yaw conventions
static int uqs; static float uq_innov, uq_var, uq_gate, uq_H[4];
static void record_uq(Ekf *, float innovation, float variance, float gate, const matrix::Vector<float, 4> &H)
{
	uqs++; uq_innov = innovation; uq_var = variance; uq_gate = gate;
	for (int i = 0; i < 4; i++) { uq_H[i] = H(i); }
}
static void yaw(bool seq321)
{
	vc_mode("real"); vc_tol(1e-4, 1e-3);
	Ekf &e = any_ekf();
	const stateSample s = e._state;
	vc_replace("Ekf::updateQuaternion", record_uq);
	uqs = 0;
	M q[4], R[3][3];
	for (int i = 0; i < 4; i++) { q[i] = M::var(s.quat_nominal(i), i); }
	rot_matrix(q, R);
	const M y = seq321 ? R[1][0] : -R[0][1], x = seq321 ? R[0][0] : R[1][1];
	const float meas = vc_f32("yaw"), var = vc_f32("variance");
	const bool zero = vc_bool("zero_innovation");
	if (seq321) { e.fuseYaw321(meas, var, zero); } else { e.fuseYaw312(meas, var, zero); }
	vc_assert((uqs == 1) == (x.v * x.v > 1e-6f || y.v * y.v > 1e-6f), "fused whenever the heading is defined");
	vc_assert(uqs <= 1, "fused at most once");
	VC_SCOPE {
		vc_assume(uqs == 1);
		VC_SCOPE {
			vc_mode("poly");
			const M h = datan2(y, x);
			for (int i = 0; i < 4; i++) { vc_assert(vc_eq(uq_H[i], h.d[i]), idx_label("yaw Jacobian", i, 0)); }
		}
		vc_assert(vc_same(uq_var, fmaxf(var, 1e-4f)), "variance has a floor");
		vc_assert(vc_same(uq_gate, fmaxf(e._params.heading_innov_gate, 1.f)), "gate is at least one sigma");
		const float pred = seq321 ? atan2f(e._R_to_earth(1, 0), e._R_to_earth(0, 0)) : atan2f(-e._R_to_earth(0, 1), e._R_to_earth(1, 1));
		vc_assert(vc_same(uq_innov, zero ? 0.f : matrix::wrap_pi(pred - matrix::wrap_pi(meas))), "innovation is the wrapped heading error");
	}
	frame_state(e, s, "state kept");
}
VC_PROOF(E07_yaw321) { yaw(true); }
VC_PROOF(E07_yaw312) { yaw(false); }

// ---- the update itself
static float KHP[24][24];
static int checks, fixes, fuses, full_reset; static bool healthy; static float fused_K[24], fused_innov;
static bool check(Ekf *, const matrix::SquareMatrix<float, 24> &m)
{
	checks++;
	for (int i = 0; i < 24; i++) { for (int j = 0; j < 24; j++) { KHP[i][j] = m(i, j); } }
	return healthy = vc_bool("healthy");
}
static void fix(Ekf *, bool) { fixes++; }
static void full(Ekf *) { full_reset++; }
static void record_fuse(Ekf *, const Ekf::Vector24f &K, float innov)
{
	fuses++;
	for (int i = 0; i < 24; i++) { fused_K[i] = K(i); }
	fused_innov = innov;
}
VC_PROOF(E07_update)
{
	vc_mode("poly"); vc_tol(1e-3, 1e-3);
	Ekf &e = any_ekf();
	symmetric_P(e);
	checks = fixes = fuses = full_reset = 0;
	vc_replace("Ekf::checkAndFixCovarianceUpdate", check);
	vc_replace("Ekf::fixCovarianceErrors", fix);
	vc_replace("Ekf::fuse", record_fuse);
	vc_replace("Ekf::initialiseCovariance", full);
	const stateSample s = e._state;
	const float innov = vc_f32("innovation"), R = vc_f32("variance"), gate = vc_f32("gate");
	matrix::Vector<float, 4> H; M h(0.f);
	for (int i = 0; i < 4; i++) { H(i) = vc_f32_i("H", i); h.d[i] = H(i); h.nz[i] = true; }
	const bool wind = e._control_status.flags.wind;
	const bool ground = !e._control_status.flags.in_air && e._time_last_in_air + 5000000u < e._time_last_imu;
	const float held = e._heading_innov;
	e.updateQuaternion(innov, R, gate, H);
	const float var = e._heading_innov_var;
	vc_assert(vc_eq(var, innovation_variance(h, R)), "innovation variance is H P H' + R");
	VC_SCOPE {
		vc_assume(!(var >= R));
		vc_assert(checks == 0 && fuses == 0 && full_reset == 1 && e._fault_status.flags.bad_hdg, "a badly conditioned variance resets the covariance");
		frame_P(e, "and nothing is fused");
	}
	VC_SCOPE {
		vc_assume(var >= R);
		const float ratio = e._yaw_test_ratio;
		vc_assert(vc_eq(ratio, innov * innov / (gate * gate * var)), "test ratio");
		vc_assert(vc_same(e._mag_test_ratio(0), 0.f) && vc_same(e._mag_test_ratio(1), 0.f) && vc_same(e._mag_test_ratio(2), 0.f), "three-axis test levels read zero");
		vc_assert(e._innov_check_fail_status.flags.reject_yaw == (ratio > 1.f), "rejection is reported");
		vc_assert(full_reset == 0 && checks == (ratio > 1.f && !ground ? 0 : 1), "fused when inside the gate, or on the ground for five seconds");
		vc_assert(fuses == (checks == 1 && healthy ? 1 : 0) && fixes == fuses, "applied when the covariance stays healthy");
		vc_assert(e._fault_status.flags.bad_hdg == (checks == 1 && !healthy), "numerical faults are reported");
		VC_SCOPE {
			vc_assume(checks == 0);
			vc_assert(vc_same(e._heading_innov, held), "a rejected heading leaves nothing behind");
			frame_P(e, "a rejected heading leaves nothing behind");
		}
		VC_SCOPE {
			vc_assume(checks == 1);
			const float lim = sqrtf(gate * gate * var);
			vc_assert(vc_eq(e._heading_innov, ratio > 1.f ? clampf(innov, -lim, lim) : innov), "an innovation outside the gate is clamped to it");
			for (int i = 0; i < 24; i++) {
				const bool active = i < 16 || (i >= 22 && wind);
				const float K = active ? gain_numerator(h, i) / var : 0.f;
				for (int j = 0; j < 24; j++) { vc_assert(vc_eq(KHP[i][j], K * gain_numerator(h, j)), idx_label("covariance correction K H P", i, j)); }
			}
		}
		VC_SCOPE {
			vc_assume(fuses == 1);
			vc_assert(vc_same(fused_innov, e._heading_innov), "the innovation is fused");
			for (int i = 0; i < 24; i++) {
				const bool active = i < 16 || (i >= 22 && wind);
				vc_assert(vc_eq(fused_K[i], active ? gain_numerator(h, i) / var : 0.f), idx_label("Kalman gain of the heading", i, 0));
				for (int j = 0; j < 24; j++) { vc_assert(vc_same(e.P(i, j), P0[i][j] - KHP[i][j]), idx_label("covariance corrected", i, j)); }
			}
		}
	}
	frame_state(e, s, "the state changes only in the correction");
}

// ---- which heading is fused, with which variance
static int yaws[2]; static float y_meas, y_var; static bool y_zero;
static void y321(Ekf *, float m, float v, bool z) { yaws[0]++; y_meas = m; y_var = v; y_zero = z; }
static void y312(Ekf *, float m, float v, bool z) { yaws[1]++; y_meas = m; y_var = v; y_zero = z; }
static float decl;
static float mag_decl(Ekf *) { return decl; }
VC_PROOF(E07_heading)
{
	vc_mode("poly"); vc_tol(1e-4, 1e-3);
	Ekf &e = any_ekf();
	yaws[0] = yaws[1] = 0;
	decl = vc_f32("declination");
	vc_replace("Ekf::fuseYaw321", y321);
	vc_replace("Ekf::fuseYaw312", y312);
	vc_replace("Ekf::getMagDeclination", mag_decl);
	const stateSample s = e._state;
	const float last = e._last_static_yaw;
	const float qvar = e.P(0, 0) + e.P(1, 1) + e.P(2, 2) + e.P(3, 3);
	const Dcmf R(e._state.quat_nominal);
	vc_assume(!vc_eq(fabsf(R(2, 0)), fabsf(R(2, 1))) && !vc_eq(qvar, e._params.quat_max_variance));
	e.fuseHeading();
	for (int i = 0; i < 9; i++) { vc_assert(vc_eq(e._R_to_earth(i / 3, i % 3), R(i / 3, i % 3)), "the rotation matrix is that of the current attitude"); }
	const bool use321 = fabsf(R(2, 0)) < fabsf(R(2, 1));
	vc_assert(yaws[0] == (use321 ? 1 : 0) && yaws[1] == (use321 ? 0 : 1), "the sequence away from gimbal lock is used");
	const float pred = use321 ? atan2f(R(1, 0), R(0, 0)) : atan2f(-R(0, 1), R(1, 1));
	const bool mag = e._control_status.flags.mag_hdg, ev = e._control_status.flags.ev_yaw;
	const bool rest = e._control_status.flags.vehicle_at_rest, inhibited = e._is_yaw_fusion_inhibited;
	const bool zero = inhibited && !rest && qvar > e._params.quat_max_variance;
	vc_assert(y_zero == zero, "a zero innovation is fused only to stop yaw variance growth");
	vc_assert(vc_eq(y_var, zero ? 0.25f : mag ? e._params.mag_heading_noise * e._params.mag_heading_noise : ev ? e._ev_sample_delayed.angVar : 0.01f), "variance of the heading source");
	VC_SCOPE {
		vc_assume(inhibited && rest);
		vc_assert(vc_same(y_meas, last) && vc_same(e._last_static_yaw, last), "at rest without a trusted heading the last moving heading is held");
	}
	VC_SCOPE {
		vc_assume(!(inhibited && rest));
		vc_assert(vc_eq(e._last_static_yaw, pred), "the heading is remembered while moving");
		VC_SCOPE {
			vc_assume(mag);
			const Vector3f m = e._mag_sample_delayed.mag - e._state.mag_B;
			const Vector3f a = updateEuler321YawInRotMat(0.f, R) * m, b = updateEuler312YawInRotMat(0.f, R) * m;
			VC_SCOPE {
				vc_assume(use321);
				vc_assert(vc_eq(y_meas, -atan2f(a(1), a(0)) + decl), "magnetic heading: direction of the levelled field plus declination");
			}
			VC_SCOPE {
				vc_assume(!use321);
				vc_assert(vc_eq(y_meas, -atan2f(b(1), b(0)) + decl), "magnetic heading: direction of the levelled field plus declination");
			}
		}
		VC_SCOPE {
			vc_assume(!mag && ev);
			const Quatf &q = e._ev_sample_delayed.quat;
			vc_assert(vc_eq(y_meas, use321 ? getEuler321Yaw(q) : getEuler312Yaw(q)), "external vision heading in the same sequence");
		}
		VC_SCOPE {
			vc_assume(!mag && !ev);
			vc_assert(vc_eq(y_meas, pred), "without a source, the predicted heading");
		}
	}
	frame_state(e, s, "state kept");
}

// ---- dual antenna GPS
VC_PROOF(E07_gps_yaw)
{
	vc_mode("poly"); vc_tol(1e-3, 1e-3);
	Ekf &e = any_ekf();
	symmetric_P(e);
	full_reset = 0;
	vc_replace("Ekf::initialiseCovariance", full);
	expect_updates();
	const stateSample s = e._state;
	const float noise = fmaxf(e._params.mag_heading_noise, 0.01f), R = noise * noise;
	const float c = cosf(e._gps_yaw_offset), sn = sinf(e._gps_yaw_offset);
	M q[4], T[3][3];
	for (int i = 0; i < 4; i++) { q[i] = M::var(s.quat_nominal(i), i); }
	rot_matrix(q, T);
	const M x = T[0][0] * c + T[0][1] * sn, y = T[1][0] * c + T[1][1] * sn;
	float ant[3];
	for (int i = 0; i < 3; i++) { ant[i] = e._R_to_earth(i, 0) * c + e._R_to_earth(i, 1) * sn; }
	const M h = datan2(y, x);
	const uint64_t t0 = e._time_last_gps_yaw_fuse;
	const float held_var = e._heading_innov_var;
	const bool steep = fabsf(ant[2]) > 0.8660254f, side = fabsf(x.v) < 1e-3f;
	const auto rej = e._innov_check_fail_status.value; const auto fault = e._fault_status.value;
	e.fuseGpsYaw();
	VC_SCOPE {
		vc_assume(fabsf(ant[2]) > 0.86603f || side);
		vc_assert(upds == 0 && full_reset == 0 && vc_same(e._heading_innov_var, held_var) && e._innov_check_fail_status.value == rej
			  && e._fault_status.value == fault && e._time_last_gps_yaw_fuse == t0, "no fusion with the antennas near vertical");
	}
	VC_SCOPE {
		vc_assume(fabsf(ant[2]) < 0.86602f && !side);
		const float var = e._heading_innov_var;
		vc_assert(vc_eq(var, innovation_variance(h, R)), "innovation variance is H P H' + R");
		VC_SCOPE {
			vc_assume(var < R);
			vc_assert(upds == 0 && full_reset == 1 && e._fault_status.flags.bad_hdg, "a badly conditioned variance resets the covariance");
		}
		VC_SCOPE {
			vc_assume(!(var < R));
			const float gate = fmaxf(e._params.heading_innov_gate, 1.f);
			const float innov = matrix::wrap_pi(atan2f(ant[1], ant[0]) - matrix::wrap_pi(e._gps_sample_delayed.yaw + e._gps_yaw_offset));
			const float ratio = e._yaw_test_ratio;
			vc_assert(vc_eq(ratio, innov * innov / (gate * gate * var)), "test ratio of the wrapped heading error");
			vc_assert(e._innov_check_fail_status.flags.reject_yaw == (ratio > 1.f), "rejection is reported");
			vc_assert((upds == 1) == (!(ratio > 1.f) || !e._control_status.flags.in_air) && upds <= 1, "fused inside the gate or on the ground");
			vc_assert(vc_same(e._mag_test_ratio(0), 0.f) && vc_same(e._mag_test_ratio(1), 0.f) && vc_same(e._mag_test_ratio(2), 0.f), "three-axis test levels read zero");
			vc_assert(e._time_last_gps_yaw_fuse == (upds == 1 && upd[0].done ? e._time_last_imu : t0), "success is recorded");
			vc_assert(e._fault_status.flags.bad_hdg == (upds == 1 && !upd[0].done), "numerical faults are reported");
			VC_SCOPE {
				vc_assume(upds == 1);
				const float lim = sqrtf(gate * gate * var);
				vc_assert(vc_eq(upd[0].innov, ratio > 1.f ? clampf(innov, -lim, lim) : innov), "the innovation is fused, clamped to the gate on the ground");
				vc_assert(vc_same(upd[0].innov, e._heading_innov), "and reported");
				kalman(upd[0], h, var, all_states, "Kalman gain of the GPS yaw");
			}
		}
	}
	frame_state(e, s, "state kept");
	frame_P(e, "the covariance changes only in the update");
}
static int yaw_resets; static float yr_yaw, yr_var; static bool yr_buf;
static void yaw_reset(Ekf *, float y, float v, bool b) { yaw_resets++; yr_yaw = y; yr_var = v; yr_buf = b; }
VC_PROOF(E07_gps_yaw_reset)
{
	vc_mode("real"); vc_tol(1e-4, 1e-3);
	Ekf &e = any_ekf();
	yaw_resets = 0;
	vc_replace("Ekf::resetQuatStateYaw", yaw_reset);
	const float c = cosf(e._gps_yaw_offset), sn = sinf(e._gps_yaw_offset);
	const float up = e._R_to_earth(2, 0) * c + e._R_to_earth(2, 1) * sn;
	const uint64_t t0 = e._time_last_gps_yaw_fuse;
	const float noise = fmaxf(e._params.mag_heading_noise, 0.01f);
	const bool ok = e.resetYawToGps();
	vc_assert(vc_implies(fabsf(up) > 0.86603f, !ok), "no reset with the antennas near vertical");
	vc_assert(vc_implies(fabsf(up) < 0.86602f, ok), "a reset otherwise");
	vc_assert(yaw_resets == (ok ? 1 : 0) && e._time_last_gps_yaw_fuse == (ok ? e._time_last_imu : t0), "success is recorded");
	vc_assert(vc_implies(ok, vc_same(yr_yaw, e._gps_sample_delayed.yaw) && vc_eq(yr_var, noise * noise) && yr_buf), "to the measured yaw");
}
