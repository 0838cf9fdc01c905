// E06: three-axis magnetometer fusion, declination fusion and declination limiting
#include "fusion.h"

static int mag_resets, limits;
static void reset_mag(Ekf *) { mag_resets++; }
static void limit_decl(Ekf *e) { limits++; vc_havoc(&e->_state.mag_I, sizeof(float) * 2, "mag_I_limited"); }

// the measurement: the earth field turned into the body frame, plus the body field, along one axis
static M field(const stateSample &s, int axis)
{
	M q[4], R[3][3];
	for (int i = 0; i < 4; i++) { q[i] = M::var(s.quat_nominal(i), i); }
	rot_matrix(q, R);
	M h = M::var(s.mag_B(axis), 19 + axis);
	for (int i = 0; i < 3; i++) { h = h + R[i][axis] * M::var(s.mag_I(i), 16 + i); }
	return h;
}

static void mag3d(bool all, bool synthetic_z)
{
	vc_mode("poly"); vc_tol(1e-3, 1e-3);
	Ekf &e = any_ekf();
	symmetric_P(e);
	mag_resets = limits = 0;
	vc_replace("Ekf::resetMagRelatedCovariances", reset_mag);
	vc_replace("Ekf::limitDeclination", limit_decl);
	expect_updates(true);
	e._control_status.flags.synthetic_mag_z = synthetic_z;
	vc_assume((e._imu_sample_delayed.time_us - e._flt_mag_align_start_time > 5000000u) == all);
	const stateSample s = e._state;
	const float R = fmaxf(e._params.mag_noise, 0.f) * fmaxf(e._params.mag_noise, 0.f);
	M h[3]; float var[3], innov[3], ratio[3];
	const float gate = fmaxf(e._params.mag_innov_gate, 1.f);
	bool inside = true;
	for (int i = 0; i < 3; i++) {
		h[i] = field(s, i);
		var[i] = innovation_variance(h[i], R);
		innov[i] = i == 2 && synthetic_z ? 0.f : h[i].v - e._mag_sample_delayed.mag(i);
	}
	e.fuseMag();
	const bool x_bad = e._mag_innov_var(0) < R;
	vc_assert(vc_eq(e._mag_innov_var(0), var[0]), "innovation variance is H P H' + R, X");
	VC_SCOPE {
		vc_assume(x_bad);
		vc_assert(upds == 0 && mag_resets == 1, "a badly conditioned measurement is not fused and the covariance is reset");
		vc_assert(e._fault_status.flags.bad_mag_x, "a badly conditioned X axis is reported");
		frame_state(e, s, "state kept");
	}
	VC_SCOPE {
		vc_assume(!x_bad && upds == 0);
		vc_assert(vc_eq(e._mag_innov_var(1), var[1]), "innovation variance is H P H' + R, Y");
		vc_assert(vc_eq(e._mag_innov_var(2), var[2]), "innovation variance is H P H' + R, Z");
		vc_assert(mag_resets == (e._mag_innov_var(1) < R || e._mag_innov_var(2) < R ? 1 : 0), "the covariance is reset when badly conditioned");
		vc_assert(vc_implies(e._mag_innov_var(1) < R, e._fault_status.flags.bad_mag_y), "a badly conditioned Y axis is reported");
		vc_assert(vc_implies(!(e._mag_innov_var(1) < R) && e._mag_innov_var(2) < R, e._fault_status.flags.bad_mag_z), "a badly conditioned Z axis is reported");
		frame_state(e, s, "state kept");
	}
	VC_SCOPE {
		vc_assume(!(x_bad || (upds == 0 && mag_resets > 0)));
		for (int i = 0; i < 3; i++) {
			vc_assert(vc_eq(e._mag_innov(i), innov[i]), idx_label("innovation is predicted minus measured field", i, 0));
			vc_assert(vc_eq(e._mag_test_ratio(i), innov[i] * innov[i] / (gate * gate * var[i])), idx_label("test ratio", i, 0));
			inside = inside && !(e._mag_test_ratio(i) > 1.f);
		}
		vc_assert(e._innov_check_fail_status.flags.reject_mag_x == (e._mag_test_ratio(0) > 1.f), "rejection is reported");
		vc_assert(e._innov_check_fail_status.flags.reject_mag_y == (e._mag_test_ratio(1) > 1.f), "rejection is reported");
		vc_assert(e._innov_check_fail_status.flags.reject_mag_z == (e._mag_test_ratio(2) > 1.f), "rejection is reported");
		vc_assert(vc_same(e._yaw_test_ratio, 0.f), "the heading test level reads zero");
		vc_assert(inside == (upds > 0), "fused exactly when every axis is inside the gate");
	}
	VC_SCOPE {
		vc_assume(upds > 0);
		vc_assert(vc_same(upd[0].innov, e._mag_innov(0)), "the innovation is fused, X");
		kalman(upd[0], h[0], e._mag_innov_var(0), all ? all_states : mag_states, "Kalman gain X");
		// the remaining axes see the state and covariance the previous update left behind
		if (upds == 1) {
			vc_assert(e._mag_innov_var(1) < R && mag_resets == 1 && e._fault_status.flags.bad_mag_y, "the Y axis follows unless badly conditioned");
		}
	}
	VC_SCOPE {
		vc_assume(upds > 1);
		const M y = field(upd[1].s, 1);
		vc_assert(vc_eq(e._mag_innov_var(1), innovation_variance(y, R, upd[1].P)), "innovation variance after the X update");
		vc_assert(!(e._mag_innov_var(1) < R), "a badly conditioned Y axis is not fused");
		vc_assert(vc_same(upd[1].innov, e._mag_innov(1)), "the innovation is fused, Y");
		kalman(upd[1], y, e._mag_innov_var(1), all ? all_states : mag_states, "Kalman gain Y", upd[1].P);
		if (upds == 2 && !synthetic_z) {
			vc_assert(e._mag_innov_var(2) < R && mag_resets == 1 && e._fault_status.flags.bad_mag_z, "the Z axis follows unless badly conditioned");
		}
	}
	vc_assert(upds <= (synthetic_z ? 2 : 3), "a synthesised Z axis is not fused");
	if (!synthetic_z) VC_SCOPE {
		vc_assume(upds > 2);
		const M z = field(upd[2].s, 2);
		vc_assert(vc_eq(e._mag_innov_var(2), innovation_variance(z, R, upd[2].P)), "innovation variance after the Y update");
		vc_assert(!(e._mag_innov_var(2) < R), "a badly conditioned Z axis is not fused");
		vc_assert(vc_same(upd[2].innov, e._mag_innov(2)), "the innovation is fused, Z");
		kalman(upd[2], z, e._mag_innov_var(2), all ? all_states : mag_states, "Kalman gain Z", upd[2].P);
		vc_assert(e._fault_status.flags.bad_mag_x == !upd[0].done && e._fault_status.flags.bad_mag_y == !upd[1].done
			  && e._fault_status.flags.bad_mag_z == !upd[2].done, "numerical faults are reported per axis");
		vc_assert(limits == (upd[0].done ? 1 : 0) + (upd[1].done ? 1 : 0) + (upd[2].done ? 1 : 0), "the declination is limited after each update");
	}
}
VC_PROOF(E06_mag_all) { mag3d(true, false); }
VC_PROOF(E06_mag_all_synthetic) { mag3d(true, true); }
VC_PROOF(E06_mag_field) { mag3d(false, false); }
VC_PROOF(E06_mag_field_synthetic) { mag3d(false, true); }

static float decl_ref;
static float mag_decl(Ekf *) { return decl_ref; }
VC_PROOF(E06_declination)
{
	vc_mode("poly"); vc_tol(1e-3, 1e-3);
	Ekf &e = any_ekf();
	symmetric_P(e);
	limits = 0;
	decl_ref = vc_f32("declination");
	vc_replace("Ekf::getMagDeclination", mag_decl);
	vc_replace("Ekf::limitDeclination", limit_decl);
	expect_updates();
	const stateSample s = e._state;
	const float sigma = vc_f32_in("sigma", 0.f, 10.f), R = sigma * sigma;
	const M n = M::var(s.mag_I(0), 16), east = M::var(s.mag_I(1), 17);
	const bool was = e._fault_status.flags.bad_mag_decl;
	const auto fault = e._fault_status.value;
	vc_assume(n.v > 1e-3f || n.v < -1e-3f);
	const M h = datan2(east, n);
	const float var = innovation_variance(h, R);
	e.fuseDeclination(sigma);
	vc_assert(upds <= 1, "at most one update");
	vc_assert((upds == 1) == (var > R), "fused when the variance is well conditioned");
	VC_SCOPE {
		vc_assume(upds == 1);
		kalman(upd[0], h, var, all_states, "Kalman gain of the declination");
		vc_assert(vc_eq(upd[0].innov, clampf(matrix::wrap_pi(h.v - decl_ref), -0.5f, 0.5f)), "innovation is the declination error within half a turn, at most half a radian");
		vc_assert(e._fault_status.flags.bad_mag_decl == !upd[0].done, "numerical faults are reported");
		vc_assert(limits == (upd[0].done ? 1 : 0), "the declination is limited after the update");
	}
	VC_SCOPE {
		vc_assume(upds == 0);
		vc_assert(e._fault_status.value == fault && e._fault_status.flags.bad_mag_decl == was && limits == 0, "nothing done when badly conditioned");
		frame_state(e, s, "state kept");
	}
	frame_P(e, "the covariance changes only in the update");
}
VC_PROOF(E06_declination_pole)
{
	vc_mode("real");
	Ekf &e = any_ekf();
	symmetric_P(e);
	vc_replace("Ekf::getMagDeclination", mag_decl);
	vc_replace("Ekf::limitDeclination", limit_decl);
	expect_updates();
	const stateSample s = e._state;
	vc_assume(vc_same(s.mag_I(0), 0.f));
	e.fuseDeclination(vc_f32("sigma"));
	vc_assert(upds == 0, "declination is not fused without a North field");
	frame_state(e, s, "state kept");
	frame_P(e, "covariance kept");
}

// which declination is believed
VC_PROOF(E06_declination_source)
{
	Ekf &e = any_ekf();
	e._params.mag_declination_source = 0 | (vc_bool("geo") ? 1 : 0) | (vc_bool("save") ? 2 : 0) | (vc_bool("fuse") ? 4 : 0);
	const bool geo = (e._params.mag_declination_source & 1) && (e._NED_origin_initialised || !(isnan(e._mag_declination_gps) || isinf(e._mag_declination_gps)));
	const float d = e.getMagDeclination();
	VC_SCOPE {
		vc_assume(!e._control_status.flags.mag_aligned_in_flight && geo);
		vc_assert(vc_same(d, e._mag_declination_gps), "the geographic model is used once known");
	}
	VC_SCOPE {
		vc_assume(!e._control_status.flags.mag_aligned_in_flight && !geo);
		vc_mode("real"); vc_tol(1e-6, 1e-5);
		vc_assert(fabsf(d * 180.f - e._params.mag_declination_deg * 3.14159265358979f) <= 1e-4f * fabsf(e._params.mag_declination_deg), "else the parameter, in degrees");
	}
	VC_SCOPE {
		vc_assume(e._control_status.flags.mag_aligned_in_flight);
		vc_assert(vc_same(d, atan2f(e._state.mag_I(1), e._state.mag_I(0))), "aligned in flight: that of the estimated field");
	}
}

// limiting
VC_PROOF(E06_limit)
{
	vc_mode("real"); vc_tol(1e-4, 1e-3);
	Ekf &e = any_ekf();
	decl_ref = vc_f32("declination");
	vc_replace("Ekf::getMagDeclination", mag_decl);
	const stateSample s = e._state;
	const bool geo = (e._params.mag_declination_source & 1) && (e._NED_origin_initialised || !(isnan(e._mag_declination_gps) || isinf(e._mag_declination_gps)));
	const float ref = geo ? e._mag_declination_gps : e._params.mag_declination_deg * (3.14159265358979f / 180.f);
	const float hmin = geo ? fmaxf(0.001f, 0.5f * e._mag_strength_gps * cosf(e._mag_inclination_gps)) : 0.001f;
	const float n0 = s.mag_I(0), e0 = s.mag_I(1);
	const float h0 = sqrtf(n0 * n0 + e0 * e0);
	e.limitDeclination();
	const float n1 = e._state.mag_I(0), e1 = e._state.mag_I(1);
	for (int i = 0; i < 24; i++) { if (i != 16 && i != 17) { vc_assert(vc_same(state_at(e._state, i), state_at(s, i)), idx_label("only the horizontal earth field is limited", i, 0)); } }
	VC_SCOPE {
		vc_assume(h0 >= hmin);
		const float err = matrix::wrap_pi(atan2f(e0, n0) - ref);
		VC_SCOPE {
			vc_assume(err <= 0.5f && err >= -0.5f);
			vc_assert(vc_same(n1, n0) && vc_same(e1, e0), "a plausible field is left alone");
		}
		VC_SCOPE {
			vc_assume(err > 0.5f);
			vc_assert(vc_eq(n1, h0 * cosf(ref + 0.5f)) && vc_eq(e1, h0 * sinf(ref + 0.5f)), "turned back to half a radian above the reference");
		}
		VC_SCOPE {
			vc_assume(err < -0.5f);
			vc_assert(vc_eq(n1, h0 * cosf(ref - 0.5f)) && vc_eq(e1, h0 * sinf(ref - 0.5f)), "turned back to half a radian below the reference");
		}
	}
	VC_SCOPE {
		vc_assume(h0 < hmin);
		vc_assert(vc_le(hmin * hmin, (n1 * n1 + e1 * e1) * 1.00001f), "the horizontal field does not collapse");
	}
}
VC_PROOF(E06_synthetic_z)
{
	vc_mode("real"); vc_tol(1e-4, 1e-3);
	Ekf &e = any_ekf();
	Vector3f m, b;
	for (int i = 0; i < 3; i++) { m(i) = vc_f32_i("mag", i); b(i) = vc_f32_i("field", i); }
	const float z = e.calculate_synthetic_mag_z_measurement(m, b);
	const float left = b(0) * b(0) + b(1) * b(1) + b(2) * b(2) - m(0) * m(0) - m(1) * m(1);
	vc_assert(vc_eq(z * z, left > 0.f ? left : 0.f), "completes the expected field strength");
	const float pred = b(0) * e._R_to_earth(0, 2) + b(1) * e._R_to_earth(1, 2) + b(2) * e._R_to_earth(2, 2);
	vc_assert(pred < 0.f ? z <= 0.f : z >= 0.f, "on the predicted side");
}
