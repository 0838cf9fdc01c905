// E03: covariance health: limits, symmetry, unhealthy updates, resets
#include "ekf_all.h"
#include "dual.h"

static float clampf(float x, float lo, float hi) { return x < lo ? lo : (x > hi ? hi : x); }
static constexpr float G0 = 9.80665f;

// ---- limits and symmetry
static float P0[24][24];
static void remember(Ekf &e) { for (int i = 0; i < 24; i++) { for (int j = 0; j < 24; j++) { P0[i][j] = e.P(i, j); } } }

static void fix(bool force, bool i0, bool i1, bool i2, bool mag, bool wind)
{
	vc_mode("real"); vc_tol(1e-6, 1e-6);
	Ekf &e = any_ekf();
	e._accel_bias_inhibit[0] = i0; e._accel_bias_inhibit[1] = i1; e._accel_bias_inhibit[2] = i2;
	e._control_status.flags.mag_3D = mag; e._control_status.flags.wind = wind;
	remember(e);
	const float lim = sqrtf(1.f) * (0.1f * G0 * e._dt_ekf_avg) * (0.1f * G0 * e._dt_ekf_avg);
	const bool inh[3] = {i0, i1, i2};
	const bool some = !i0 || !i1 || !i2;
	// bias variances too small on any estimated axis
	float vmax = 1e-9f; bool tiny = false;
	for (int i = 0; i < 3; i++) {
		if (inh[i]) { continue; }
		const float v = P0[13 + i][13 + i];
		tiny = vc_or(tiny, v < 1e-9f);
		vmax = v > vmax ? v : vmax;
	}
	const float vmin = fmaxf(0.01f * vmax, 5e-8f);
	// vertical bias estimate at its limit and contradicted by both vertical velocity and height innovations
	const float down = e._state.delta_vel_bias(0) * e._R_to_earth(2, 0) + e._state.delta_vel_bias(1) * e._R_to_earth(2, 1) + e._state.delta_vel_bias(2) * e._R_to_earth(2, 2);
	const bool big = fabsf(down) > 0.9f * e._params.acc_bias_lim * e._dt_ekf_avg;
	const bool vel_bad = (e._control_status.flags.gps && down * e._gps_vel_innov(2) < 0.f) || (e._control_status.flags.ev_vel && down * e._ev_vel_innov(2) < 0.f);
	const bool hgt_bad = (e._control_status.flags.gps_hgt && down * e._gps_pos_innov(2) < 0.f) || (e._control_status.flags.baro_hgt && down * e._baro_hgt_innov(2) < 0.f)
			     || (e._control_status.flags.rng_hgt && down * e._rng_hgt_innov(2) < 0.f) || (e._control_status.flags.ev_hgt && down * e._ev_pos_innov(2) < 0.f);
	const bool bad = big && vel_bad && hgt_bad;
	const uint64_t since = bad ? e._time_acc_bias_check : e._time_last_imu;
	const bool expired = some && since + 7000000ull < e._time_last_imu;
	warning_event_status_u w = e._warning_events; const information_event_status_u inf = e._information_events;
	const bool flag0 = e._fault_status.flags.bad_acc_bias; const uint64_t t0 = e._time_acc_bias_check;
	e.fixCovarianceErrors(force);
	for (int r = 0; r < 24; r++) {
		const float v = P0[r][r];
		float want = v;
		if (r < 4 || (r >= 10 && r < 13)) { want = clampf(v, 0.f, 1.f); }
		else if (r < 10) { want = clampf(v, 1e-6f, 1e6f); }
		else if (r < 16) { if (!inh[r - 13]) { want = clampf(v, vmin, lim); } }
		else if (r < 22) { want = mag ? clampf(v, 0.f, 1.f) : 0.f; }
		else { want = wind ? clampf(v, 0.f, 1e6f) : 0.f; }
		vc_assert(vc_eq(e.P(r, r), want), idx_label("variances are limited", r, r));
		for (int c = 0; c < r; c++) {
			const bool off = (r >= 16 && r < 22 && !mag) || (c >= 16 && c < 22 && !mag) || (r >= 22 && !wind);
			const bool acc = (r >= 13 && r < 16) || (c >= 13 && c < 16);
			const bool zero = some && acc ? tiny || expired : false;
			if (off) {
				vc_assert(e.P(r, c) == 0.f && e.P(c, r) == 0.f, idx_label("unused states have no covariance", r, c));
			} else if (force && !(r < 16 && c >= 13 && !some)) {
				vc_assert(vc_eq(e.P(r, c), zero ? 0.f : 0.5f * (P0[r][c] + P0[c][r])), idx_label("symmetry is forced by averaging", r, c));
				vc_assert(vc_same(e.P(r, c), e.P(c, r)), idx_label("the covariance is symmetric", r, c));
			} else {
				vc_assert(vc_eq(e.P(r, c), zero ? 0.f : P0[r][c]) && vc_eq(e.P(c, r), zero ? 0.f : P0[c][r]), idx_label("other covariances are kept", r, c));
			}
		}
	}
	w.flags.invalid_accel_bias_cov_reset = w.flags.invalid_accel_bias_cov_reset || (some && expired);
	vc_assert(e._warning_events.value == w.value && e._information_events.value == inf.value, "giving up the learnt bias correlations is announced");
	vc_assert(e._fault_status.flags.bad_acc_bias == (some ? bad && !expired : flag0), "bad bias is reported");
	vc_assert(e._time_acc_bias_check == (some && (!bad || expired) ? e._time_last_imu : t0), "time of the last good bias check");
}
VC_PROOF(E03_fix_all) { fix(true, false, false, false, true, true); }
VC_PROOF(E03_fix_plain) { fix(true, false, false, false, false, false); }
VC_PROOF(E03_fix_frozen) { fix(true, true, true, true, true, true); }
VC_PROOF(E03_fix_frozen_plain) { fix(true, true, true, true, false, true); }
VC_PROOF(E03_fix_frozen_xy) { fix(true, true, true, false, true, false); }
VC_PROOF(E03_fix_frozen_y) { fix(true, false, true, false, true, true); }
VC_PROOF(E03_limit_only) { fix(false, false, false, false, true, true); }
VC_PROOF(E03_limit_only_plain) { fix(false, true, false, false, false, false); }

// an update that would make a variance negative is refused, and exactly the offending states are reset
VC_PROOF(E03_refuse)
{
	Ekf &e = any_ekf();
	static Ekf::SquareMatrix24f KHP;
	vc_havoc(&KHP, sizeof(KHP), "KHP");
	remember(e);
	bool bad[24], any = false;
	for (int i = 0; i < 24; i++) { bad[i] = P0[i][i] < KHP(i, i); any = any || bad[i]; }
	const bool ok = e.checkAndFixCovarianceUpdate(KHP);
	vc_assert(ok == !any, "an update is healthy exactly when no variance would become negative");
	for (int i = 0; i < 24; i++) {
		for (int j = 0; j < 24; j++) {
			vc_assert(vc_or(vc_and(vc_or(bad[i], bad[j]), e.P(i, j) == 0.f), vc_and(!vc_or(bad[i], bad[j]), vc_same(e.P(i, j), P0[i][j]))),
				  idx_label("exactly the offending states are reset", i, j));
		}
	}
}

// ---- initial values
static void no_quat(Ekf *) {}
static float gps_hgt_var;
static float some_gps_hgt_var(Ekf *) { return gps_hgt_var; }
VC_PROOF(E03_init)
{
	vc_mode("real"); vc_tol(1e-6, 1e-5);
	Ekf &e = any_ekf();
	vc_replace("Ekf::initialiseQuatCovariances", no_quat);
	gps_hgt_var = vc_f32("gps_hgt_var");
	vc_replace("Ekf::getGpsHeightVariance", some_gps_hgt_var);
	const parameters &p = e._params;
	const float v = fmaxf(p.gps_vel_noise, 0.01f), x = fmaxf(p.gps_pos_noise, 0.01f);
	const float rng = fmaxf(p.range_noise, 0.01f), baro = fmaxf(p.baro_noise, 0.01f);
	const float gb = p.switch_on_gyro_bias * 0.01f, ab = p.switch_on_accel_bias * 0.01f;
	e.initialiseCovariance();
	for (int r = 4; r < 24; r++) {
		float want = 0.f;
		if (r < 6) { want = v * v; } else if (r == 6) { want = 2.25f * v * v; }
		else if (r < 9) { want = x * x; }
		else if (r == 9) { want = e._control_status.flags.rng_hgt ? rng * rng : (e._control_status.flags.gps_hgt ? gps_hgt_var : baro * baro); }
		else if (r < 13) { want = gb * gb; } else if (r < 16) { want = ab * ab; }
		else if (r < 22) { want = p.mag_noise * p.mag_noise; } else { want = p.initial_wind_uncertainty * p.initial_wind_uncertainty; }
		vc_assert(vc_eq(e.P(r, r), want), idx_label("initial variances are the squared parameter uncertainties", r, r));
		for (int c = 0; c < r; c++) { vc_assert(e.P(r, c) == 0.f && e.P(c, r) == 0.f, idx_label("initially uncorrelated", r, c)); }
	}
	for (int i = 0; i < 3; i++) {
		vc_assert(e._delta_angle_bias_var_accum(i) == 0.f && e._delta_vel_bias_var_accum(i) == 0.f, "process noise accumulators restart");
		vc_assert(vc_eq(e._prev_dvel_bias_var(i), ab * ab), "stored accelerometer bias variances restart");
	}
}

// ---- quaternion covariance from rotation vector variances
static void quat(bool large, bool positive)
{
	vc_mode("poly"); vc_tol(1e-4, 1e-3);
	Ekf &e = any_ekf();
	remember(e);
	const Quatf q = e._state.quat_nominal;
	vc_assume(positive ? q(0) >= 0.f : q(0) < 0.f);
	const float s = positive ? 1.f : -1.f;
	const float angle = 2.f * acosf(s * q(0));
	const float k = angle / sinf(angle * 0.5f);
	typedef Dual<3> D;
	D r[3];
	for (int i = 0; i < 3; i++) { r[i] = D::var(k * (s * q(1 + i)), i); }
	const D n2 = r[0] * r[0] + r[1] * r[1] + r[2] * r[2];
	if (large) { vc_assume(n2.v > 1e-9f); } else { vc_assume(!(n2.v > 1e-9f)); }
	const D n = dsqrt(n2);
	const D h = n * 0.5f;
	const float sh = sinf(h.v), ch = cosf(h.v);
	D x[4];
	x[0] = chain(ch, h, -sh);
	for (int i = 0; i < 3; i++) { x[1 + i] = r[i] * chain(sh, h, ch) / n; }
	Vector3f var;
	for (int i = 0; i < 3; i++) { var(i) = vc_f32_i("var", i); }
	const Vector3f v = var;
	e.initialiseQuatCovariances(var);
	for (int a = 0; a < 4; a++) {
		for (int b = 0; b <= a; b++) {
			float want = 0.f;
			if (large) { for (int i = 0; i < 3; i++) { want += x[a].d[i] * v(i) * x[b].d[i]; } }
			else { want = a == b && a > 0 ? 0.25f * v(a - 1) : 0.f; }
			vc_assert(vc_eq(e.P(a, b), want), idx_label("quaternion covariance is the mapped rotation vector covariance", a, b));
			vc_assert(vc_eq(e.P(b, a), want), idx_label("and symmetric", a, b));
		}
	}
	for (int a = 0; a < 24; a++) {
		for (int b = 4; b < 24; b++) {
			if (a < 4) { vc_assert(e.P(a, b) == 0.f && e.P(b, a) == 0.f, idx_label("attitude is uncorrelated after a reset", a, b)); }
			else { vc_assert(vc_same(e.P(a, b), P0[a][b]), idx_label("other covariances are kept", a, b)); }
		}
	}
}
VC_PROOF(E03_quat) { quat(true, true); }
VC_PROOF(E03_quat_negated) { quat(true, false); }
VC_PROOF(E03_quat_small) { quat(false, true); }
VC_PROOF(E03_quat_small_negated) { quat(false, false); }
static float rv[3];
static void keep_var(Ekf *, Vector3f &v) { for (int i = 0; i < 3; i++) { rv[i] = v(i); } }
VC_PROOF(E03_quat_reset)
{
	vc_mode("real"); vc_tol(1e-6, 1e-5);
	Ekf &e = any_ekf();
	vc_replace("Ekf::initialiseQuatCovariances", keep_var);
	remember(e);
	e.resetQuatCov();
	for (int i = 0; i < 3; i++) { vc_assert(vc_eq(rv[i], e._params.initial_tilt_err * e._params.initial_tilt_err), "reset to the initial tilt uncertainty"); }
	for (int a = 0; a < 24; a++) {
		for (int b = 0; b < 24; b++) {
			if (a < 4 || b < 4) { vc_assert(e.P(a, b) == 0.f, idx_label("attitude covariance is cleared", a, b)); }
			else { vc_assert(vc_same(e.P(a, b), P0[a][b]), idx_label("other covariances are kept", a, b)); }
		}
	}
}
// rotation vector variances from the quaternion covariance
static void rotvec(bool large, bool positive)
{
	vc_mode("poly"); vc_tol(1e-4, 1e-3);
	Ekf &e = any_ekf();
	for (int i = 0; i < 4; i++) { for (int j = 0; j < i; j++) { e.P(i, j) = e.P(j, i); } }
	remember(e);
	const Quatf qn = e._state.quat_nominal;
	vc_assume(positive ? qn(0) >= 0.f : qn(0) < 0.f);
	const float s = positive ? 1.f : -1.f;
	typedef Dual<4> D;
	D q[4];
	for (int i = 0; i < 4; i++) { q[i] = D::var(s * qn(i), i); }
	const D m = D(1.f) - q[0] * q[0];
	if (large) { vc_assume(m.v > 1e-8f); } else { vc_assume(m.v < 1e-10f); }
	const D root = dsqrt(m);
	const D ac = chain(acosf(q[0].v), q[0], -1.f / root.v);
	const Vector3f got = e.calcRotVecVariances();
	for (int i = 0; i < 3; i++) {
		float want = 0.f;
		if (large) {
			const D r = ac * 2.f * q[1 + i] / root;
			for (int a = 0; a < 4; a++) { for (int b = 0; b < 4; b++) { if (r.nz[a] && r.nz[b]) { want += r.d[a] * e.P(a, b) * r.d[b]; } } }
		} else { want = 4.f * e.P(1 + i, 1 + i); }
		vc_assert(vc_eq(got(i), want), "rotation vector variances are the mapped quaternion covariance");
	}
}
VC_PROOF(E03_rotvec) { rotvec(true, true); }
VC_PROOF(E03_rotvec_negated) { rotvec(true, false); }
VC_PROOF(E03_rotvec_small) { rotvec(false, true); }
VC_PROOF(E03_rotvec_small_negated) { rotvec(false, false); }

// additional yaw variance: P += v dq dq', dq the derivative of the quaternion with respect to heading
VC_PROOF(E03_yaw)
{
	vc_mode("poly"); vc_tol(1e-5, 1e-4);
	Ekf &e = any_ekf();
	remember(e);
	const Quatf q = e._state.quat_nominal;
	const float v = vc_f32("yaw_variance");
	const float d[4] = {-0.5f * q(3), -0.5f * q(2), 0.5f * q(1), 0.5f * q(0)};
	const float n = q(0) * q(0) + q(1) * q(1) + q(2) * q(2) + q(3) * q(3);   // one for a unit quaternion
	const float used = v < 0.01f ? v : 0.01f;
	e.increaseQuatYawErrVariance(v);
	for (int a = 0; a < 24; a++) {
		for (int b = 0; b < 24; b++) {
			if (a < 4 && b < 4) { vc_assert(vc_eq(e.P(a, b), P0[a][b] + used * n * n * d[a] * d[b]), idx_label("yaw variance adds v dq dq'", a, b)); }
			else { vc_assert(vc_same(e.P(a, b), P0[a][b]), idx_label("other covariances are kept", a, b)); }
		}
	}
}
VC_PROOF(E03_uncorrelate)
{
	Ekf &e = any_ekf();
	remember(e);
	e.uncorrelateQuatFromOtherStates();
	for (int a = 0; a < 24; a++) {
		for (int b = 0; b < 24; b++) {
			if ((a < 4) != (b < 4)) { vc_assert(e.P(a, b) == 0.f, idx_label("attitude correlations are cleared", a, b)); }
			else { vc_assert(vc_same(e.P(a, b), P0[a][b]), idx_label("other covariances are kept", a, b)); }
		}
	}
}

// ---- magnetic field covariance
static bool ef(int i) { return i == 16 || i == 17; }
static bool is_mag(int i) { return i >= 16 && i < 22; }
VC_PROOF(E03_mag_reset)
{
	vc_mode("real");
	Ekf &e = any_ekf();
	remember(e);
	const float n = e._params.mag_noise;
	float sv[4]; float se[2][2];
	for (int i = 0; i < 4; i++) { sv[i] = e._saved_mag_bf_variance[i]; }
	for (int i = 0; i < 2; i++) { for (int j = 0; j < 2; j++) { se[i][j] = e._saved_mag_ef_covmat(i, j); } }
	const bool m3 = e._control_status.flags.mag_3D;
	e.resetMagCov();
	for (int a = 0; a < 24; a++) {
		for (int b = 0; b < 24; b++) {
			if (!is_mag(a) && !is_mag(b)) { vc_assert(vc_same(e.P(a, b), P0[a][b]), idx_label("other covariances are kept", a, b)); }
			else { vc_assert(vc_eq(e.P(a, b), a == b ? n * n : 0.f), idx_label("field variances restart at the measurement noise", a, b)); }
		}
	}
	for (int i = 0; i < 4; i++) { vc_assert(vc_eq(e._saved_mag_bf_variance[i], m3 ? sv[i] : n * n), "restarted values are saved unless in use"); }
	for (int i = 0; i < 2; i++) { for (int j = 0; j < 2; j++) { vc_assert(vc_eq(e._saved_mag_ef_covmat(i, j), m3 ? se[i][j] : (i == j ? n * n : 0.f)), "restarted values are saved unless in use"); } }
	vc_assert(!e._mag_decl_cov_reset, "declination fusion starts again");
}
// a field reset restarts attitude and field uncertainty together
VC_PROOF(E03_mag_related)
{
	vc_mode("real"); vc_tol(1e-6, 1e-5);
	Ekf &e = any_ekf();
	vc_replace("Ekf::initialiseQuatCovariances", keep_var);
	remember(e);
	const float n = e._params.mag_noise, t = e._params.initial_tilt_err;
	rv[0] = rv[1] = rv[2] = -1.f;
	e.resetMagRelatedCovariances();
	for (int i = 0; i < 3; i++) { vc_assert(vc_eq(rv[i], t * t), "attitude restarts at the initial tilt uncertainty"); }
	for (int a = 0; a < 24; a++) {
		for (int b = 0; b < 24; b++) {
			if (a < 4 || b < 4) { vc_assert(e.P(a, b) == 0.f, idx_label("attitude covariance is cleared", a, b)); }
			else if (is_mag(a) || is_mag(b)) { vc_assert(vc_eq(e.P(a, b), a == b ? n * n : 0.f), idx_label("field variances restart at the measurement noise", a, b)); }
			else { vc_assert(vc_same(e.P(a, b), P0[a][b]), idx_label("other covariances are kept", a, b)); }
		}
	}
}
// leaving and re-entering three-axis fusion restores what was known about the field
VC_PROOF(E03_mag_resume)
{
	Ekf &e = any_ekf();
	remember(e);
	e._control_status.flags.mag_3D = true;
	e.startMagHdgFusion();
	vc_assert(!e._control_status.flags.mag_3D && e._control_status.flags.mag_hdg, "heading fusion replaces three-axis fusion");
	for (int a = 0; a < 24; a++) { for (int b = 0; b < 24; b++) { vc_assert(vc_same(e.P(a, b), P0[a][b]), idx_label("switching does not change the covariance", a, b)); } }
	for (int a = 0; a < 24; a++) { for (int b = 0; b < 24; b++) { if (is_mag(a) || is_mag(b)) { e.P(a, b) = vc_f32("clobber"); } } }
	e.startMag3DFusion();
	vc_assert(e._control_status.flags.mag_3D && !e._control_status.flags.mag_hdg, "three-axis fusion replaces heading fusion");
	for (int a = 0; a < 24; a++) {
		for (int b = 0; b < 24; b++) {
			if (is_mag(a) || is_mag(b)) {
				const bool kept = a == b || (ef(a) && ef(b));
				if (kept) { vc_assert(vc_same(e.P(a, b), P0[a][b]), idx_label("field uncertainty is restored", a, b)); }
				else { vc_assert(e.P(a, b) == 0.f, idx_label("stale field correlations are cleared", a, b)); }
			} else { vc_assert(vc_same(e.P(a, b), P0[a][b]), idx_label("other covariances are kept", a, b)); }
		}
	}
}
VC_PROOF(E03_mag_modes)
{
	Ekf &e = any_ekf();
	remember(e);
	const bool m3 = e._control_status.flags.mag_3D, hdg = e._control_status.flags.mag_hdg;
	VC_SCOPE {
		vc_assume(m3);
		e.startMag3DFusion();
		vc_assert(e._control_status.flags.mag_3D && e._control_status.flags.mag_hdg == hdg, "continuing three-axis fusion changes nothing");
		for (int a = 0; a < 24; a++) { for (int b = 0; b < 24; b++) { vc_assert(vc_same(e.P(a, b), P0[a][b]), idx_label("continuing three-axis fusion changes nothing", a, b)); } }
	}
	VC_SCOPE {
		e.stopMagFusion();
		vc_assert(!e._control_status.flags.mag_3D && !e._control_status.flags.mag_hdg && !e._mag_decl_cov_reset, "magnetometer use stops");
		for (int a = 0; a < 24; a++) { for (int b = 0; b < 24; b++) {
			if (is_mag(a) || is_mag(b)) { vc_assert(e.P(a, b) == 0.f, idx_label("unused field states have no covariance", a, b)); }
			else { vc_assert(vc_same(e.P(a, b), P0[a][b]), idx_label("other covariances are kept", a, b)); }
		} }
	}
}

// ---- wind covariance
static float yaw_now;
static float the_yaw(const Quatf &) { return yaw_now; }
VC_PROOF(E03_wind)
{
	vc_mode("poly"); vc_tol(1e-4, 1e-3);
	Ekf &e = any_ekf();
	remember(e);
	yaw_now = getEuler321Yaw(e._state.quat_nominal);
	const airspeedSample &a = e._airspeed_sample_delayed;
	const bool fresh = e._tas_data_ready && e._imu_sample_delayed.time_us - a.time_us < 500000ull;
	vc_assume(fresh);
	const float eas = clampf(e._params.eas_noise, 0.5f, 5.f) * clampf(a.eas2tas, 0.9f, 10.f);
	constexpr float SIDESLIP = math::radians(15.0f), YAW_ERR = math::radians(10.0f);
	const float lat = a.true_airspeed * sinf(SIDESLIP);
	const float c = cosf(yaw_now), s = sinf(yaw_now);
	// wind in the heading frame, its longitudinal error R_TAS, lateral error lat^2, rotated by a heading error
	typedef Dual<3> D;
	const float wn = e._state.wind_vel(0), we = e._state.wind_vel(1);
	const D psi = D::var(yaw_now, 0);
	const D wx = D::var(wn * c + we * s, 1), wy = D::var(we * c - wn * s, 2);
	const D C = chain(c, psi, -s), S = chain(s, psi, c);
	const D w[2] = {wx * C - wy * S, wx * S + wy * C};
	constexpr float R_YAW = YAW_ERR * YAW_ERR;
	const float R[3] = {R_YAW, eas * eas, lat * lat};
	e.resetWindCovariance();
	for (int i = 0; i < 2; i++) { for (int j = 0; j < 2; j++) {
		float want = i == j ? P0[4 + i][4 + i] : 0.f;
		for (int k = 0; k < 3; k++) { want += w[i].d[k] * R[k] * w[j].d[k]; }
		vc_assert(vc_eq(e.P(22 + i, 22 + j), want), idx_label("wind uncertainty from airspeed, heading, sideslip and velocity errors", i, j));
	} }
	for (int r = 0; r < 24; r++) { for (int k = 0; k < 24; k++) {
		if (r < 22 && k < 22) { vc_assert(vc_same(e.P(r, k), P0[r][k]), idx_label("other covariances are kept", r, k)); }
		else if (r < 22 || k < 22) { vc_assert(e.P(r, k) == 0.f, idx_label("wind is uncorrelated after a reset", r, k)); }
	} }
}
VC_PROOF(E03_wind_default)
{
	vc_mode("real"); vc_tol(1e-6, 1e-5);
	Ekf &e = any_ekf();
	remember(e);
	vc_assume(!(e._tas_data_ready && e._imu_sample_delayed.time_us - e._airspeed_sample_delayed.time_us < 500000ull));
	const float u = e._params.initial_wind_uncertainty;
	e.resetWindCovariance();
	for (int r = 0; r < 24; r++) { for (int k = 0; k < 24; k++) {
		if (r < 22 && k < 22) { vc_assert(vc_same(e.P(r, k), P0[r][k]), idx_label("other covariances are kept", r, k)); }
		else { vc_assert(vc_eq(e.P(r, k), r == k ? u * u : 0.f), idx_label("wind restarts at the squared initial uncertainty", r, k)); }
	} }
}
