// E02: covariance prediction is F P F' + G U G' + Q of the process model
#include "ekf_all.h"
#include "dual.h"

static constexpr float DT = 10 * 0.001f;
static float clampf(float x, float lo, float hi) { return x < lo ? lo : (x > hi ? hi : x); }
static void no_fix(Ekf *, bool force) { vc_assert(!force, "the predicted covariance is already symmetric"); }

struct Jac { float F[24][24]; bool fnz[24][24]; float G[24][6]; bool gnz[24][6]; };
static Jac J;
// process model: states 0-3 quaternion, 4-6 velocity, 7-9 position, 10-12 angle bias, 13-15 velocity bias; 24.. noise
typedef Dual<22> D;
static void model(const Ekf &e)
{
	D x[16], w[6];
	const stateSample &s = e._state;
	for (int i = 0; i < 4; i++) { x[i] = D::var(s.quat_nominal(i), i); }
	for (int i = 0; i < 3; i++) {
		x[4 + i] = D::var(s.vel(i), 4 + i); x[7 + i] = D::var(s.pos(i), 7 + i);
		x[10 + i] = D::var(s.delta_ang_bias(i), 10 + i); x[13 + i] = D::var(s.delta_vel_bias(i), 13 + i);
		w[i] = D::var(0.f, 16 + i); w[3 + i] = D::var(0.f, 19 + i);
	}
	D a[3], dv[3], n[10];
	for (int i = 0; i < 3; i++) {
		a[i] = (D(e._imu_sample_delayed.delta_ang(i)) - x[10 + i] - w[i]) * 0.5f;
		dv[i] = D(e._imu_sample_delayed.delta_vel(i)) - x[13 + i] - w[3 + i];
	}
	// quaternion product q * (1, a)
	n[0] = x[0] - x[1] * a[0] - x[2] * a[1] - x[3] * a[2];
	n[1] = x[1] + x[0] * a[0] + x[2] * a[2] - x[3] * a[1];
	n[2] = x[2] + x[0] * a[1] + x[3] * a[0] - x[1] * a[2];
	n[3] = x[3] + x[0] * a[2] + x[1] * a[1] - x[2] * a[0];
	D R[3][3];
	rot_matrix(x, R);
	for (int i = 0; i < 3; i++) {
		n[4 + i] = x[4 + i] + R[i][0] * dv[0] + R[i][1] * dv[1] + R[i][2] * dv[2];
		n[7 + i] = x[7 + i] + x[4 + i] * DT;
	}
	for (int i = 0; i < 24; i++) {
		for (int j = 0; j < 24; j++) {
			J.fnz[i][j] = i < 10 ? (j < 16 && n[i].nz[j]) : i == j;
			J.F[i][j] = i < 10 ? (j < 16 ? n[i].d[j] : 0.f) : (i == j ? 1.f : 0.f);
		}
		for (int j = 0; j < 6; j++) { J.gnz[i][j] = i < 10 && n[i].nz[16 + j]; J.G[i][j] = i < 10 ? n[i].d[16 + j] : 0.f; }
	}
}
// the off-diagonal part of P is symmetric before the step
static Ekf &start(bool i0, bool i1, bool i2, bool mag, bool wind)
{
	Ekf &e = any_ekf();
	for (int i = 0; i < 24; i++) { for (int j = 0; j < i; j++) { e.P(i, j) = e.P(j, i); } }
	e._control_status.flags.mag_3D = mag; e._control_status.flags.wind = wind; e._control_status.flags.in_air = true;
	e._fault_status.flags.bad_acc_vertical = false;
	e._params.fusion_mode = 0;
	e._params.acc_bias_learn_gyr_lim = INFINITY; e._params.acc_bias_learn_acc_lim = INFINITY;
	const bool in[3] = {i0, i1, i2};
	for (int i = 0; i < 3; i++) { e._imu_sample_delayed.delta_vel_clipping[i] = in[i]; e._accel_bias_inhibit[i] = in[i]; }
	vc_replace("Ekf::fixCovarianceErrors", no_fix);
	return e;
}
static float q10(const Ekf &e, float rate) { const float s = DT * DT * clampf(rate, 0.f, 1.f); return s * s; }
static float q16(const Ekf &e, float rate) { const float s = DT * clampf(rate, 0.f, 1.f); return s * s; }

static float P0[24][24], U[6], Q[24];
static void noise(Ekf &e, bool mag, bool wind)
{
	const float gyr = DT * clampf(e._params.gyro_noise, 0.f, 1.f), acc = DT * clampf(e._params.accel_noise, 0.f, 1.f);
	const float bad = DT * BADACC_BIAS_PNOISE;
	for (int i = 0; i < 3; i++) { U[i] = gyr * gyr; U[3 + i] = e._imu_sample_delayed.delta_vel_clipping[i] ? bad * bad : acc * acc; }
	for (int i = 0; i < 24; i++) { Q[i] = 0.f; }
	const bool growI = e.P(16, 16) + e.P(17, 17) + e.P(18, 18) < 0.1f, growB = e.P(19, 19) + e.P(20, 20) + e.P(21, 21) < 0.1f;
	for (int i = 0; i < 3; i++) {
		Q[10 + i] = q10(e, e._params.gyro_bias_p_noise) - e._delta_angle_bias_var_accum(i);
		Q[13 + i] = q10(e, e._params.accel_bias_p_noise) - e._delta_vel_bias_var_accum(i);
		Q[16 + i] = mag && growI ? q16(e, e._params.mage_p_noise) : 0.f;
		Q[19 + i] = mag && growB ? q16(e, e._params.magb_p_noise) : 0.f;
	}
	// wind process noise grows with the filtered height rate (10 s time constant)
	const float k = 0.1f * DT;
	const float rate = e._height_rate_lpf * (1.f - k) + e._state.vel(2) * k;
	const float ws = DT * clampf(e._params.wind_vel_p_noise, 0.f, 1.f) * (1.f + e._params.wind_vel_p_noise_scaler * fabsf(rate));
	const bool growW = e.P(22, 22) + e.P(23, 23) < e._params.initial_wind_uncertainty * e._params.initial_wind_uncertainty;
	Q[22] = Q[23] = wind && growW ? ws * ws : 0.f;
}
static float expected(int r, int c)
{
	float v = 0.f;
	for (int a = 0; a < 24; a++) {
		if (!J.fnz[r][a]) { continue; }
		for (int b = 0; b < 24; b++) { if (J.fnz[c][b]) { v += J.F[r][a] * P0[a][b] * J.F[c][b]; } }
	}
	for (int k = 0; k < 6; k++) { if (J.gnz[r][k] && J.gnz[c][k]) { v += J.G[r][k] * U[k] * J.G[c][k]; } }
	return v;
}

static void check(bool i0, bool i1, bool i2, bool mag, bool wind, bool frozen)
{
	vc_mode("poly"); vc_tol(1e-4, 1e-3);
	Ekf &e = start(i0, i1, i2, mag, wind);
	if (frozen) { vc_assume(e.P(7, 7) + e.P(8, 8) > 1e4f); }
	else { vc_assume(!(e.P(7, 7) + e.P(8, 8) > 1e4f)); }
	model(e); noise(e, mag, wind);
	for (int i = 0; i < 24; i++) { for (int j = 0; j < 24; j++) { P0[i][j] = e.P(i, j); } }
	const bool inh[3] = {i0, i1, i2};
	float prev[3];
	for (int i = 0; i < 3; i++) { prev[i] = e._prev_dvel_bias_var(i); }
	e.predictCovariance();
	for (int r = 0; r < 24; r++) {
		for (int c = 0; c <= r; c++) {
			vc_assert(vc_same(e.P(r, c), e.P(c, r)), idx_label("the predicted covariance is symmetric", r, c));
			if (frozen && (r == 7 || r == 8 || c == 7 || c == 8)) {
				vc_assert(vc_same(e.P(r, c), P0[r][c]), idx_label("position uncertainty stops growing beyond 100 m", r, c));
				continue;
			}
			const bool off = (r >= 16 && r < 22 && !mag) || (r >= 22 && !wind) || (c >= 16 && c < 22 && !mag);
			if (off) { continue; }
			const int b = r >= 13 && r <= 15 && inh[r - 13] ? r : (c >= 13 && c <= 15 && inh[c - 13] ? c : 0);
			if (b) {
				if (r == c) { vc_assert(vc_same(e.P(r, c), prev[r - 13]), idx_label("a frozen bias keeps its variance", r, c)); }
				else if (c < 13) { vc_assert(e.P(r, c) == 0.f, idx_label("a frozen bias is uncorrelated with the kinematic states", r, c)); }
				continue;
			}
			vc_assert(vc_eq(e.P(r, c), expected(r, c) + (r == c ? Q[r] : 0.f)), idx_label("predicted covariance is F P F' + G U G' + Q", r, c));
		}
	}
	vc_assert(e._fault_status.flags.bad_acc_clipping == (i0 || i1 || i2), "clipping is reported");
}
VC_PROOF(E02_full) { check(false, false, false, true, true, false); }
VC_PROOF(E02_frozen_position) { check(false, false, false, true, true, true); }
VC_PROOF(E02_no_field) { check(false, false, false, false, true, false); }
VC_PROOF(E02_no_wind) { check(false, false, false, true, false, false); }
VC_PROOF(E02_no_field_no_wind) { check(false, false, false, false, false, false); }
VC_PROOF(E02_clip_x) { check(true, false, false, true, true, false); }
VC_PROOF(E02_clip_y) { check(false, true, false, true, true, false); }
VC_PROOF(E02_clip_z) { check(false, false, true, true, true, false); }
VC_PROOF(E02_clip_xyz) { check(true, true, true, true, true, false); }
VC_PROOF(E02_clip_xyz_frozen) { check(true, true, true, true, true, true); }

// which bias axes are frozen, and their variance is kept for later
VC_PROOF(E02_inhibit)
{
	vc_mode("real"); vc_tol(1e-5, 1e-4);
	Ekf &e = any_ekf();
	vc_replace("Ekf::fixCovarianceErrors", no_fix);
	vc_assume(e._params.acc_bias_learn_tc > 0.f);
	const Vector3f da = e._imu_sample_delayed.delta_ang, dv = e._imu_sample_delayed.delta_vel;
	const float alpha = clampf(DT / e._params.acc_bias_learn_tc, 0.f, 1.f), beta = 1.f - alpha;
	const float di = 1.f / DT;
	const float ang = fmaxf(di * da.norm(), beta * e._ang_rate_magnitude_filt), acc = fmaxf(di * dv.norm(), beta * e._accel_magnitude_filt);
	const bool all = (e._params.fusion_mode & MASK_INHIBIT_ACC_BIAS) || ang > e._params.acc_bias_learn_gyr_lim || acc > e._params.acc_bias_learn_acc_lim
			 || e._fault_status.flags.bad_acc_vertical;
	bool want[3], was[3]; float prev[3], var[3]; Vector3f vec = e._accel_vec_filt;
	for (int i = 0; i < 3; i++) {
		const bool observable = fabsf(e._R_to_earth(2, i)) > 0.8f || e._control_status.flags.in_air;
		want[i] = all || !observable || e._imu_sample_delayed.delta_vel_clipping[i];
		was[i] = e._accel_bias_inhibit[i]; prev[i] = e._prev_dvel_bias_var(i); var[i] = e.P(13 + i, 13 + i);
	}
	const stateSample s = e._state;
	e.predictCovariance();
	for (int i = 0; i < 3; i++) {
		vc_assert(e._accel_bias_inhibit[i] == want[i], "an axis is frozen exactly when its bias is not observable or the motion is too strong");
		vc_assert(vc_same(e._prev_dvel_bias_var(i), want[i] && !was[i] ? var[i] : prev[i]), "the variance is stored when an axis becomes frozen");
		vc_assert(vc_implies(want[i], vc_same(e.P(13 + i, 13 + i), want[i] && !was[i] ? var[i] : prev[i])), "a frozen axis keeps the stored variance");
		vc_assert(vc_eq(e._accel_vec_filt(i), alpha * di * dv(i) + beta * vec(i)), "filtered specific force");
		vc_assert(vc_same(e._state.vel(i), s.vel(i)) && vc_same(e._state.pos(i), s.pos(i)) && vc_same(e._state.delta_ang_bias(i), s.delta_ang_bias(i))
			  && vc_same(e._state.delta_vel_bias(i), s.delta_vel_bias(i)) && vc_same(e._state.mag_I(i), s.mag_I(i)) && vc_same(e._state.mag_B(i), s.mag_B(i)), "states untouched");
	}
	for (int i = 0; i < 4; i++) { vc_assert(vc_same(e._state.quat_nominal(i), s.quat_nominal(i)), "states untouched"); }
	vc_assert(vc_same(e._state.wind_vel(0), s.wind_vel(0)) && vc_same(e._state.wind_vel(1), s.wind_vel(1)), "states untouched");
	vc_assert(vc_eq(e._ang_rate_magnitude_filt, ang) && vc_eq(e._accel_magnitude_filt, acc), "motion level envelopes");
	vc_assert(e._fault_status.flags.bad_acc_clipping == (e._imu_sample_delayed.delta_vel_clipping[0] || e._imu_sample_delayed.delta_vel_clipping[1] || e._imu_sample_delayed.delta_vel_clipping[2]), "clipping is reported");
}
// IMU noise with a faulty vertical accelerometer, and a bias axis that is released again
VC_PROOF(E02_released)
{
	vc_mode("poly"); vc_tol(1e-4, 1e-3);
	Ekf &e = start(false, false, false, true, true);
	for (int i = 0; i < 3; i++) { e._accel_bias_inhibit[i] = true; }
	vc_assume(!(e.P(7, 7) + e.P(8, 8) > 1e4f));
	model(e); noise(e, true, true);
	for (int i = 0; i < 24; i++) { for (int j = 0; j < 24; j++) { P0[i][j] = e.P(i, j); } }
	for (int i = 0; i < 3; i++) { P0[13 + i][13 + i] = e._prev_dvel_bias_var(i); }
	e.predictCovariance();
	for (int r = 0; r < 24; r++) {
		for (int c = 0; c <= r; c++) { vc_assert(vc_eq(e.P(r, c), expected(r, c) + (r == c ? Q[r] : 0.f)), idx_label("a released bias starts from its stored variance", r, c)); }
	}
}
VC_PROOF(E02_bad_accel)
{
	vc_mode("poly"); vc_tol(1e-4, 1e-3);
	Ekf &e = start(false, false, false, true, true);
	e._fault_status.flags.bad_acc_vertical = true;
	vc_assume(!(e.P(7, 7) + e.P(8, 8) > 1e4f));
	model(e); noise(e, true, true);
	const float bad = DT * BADACC_BIAS_PNOISE;
	for (int i = 0; i < 3; i++) { U[3 + i] = bad * bad; }
	for (int i = 0; i < 24; i++) { for (int j = 0; j < 24; j++) { P0[i][j] = e.P(i, j); } }
	e.predictCovariance();
	for (int r = 0; r < 13; r++) {
		for (int c = 0; c <= r; c++) { vc_assert(vc_eq(e.P(r, c), expected(r, c) + (r == c ? Q[r] : 0.f)), idx_label("bad accelerometer data inflates the velocity noise", r, c)); }
	}
}
