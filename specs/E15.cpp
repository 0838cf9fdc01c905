// E15: emergency yaw estimator: a bank of attitude references and 3-state filters combined as a Gaussian sum
#include "output.h"

alignas(16) static unsigned char gsf_mem[sizeof(EKFGSF_yaw)];
static const float PI_ = 3.14159265f, G0 = 9.80665f;
static EKFGSF_yaw &any_gsf()
{
	EKFGSF_yaw *y = new (gsf_mem) EKFGSF_yaw();
	const float gn = y->_gyro_noise, an = y->_accel_noise, tg = y->_tilt_gain, bg = y->_gyro_bias_gain;
	vc_assert(vc_same(gn, 0.1f) && vc_same(an, 2.f) && vc_same(tg, 0.2f) && vc_same(bg, 0.04f), "tuning");
	vc_havoc(y, sizeof(EKFGSF_yaw), "gsf");
	const_cast<float &>(y->_gyro_noise) = gn; const_cast<float &>(y->_accel_noise) = an; const_cast<float &>(y->_tilt_gain) = tg; const_cast<float &>(y->_gyro_bias_gain) = bg;
	return *y;
}
static EKFGSF_yaw &setup() { vc_mode("real"); vc_tol(1e-3, 1e-3); return any_gsf(); }
static void symmetric(EKFGSF_yaw &y, int m) { for (int i = 0; i < 3; i++) { for (int j = 0; j < i; j++) { y._ekf_gsf[m].P(i, j) = y._ekf_gsf[m].P(j, i); } } }
// models other than m are untouched
static void others(const EKFGSF_yaw &y, const EKFGSF_yaw &o, int m)
{
	for (int k = 0; k < 5; k++) {
		if (k == m) { continue; }
		for (int i = 0; i < 3; i++) {
			vc_assert(vc_same(y._ekf_gsf[k].X(i), o._ekf_gsf[k].X(i)) && vc_same(y._ahrs_ekf_gsf[k].gyro_bias(i), o._ahrs_ekf_gsf[k].gyro_bias(i)), "other models are untouched");
			for (int j = 0; j < 3; j++) { vc_assert(vc_same(y._ekf_gsf[k].P(i, j), o._ekf_gsf[k].P(i, j)) && vc_same(y._ahrs_ekf_gsf[k].R(i, j), o._ahrs_ekf_gsf[k].R(i, j)), "other models are untouched"); }
		}
	}
}
// ---- attitude reference
VC_PROOF(E15_gain)
{
	EKFGSF_yaw &y = setup();
	const float a = y._ahrs_accel_norm, dev = fabsf(a - G0) / G0;
	const float k = y._true_airspeed > 1.1920929e-7f && a > G0 ? 1.f : 2.f, r = 1.f - (k * dev < 1.f ? k * dev : 1.f);
	const float g = y.ahrsCalcAccelGain();
	vc_assert(vc_eq(g, 0.2f * r * r), "tilt gain falls from its maximum at 1 g to zero");
	vc_assert(vc_and(vc_le(0.f, g), vc_le(g, 0.2f)), "tilt gain is bounded");
}
VC_PROOF(E15_rotation)
{
	EKFGSF_yaw &y = setup();
	Matrix3f R; Vector3f g; vc_havoc(&R, sizeof(R), "R"); vc_havoc(&g, sizeof(g), "g");
	const Matrix3f n = y.ahrsPredictRotMat(R, g);
	for (int i = 0; i < 3; i++) {
		// row (1 + [g]x): r + r x g
		float d[3], l = 0.f;
		for (int j = 0; j < 3; j++) { const int k = (j + 1) % 3, m = (j + 2) % 3; d[j] = R(i, j) + R(i, k) * g(m) - R(i, m) * g(k); l += d[j] * d[j]; }
		for (int j = 0; j < 3; j++) { vc_assert(vc_eq(n(i, j), l > 1.1920929e-7f ? d[j] * (1.5f - 0.5f * l) : d[j]), "rows turn by the rotation increment and are rescaled to unit length"); }
	}
}
static Matrix3f rot_R, rot_out; static Vector3f rot_g; static int rots;
static Matrix3f predict_rot(EKFGSF_yaw *, const Matrix3f &R, const Vector3f &g) { rots++; rot_R = R; rot_g = g; return rot_out; }
static void ahrs(int m)
{
	EKFGSF_yaw &y = setup(); EKFGSF_yaw *o = new EKFGSF_yaw(y);
	rots = 0; vc_havoc(&rot_out, sizeof(rot_out), "R_next"); vc_replace("EKFGSF_yaw::ahrsPredictRotMat", predict_rot);
	const float dt = y._delta_ang_dt, dm = dt > 0.001f ? dt : 0.001f, V = y._true_airspeed, k = y._ahrs_accel_fusion_gain, an = y._ahrs_accel_norm;
	vc_assume(dt >= 0.f && dt < 1.f && an > 0.1f);
	const Vector3f b0 = y._ahrs_ekf_gsf[m].gyro_bias, a = y._ahrs_accel, da = y._delta_ang; const Matrix3f R = y._ahrs_ekf_gsf[m].R;
	y.ahrsPredict(m);
	float w[3], f[3], t[3];
	for (int i = 0; i < 3; i++) { w[i] = da(i) / dm - b0(i); f[i] = a(i); }
	if (V > 1.1920929e-7f) { f[1] -= V * w[2]; f[2] += V * w[1]; }
	const float spin = sqrtf(w[0] * w[0] + w[1] * w[1] + w[2] * w[2]);
	for (int i = 0; i < 3; i++) {
		const int j = (i + 1) % 3, l = (i + 2) % 3;
		t[i] = k > 0.f ? (R(2, j) * f[l] - R(2, l) * f[j]) * k / an : 0.f;
		const float b1 = spin < 0.175f ? clampf(b0(i) - t[i] * (0.04f * dt), -0.05f, 0.05f) : b0(i);
		vc_assert(vc_eq(y._ahrs_ekf_gsf[m].gyro_bias(i), b1), "gyro bias learns from the tilt error at low rates, within limits");
		vc_assert(vc_eq(rot_g(i), da(i) + (t[i] - y._ahrs_ekf_gsf[m].gyro_bias(i)) * dt), "attitude turns by the angle increment, less bias, plus tilt correction");
		for (int c = 0; c < 3; c++) { vc_assert(vc_same(rot_R(i, c), R(i, c)) && vc_same(y._ahrs_ekf_gsf[m].R(i, c), rot_out(i, c)), "from the previous attitude"); }
		vc_assert(vc_same(y._ekf_gsf[m].X(i), o->_ekf_gsf[m].X(i)), "filter states are not touched");
	}
	vc_assert(rots == 1, "once");
	others(y, *o, m);
}
VC_PROOF(E15_attitude) { for (int m = 0; m < 5; m++) { VC_SCOPE { ahrs(m); } } }
VC_PROOF(E15_tilt)
{
	EKFGSF_yaw &y = setup(); EKFGSF_yaw *o = new EKFGSF_yaw(y);
	const Vector3f v = y._delta_vel;
	const float n = v(0) * v(0) + v(1) * v(1) + v(2) * v(2), h = v(1) * v(1) + v(2) * v(2);
	vc_assume(n > 1e-6f && h > 1e-6f);
	y.ahrsAlignTilt();
	const float s = sqrtf(n), c = sqrtf(h);
	const float d[3] = {-v(0) / s, -v(1) / s, -v(2) / s}; // down
	const float p[3] = {1.f - d[0] * d[0], -d[0] * d[1], -d[0] * d[2]}, q = sqrtf(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]); // nose less its vertical part
	for (int m = 0; m < 5; m++) {
		const Matrix3f &R = y._ahrs_ekf_gsf[m].R;
		for (int i = 0; i < 3; i++) {
			vc_assert(vc_eq(R(2, i) * s, -v(i)), "down is opposite to the measured specific force");
			vc_assert(vc_eq(R(0, i) * q, p[i]), "north is the horizontal projection of the nose");
			vc_assert(vc_same(y._ekf_gsf[m].X(i), o->_ekf_gsf[m].X(i)), "filters untouched");
		}
		vc_assert(vc_eq(R(1, 0), 0.f) && vc_eq(R(1, 1) * c, -v(2)) && vc_eq(R(1, 2) * c, v(1)), "east is horizontal and perpendicular to the nose");
	}
}
static float yaws[5]; static Matrix3f rots_in[5]; static int nyaw; static Matrix3f yaw_out[5];
static Dcmf set_yaw(float yaw, const Dcmf &R) { const int k = nyaw < 5 ? nyaw : 0; yaws[k] = yaw; rots_in[k] = R; nyaw++; return yaw_out[k]; }
VC_PROOF(E15_align_yaw)
{
	EKFGSF_yaw &y = setup(); EKFGSF_yaw *o = new EKFGSF_yaw(y);
	nyaw = 0; vc_havoc(yaw_out, sizeof(yaw_out), "R_yaw"); vc_replace("updateYawInRotMat", set_yaw);
	for (int m = 0; m < 5; m++) { vc_assume(fabsf(y._ekf_gsf[m].X(2)) < 3.14f); }
	y.ahrsAlignYaw();
	vc_assert(nyaw == 5, "every model");
	for (int m = 0; m < 5; m++) {
		vc_assert(vc_eq(yaws[m], o->_ekf_gsf[m].X(2)) && y._ahrs_ekf_gsf[m].aligned, "attitude takes the yaw of its filter");
		for (int i = 0; i < 9; i++) { vc_assert(vc_same(rots_in[m](i / 3, i % 3), o->_ahrs_ekf_gsf[m].R(i / 3, i % 3)) && vc_same(y._ahrs_ekf_gsf[m].R(i / 3, i % 3), yaw_out[m](i / 3, i % 3)), "each its own"); }
	}
}
// ---- filter prediction
static int preds[5], npred;
static void ahrs_predict(EKFGSF_yaw *y, uint8_t m) { preds[npred < 5 ? npred : 0] = m; npred++; vc_havoc(&y->_ahrs_ekf_gsf[m].R, sizeof(Matrix3f), "R_predicted"); }
static void predict(int m)
{
	EKFGSF_yaw &y = setup(); symmetric(y, m);
	npred = 0; vc_replace("EKFGSF_yaw::ahrsPredict", ahrs_predict);
	EKFGSF_yaw *o = new EKFGSF_yaw(y);
	const auto P = y._ekf_gsf[m].P; const auto X = y._ekf_gsf[m].X;
	const Vector3f dv = y._delta_vel;
	const float vdt = y._delta_vel_dt, adt = y._delta_ang_dt;
	y.predictEKF(m);
	vc_assert(npred == 1 && preds[0] == m, "attitude is predicted first");
	const auto &N = y._ekf_gsf[m];
	const Matrix3f &R = y._ahrs_ekf_gsf[m].R;
	VC_SCOPE {
		vc_assume(!y._ekf_gsf_vel_fuse_started);
		for (int i = 0; i < 3; i++) { vc_assert(vc_same(N.X(i), X(i)), "waits for velocity data"); for (int j = 0; j < 3; j++) { vc_assert(vc_same(N.P(i, j), P(i, j)), "waits for velocity data"); } }
	}
	VC_SCOPE {
		vc_assume(y._ekf_gsf_vel_fuse_started);
		float d[3];
		for (int i = 0; i < 3; i++) { d[i] = R(i, 0) * dv(0) + R(i, 1) * dv(1) + R(i, 2) * dv(2); }
		vc_assert(vc_eq(N.X(0), X(0) + d[0]) && vc_eq(N.X(1), X(1) + d[1]), "velocity integrates the specific force");
		vc_assert(vc_eq(N.X(2), fabsf(R(2, 0)) < fabsf(R(2, 1)) ? atan2f(R(1, 0), R(0, 0)) : atan2f(-R(0, 1), R(1, 1))), "yaw is that of the attitude, by the sequence further from its singularity");
		// Jacobian of (vN, vE, yaw) with respect to the states, and process noise
		const float F[3][3] = {{1.f, 0.f, -d[1]}, {0.f, 1.f, d[0]}, {0.f, 0.f, 1.f}};
		const float qv = (2.f * vdt) * (2.f * vdt), Q[3] = {qv, qv, (0.1f * adt) * (0.1f * adt)};
		for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) {
			float s = i == j ? Q[i] : 0.f;
			for (int a = 0; a < 3; a++) { for (int b = 0; b < 3; b++) { if ((i == a || a == 2) && (j == b || b == 2)) { s += F[i][a] * P(a, b) * F[j][b]; } } }
			if (i == j) { s = s < 1e-6f ? 1e-6f : s; }
			vc_assert(vc_eq(N.P(i, j), s), idx_label("predicted covariance F P F' + Q, with a floor", i, j));
		} }
	}
	others(y, *o, m);
}
VC_PROOF(E15_predict) { vc_prune(true); for (int m = 0; m < 5; m++) { VC_SCOPE { predict(m); } } }
// ---- filter update
static void update(int m)
{
	EKFGSF_yaw &y = setup(); symmetric(y, m); EKFGSF_yaw *o = new EKFGSF_yaw(y);
	const auto P = y._ekf_gsf[m].P; const auto X = y._ekf_gsf[m].X; const Matrix3f R = y._ahrs_ekf_gsf[m].R;
	const float acc = y._vel_accuracy > 0.5f ? y._vel_accuracy : 0.5f, r = acc * acc;
	const bool ok = y.updateEKF(m);
	const auto &N = y._ekf_gsf[m]; const Matrix3f &T = y._ahrs_ekf_gsf[m].R;
	const float in[2] = {X(0) - y._vel_NE(0), X(1) - y._vel_NE(1)};
	const float s00 = P(0, 0) + r, s11 = P(1, 1) + r, s01 = P(0, 1), det = s00 * s11 - s01 * s01;
	vc_assert(vc_eq(N.innov(0), in[0]) && vc_eq(N.innov(1), in[1]), "innovation");
	VC_SCOPE {
		vc_assume(P(0, 0) >= 0.f && P(1, 1) >= 0.f && P(0, 1) * P(0, 1) <= P(0, 0) * P(1, 1));
		vc_lemma(vc_le(r * r, det), "innovation covariance is regular");
		vc_lemma(r * r >= 0.0624f, "innovation covariance is regular");
		vc_assert(ok, "a valid covariance always permits the update");
	}
	VC_SCOPE {
		vc_assume(!ok);
		for (int i = 0; i < 3; i++) { vc_assert(vc_same(N.X(i), X(i)), "no update with a singular covariance"); for (int j = 0; j < 3; j++) { vc_assert(vc_same(N.P(i, j), P(i, j)) && vc_same(T(i, j), R(i, j)), "no update with a singular covariance"); } }
	}
	VC_SCOPE {
		vc_assume(ok && det > 1e-6f);
		vc_assert(vc_eq(N.S_det_inverse * det, 1.f), "determinant of the inverse innovation covariance");
		vc_assert(vc_eq(N.S_inverse(0, 0) * det, s11) && vc_eq(N.S_inverse(1, 1) * det, s00) && vc_eq(N.S_inverse(0, 1) * det, -s01) && vc_eq(N.S_inverse(1, 0) * det, -s01), "inverse innovation covariance");
		float K[3][2];
		for (int i = 0; i < 3; i++) { K[i][0] = (P(i, 0) * s11 - P(i, 1) * s01) / det; K[i][1] = (P(i, 1) * s00 - P(i, 0) * s01) / det; }
		for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) {
			float p = P(i, j) - K[i][0] * P(0, j) - K[i][1] * P(1, j);
			if (i == j) { p = p < 1e-6f ? 1e-6f : p; }
			vc_assert(vc_eq(N.P(i, j), p), idx_label("updated covariance (I - K H) P, with a floor", i, j));
		} }
		const float tr = (in[0] * (s11 * in[0] - s01 * in[1]) + in[1] * (s00 * in[1] - s01 * in[0])) / det;
		const float sc = tr > 25.f ? sqrtf(25.f / tr) : 1.f;
		for (int i = 0; i < 3; i++) { vc_assert(vc_eq(N.X(i), X(i) - (K[i][0] * in[0] + K[i][1] * in[1]) * sc), idx_label("updated state, innovation limited to five sigma", i, 0)); }
		const float dy = N.X(2) - X(2), c = cosf(dy), s = sinf(dy);
		for (int j = 0; j < 3; j++) {
			vc_assert(vc_eq(T(0, j), R(0, j) * c - R(1, j) * s) && vc_eq(T(1, j), R(0, j) * s + R(1, j) * c) && vc_same(T(2, j), R(2, j)), "attitude turns about the vertical by the yaw correction");
		}
		for (int i = 0; i < 3; i++) { vc_assert(vc_same(y._ahrs_ekf_gsf[m].gyro_bias(i), o->_ahrs_ekf_gsf[m].gyro_bias(i)), "gyro bias untouched"); }
	}
	others(y, *o, m);
}
VC_PROOF(E15_update) { for (int m = 0; m < 5; m++) { VC_SCOPE { update(m); } } }
VC_PROOF(E15_density)
{
	EKFGSF_yaw &y = setup();
	for (int m = 0; m < 5; m++) {
		const auto &N = y._ekf_gsf[m];
		const float d = N.innov(0) * (N.S_inverse(0, 0) * N.innov(0) + N.S_inverse(0, 1) * N.innov(1)) + N.innov(1) * (N.S_inverse(1, 0) * N.innov(0) + N.S_inverse(1, 1) * N.innov(1));
		vc_assume(N.S_det_inverse >= 0.f);
		const float g = y.gaussianDensity(m);
		vc_assert(vc_eq(g * (2.f * PI_), sqrtf(N.S_det_inverse) * expf(-0.5f * d)), "likelihood of the innovation under a normal distribution");
	}
}
VC_PROOF(E15_start)
{
	EKFGSF_yaw &y = setup(); EKFGSF_yaw *o = new EKFGSF_yaw(y);
	y.initialiseEKFGSF();
	vc_assert(!y._ekf_gsf_vel_fuse_started && vc_eq(y._gsf_yaw, 0.f) && fabsf(y._gsf_yaw_variance - PI_ * PI_ / 4.f) < 1e-4f, "nothing is known");
	for (int m = 0; m < 5; m++) {
		const auto &N = y._ekf_gsf[m];
		vc_assert(fabsf(y._model_weights(m) - 0.2f) < 1e-6f, "models are equally likely");
		vc_assert(fabsf(N.X(2) - (-PI_ + (2 * m + 1) * PI_ / 5.f)) < 1e-5f, "yaw hypotheses are spread evenly over the circle");
		vc_assert(vc_same(N.X(0), y._vel_NE(0)) && vc_same(N.X(1), y._vel_NE(1)), "velocity is the last measurement");
		for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) {
			if (i != j) { vc_assert(vc_same(N.P(i, j), 0.f), "uncorrelated"); }
			else if (i < 2) { vc_assert(vc_eq(N.P(i, j), y._vel_accuracy * y._vel_accuracy), "velocity variance is that of the measurement"); }
			else { vc_assert(fabsf(N.P(i, j) - PI_ * PI_ / 25.f) < 1e-4f, "yaw is uncertain by half the spacing"); }
			vc_assert(vc_same(y._ahrs_ekf_gsf[m].R(i, j), o->_ahrs_ekf_gsf[m].R(i, j)), "attitude references are kept");
		} }
	}
}
// ---- one cycle of the bank
static int ups[5], nup, inits, tilts, aligns, order; static bool up_ok[5]; static float dens[5];
static void predict_ekf(EKFGSF_yaw *y, uint8_t m) { preds[npred < 5 ? npred : 0] = m; npred++; vc_havoc(&y->_ekf_gsf[m], sizeof(y->_ekf_gsf[m]), "predicted"); }
static bool update_ekf(EKFGSF_yaw *y, uint8_t m) { ups[nup < 5 ? nup : 0] = m; nup++; vc_havoc(&y->_ekf_gsf[m], sizeof(y->_ekf_gsf[m]), "updated"); return up_ok[m < 5 ? m : 0]; }
static float density(const EKFGSF_yaw *, uint8_t m) { return dens[m < 5 ? m : 0]; }
static void init_gsf(EKFGSF_yaw *y)
{
	inits++; order = order * 10 + 1; y->_ekf_gsf_vel_fuse_started = false;
	vc_havoc(&y->_ekf_gsf, sizeof(y->_ekf_gsf), "started"); vc_havoc(&y->_model_weights, sizeof(y->_model_weights), "w_started");
	y->_gsf_yaw = vc_f32("yaw_started"); y->_gsf_yaw_variance = vc_f32("yawvar_started");
}
static void align_tilt(EKFGSF_yaw *) { tilts++; order = order * 10 + 2; }
static void align_yaw(EKFGSF_yaw *) { aligns++; order = order * 10 + 3; }
static float gain_k;
static float gain(const EKFGSF_yaw *) { return gain_k; }
static EKFGSF_yaw &cycle_setup()
{
	EKFGSF_yaw &y = setup();
	npred = nup = inits = tilts = aligns = order = 0;
	gain_k = vc_f32("gain");
	for (int i = 0; i < 5; i++) { up_ok[i] = vc_bool_i("up_ok", i); dens[i] = vc_f32_i("density", i); vc_assume(dens[i] >= 0.f); preds[i] = ups[i] = -1; }
	vc_replace("EKFGSF_yaw::predictEKF", predict_ekf); vc_replace("EKFGSF_yaw::updateEKF", update_ekf); vc_replace("EKFGSF_yaw::gaussianDensity", density);
	vc_replace("EKFGSF_yaw::initialiseEKFGSF", init_gsf); vc_replace("EKFGSF_yaw::ahrsAlignTilt", align_tilt); vc_replace("EKFGSF_yaw::ahrsAlignYaw", align_yaw); vc_replace("EKFGSF_yaw::ahrsCalcAccelGain", gain);
	return y;
}
VC_PROOF(E15_cycle)
{
	EKFGSF_yaw &y = cycle_setup();
	imuSample imu; vc_havoc(&imu, sizeof(imu), "imu");
	vc_assume(imu.delta_vel_dt > 0.f && imu.delta_ang_dt > 0.f);
	const bool run = vc_bool("run"), tilt = y._ahrs_ekf_gsf_tilt_aligned, newv = y._vel_data_updated, started = y._ekf_gsf_vel_fuse_started;
	const float tas = vc_f32("tas");
	Vector3f bias; vc_havoc(&bias, sizeof(bias), "bias");
	const Vector3f lp = y._ahrs_accel;
	float w[5]; for (int i = 0; i < 5; i++) { w[i] = y._model_weights(i); vc_assume(w[i] >= 0.f); }
	const float yaw0 = y._gsf_yaw, var0 = y._gsf_yaw_variance;
	Vector3f b0[5]; for (int i = 0; i < 5; i++) { b0[i] = y._ahrs_ekf_gsf[i].gyro_bias; }
	y.update(imu, run, tas, bias);
	vc_assert(vc_same(y._true_airspeed, tas) && vc_same(y._delta_ang_dt, imu.delta_ang_dt) && vc_same(y._delta_vel_dt, imu.delta_vel_dt), "inputs are stored");
	const float c = fminf(2.f * imu.delta_vel_dt, 1.f), dm = imu.delta_vel_dt > 0.001f ? imu.delta_vel_dt : 0.001f;
	float a[3];
	for (int i = 0; i < 3; i++) {
		a[i] = imu.delta_vel(i) / dm;
		vc_assert(vc_same(y._delta_ang(i), imu.delta_ang(i)) && vc_same(y._delta_vel(i), imu.delta_vel(i)), "inputs are stored");
		vc_assert(vc_eq(y._ahrs_accel(i), lp(i) * (1.f - c) + a[i] * c), "specific force is low passed");
	}
	VC_SCOPE {
		vc_assume(!tilt);
		const float n = a[0] * a[0] + a[1] * a[1] + a[2] * a[2];
		vc_assert(inits == tilts && inits == y._ahrs_ekf_gsf_tilt_aligned, "filters start with the tilt");
		VC_SCOPE { vc_assume(n > (0.901f * 0.901f) * 96.1704f && n < (1.099f * 1.099f) * 96.1704f); vc_assert(y._ahrs_ekf_gsf_tilt_aligned && inits == 1, "tilt is aligned within a tenth of 1 g"); }
		VC_SCOPE { vc_assume(!(n > (0.899f * 0.899f) * 96.1704f && n < (1.101f * 1.101f) * 96.1704f)); vc_assert(!y._ahrs_ekf_gsf_tilt_aligned && inits == 0, "tilt is not aligned outside a tenth of 1 g"); }
		vc_assert(npred == 0 && nup == 0 && aligns == 0, "nothing runs before that");
	}
	VC_SCOPE {
		vc_assume(tilt);
		vc_assert(npred == 5 && tilts == 0, "every attitude reference is predicted");
		for (int i = 0; i < 5; i++) { vc_assert(preds[i] == i, "every attitude reference is predicted"); }
		vc_assert(vc_same(y._ahrs_accel_fusion_gain, gain_k), "with the common tilt gain");
		vc_assert(!y._vel_data_updated && y._ahrs_ekf_gsf_tilt_aligned, "velocity data is used once");
		const bool begin = run && newv && !started, fuse = run && newv && started;
		vc_assert(nup == (fuse ? 5 : 0) && aligns == begin, "filters run only with new velocity data in flight, after a start");
		const bool all = up_ok[0] && up_ok[1] && up_ok[2] && up_ok[3] && up_ok[4];
		float nw[5], sum = 0.f; int clips = 0;
		for (int i = 0; i < 5; i++) { nw[i] = dens[i] * w[i]; if (nw[i] < 1e-5f) { nw[i] = 1e-5f; clips++; } sum += nw[i]; }
		const bool collapsed = fuse && all && clips == 5;
		vc_assert(inits == (begin || collapsed) && y._ekf_gsf_vel_fuse_started == (begin || (started && run && !collapsed)), "restart when all hypotheses have collapsed, stop when landed");
		VC_SCOPE { vc_assume(begin); vc_assert(order == 13, "start, then align"); for (int m = 0; m < 5; m++) { for (int i = 0; i < 3; i++) { vc_assert(vc_same(y._ahrs_ekf_gsf[m].gyro_bias(i), bias(i)), "gyro bias starts from the main filter"); } } }
		VC_SCOPE { vc_assume(!begin); for (int m = 0; m < 5; m++) { for (int i = 0; i < 3; i++) { vc_assert(vc_same(y._ahrs_ekf_gsf[m].gyro_bias(i), b0[m](i)), "gyro bias kept"); } } }
		VC_SCOPE {
			vc_assume(fuse && all && !collapsed);
			float s1 = 0.f;
			for (int i = 0; i < 5; i++) { vc_assert(vc_eq(y._model_weights(i) * sum, nw[i]), "weights follow the likelihood of each model, with a floor"); s1 += y._model_weights(i); }
			vc_assert(vc_eq(s1, 1.f), "weights sum to one");
		}
		VC_SCOPE { vc_assume(!(begin || collapsed) && !(fuse && all)); for (int i = 0; i < 5; i++) { vc_assert(vc_same(y._model_weights(i), w[i]), "weights are kept without an update"); } }
		// composite
		float n = 0.f, e = 0.f, v = 0.f;
		for (int i = 0; i < 5; i++) { n += y._model_weights(i) * cosf(y._ekf_gsf[i].X(2)); e += y._model_weights(i) * sinf(y._ekf_gsf[i].X(2)); }
		vc_assert(vc_eq(y._gsf_yaw, atan2f(e, n)), "composite yaw is the direction of the weighted mean vector");
		for (int i = 0; i < 5; i++) { const float d = matrix::wrap_pi(y._ekf_gsf[i].X(2) - y._gsf_yaw); v += y._model_weights(i) * (y._ekf_gsf[i].P(2, 2) + d * d); }
		vc_assert(vc_eq(y._gsf_yaw_variance, v), "composite variance includes the spread of the models");
	}
}
VC_PROOF(E15_reports)
{
	EKFGSF_yaw &y = setup();
	float a = -1.f, b = -2.f, c = -1.f, d = -2.f, yw[5] = {}, n[5] = {}, e[5] = {}, w[5] = {};
	const bool s = y._ekf_gsf_vel_fuse_started;
	vc_assert(y.getYawData(&a, &b) == s && y.getLogData(&c, &d, yw, n, e, w) == s, "available once velocity is being fused");
	vc_assert(vc_same(a, s ? y._gsf_yaw : -1.f) && vc_same(b, s ? y._gsf_yaw_variance : -2.f) && vc_same(c, a) && vc_same(d, b), "composite yaw and variance, else nothing is written");
	for (int i = 0; i < 5; i++) {
		vc_assert(vc_same(yw[i], s ? y._ekf_gsf[i].X(2) : 0.f) && vc_same(n[i], s ? y._ekf_gsf[i].innov(0) : 0.f) && vc_same(e[i], s ? y._ekf_gsf[i].innov(1) : 0.f) && vc_same(w[i], s ? y._model_weights(i) : 0.f), "values of each model");
	}
	Vector2f v; vc_havoc(&v, sizeof(v), "vel"); const float acc = vc_f32("accuracy");
	y.setVelocity(v, acc);
	vc_assert(vc_same(y._vel_NE(0), v(0)) && vc_same(y._vel_NE(1), v(1)) && vc_same(y._vel_accuracy, acc) && y._vel_data_updated, "new velocity data");
}
// ---- how the main filter feeds it
static int gups, sets; static imuSample g_imu; static bool g_run; static float g_tas, s_acc; static Vector3f g_bias; static Vector2f s_vel;
static void g_update(EKFGSF_yaw *, const imuSample &s, bool run, float tas, const Vector3f &b) { gups = gups * 10 + 1; g_imu = s; g_run = run; g_tas = tas; g_bias = b; }
static void g_set(EKFGSF_yaw *, const Vector2f &v, float a) { sets++; gups = gups * 10 + 2; s_vel = v; s_acc = a; }
VC_PROOF(E15_feed)
{
	vc_mode("real");
	Ekf &e = any_ekf();
	gups = sets = 0;
	vc_replace("EKFGSF_yaw::update", g_update); vc_replace("EKFGSF_yaw::setVelocity", g_set);
	const bool finite = vc_bool("finite");
	if (!finite) { e._gps_sample_delayed.vel(1) = NAN; }
	vc_assume(e._dt_ekf_avg > 1e-4f);
	e.runYawEKFGSF();
	const auto &g = e._gps_sample_delayed;
	const bool use = e._gps_data_ready && g.sacc > 1.1920929e-7f && finite;
	vc_assert(gups == (use ? 12 : 1) && sets == use, "IMU data always, velocity when there is a fix with a velocity and its accuracy");
	vc_assert(g_run == e._control_status.flags.in_air, "filters run in flight");
	const bool old = e._airspeed_sample_delayed.time_us + 1000000 < e._time_last_imu;
	vc_assert(vc_same(g_tas, old && e._control_status.flags.fixed_wing ? e._params.EKFGSF_tas_default : e._airspeed_sample_delayed.true_airspeed), "airspeed, or its default for a fixed wing without measurement");
	for (int i = 0; i < 3; i++) { vc_assert(vc_eq(g_bias(i) * e._dt_ekf_avg, e._state.delta_ang_bias(i)) && vc_same(g_imu.delta_ang(i), e._imu_sample_delayed.delta_ang(i)) && vc_same(g_imu.delta_vel(i), e._imu_sample_delayed.delta_vel(i)), "delayed IMU data and gyro bias"); }
	VC_SCOPE { vc_assume(use); vc_assert(vc_same(s_vel(0), g.vel(0)) && vc_same(s_vel(1), g.vel(1)) && vc_same(s_acc, g.sacc), "GPS velocity with the accuracy of velocity"); }
}
