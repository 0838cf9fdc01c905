// E12: heading alignment, yaw resets and the rotation utilities they use
#include "output.h"

static Ekf &setup()
{
	vc_mode("real"); vc_tol(1e-3, 1e-3);
	return any_ekf();
}
// ---- rotation utilities
static void rot_axis(int a, float c, float s, float R[3][3])
{
	const int j = (a + 1) % 3, k = (a + 2) % 3;
	for (int i = 0; i < 3; i++) { for (int l = 0; l < 3; l++) { R[i][l] = 0.f; } }
	R[a][a] = 1.f; R[j][j] = c; R[k][k] = c; R[j][k] = -s; R[k][j] = s;
}
static void mul3(const float A[3][3], const float B[3][3], float C[3][3])
{
	for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { C[i][j] = 0.f; for (int k = 0; k < 3; k++) { C[i][j] += A[i][k] * B[k][j]; } } }
}
VC_PROOF(E12_utils)
{
	vc_mode("poly"); vc_tol(1e-4, 1e-4);
	const float yaw = vc_f32_in("yaw", -3.2f, 3.2f), roll = vc_f32_in("roll", -3.2f, 3.2f), pitch = vc_f32_in("pitch", -3.2f, 3.2f);
	float A[3][3], B[3][3], C[3][3], D[3][3];
	rot_axis(2, cosf(yaw), sinf(yaw), A); rot_axis(0, cosf(roll), sinf(roll), B); mul3(A, B, C); rot_axis(1, cosf(pitch), sinf(pitch), B); mul3(C, B, D);
	const Dcmf R = taitBryan312ToRotMat(Vector3f(yaw, roll, pitch));
	for (int i = 0; i < 9; i++) { vc_assert(vc_eq(R(i / 3, i % 3), D[i / 3][i % 3]), "312 sequence: yaw, then roll, then pitch"); }
	float q[4], T[3][3];
	for (int i = 0; i < 4; i++) { vc_hint(-1, 1); q[i] = vc_f32_i("q", i); }
	rot_matrix(q, T);
	const Dcmf I = quatToInverseRotMat(Quatf(q[0], q[1], q[2], q[3]));
	for (int i = 0; i < 9; i++) { vc_assert(vc_eq(I(i % 3, i / 3), T[i / 3][i % 3]), "inverse rotation matrix of a quaternion"); }
	const Quatf Q(q[0], q[1], q[2], q[3]);
	Dcmf M; vc_havoc(&M, sizeof(M), "M");
	for (int i = 0; i < 9; i++) { M(i / 3, i % 3) = T[i / 3][i % 3]; }
	vc_assert(vc_eq(getEuler321Yaw(M), atan2f(T[1][0], T[0][0])) && vc_eq(getEuler321Yaw(Q), atan2f(T[1][0], T[0][0])), "321 yaw of a rotation matrix and of a quaternion");
	vc_assert(vc_eq(getEuler312Yaw(M), atan2f(-T[0][1], T[1][1])) && vc_eq(getEuler312Yaw(Q), atan2f(-T[0][1], T[1][1])), "312 yaw of a rotation matrix and of a quaternion");
}
VC_PROOF(E12_kahan)
{
	vc_mode("real"); vc_tol(1e-3, 1e-3);
	const float s = vc_f32("sum"), in = vc_f32("input"), a0 = vc_f32("acc");
	float a = a0;
	const float t = kahanSummation(s, in, a);
	vc_assert(vc_eq(t - a, s + in - a0), "sum and compensation together gain exactly the input");
	vc_assert(vc_eq(t, s + in - a0), "the compensated input is added");
}
// a new yaw keeps the tilt: third row kept, heading of the matrix is the new yaw
static void yaw_update(bool use321)
{
	vc_mode("poly"); vc_tol(2e-3, 1e-3);
	vc_hint(-0.6, 0.6); const float a = vc_f32("a"); vc_hint(-0.6, 0.6); const float b = vc_f32("b");
	vc_assume(a * a + b * b < 1.f);
	const bool neg = vc_bool("negative");
	const float root = sqrtf(1.f - a * a - b * b), c = neg ? -root : root;
	const float yaw = vc_f32_in("yaw", -3.1f, 3.1f);
	// third row (r20, r21, r22) of unit length; the other rows of the argument are irrelevant
	Dcmf R; vc_havoc(&R, sizeof(R), "R");
	if (use321) { R(2, 0) = c; R(2, 1) = a; R(2, 2) = b; vc_assume(fabsf(c) < fabsf(a)); }
	else { R(2, 0) = a; R(2, 1) = c; R(2, 2) = b; vc_assume(!(fabsf(a) < fabsf(c))); }
	vc_assume(!(fabsf(asinf(-R(2, 0)) - (float)M_PI_2) < 1e-3f) && !(fabsf(asinf(-R(2, 0)) + (float)M_PI_2) < 1e-3f));
	vc_assume(a * a + b * b > 1e-3f);
	const Dcmf N = updateYawInRotMat(yaw, R);
	for (int i = 0; i < 3; i++) { vc_assert(vc_eq(N(2, i), R(2, i)), "tilt is kept"); }
	const float cy = cosf(yaw), sy = sinf(yaw), len = sqrtf(a * a + b * b);
	if (use321) {
		vc_assert(vc_eq(N(0, 0), cy * len) && vc_eq(N(1, 0), sy * len), "yaw is the new one");
		vc_assert(vc_eq(N(0, 1) * len, -c * a * cy - b * sy) && vc_eq(N(1, 1) * len, b * cy - c * a * sy), "the matrix is a rotation");
		vc_assert(vc_eq(N(0, 2) * len, -c * b * cy + a * sy) && vc_eq(N(1, 2) * len, -a * cy - c * b * sy), "the matrix is a rotation");
	} else {
		vc_assert(vc_eq(N(0, 1), -sy * len) && vc_eq(N(1, 1), cy * len), "yaw is the new one");
		vc_assert(vc_eq(N(0, 0) * len, b * cy + c * a * sy) && vc_eq(N(1, 0) * len, b * sy - c * a * cy), "the matrix is a rotation");
		vc_assert(vc_eq(N(0, 2) * len, -a * cy + c * b * sy) && vc_eq(N(1, 2) * len, -a * sy - c * b * cy), "the matrix is a rotation");
	}
}
VC_PROOF(E12_yaw_update_321) { yaw_update(true); }
VC_PROOF(E12_yaw_update_312) { yaw_update(false); }

// ---- initial tilt
VC_PROOF(E12_tilt)
{
	Ekf &e = setup();
	const Vector3f a = e._accel_lpf.getState(), g = e._gyro_lpf.getState();
	const float an = sqrtf(a(0) * a(0) + a(1) * a(1) + a(2) * a(2)), gn = sqrtf(g(0) * g(0) + g(1) * g(1) + g(2) * g(2));
	const stateSample s = e._state;
	const bool ok = e.initialiseTilt();
	const bool still = an >= 0.8f * 9.80665f && an <= 1.2f * 9.80665f && gn <= 15.f * (float)M_PI / 180.f;
	vc_assert(ok == still, "tilt is initialised only from a resting vehicle");
	VC_SCOPE { vc_assume(!ok); frame_state(e, s, "state kept"); }
	VC_SCOPE {
		vc_assume(ok);
		const float pitch = asinf(a(0) / an), roll = atan2f(-(a(1) / an), -(a(2) / an));
		const float cp = cosf(pitch / 2), sp = sinf(pitch / 2), cr = cosf(roll / 2), sr = sinf(roll / 2);
		const float q[4] = {cr * cp, sr * cp, cr * sp, -sr * sp};
		for (int i = 0; i < 4; i++) { vc_assert(vc_eq(e._state.quat_nominal(i), q[i]), "orientation: gravity along the measured acceleration, yaw zero"); }
		const Dcmf R(e._state.quat_nominal);
		for (int i = 0; i < 9; i++) { vc_assert(vc_eq(e._R_to_earth(i / 3, i % 3), R(i / 3, i % 3)), "rotation matrix of the orientation"); }
		for (int i = 4; i < 24; i++) { vc_assert(vc_same(state_at(e._state, i), state_at(s, i)), "other states kept"); }
	}
}

// ---- yaw resets
static int yaws, magcovs, stops; static float yaw_new, yaw_var; static bool yaw_buf; static float decl;
static matrix::Dcmf *level, *turned;
static matrix::Dcmf zero_yaw(float, const matrix::Dcmf &) { return *level; }
static void yaw_reset(Ekf *e, float y, float v, bool b) { yaws++; yaw_new = y; yaw_var = v; yaw_buf = b; e->_R_to_earth = *turned; }
static void mag_cov(Ekf *) { magcovs++; }
static void mag_stop(Ekf *) { stops++; }
static float declination(Ekf *) { return decl; }
static Dcmf level_, turned_;
static void expect_yaw()
{
	yaws = magcovs = stops = 0;
	vc_havoc(&level_, sizeof(level_), "R_level"); vc_havoc(&turned_, sizeof(turned_), "R_turned"); level = &level_; turned = &turned_;
	decl = vc_f32_in("declination", -3.f, 3.f);
	vc_replace("updateYawInRotMat", zero_yaw); vc_replace("Ekf::resetQuatStateYaw", yaw_reset); vc_replace("Ekf::resetMagCov", mag_cov);
	vc_replace("Ekf::stopMagFusion", mag_stop); vc_replace("Ekf::getMagDeclination", declination);
}
VC_PROOF(E12_mag_heading)
{
	Ekf &e = setup(); expect_yaw();
	Vector3f m; vc_havoc(&m, sizeof(m), "mag_init");
	const bool inc = vc_bool("increase_yaw_var"), buf = vc_bool("update_buffer");
	const bool again = e._imu_sample_delayed.time_us == e._flt_mag_align_start_time;
	const int type = e._params.mag_fusion_type;
	const uint64_t t0 = e._flt_mag_align_start_time;
	const stateSample s = e._state;
	const bool ev = e._control_status.flags.ev_yaw;
	const Quatf qe = e._ev_sample_delayed.quat;
	const bool r = e.resetMagHeading(m, inc, buf);
	const bool none = !again && type >= 5, vis = !again && !none && ev, mag = !again && !none && !ev && type <= 2;
	const bool indoor = !again && !none && !vis && !mag && type == 4 && e._is_yaw_fusion_inhibited;
	vc_assert(r == (again || vis || mag || indoor), "heading is available from vision, the magnetometer, or not needed");
	vc_assert(stops == none, "without any magnetometer use its fusion is stopped");
	vc_assert(yaws == (vis || mag) && magcovs == yaws, "yaw and field covariance are reset when there is an observation");
	vc_assert(e._flt_mag_align_start_time == (vis || mag ? e._imu_sample_delayed.time_us : t0), "time of alignment");
	VC_SCOPE {
		vc_assume(vis || mag);
		vc_assert(yaw_buf == buf, "output history follows as requested");
		float h[3];
		for (int i = 0; i < 3; i++) { h[i] = level_(i, 0) * m(0) + level_(i, 1) * m(1) + level_(i, 2) * m(2); }
		vc_assert(vc_eq(yaw_new, vis ? getEuler312Yaw(qe) : -atan2f(h[1], h[0]) + decl), "yaw points the measured field along magnetic north plus declination, or is that of vision");
		const float vn = fmaxf(e._ev_sample_delayed.angVar, 1e-4f), mn = fmaxf(e._params.mag_heading_noise, 0.01f);
		vc_assert(vc_eq(yaw_var, inc ? (vis ? vn : mn * mn) : 0.f), "with the variance of its source");
		for (int i = 0; i < 3; i++) { vc_assert(vc_eq(e._state.mag_I(i), turned_(i, 0) * m(0) + turned_(i, 1) * m(1) + turned_(i, 2) * m(2)), "earth field is the measured one in the new orientation"); }
	}
	for (int i = 0; i < 24; i++) { if (i < 16 || i > 18) { vc_assert(vc_same(state_at(e._state, i), state_at(s, i)), "other states kept"); } }
	VC_SCOPE { vc_assume(!(vis || mag)); frame_state(e, s, "state kept"); }
}
VC_PROOF(E12_declination_source)
{
	Ekf &e = setup();
	const bool geo = e._params.mag_declination_source & MASK_USE_GEO_DECL;
	vc_assume(e._NED_origin_initialised || !isnan(e._mag_declination_gps));
	const float d = e.getMagDeclination();
	vc_assert(vc_eq(d, e._control_status.flags.mag_aligned_in_flight ? atan2f(e._state.mag_I(1), e._state.mag_I(0)) : geo ? e._mag_declination_gps : e._params.mag_declination_deg * (float)M_PI / 180.f), "declination: estimated field in flight, else the world model, else the parameter");
}
VC_PROOF(E12_declination_default)
{
	Ekf &e = setup();
	e._NED_origin_initialised = false; e._mag_declination_gps = NAN; e._control_status.flags.mag_aligned_in_flight = false;
	vc_assert(vc_eq(e.getMagDeclination(), e._params.mag_declination_deg * (float)M_PI / 180.f), "without a position the parameter is used");
}
static int maghdgs; static bool maghdg_ok;
static bool mag_hdg(Ekf *, const Vector3f &, bool inc, bool buf) { maghdgs++; return maghdg_ok && inc && buf; }
VC_PROOF(E12_gps_course)
{
	Ekf &e = setup(); expect_yaw();
	maghdgs = 0; maghdg_ok = vc_bool("maghdg_ok"); vc_replace("Ekf::resetMagHeading", mag_hdg);
	const gpsSample g = e._gps_sample_delayed; const stateSample s = e._state;
	const auto f = e._control_status.flags;
	const float vn = g.vel(0), ve = g.vel(1), sp = sqrtf(vn * vn + ve * ve);
	const float sv = g.sacc * g.sacc + e.P(4, 4) + e.P(5, 5);
	const uint8_t n0 = e._num_bad_flight_yaw_events;
	const bool req0 = e._velpos_reset_request;
	const Dcmf R0 = e._R_to_earth; const Vector3f m = e._mag_sample_delayed.mag;
	const uint64_t t0 = e._flt_mag_align_start_time;
	const float err = matrix::wrap_pi(atan2f(ve, vn) - atan2f(s.vel(1), s.vel(0)));
	const bool fast = sp > 5.f && g.sacc < 0.15f * sp;
	const bool bad = fabsf(err) > 0.5f && e._gps_vel_test_ratio(0) > 1.f && f.gps;
	warning_event_status_u w = e._warning_events; const information_event_status_u inf = e._information_events;
	const bool r = e.realignYawGPS();
	const auto n = e._control_status.flags;
	w.flags.bad_yaw_using_gps_course = w.flags.bad_yaw_using_gps_course || (fast && (bad || !f.yaw_align));
	w.flags.stopping_mag_use = w.flags.stopping_mag_use || (n.mag_fault && !f.mag_fault);
	vc_assert(e._warning_events.value == w.value && e._information_events.value == inf.value, "a bad heading, and no longer using the magnetometer, are announced");
	VC_SCOPE {
		vc_assume(!fast);
		vc_assert(maghdgs == 1 && r == maghdg_ok && yaws == 0, "a slow or inaccurate GPS velocity leaves alignment to the magnetometer");
		vc_assert(n.mag_fault == f.mag_fault && n.mag_aligned_in_flight == f.mag_aligned_in_flight && e._num_bad_flight_yaw_events == n0 && e._velpos_reset_request == req0 && e._flt_mag_align_start_time == t0, "nothing else changes");
	}
	VC_SCOPE {
		vc_assume(fast);
		vc_assert(r && maghdgs == 0 && magcovs == 1 && e._flt_mag_align_start_time == e._imu_sample_delayed.time_us, "the field is aligned");
		vc_assert(e._num_bad_flight_yaw_events == (uint8_t)(n0 + bad), "bad yaw is counted");
		const bool use = bad || !f.yaw_align;
		vc_assert(yaws == use, "yaw is reset when bad or not yet aligned");
		vc_assert(n.mag_fault == (f.mag_fault || (use && f.mag_aligned_in_flight && e._num_bad_flight_yaw_events >= 2)), "a repeatedly bad magnetometer is declared faulty");
		vc_assert(n.mag_aligned_in_flight == (f.mag_aligned_in_flight || use), "first in-flight alignment is recorded");
		vc_assert(e._velpos_reset_request == (use ? bad : req0), "velocity and position are reset after a bad yaw");
		for (int i = 0; i < 3; i++) {
			const Dcmf &R = use ? *new Dcmf(s.quat_nominal) : R0;
			vc_assert(vc_eq(e._state.mag_I(i), R(i, 0) * m(0) + R(i, 1) * m(1) + R(i, 2) * m(2)), "earth field is the measured one");
			vc_assert(vc_eq(e._state.mag_B(i), use ? 0.f : s.mag_B(i)), "body field restarts from zero with the yaw");
		}
		VC_SCOPE {
			vc_assume(use);
			const float cur = getEuler321Yaw(s.quat_nominal), w0 = s.wind_vel(0), w1 = s.wind_vel(1);
			vc_assert(vc_eq(yaw_new, !f.mag_aligned_in_flight ? cur + err : f.wind ? atan2f(ve - w1, vn - w0) : atan2f(ve, vn)), "yaw is corrected by the course error, or points along the (air-relative) velocity");
			const float sine = clampf(sqrtf(sv) / sp, 0.f, 1.f), a = asinf(sine);
			vc_assert(vc_eq(yaw_var, a * a) && yaw_buf, "with the variance of the course");
		}
	}
	for (int i = 0; i < 24; i++) { if (i < 16 || i > 21) { vc_assert(vc_same(state_at(e._state, i), state_at(s, i)), "other states kept"); } }
}
static bool gsf_ok; static float gsf_yaw, gsf_var; static int rv, rp;
static bool gsf(const EKFGSF_yaw *, float *y, float *v) { if (gsf_ok) { *y = gsf_yaw; *v = gsf_var; } return gsf_ok; }
static void r_vel(Ekf *) { rv++; } static void r_pos(Ekf *) { rp++; }
VC_PROOF(E12_emergency_yaw)
{
	Ekf &e = setup(); expect_yaw();
	gsf_ok = vc_bool("gsf_ok"); gsf_yaw = vc_f32("gsf_yaw"); gsf_var = vc_f32("gsf_var"); rv = rp = 0;
	vc_replace("EKFGSF_yaw::getYawData", gsf); vc_replace("Ekf::resetVelocity", r_vel); vc_replace("Ekf::resetHorizontalPosition", r_pos);
	const auto f = e._control_status.flags;
	const uint64_t t0 = e._flt_mag_align_start_time;
	const float lim = e._params.EKFGSF_yaw_err_max;
	warning_event_status_u w = e._warning_events; information_event_status_u inf = e._information_events;
	const bool r = e.resetYawToEKFGSF();
	const auto n = e._control_status.flags;
	const bool conv = gsf_ok && gsf_var < lim * lim, nomag = e._params.mag_fusion_type == 5;
	if (conv && nomag) { inf.flags.yaw_aligned_to_imu_gps = true; }
	if (conv && !nomag) { w.flags.emergency_yaw_reset_mag_stopped = true; }
	vc_assert(e._warning_events.value == w.value && e._information_events.value == inf.value, "the alignment is announced");
	vc_assert(r == conv, "the independent yaw estimate is used only once converged");
	vc_assert(yaws == conv && rv == conv && rp == conv, "yaw, velocity and position are reset together");
	vc_assert(vc_implies(conv, vc_same(yaw_new, gsf_yaw) && vc_same(yaw_var, gsf_var) && yaw_buf), "to the estimate and its variance");
	vc_assert(e._flt_mag_align_start_time == (conv ? e._imu_sample_delayed.time_us : t0), "time of alignment");
	vc_assert(n.yaw_align == (f.yaw_align || conv) && n.mag_fault == (f.mag_fault || (conv && !nomag)), "the magnetometer is no longer used");
}
// in exact IEEE arithmetic: the compensation is exactly what rounding dropped from the sum
VC_PROOF(E12_kahan_exact)
{
	vc_mode("fp");
	const float s = vc_f32("sum"), in = vc_f32("input");
	vc_assume(s >= 1.f && s < 2.f && in >= 0.0001f && in <= 0.0002f);
	float a = 0.f;
	const float t = kahanSummation(s, in, a);
	vc_assert((double)t - (double)a == (double)s + (double)in, "what rounding drops is carried to the next summation");
}
