// E10: output predictor: strapdown integration to the current time, tracking the filter at the delayed horizon
#include "output.h"

static constexpr float G0 = 9.80665f;
static Ekf &setup()
{
	vc_mode("real"); vc_tol(1e-3, 1e-3);
	return any_ekf();
}

static int vert_n, out_n;
static float vert_corr;
static Vector3f vel_corr, pos_corr;
static void vert(Ekf *, float c) { vert_n++; vert_corr = c; }
static void out(Ekf *, const Vector3f &v, const Vector3f &p) { out_n++; vel_corr = v; pos_corr = p; }

static void step(bool updated)
{
	Ekf &e = setup();
	output_cursors(e, 3, 1, 2);
	vert_n = out_n = 0;
	vc_replace("Ekf::applyCorrectionToVerticalOutputBuffer", vert);
	vc_replace("Ekf::applyCorrectionToOutputBuffer", out);
	imuSample imu; vc_havoc(&imu, sizeof(imu), "imu");
	vc_assume(e._dt_imu_avg > 0.f && e._dt_ekf_avg > 0.f && imu.delta_ang_dt > 0.f && imu.delta_vel_dt >= 0.f);
	vc_assume(e._dt_ekf_avg < 10.f);
	e._imu_updated = updated;
	symmetric_P(e);
	const stateSample s = e._state;
	const outputSample o = e._output_new;
	const outputVert ov = e._output_vert_new;
	const Dcmf R0 = e._R_to_earth_now;
	const Vector3f corr = e._delta_angle_corr, vint = e._vel_err_integ, pint = e._pos_err_integ, deriv = e._vel_deriv, rel = e._vel_imu_rel_body_ned;
	const Vector3f track = e._output_tracking_error;
	const float yawd = e._yaw_delta_ef, lpf = e._yaw_rate_lpf_ef;
	const float k = e._dt_imu_avg / e._dt_ekf_avg;
	const outputSample d = out_store[0];            // becomes the oldest entry when slot 2 is overwritten
	const outputVert dv0 = vert_store[0];
	e.calculateOutputStates(imu);
	Vector3f da, dvb;
	for (int i = 0; i < 3; i++) { da(i) = imu.delta_ang(i) - s.delta_ang_bias(i) * k + corr(i); dvb(i) = imu.delta_vel(i) - s.delta_vel_bias(i) * k; }
	const float spin = da(0) * R0(2, 0) + da(1) * R0(2, 1) + da(2) * R0(2, 2);
	vc_assert(vc_eq(e._yaw_delta_ef, yawd + spin), "yaw about the vertical accumulates");
	vc_assert(vc_eq(e._yaw_rate_lpf_ef, 0.95f * lpf + 0.05f * spin / imu.delta_ang_dt), "filtered yaw rate");
	const Quatf q = (o.quat_nominal * Quatf(AxisAnglef(da))).normalized();
	const Dcmf R(q);
	float a[3];
	for (int i = 0; i < 3; i++) { a[i] = R(i, 0) * dvb(0) + R(i, 1) * dvb(1) + R(i, 2) * dvb(2) + (i == 2 ? G0 * imu.delta_vel_dt : 0.f); }
	const outputSample &n = e._output_new;
	const outputVert &nv = e._output_vert_new;
	for (int i = 0; i < 4; i++) { vc_assert(vc_eq(n.quat_nominal(i), q(i)), "orientation is rotated by the corrected angle increment"); }
	for (int i = 0; i < 3; i++) {
		for (int j = 0; j < 3; j++) { vc_assert(vc_eq(e._R_to_earth_now(i, j), R(i, j)), "rotation matrix of the current orientation"); }
		vc_assert(vc_eq(n.vel(i), o.vel(i) + a[i]), "velocity integrates specific force plus gravity");
		vc_assert(vc_eq(n.pos(i), o.pos(i) + (o.vel(i) + a[i] + o.vel(i)) * 0.5f * imu.delta_vel_dt), "position integrates velocity by the trapezoid rule");
		vc_assert(vc_eq(e._vel_deriv(i) * (imu.delta_vel_dt > 1e-4f ? imu.delta_vel_dt : 1.f), imu.delta_vel_dt > 1e-4f ? a[i] : deriv(i)), "acceleration");
	}
	vc_assert(n.time_us == imu.time_us, "output carries the time of the sample");
	vc_assert(vc_eq(nv.vert_vel, ov.vert_vel + a[2]), "alternative vertical velocity");
	vc_assert(vc_eq(nv.vert_vel_integ, ov.vert_vel_integ + (2.f * o.vel(2) + a[2]) * 0.5f * imu.delta_vel_dt), "alternative vertical position");
	vc_assert(vc_eq(nv.dt, ov.dt + imu.delta_vel_dt), "accumulated time");
	float w[3];
	for (int i = 0; i < 3; i++) { const int j = (i + 1) % 3, l = (i + 2) % 3; w[i] = imu.delta_ang(j) * e._params.imu_pos_body(l) - imu.delta_ang(l) * e._params.imu_pos_body(j); }
	for (int i = 0; i < 3; i++) {
		const float v = R(i, 0) * w[0] + R(i, 1) * w[1] + R(i, 2) * w[2];
		vc_assert(vc_eq(e._vel_imu_rel_body_ned(i) * (imu.delta_ang_dt > 1e-4f ? imu.delta_ang_dt : 1.f), imu.delta_ang_dt > 1e-4f ? v : rel(i)), "velocity of the IMU relative to the body");
	}
	vc_assert(vert_n == (updated ? 1 : 0) && out_n == vert_n, "history is corrected once per filter update");
	if (!updated) {
		for (int i = 0; i < 3; i++) { vc_assert(vc_same(e._delta_angle_corr(i), corr(i)) && vc_same(e._vel_err_integ(i), vint(i)) && vc_same(e._pos_err_integ(i), pint(i)) && vc_same(e._output_tracking_error(i), track(i)), "no correction between filter updates"); }
		vc_assert(e._output_buffer._head == 1 && e._output_vert_buffer._head == 1, "history untouched between filter updates");
	} else {
		vc_assert(e._output_buffer._head == 2 && e._output_vert_buffer._head == 2 && e._output_buffer._tail == 0 && e._output_vert_buffer._tail == 0, "the output is stored in the history");
		frame_output(e._output_buffer.get_newest(), n, true, true, true, "the stored output is the current one");
		vc_assert(vc_same(vert_store[2].vert_vel, nv.vert_vel) && vc_same(vert_store[2].vert_vel_integ, nv.vert_vel_integ) && vc_same(vert_store[2].dt, nv.dt), "the stored vertical output is the current one");
		const Quatf qe = (s.quat_nominal.inversed() * d.quat_nominal).normalized();
		const float delay = fmaxf((imu.time_us - e._imu_sample_delayed.time_us) * 1e-6f, e._dt_imu_avg);
		const float gain = 0.5f * e._dt_imu_avg / delay;
		float err[3];
		for (int i = 0; i < 3; i++) {
			err[i] = (qe(0) >= 0.f ? -2.f : 2.f) * qe(i + 1);
			vc_assert(vc_eq(e._delta_angle_corr(i), err[i] * gain), "attitude correction tracks the filter at the delayed horizon");
		}
		vc_assert(vc_eq(e._output_tracking_error(0), sqrtf(err[0] * err[0] + err[1] * err[1] + err[2] * err[2])), "attitude tracking error");
		const float vg = e._dt_ekf_avg / clampf(e._params.vel_Tau, e._dt_ekf_avg, 10.f), pg = e._dt_ekf_avg / clampf(e._params.pos_Tau, e._dt_ekf_avg, 10.f);
		vc_assert(vc_eq(vert_corr, (s.pos(2) - dv0.vert_vel_integ) * pg + (s.vel(2) - dv0.vert_vel) * vg * 1.1f), "vertical correction gains");
		float ve[3], pe[3];
		for (int i = 0; i < 3; i++) {
			ve[i] = s.vel(i) - d.vel(i); pe[i] = s.pos(i) - d.pos(i);
			vc_assert(vc_eq(e._vel_err_integ(i), vint(i) + ve[i]) && vc_eq(e._pos_err_integ(i), pint(i) + pe[i]), "tracking errors are integrated");
			vc_assert(vc_eq(vel_corr(i), ve[i] * vg + (vint(i) + ve[i]) * vg * vg * 0.1f), "velocity correction");
			vc_assert(vc_eq(pos_corr(i), pe[i] * pg + (pint(i) + pe[i]) * pg * pg * 0.1f), "position correction");
		}
		vc_assert(vc_eq(e._output_tracking_error(1), sqrtf(ve[0] * ve[0] + ve[1] * ve[1] + ve[2] * ve[2])), "velocity tracking error");
		vc_assert(vc_eq(e._output_tracking_error(2), sqrtf(pe[0] * pe[0] + pe[1] * pe[1] + pe[2] * pe[2])), "position tracking error");
	}
	frame_state(e, s, "filter state untouched");
	frame_P(e, "covariance untouched");
}
VC_PROOF(E10_predict) { step(false); }
VC_PROOF(E10_track) { step(true); }

// ---- corrections of the history
static void history(unsigned n, unsigned head, unsigned tail)
{
	Ekf &e = setup();
	output_cursors(e, n, head, tail);
	outputSample o[8]; outputVert v[8];
	for (unsigned i = 0; i < n; i++) { o[i] = out_store[i]; v[i] = vert_store[i]; }
	const float c = vc_f32("vert_correction");
	Vector3f vc, pc; vc_havoc(&vc, sizeof(vc), "vel_correction"); vc_havoc(&pc, sizeof(pc), "pos_correction");
	e.applyCorrectionToOutputBuffer(vc, pc);
	for (unsigned i = 0; i < n; i++) {
		for (int k = 0; k < 3; k++) { vc_assert(vc_eq(out_store[i].vel(k), o[i].vel(k) + vc(k)) && vc_eq(out_store[i].pos(k), o[i].pos(k) + pc(k)), "every stored output is corrected"); }
		frame_output(out_store[i], o[i], true, false, false, "orientation and time are kept");
	}
	frame_output(e._output_new, out_store[head], true, true, true, "the current output is the corrected newest one");
	e.applyCorrectionToVerticalOutputBuffer(c);
	// live entries from the oldest to the newest
	unsigned i = tail;
	float vv = v[i].vert_vel + c, pos = v[i].vert_vel_integ;
	vc_assert(vc_eq(vert_store[i].vert_vel, vv) && vc_eq(vert_store[i].vert_vel_integ, pos), "the oldest vertical velocity is corrected, its position kept");
	while (i != head) {
		const unsigned j = (i + 1) % n;
		const float vn = v[j].vert_vel + c;
		pos += (vv + vn) * 0.5f * v[j].dt;
		vv = vn;
		vc_assert(vc_eq(vert_store[j].vert_vel, vv), "every stored vertical velocity is corrected");
		vc_assert(vc_eq(vert_store[j].vert_vel_integ, pos), "and integrated again");
		vc_assert(vc_same(vert_store[j].dt, v[j].dt) && vert_store[j].time_us == v[j].time_us, "times are kept");
		i = j;
	}
	vc_assert(vc_same(e._output_vert_new.vert_vel, vert_store[head].vert_vel) && vc_same(e._output_vert_new.vert_vel_integ, vert_store[head].vert_vel_integ), "the current vertical output is the corrected newest one");
	vc_assert(vc_eq(e._output_vert_new.dt, 0.f), "time accumulation restarts");
}
static void histories(unsigned n) { for (unsigned h = 0; h < n; h++) { for (unsigned t = 0; t < n; t++) { if (h != t) { VC_SCOPE { history(n, h, t); } } } } }
VC_PROOF(E10_history_3_whole) { histories(3); }

// ---- forced alignment
static void align(unsigned n, unsigned head, unsigned tail)
{
	Ekf &e = setup();
	output_cursors(e, n, head, tail);
	outputSample o[8];
	for (unsigned i = 0; i < n; i++) { o[i] = out_store[i]; }
	const stateSample s = e._state;
	const outputSample d = o[tail];
	e.alignOutputFilter();
	const Quatf dq = (s.quat_nominal * d.quat_nominal.inversed()).normalized();
	for (unsigned i = 0; i < n; i++) {
		const Quatf q = (dq * o[i].quat_nominal).normalized();
		for (int k = 0; k < 4; k++) { vc_assert(vc_eq(out_store[i].quat_nominal(k), q(k)), "every stored orientation is rotated by the difference at the delayed horizon"); }
		for (int k = 0; k < 3; k++) { vc_assert(vc_eq(out_store[i].vel(k), o[i].vel(k) + s.vel(k) - d.vel(k)) && vc_eq(out_store[i].pos(k), o[i].pos(k) + s.pos(k) - d.pos(k)), "velocity and position are shifted"); }
	}
	frame_output(e._output_new, out_store[head], true, true, true, "the current output is the shifted newest one");
	frame_state(e, s, "filter state untouched");
}
VC_PROOF(E10_align_3_whole) { for (unsigned h = 0; h < 3; h++) { for (unsigned t = 0; t < 3; t++) { VC_SCOPE { align(3, h, t); } } } }

// ---- what is reported
VC_PROOF(E10_outputs)
{
	Ekf &e = setup();
	const outputSample o = e._output_new;
	Vector3f da;
	for (int i = 0; i < 3; i++) { da(i) = e._newest_high_rate_imu_sample.delta_ang(i) - e._state.delta_ang_bias(i) * (e._dt_imu_avg / e._dt_ekf_avg) + e._delta_angle_corr(i); }
	const Quatf q = (o.quat_nominal * Quatf(AxisAnglef(da))).normalized();
	const Quatf r = e.calculate_quaternion();
	for (int i = 0; i < 4; i++) {
		vc_assert(vc_eq(r(i), q(i)), "predicted orientation");
		vc_assert(vc_same(e.getQuaternion()(i), o.quat_nominal(i)), "reported orientation");
	}
	const Vector3f v = e.getVelocity(), p = e.getPosition();
	for (int i = 0; i < 3; i++) {
		vc_assert(vc_eq(v(i), o.vel(i) - e._vel_imu_rel_body_ned(i)), "velocity is that of the body origin");
		const Matrix3f &R = e._R_to_earth_now; const Vector3f &b = e._params.imu_pos_body;
		vc_assert(vc_eq(p(i), o.pos(i) - (R(i, 0) * b(0) + R(i, 1) * b(1) + R(i, 2) * b(2))), "position is that of the body origin");
	}
	vc_assert(vc_eq(e.getVerticalPositionDerivative(), e._output_vert_new.vert_vel - e._vel_imu_rel_body_ned(2)), "vertical velocity is that of the body origin");
}

VC_PROOF(E10_history_any_length)
{
	Ekf &e = setup();
	any_output_buffers(e);
	Vector3f vc, pc; vc_havoc(&vc, sizeof(vc), "vel_correction"); vc_havoc(&pc, sizeof(pc), "pos_correction");
	for (int k = 0; k < 3; k++) { L_o1.vel(k) += vc(k); L_o1.pos(k) += pc(k); }
	any_loops();
	e.applyCorrectionToOutputBuffer(vc, pc);
	any_slot_done("orientation is kept", "every stored velocity is corrected", "every stored position is corrected", "the vertical outputs are kept");
	frame_output(e._output_new, out_any[e._output_buffer._head], true, true, true, "the current output is the corrected newest one");
}
// the vertical history is a chain from the oldest slot on: two neighbours of arbitrary age stand for all
static unsigned C_age, C_tail; static outputVert C_a, C_b; static float C_corr;
static unsigned C_slot(uint64_t age) { const unsigned i = C_tail + (unsigned)age; return i >= L_n ? i - L_n : i; }
template<bool exact> static bool C_is(float a, float b) { return exact ? vc_same(a, b) : vc_eq(a, b); }
static bool C_vel(const outputVert &now, const outputVert &old, bool done) { return vc_eq(now.vert_vel, done ? old.vert_vel + C_corr : old.vert_vel); }
template<bool exact> static bool C_link() { const outputVert &a = vert_any[C_slot(C_age)], &b = vert_any[C_slot(C_age + 1)]; return C_is<exact>(b.vert_vel_integ, a.vert_vel_integ + (a.vert_vel + b.vert_vel) * 0.5f * b.dt); }
template<bool exact> static bool C_vel_a(uint64_t k) { return C_is<exact>(vert_any[C_slot(C_age)].vert_vel, k > 0 && C_age <= k ? C_a.vert_vel + C_corr : C_a.vert_vel); }
template<bool exact> static bool C_vel_0(uint64_t k) { return C_is<exact>(vert_any[C_slot(C_age)].vert_vel, C_age <= k ? C_a.vert_vel + C_corr : C_a.vert_vel); }
template<bool exact> static bool C_vel_b(uint64_t k) { return C_is<exact>(vert_any[C_slot(C_age + 1)].vert_vel, C_age < k ? C_b.vert_vel + C_corr : C_b.vert_vel); }
template<bool exact> static bool C_chain(uint64_t k) { return vc_implies(C_age < k, C_link<exact>()); }
template<bool exact> static void chain()
{
	vc_loop("*", C_vel_a<exact>, "?slots from the oldest on are corrected, the others not");
	vc_loop("*", C_vel_0<exact>, "?slots from the oldest on are corrected, the oldest beforehand");
	vc_loop("*", C_vel_b<exact>, "?their successors are corrected, the others not");
	vc_loop("*", C_chain<exact>, "?slots from the oldest on are integrated again");
}
static bool C_range(uint64_t k) { return k < L_n; }
static bool C_first(uint64_t) { return vc_implies(C_age == 0, vc_eq(vert_any[C_tail].vert_vel_integ, C_a.vert_vel_integ)); }
static uint64_t C_at(uint64_t k) { return C_slot(k); }
static uint64_t C_next(uint64_t k) { return C_slot(k + 1); }
VC_PROOF(E10_vertical_history_any_length)
{
	Ekf &e = setup();
	any_output_buffers(e);
	C_tail = e._output_vert_buffer._tail;
	if (vc_is_native()) { vc_hint(0, L_n - 2); }
	C_age = vc_u8("age");
	vc_assume(C_age + 1 < L_n);
	C_a = vert_any[C_slot(C_age)]; C_b = vert_any[C_slot(C_age + 1)]; C_corr = vc_f32("vert_correction");
	vc_loop("*", C_range, "?fewer iterations than slots");
	chain<true>();
	vc_loop("*", C_first, "?the oldest keeps its position");
	vc_loop_var("*", C_at); vc_loop_var("*", C_next);
	e.applyCorrectionToVerticalOutputBuffer(C_corr);
	const outputVert &a = vert_any[C_slot(C_age)], &b = vert_any[C_slot(C_age + 1)];
	vc_assert(C_vel(a, C_a, true) && C_vel(b, C_b, true), "every stored vertical velocity is corrected");
	vc_assert(vc_implies(C_age == 0, vc_eq(a.vert_vel_integ, C_a.vert_vel_integ)), "the oldest position is kept");
	vc_assert(C_link<false>(), "later positions are integrated again by the trapezoid rule");
	vc_assert(vc_same(b.dt, C_b.dt) && b.time_us == C_b.time_us && a.time_us == C_a.time_us, "times are kept");
	const outputVert &n = vert_any[e._output_vert_buffer._head];
	vc_assert(vc_same(e._output_vert_new.vert_vel, n.vert_vel) && vc_same(e._output_vert_new.vert_vel_integ, n.vert_vel_integ) && e._output_vert_new.time_us == n.time_us, "the current vertical output is the corrected newest one");
	vc_assert(vc_eq(e._output_vert_new.dt, 0.f), "time accumulation restarts");
}
VC_PROOF(E10_align_any_length)
{
	Ekf &e = setup();
	any_output_buffers(e);
	const stateSample s = e._state;
	const outputSample d = out_any[e._output_buffer._tail];
	const Quatf dq = (s.quat_nominal * d.quat_nominal.inversed()).normalized();
	L_o1.quat_nominal = (dq * L_o0.quat_nominal).normalized();
	for (int k = 0; k < 3; k++) { L_o1.vel(k) += s.vel(k) - d.vel(k); L_o1.pos(k) += s.pos(k) - d.pos(k); }
	any_loops();
	e.alignOutputFilter();
	any_slot_done("every stored orientation is rotated by the difference at the delayed horizon", "velocity is shifted", "position is shifted", "the vertical outputs are kept");
	frame_output(e._output_new, out_any[e._output_buffer._head], true, true, true, "the current output is the shifted newest one");
	frame_state(e, s, "filter state untouched");
}
