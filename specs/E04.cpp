// E04: the measurement update, and velocity / position / height fusion with their innovation gates
#include "ekf_all.h"
#include "dual.h"

static float P0[24][24], P1[24][24];
static int fixes;
// contract of fixCovarianceErrors used here: anything may happen to P (see E03)
static void fix_contract(Ekf *e, bool force)
{
	vc_assert(force, "symmetry is forced after an update");
	for (int i = 0; i < 24; i++) { for (int j = 0; j < 24; j++) { P1[i][j] = e->P(i, j); } }
	vc_havoc(&e->P, sizeof(e->P), "fixedP");
	fixes++;
}
static void remember(Ekf &e) { for (int i = 0; i < 24; i++) { for (int j = 0; j < 24; j++) { P0[i][j] = e.P(i, j); } } fixes = 0; vc_replace("Ekf::fixCovarianceErrors", fix_contract); }
static float state_at(const stateSample &s, int i)
{
	if (i < 4) { return s.quat_nominal(i); }
	if (i < 7) { return s.vel(i - 4); }
	if (i < 10) { return s.pos(i - 7); }
	if (i < 13) { return s.delta_ang_bias(i - 10); }
	if (i < 16) { return s.delta_vel_bias(i - 13); }
	if (i < 19) { return s.mag_I(i - 16); }
	if (i < 22) { return s.mag_B(i - 19); }
	return s.wind_vel(i - 22);
}
// state after adding -K * innovation, quaternion normalised
static void corrected(const Ekf &e, const stateSample &s, const float K[24], float innov, const char *what)
{
	float q[4], n = 0.f;
	for (int i = 0; i < 4; i++) { q[i] = state_at(s, i) - K[i] * innov; n += q[i] * q[i]; }
	n = sqrtf(n);
	for (int i = 0; i < 24; i++) { vc_assert(vc_eq(state_at(e._state, i), i < 4 ? q[i] / n : state_at(s, i) - K[i] * innov), idx_label(what, i, 0)); }
}
static void unchanged(const Ekf &e, const stateSample &s)
{
	for (int i = 0; i < 24; i++) { vc_assert(vc_same(state_at(e._state, i), state_at(s, i)), idx_label("a refused update leaves the state alone", i, 0)); }
}

VC_PROOF(E04_fuse)
{
	vc_mode("poly"); vc_tol(1e-4, 1e-4);
	Ekf &e = any_ekf();
	remember(e);
	const stateSample s = e._state;
	Ekf::Vector24f K; float k[24];
	for (int i = 0; i < 24; i++) { k[i] = K(i) = vc_f32_i("K", i); }
	const float innov = vc_f32("innov");
	e.fuse(K, innov);
	corrected(e, s, k, innov, "the state moves by the gain times the innovation");
	for (int i = 0; i < 24; i++) { for (int j = 0; j < 24; j++) { vc_assert(vc_same(e.P(i, j), P0[i][j]), idx_label("the covariance is not touched", i, j)); } }
}

// measurementUpdate for every sparsity pattern in use
template<class H> static void update(int n, const int *idx)
{
	vc_mode("poly"); vc_tol(1e-3, 1e-3);
	Ekf &e = any_ekf();
	remember(e);
	H h; float hv[24];
	for (int i = 0; i < n; i++) { hv[i] = vc_f32_i("H", i); }
	for (int i = 0; i < n; i++) { h.atCompressedIndex(i) = hv[i]; }
	Ekf::Vector24f K; float k[24];
	bool inh[3];
	for (int i = 0; i < 3; i++) { inh[i] = e._accel_bias_inhibit[i]; }
	for (int i = 0; i < 24; i++) { K(i) = vc_f32_i("K", i); k[i] = i >= 13 && i < 16 && inh[i - 13] ? 0.f : K(i); }
	const float innov = vc_f32("innov");
	const stateSample s = e._state;
	const bool ok = e.measurementUpdate(K, h, innov);
	vc_assert(ok == (fixes == 1), "success is reported exactly when the update was applied");
	VC_SCOPE {
		vc_assume(ok);
		for (int r = 0; r < 24; r++) {
			for (int c = 0; c < 24; c++) {
				float hp = 0.f;
				for (int i = 0; i < n; i++) { hp += hv[i] * P0[idx[i]][c]; }
				vc_assert(vc_eq(P1[r][c], P0[r][c] - k[r] * hp), idx_label("the covariance becomes P - K H P", r, c));
			}
		}
		corrected(e, s, k, innov, "the state moves by the gain times the innovation");
	}
	VC_SCOPE {
		vc_assume(!ok);
		unchanged(e, s);
	}
}
#define UPDATE(name, ...) VC_PROOF(E04_update_##name) { static const int idx[] = {__VA_ARGS__}; \
	update<Ekf::SparseVector24f<__VA_ARGS__>>(sizeof(idx) / sizeof(idx[0]), idx); }
UPDATE(airspeed, 4,5,6,22,23)
UPDATE(wind, 0,1,2,3,4,5,6,22,23)
UPDATE(yaw, 0,1,2,3)
UPDATE(mag, 0,1,2,3,16,17,18,19,20,21)
UPDATE(decl, 16,17)
UPDATE(flow, 0,1,2,3,4,5,6)

// an update that would make a variance negative is refused
VC_PROOF(E04_update_health)
{
	vc_mode("poly"); vc_tol(1e-4, 1e-3);
	Ekf &e = any_ekf();
	remember(e);
	static Ekf::SparseVector24f<16,17> h;
	const float h0 = vc_f32("h0"), h1 = vc_f32("h1");
	h.at<16>() = h0; h.at<17>() = h1;
	for (int i = 0; i < 3; i++) { e._accel_bias_inhibit[i] = false; }
	Ekf::Vector24f K;
	for (int i = 0; i < 24; i++) { K(i) = vc_f32_i("K", i); }
	bool neg = false;
	for (int i = 0; i < 24; i++) {
		const float khp = K(i) * (h0 * P0[16][i] + h1 * P0[17][i]);
		vc_assume(!vc_eq(P0[i][i], khp));
		neg = vc_or(neg, P0[i][i] < khp);
	}
	vc_assert(e.measurementUpdate(K, h, vc_f32("innov")) == !neg, "refused exactly when a variance would become negative");
}

// ---- direct observation of one velocity or position state
static void direct(int obs)
{
	vc_mode("poly"); vc_tol(1e-3, 1e-3);
	Ekf &e = any_ekf();
	for (int i = 0; i < 24; i++) { for (int j = 0; j < i; j++) { e.P(i, j) = e.P(j, i); } }
	remember(e);
	const float innov = vc_f32("innov"), var = vc_f32("innov_var");
	const stateSample s = e._state;
	const int x = obs + 4;
	bool bad[24], any = false;
	for (int i = 0; i < 24; i++) { bad[i] = P0[i][i] < P0[i][x] / var * P0[x][i]; any = vc_or(any, bad[i]); }
	const auto f0 = e._fault_status.value;
	e.fuseVelPosHeight(innov, var, obs);
	const bool fault[6] = {e._fault_status.flags.bad_vel_N, e._fault_status.flags.bad_vel_E, e._fault_status.flags.bad_vel_D,
			       e._fault_status.flags.bad_pos_N, e._fault_status.flags.bad_pos_E, e._fault_status.flags.bad_pos_D};
	fault_status_u was; was.value = f0;
	const bool fault0[6] = {was.flags.bad_vel_N, was.flags.bad_vel_E, was.flags.bad_vel_D, was.flags.bad_pos_N, was.flags.bad_pos_E, was.flags.bad_pos_D};
	for (int i = 0; i < 6; i++) { vc_assert(fault[i] == (i == obs ? fixes == 0 : fault0[i]), "the numerical fault of this axis is reported"); }
	VC_SCOPE {
		vc_assume(fixes == 1);
		float K[24];
		for (int i = 0; i < 24; i++) { K[i] = P0[i][x] / var; }
		for (int r = 0; r < 24; r++) {
			for (int c = 0; c <= r; c++) {
				vc_assert(vc_eq(P1[r][c], P0[r][c] - P0[r][x] * P0[x][c] / var), idx_label("covariance of a Kalman update", r, c));
				vc_assert(vc_eq(P1[r][c], P1[c][r]), idx_label("stays symmetric", r, c));
			}
		}
		corrected(e, s, K, innov, "the state moves by the Kalman gain times the innovation");
	}
	VC_SCOPE { vc_assume(fixes == 0); unchanged(e, s); }
}
VC_PROOF(E04_direct_0) { direct(0); }
VC_PROOF(E04_direct_1) { direct(1); }
VC_PROOF(E04_direct_2) { direct(2); }
VC_PROOF(E04_direct_3) { direct(3); }
VC_PROOF(E04_direct_4) { direct(4); }
VC_PROOF(E04_direct_5) { direct(5); }
// which updates are refused
VC_PROOF(E04_direct_health)
{
	vc_mode("poly"); vc_tol(1e-4, 1e-3);
	Ekf &e = any_ekf();
	remember(e);
	const float var = vc_f32("innov_var");
	vc_assume(!vc_eq(var, 0.f));
	const int obs = 5, x = 9;
	bool bad[24], any = false;
	for (int i = 0; i < 24; i++) {
		const float khp = P0[i][x] / var * P0[x][i];
		vc_assume(!vc_eq(P0[i][i], khp));
		bad[i] = P0[i][i] < khp; any = vc_or(any, bad[i]);
	}
	e.fuseVelPosHeight(vc_f32("innov"), var, obs);
	vc_assert((fixes == 0) == any, "refused exactly when a variance would become negative");
	VC_SCOPE {
		vc_assume(fixes == 0);
		for (int i = 0; i < 24; i++) { for (int j = 0; j < 24; j++) {
			vc_assert(vc_or(vc_and(vc_or(bad[i], bad[j]), e.P(i, j) == 0.f), vc_and(!vc_or(bad[i], bad[j]), vc_same(e.P(i, j), P0[i][j]))),
				  idx_label("exactly the offending states are reset", i, j));
		} }
	}
}

// ---- innovation gates
static float f_innov[4], f_var[4]; static int f_idx[4], f_n;
static void keep(Ekf *, const float innov, const float var, const int idx) { if (f_n < 4) { f_innov[f_n] = innov; f_var[f_n] = var; f_idx[f_n] = idx; } f_n++; }
struct Gate { Vector3f innov, obs, var; Vector2f gate, ratio; };
static Gate g;
static Ekf &gate_setup()
{
	vc_mode("real"); vc_tol(1e-4, 1e-3);
	Ekf &e = any_ekf();
	remember(e);
	for (int i = 0; i < 3; i++) { g.innov(i) = vc_f32_i("innov", i); g.obs(i) = vc_f32_i("obs_var", i); g.var(i) = vc_f32_i("var", i); }
	for (int i = 0; i < 2; i++) { g.gate(i) = vc_f32_i("gate", i); g.ratio(i) = vc_f32_i("ratio", i); }
	f_n = 0;
	vc_replace("Ekf::fuseVelPosHeight", keep);
	return e;
}
static void frame(const Ekf &e, const stateSample &s)
{
	for (int i = 0; i < 24; i++) { vc_assert(vc_same(state_at(e._state, i), state_at(s, i)), "a gate itself never changes the state"); }
	for (int i = 0; i < 24; i++) { for (int j = 0; j < 24; j++) { vc_assert(vc_same(e.P(i, j), P0[i][j]), idx_label("a gate itself never changes the covariance", i, j)); } }
}
static void horizontal(bool pos)
{
	Ekf &e = gate_setup();
	const stateSample s = e._state;
	const Gate g0 = g;
	const float v0 = P0[pos ? 7 : 4][pos ? 7 : 4] + g0.obs(0), v1 = P0[pos ? 8 : 5][pos ? 8 : 5] + g0.obs(1);
	vc_assume(v0 > 0.f && v1 > 0.f && g0.gate(0) > 0.f);
	const float r0 = g0.innov(0) * g0.innov(0) / (g0.gate(0) * g0.gate(0) * v0), r1 = g0.innov(1) * g0.innov(1) / (g0.gate(0) * g0.gate(0) * v1);
	const bool inhibit = pos ? vc_bool("inhibit") : false;
	const uint64_t tp = e._time_last_hor_pos_fuse, td = e._time_last_delpos_fuse, tv = e._time_last_hor_vel_fuse;
	const uint16_t rej = e._innov_check_fail_status.value;
	const Vector2f lf = e._last_fail_hvel_innov;
	const bool odom = e._fuse_hpos_as_odom;
	const bool ok = pos ? e.fuseHorizontalPosition(g.innov, g.gate, g.obs, g.var, g.ratio, inhibit) : e.fuseHorizontalVelocity(g.innov, g.gate, g.obs, g.var, g.ratio);
	vc_assert(vc_eq(g.var(0), v0) && vc_eq(g.var(1), v1) && vc_same(g.var(2), g0.var(2)), "innovation variance is state variance plus observation variance");
	vc_assert(vc_eq(g.ratio(0), r0 > r1 ? r0 : r1) && vc_same(g.ratio(1), g0.ratio(1)), "test ratio is the larger squared normalised innovation");
	const bool pass = g.ratio(0) <= 1.f;
	if (!pos) { vc_assert(ok == pass, "accepted exactly inside the gate"); }
	else {
		vc_assert(vc_implies(!inhibit, ok == pass), "accepted exactly inside the gate");
		const float lim = 100.f / g0.gate(0);
		vc_assert(vc_implies(inhibit, ok == !(g.ratio(0) > lim * lim)), "without a gate only extreme values are refused");
	}
	vc_assert(f_n == (ok ? 2 : 0), "both axes are fused or none");
	VC_SCOPE {
		vc_assume(ok);
		const int first = pos ? 3 : 0;
		for (int i = 0; i < 2; i++) { vc_assert(f_idx[i] == first + i && vc_same(f_innov[i], g0.innov(i)) && vc_same(f_var[i], g.var(i)), "each axis is fused with its innovation and variance"); }
	}
	const uint64_t now = e._time_last_imu;
	vc_assert(e._time_last_hor_vel_fuse == (ok && !pos ? now : tv) && e._time_last_hor_pos_fuse == (ok && pos && !odom ? now : tp)
		  && e._time_last_delpos_fuse == (ok && pos && odom ? now : td), "the time of the fusion is recorded");
	innovation_fault_status_u want; want.value = rej;
	if (pos) { if (ok) { want.flags.reject_hor_pos = false; } else if (!inhibit) { want.flags.reject_hor_pos = true; } } else { want.flags.reject_hor_vel = !ok; }
	vc_assert(e._innov_check_fail_status.value == want.value, "rejection is reported");
	if (!pos) { for (int i = 0; i < 2; i++) { vc_assert(vc_same(e._last_fail_hvel_innov(i), ok ? lf(i) : g0.innov(i)), "the rejected innovation is kept"); } }
	frame(e, s);
}
VC_PROOF(E04_hvel) { horizontal(false); }
VC_PROOF(E04_hpos) { horizontal(true); }

static void vertical(bool pos)
{
	Ekf &e = gate_setup();
	const stateSample s = e._state;
	const Gate g0 = g;
	const float v = P0[pos ? 9 : 6][pos ? 9 : 6] + g0.obs(2);
	vc_assume(v > 0.f && g0.gate(1) > 0.f);
	const float r = g0.innov(2) * g0.innov(2) / (g0.gate(1) * g0.gate(1) * v);
	const uint64_t tp = e._time_last_hgt_fuse, tv = e._time_last_ver_vel_fuse;
	const uint16_t rej = e._innov_check_fail_status.value;
	const bool bad = e._fault_status.flags.bad_acc_vertical;
	const float lim = g0.gate(1) * sqrtf(v);
	const bool ok = pos ? e.fuseVerticalPosition(g.innov, g.gate, g.obs, g.var, g.ratio) : e.fuseVerticalVelocity(g.innov, g.gate, g.obs, g.var, g.ratio);
	vc_assert(vc_eq(g.var(2), v) && vc_same(g.var(0), g0.var(0)) && vc_same(g.var(1), g0.var(1)), "innovation variance is state variance plus observation variance");
	vc_assert(vc_eq(g.ratio(1), r) && vc_same(g.ratio(0), g0.ratio(0)), "test ratio is the squared normalised innovation");
	const bool pass = g.ratio(1) <= 1.f;
	vc_assert(ok == (pass || bad), "accepted exactly inside the gate, or with faulty accelerometer data");
	vc_assert(f_n == (ok ? 1 : 0), "fused exactly when accepted");
	VC_SCOPE {
		vc_assume(ok);
		vc_assert(f_idx[0] == (pos ? 5 : 2) && vc_same(f_var[0], g.var(2)), "fused into the vertical state");
		vc_assert(vc_implies(pass, vc_same(f_innov[0], g0.innov(2))), "with its innovation");
		vc_assert(vc_implies(!pass, vc_eq(f_innov[0], g0.innov(2) > lim ? lim : (g0.innov(2) < -lim ? -lim : g0.innov(2)))), "which is limited to the gate when it would have been rejected");
	}
	const uint64_t now = e._time_last_imu;
	vc_assert(e._time_last_hgt_fuse == (ok && pos ? now : tp) && e._time_last_ver_vel_fuse == (ok && !pos ? now : tv), "the time of the fusion is recorded");
	vc_assert(vc_eq(pos ? e._vert_pos_innov_ratio : e._vert_vel_innov_ratio, g0.innov(2) / sqrtf(v)), "normalised innovation for the vertical acceleration check");
	vc_assert((pos ? e._vert_pos_fuse_attempt_time_us : e._vert_vel_fuse_time_us) == now, "time of the attempt");
	innovation_fault_status_u want; want.value = rej;
	if (pos) { want.flags.reject_ver_pos = !ok; } else { want.flags.reject_ver_vel = !ok; }
	vc_assert(e._innov_check_fail_status.value == want.value, "rejection is reported");
	frame(e, s);
}
VC_PROOF(E04_vvel) { vertical(false); }
VC_PROOF(E04_vpos) { vertical(true); }
