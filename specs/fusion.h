// contracts shared by the measurement fusion proofs
#pragma once
#include "ekf_all.h"
#include "dual.h"

static float P0[24][24];
static inline float clampf(float x, float lo, float hi) { return x < lo ? lo : (x > hi ? hi : x); }
static void symmetric_P(Ekf &e)
{
	for (int i = 0; i < 24; i++) { for (int j = 0; j < i; j++) { e.P(i, j) = e.P(j, i); } }
	for (int i = 0; i < 24; i++) { for (int j = 0; j < 24; j++) { P0[i][j] = e.P(i, j); } }
}
static float state_at(const stateSample &s, int i)
{
	if (i < 4) { return s.quat_nominal(i); }
	if (i < 7) { return s.vel(i - 4); }
	if (i < 10) { return s.pos(i - 7); }
	if (i < 13) { return s.delta_ang_bias(i - 10); }
	if (i < 16) { return s.delta_vel_bias(i - 13); }
	if (i < 19) { return s.mag_I(i - 16); }
	if (i < 22) { return s.mag_B(i - 19); }
	return s.wind_vel(i - 22);
}
// contract of measurementUpdate (E04): what it is asked to do is recorded; the outcome is arbitrary
struct Update { float K[24], H[24], innov; bool done; float P[24][24]; stateSample s; };
static Update upd[3];
static int upds;
static bool upd_havoc;   // the update leaves any symmetric covariance and any state behind
static bool record_update(Ekf *e, Ekf::Vector24f &K, const matrix::SparseAny &h, float innov)
{
	bool done = vc_bool("update_done");
	if (upds < 3) {
		Update &u = upd[upds];
		for (int i = 0; i < 24; i++) { u.K[i] = K(i); u.H[i] = 0.f; }
		for (size_t i = 0; i < h.n_; i++) { u.H[h.idx_[i]] = h.data_()[i]; }
		u.innov = innov; u.done = done;
		if (upd_havoc) {
			for (int i = 0; i < 24; i++) { for (int j = 0; j < 24; j++) { u.P[i][j] = e->P(i, j); } }
			u.s = e->_state;
			vc_havoc(&e->P, sizeof(e->P), "P_updated");
			for (int i = 0; i < 24; i++) { for (int j = 0; j < i; j++) { e->P(i, j) = e->P(j, i); } }
			vc_havoc(&e->_state, sizeof(e->_state), "state_updated");
		}
	}
	upds++;
	return done;
}
static void expect_updates(bool havoc = false) { upds = 0; upd_havoc = havoc; vc_replace("Ekf::measurementUpdate", record_update); }

typedef Dual<24> M;   // a measurement function, differentiated with respect to the states
// innovation variance H P H' + R
static float innovation_variance(const M &h, float R, const float (*P0)[24] = ::P0)
{
	float s = R;
	for (int i = 0; i < 24; i++) { if (h.nz[i]) { for (int j = 0; j < 24; j++) { if (h.nz[j]) { s += h.d[i] * P0[i][j] * h.d[j]; } } } }
	return s;
}
static float gain_numerator(const M &h, int r, const float (*P0)[24] = ::P0)
{
	float s = 0.f;
	for (int i = 0; i < 24; i++) { if (h.nz[i]) { s += P0[r][i] * h.d[i]; } }
	return s;
}
// the recorded update u is the Kalman update of measurement h with innovation variance var, for the states in mask
static void kalman(const Update &u, const M &h, float var, bool (*active)(int), const char *what, const float (*P)[24] = P0)
{
	for (int i = 0; i < 24; i++) {
		vc_assert(vc_eq(u.H[i], h.nz[i] ? h.d[i] : 0.f), idx_label("observation Jacobian", i, 0));
		vc_assert(vc_eq(u.K[i], active(i) ? gain_numerator(h, i, P) / var : 0.f), idx_label(what, i, 0));
	}
}
static bool all_states(int) { return true; }
static bool wind_states(int i) { return i >= 22; }
static bool mag_states(int i) { return i >= 16 && i < 22; }
static void frame_P(const Ekf &e, const char *what) { for (int i = 0; i < 24; i++) { for (int j = 0; j < 24; j++) { vc_assert(vc_same(e.P(i, j), P0[i][j]), idx_label(what, i, j)); } } }
static void frame_state(const Ekf &e, const stateSample &s, const char *what) { for (int i = 0; i < 24; i++) { vc_assert(vc_same(state_at(e._state, i), state_at(s, i)), idx_label(what, i, 0)); } }
