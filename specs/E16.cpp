// E16: wind and airspeed scale estimator
#include "vc.h"
#include "dual.h"
#include <new>
#include <ecl.h>
#include <airdata/WindEstimator.cpp>

alignas(16) static unsigned char we_mem[sizeof(WindEstimator)];
static float P0[3][3];
static WindEstimator &setup(bool sym = true)
{
	vc_mode("real"); vc_tol(1e-4, 1e-3);
	WindEstimator *w = new (we_mem) WindEstimator();
	vc_havoc(w, sizeof(WindEstimator), "wind");
	for (int i = 0; i < 3; i++) { for (int j = 0; j < i; j++) { if (sym) { w->_P(i, j) = w->_P(j, i); } } }
	for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { P0[i][j] = w->_P(i, j); } }
	return *w;
}
struct Old { float x[3], P[3][3], ti, tv, bi, bv; bool init, reset; uint64_t ta, tb, tu, rt, rb; };
static Old old(const WindEstimator &w)
{
	Old o;
	for (int i = 0; i < 3; i++) { o.x[i] = w._state(i); for (int j = 0; j < 3; j++) { o.P[i][j] = w._P(i, j); } }
	o.ti = w._tas_innov; o.tv = w._tas_innov_var; o.bi = w._beta_innov; o.bv = w._beta_innov_var; o.init = w._initialised; o.reset = w._wind_estimator_reset;
	o.ta = w._time_last_airspeed_fuse; o.tb = w._time_last_beta_fuse; o.tu = w._time_last_update; o.rt = w._time_rejected_tas; o.rb = w._time_rejected_beta;
	return o;
}
static void same_filter(const WindEstimator &w, const Old &o, const char *what)
{
	for (int i = 0; i < 3; i++) { vc_assert(vc_same(w._state(i), o.x[i]), what); for (int j = 0; j < 3; j++) { vc_assert(vc_same(w._P(i, j), o.P[i][j]), what); } }
}
static void same_tas(const WindEstimator &w, const Old &o, const char *what) { vc_assert(vc_same(w._tas_innov, o.ti) && vc_same(w._tas_innov_var, o.tv) && w._time_rejected_tas == o.rt && w._time_last_airspeed_fuse == o.ta, what); }
static void same_beta(const WindEstimator &w, const Old &o, const char *what) { vc_assert(vc_same(w._beta_innov, o.bi) && vc_same(w._beta_innov_var, o.bv) && w._time_rejected_beta == o.rb && w._time_last_beta_fuse == o.tb, what); }
typedef Dual<3> M;
typedef Dual<2> V;
// the filter has started from ground velocity v (variance q) and airspeed: heading along the course, zero sideslip
static void started(WindEstimator &w, const matrix::Vector3f &v, const float q[2], float tas, const Old &o)
{
	const float g = sqrtf(v(0) * v(0) + v(1) * v(1));
	VC_SCOPE {
		vc_assume(g < 2.99f);
		vc_assert(!w._initialised, "does not start on the ground");
		vc_assert(w._wind_estimator_reset == o.reset, "no reset is reported");
		same_filter(w, o, "nothing is set");
	}
	VC_SCOPE {
		vc_assume(g > 3.01f);
		vc_assert(w._initialised && w._wind_estimator_reset, "starts when moving and reports the reset");
		vc_assert(w._time_rejected_tas == 0 && w._time_rejected_beta == 0, "no measurement has been rejected");
		const V n = V::var(v(0), 0), e = V::var(v(1), 1), s = dsqrt(n * n + e * e);
		const V x[2] = {n - n / s * tas, e - e / s * tas};
		for (int i = 0; i < 2; i++) { vc_assert(vc_eq(w._state(i), x[i].v), "wind is ground velocity less airspeed along the course"); }
		vc_assert(vc_eq(w._state(2), 1.f), "airspeed scale starts at one");
		for (int i = 0; i < 2; i++) {
			for (int j = 0; j < 2; j++) { vc_assert(vc_eq(w._P(i, j), x[i].d[0] * x[j].d[0] * q[0] + x[i].d[1] * x[j].d[1] * q[1]), idx_label("wind covariance follows from the variance of velocity", i, j)); }
			vc_assert(vc_eq(w._P(i, 2), 0.f) && vc_eq(w._P(2, i), 0.f), "scale is uncorrelated");
		}
		vc_assert(fabsf(w._P(2, 2) - 1e-4f) < 1e-6f, "scale variance");
	}
}
VC_PROOF(E16_start)
{
	WindEstimator &w = setup();
	w._initialised = false;
	const Old o = old(w);
	matrix::Vector3f v; matrix::Vector2f q; vc_havoc(&v, sizeof(v), "v"); vc_havoc(&q, sizeof(q), "v_var");
	const float tas = vc_f32("tas"); const uint64_t t = vc_u64("now");
	w.fuse_airspeed(t, tas, v, q);
	const float c[2] = {q(0) < 0.01f ? 0.01f : q(0), q(1) < 0.01f ? 0.01f : q(1)};
	started(w, v, c, tas, o);
	vc_assert(w._time_last_airspeed_fuse == o.ta && vc_same(w._tas_innov, o.ti) && vc_same(w._tas_innov_var, o.tv) && vc_same(w._beta_innov, o.bi) && w._time_last_beta_fuse == o.tb, "nothing is fused yet");
}
VC_PROOF(E16_start_beta)
{
	WindEstimator &w = setup();
	w._initialised = false;
	const Old o = old(w);
	matrix::Vector3f v; vc_havoc(&v, sizeof(v), "v"); matrix::Quatf q; vc_havoc(&q, sizeof(q), "q");
	w.fuse_beta(vc_u64("now"), v, q);
	const float c[2] = {0.1f, 0.1f};
	started(w, v, c, sqrtf(v(0) * v(0) + v(1) * v(1) + v(2) * v(2)), o);
	vc_assert(w._time_last_airspeed_fuse == o.ta && vc_same(w._tas_innov, o.ti) && vc_same(w._beta_innov_var, o.bv) && vc_same(w._beta_innov, o.bi) && w._time_last_beta_fuse == o.tb, "nothing is fused yet");
}
VC_PROOF(E16_predict)
{
	WindEstimator &w = setup(); const Old o = old(w);
	const uint64_t t = vc_u64("now");
	vc_assume(t >= o.tu && t < (1ull << 50));
	w.update(t);
	const bool due = o.init && o.tu != 0 && t - o.tu >= 1000000;
	vc_assert(w._time_last_update == (o.init && (o.tu == 0 || due) ? t : o.tu), "time of the last prediction");
	vc_assert(w._wind_estimator_reset == (o.reset && !o.init) && w._initialised == o.init, "a reset is reported for one cycle");
	VC_SCOPE { vc_assume(!due); same_filter(w, o, "predicted once a second, once running"); }
	VC_SCOPE {
		vc_assume(due);
		const float dt = (float)(t - o.tu) * 1e-6f;
		for (int i = 0; i < 3; i++) {
			vc_assert(vc_same(w._state(i), o.x[i]), "states are constant");
			for (int j = 0; j < 3; j++) { vc_assert(vc_eq(w._P(i, j), o.P[i][j] + (i != j ? 0.f : dt * dt * (i < 2 ? w._wind_p_var : w._tas_scale_p_var))), idx_label("each state gains its own process noise", i, j)); }
		}
	}
	same_tas(w, o, "measurements untouched"); same_beta(w, o, "measurements untouched");
}
// ---- gate
VC_PROOF(E16_gate)
{
	vc_mode("real");
	WindEstimator &w = setup();
	const uint64_t t = vc_u64("now"), r0 = vc_u64("rejected_since"); uint64_t r = r0; bool re = vc_bool("reinit");
	const float in = vc_f32("innov"), var = vc_f32("var"); const uint8_t g = vc_u8("gate");
	vc_assume(t > 0 && r0 <= t);
	const bool bad = in * in > (float)(g * g) * var;
	const bool rej = w.check_if_meas_is_rejected(t, in, var, g, r, re);
	vc_assert(rej == bad, "rejected when outside the gate");
	vc_assert(r == (bad ? (r0 == 0 ? t : r0) : 0), "since when measurements have been rejected without interruption");
	vc_assert(re == (bad && r0 != 0 && t - r0 > 5000000), "restart after five seconds of rejections");
}
// ---- fusion
static bool g_rej, g_reinit; static float g_in, g_var; static uint8_t g_gate; static uint64_t *g_time, g_now; static int gates;
static bool gate(WindEstimator *, uint64_t now, float in, float var, uint8_t gs, uint64_t &since, bool &reinit) { gates++; g_now = now; g_in = in; g_var = var; g_gate = gs; g_time = &since; reinit = g_reinit; return g_rej; }
static int sanes; static float s_x[3], s_P[3][3];
static void sane(WindEstimator *w) { sanes++; for (int i = 0; i < 3; i++) { s_x[i] = w->_state(i); for (int j = 0; j < 3; j++) { s_P[i][j] = w->_P(i, j); } } }
static void expect() { gates = sanes = 0; g_time = nullptr; g_rej = vc_bool("rejected"); g_reinit = vc_bool("restart"); vc_replace("WindEstimator::check_if_meas_is_rejected", gate); vc_replace("WindEstimator::run_sanity_checks", sane); }
static void fused(WindEstimator &w, const Old &o, const M &h, float R, float in)
{
	float S = R, PH[3];
	for (int i = 0; i < 3; i++) { PH[i] = 0.f; for (int j = 0; j < 3; j++) { if (h.nz[j]) { PH[i] += o.P[i][j] * h.d[j]; } } }
	for (int i = 0; i < 3; i++) { if (h.nz[i]) { S += h.d[i] * PH[i]; } }
	vc_assert(vc_eq(g_var, S), "innovation variance H P H' + R");
	vc_assert(sanes == (g_rej || g_reinit || S < 0.f ? 0 : 1), "fused unless rejected");
	VC_SCOPE {
		vc_assume(!g_rej && !g_reinit && S > 0.f);
		for (int i = 0; i < 3; i++) {
			vc_assert(vc_eq(s_x[i], o.x[i] + PH[i] / S * in), idx_label("state correction P H' / S times innovation", i, 0));
			for (int j = 0; j < 3; j++) { vc_assert(vc_eq(s_P[i][j], o.P[i][j] - PH[i] * PH[j] / S), idx_label("covariance (I - K H) P", i, j)); }
		}
		vc_assert(w._initialised && w._wind_estimator_reset == o.reset && w._time_rejected_tas == o.rt && w._time_rejected_beta == o.rb, "keeps running");
	}
	VC_SCOPE {
		vc_assume(g_rej && !g_reinit && S > 0.f);
		same_filter(w, o, "a rejected measurement changes nothing");
		vc_assert(w._initialised && w._wind_estimator_reset == o.reset, "keeps running");
	}
}
VC_PROOF(E16_airspeed)
{
	WindEstimator &w = setup(); w._initialised = true; const Old o = old(w);
	matrix::Vector3f v; matrix::Vector2f q; vc_havoc(&v, sizeof(v), "v"); vc_havoc(&q, sizeof(q), "v_var");
	const float tas = vc_f32("tas"); const uint64_t t = vc_u64("now");
	vc_assume(t >= o.ta);
	expect();
	const M n = M(v(0)) - M::var(o.x[0], 0), e = M(v(1)) - M::var(o.x[1], 1), d(v(2));
	vc_assume(n.v * n.v + e.v * e.v + d.v * d.v > 0.01f);
	w.fuse_airspeed(t, tas, v, q);
	vc_assert(gates == (t - o.ta >= 100000), "at most ten times a second");
	VC_SCOPE { vc_assume(gates == 0); same_filter(w, o, "else ignored"); same_tas(w, o, "else ignored"); vc_assert(sanes == 0 && w._initialised && w._wind_estimator_reset == o.reset, "else ignored"); }
	VC_SCOPE {
		vc_assume(gates == 1);
		vc_assert(w._time_last_airspeed_fuse == t && g_time == &w._time_rejected_tas && g_now == t && g_gate == w._tas_gate, "airspeed gate and times");
		const M h = M::var(o.x[2], 2) * dsqrt(n * n + e * e + d * d);
		vc_assert(vc_eq(w._tas_innov, tas - h.v) && vc_same(g_in, w._tas_innov) && vc_same(g_var, w._tas_innov_var), "innovation: measured less scaled speed relative to the air");
		fused(w, o, h, w._tas_var, tas - h.v);
		VC_SCOPE { vc_assume(g_reinit); const float c[2] = {0.1f, 0.1f}; started(w, v, c, tas, o); }
	}
	vc_assert(vc_same(w._beta_innov, o.bi) && vc_same(w._beta_innov_var, o.bv) && w._time_last_beta_fuse == o.tb && (gates == 1 || w._time_rejected_beta == o.rb), "sideslip untouched");
}
VC_PROOF(E16_sideslip)
{
	WindEstimator &w = setup(); w._initialised = true; const Old o = old(w);
	matrix::Vector3f v; vc_havoc(&v, sizeof(v), "v");
	const uint64_t t = vc_u64("now");
	matrix::Quatf q; vc_havoc(&q, sizeof(q), "q");
	vc_assume(t >= o.tb);
	expect();
	const float qa[4] = {q(0), q(1), q(2), q(3)};
	float R[3][3]; rot_matrix(qa, R);
	const M n = M(v(0)) - M::var(o.x[0], 0), e = M(v(1)) - M::var(o.x[1], 1), d(v(2));
	const M x = n * R[0][0] + e * R[1][0] + d * R[2][0], y = n * R[0][1] + e * R[1][1] + d * R[2][1];
	w.fuse_beta(t, v, q);
	vc_assume(fabsf(x.v) > 0.101f || fabsf(x.v) < 0.099f);
	const bool due = t - o.tb >= 100000;
	vc_assert(w._time_last_beta_fuse == (due ? t : o.tb), "at most ten times a second");
	vc_assert(gates == (due && fabsf(x.v) > 0.1f), "sideslip is defined only with forward airspeed");
	VC_SCOPE { vc_assume(gates == 0); same_filter(w, o, "else ignored"); vc_assert(sanes == 0 && w._initialised && w._wind_estimator_reset == o.reset && vc_same(w._beta_innov, o.bi) && vc_same(w._beta_innov_var, o.bv) && w._time_rejected_beta == o.rb, "else ignored"); }
	VC_SCOPE {
		vc_assume(gates == 1);
		vc_assert(g_time == &w._time_rejected_beta && g_now == t && g_gate == w._beta_gate, "sideslip gate and times");
		const M h = y / x;
		vc_assert(vc_eq(w._beta_innov, -h.v) && vc_same(g_in, w._beta_innov) && vc_same(g_var, w._beta_innov_var), "innovation: zero less predicted sideslip");
		fused(w, o, h, w._beta_var, -h.v);
		VC_SCOPE { vc_assume(g_reinit); const float c[2] = {0.1f, 0.1f}; started(w, v, c, sqrtf(v(0) * v(0) + v(1) * v(1) + v(2) * v(2)), o); }
	}
	vc_assert(vc_same(w._tas_innov, o.ti) && vc_same(w._tas_innov_var, o.tv) && w._time_last_airspeed_fuse == o.ta && (gates == 1 || w._time_rejected_tas == o.rt), "airspeed untouched");
}
// ---- sanity checks after each fusion
VC_PROOF(E16_sane)
{
	WindEstimator &w = setup(false); w._initialised = true; const Old o = old(w);
	const uint8_t nan = vc_u8_in("nan", 0, 3); for (int i = 0; i < 3; i++) { if (nan == i) { w._state(i) = NAN; } } 
	w.run_sanity_checks();
	const bool neg = o.P[0][0] < 0.f || o.P[1][1] < 0.f || o.P[2][2] < 0.f;
	vc_assert(w._initialised == !(neg || nan < 3), "a negative variance or a state that is not a number stops the filter");
	VC_SCOPE {
		vc_assume(!neg && nan == 3);
		for (int i = 0; i < 3; i++) {
			const float lim = i < 2 ? 25.f : 0.1f;
			vc_assert(vc_eq(w._P(i, i), o.P[i][i] > lim ? lim : o.P[i][i]), "variances are limited");
			for (int j = 0; j < i; j++) { vc_assert(vc_eq(w._P(i, j), (o.P[i][j] + o.P[j][i]) * 0.5f) && vc_same(w._P(i, j), w._P(j, i)), "covariance is made symmetric"); }
			if (i < 2) { vc_assert(vc_same(w._state(i), o.x[i]), "wind is kept"); }
		}
		const float en = w._enforced_airspeed_scale;
		vc_assert(vc_eq(w._state(2), en < 0.f ? (o.x[2] < 0.f ? 0.f : o.x[2]) : en), "airspeed scale is enforced, or kept from becoming negative");
	}
}
VC_PROOF(E16_reports)
{
	WindEstimator &w = setup();
	float wind[2], var[2]; w.get_wind(wind); w.get_wind_var(var);
	vc_assert(vc_same(wind[0], w._state(0)) && vc_same(wind[1], w._state(1)) && vc_same(var[0], w._P(0, 0)) && vc_same(var[1], w._P(1, 1)), "wind and variances");
	vc_assert(w.is_estimate_valid() == w._initialised && w.get_wind_estimator_reset() == w._wind_estimator_reset, "validity and reset");
	vc_assert(vc_same(w.get_tas_scale(), w._state(2)) && vc_same(w.get_tas_innov(), w._tas_innov) && vc_same(w.get_tas_innov_var(), w._tas_innov_var) && vc_same(w.get_beta_innov(), w._beta_innov) && vc_same(w.get_beta_innov_var(), w._beta_innov_var), "innovations and scale");
	const float a = vc_f32("a"), b = vc_f32("b"), c = vc_f32("c"), d = vc_f32("d"), f = vc_f32("f"); const uint8_t g = vc_u8("g"), h = vc_u8("h");
	w.set_wind_p_noise(a); w.set_tas_scale_p_noise(b); w.set_tas_noise(c); w.set_beta_noise(d); w.set_tas_gate(g); w.set_beta_gate(h); w.enforce_airspeed_scale(f);
	vc_assert(vc_eq(w._wind_p_var, a * a) && vc_eq(w._tas_scale_p_var, b * b) && vc_eq(w._tas_var, c * c) && vc_eq(w._beta_var, d * d) && w._tas_gate == g && w._beta_gate == h && vc_same(w._enforced_airspeed_scale, f), "standard deviations become variances");
}
