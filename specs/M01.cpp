// M01: scalar helpers (mathlib) and the alpha filter
#include "vc.h"
#include <mathlib/mathlib.h>
#include <AlphaFilter/AlphaFilter.hpp>

// pre: lo <= hi.   post: result is x clamped, for every x (NaN is passed through, like the comparison chain documents)
VC_PROOF(M01_constrain_float)
{
	float x = vc_f32("x"), lo = vc_f32("lo"), hi = vc_f32("hi");
	vc_assume(lo <= hi);
	float r = math::constrain(x, lo, hi);
	vc_assert(vc_implies(x < lo, vc_same(r, lo)), "below the range gives the lower limit");
	vc_assert(vc_implies(x > hi, vc_same(r, hi)), "above the range gives the upper limit");
	vc_assert(vc_implies(x >= lo && x <= hi, vc_same(r, x)), "inside the range is unchanged");
	vc_assert(vc_implies(x == x, r >= lo && r <= hi), "a number is mapped into the range");
	vc_cover("inside");
}
VC_PROOF(M01_constrain_int)
{
	int32_t x = (int32_t)vc_u32("x"), lo = (int32_t)vc_u32("lo"), hi = (int32_t)vc_u32("hi");
	vc_assume(lo <= hi);
	int32_t r = math::constrain(x, lo, hi);
	vc_assert(r == (x < lo ? lo : x > hi ? hi : x), "constrain on integers");
}
VC_PROOF(M01_minmax)
{
	float a = vc_f32("a"), b = vc_f32("b");
	vc_assume(a == a && b == b);
	float mn = math::min(a, b), mx = math::max(a, b);
	vc_assert(mn <= a && mn <= b && (mn == a || mn == b), "min is the smaller argument");
	vc_assert(mx >= a && mx >= b && (mx == a || mx == b), "max is the larger argument");
}
VC_PROOF(M01_degrad)
{
	vc_mode("real");
	vc_tol(0, 1e-5);
	float a = vc_f32_in("a", -1e6f, 1e6f);
	vc_assert(vc_eq(math::degrees(math::radians(a)), a), "degrees(radians(x)) is x");
	vc_assert(vc_eq(math::radians(a) * 180.f, a * 3.14159265358979f), "radians scales by pi/180");
}

// ---- alpha filter
static AlphaFilter<float> mkf() { AlphaFilter<float> f(vc_f32_in("alpha", 0.f, 1.f)); f.reset(vc_f32_in("state", -1e6f, 1e6f)); return f; }
VC_PROOF(M01_filter_update)
{
	vc_mode("real"); vc_tol(1e-2, 1e-5);
	AlphaFilter<float> f = mkf();
	const float s = f.getState(), a = f._alpha, x = vc_f32_in("x", -1e6f, 1e6f);
	const float r = f.update(x);
	vc_assert(vc_eq(r, f.getState()), "update returns the new state");
	vc_assert(vc_eq(r, s + a * (x - s)), "the state moves towards the sample by the filter weight");
	vc_assert(vc_le(fminf(s, x), r) && vc_le(r, fmaxf(s, x)), "the filtered value stays between the old state and the sample");
	vc_assert(vc_eq(f._alpha, a), "update leaves the weight unchanged");
}
VC_PROOF(M01_filter_range_machine)
{
	vc_mode("iv");
	AlphaFilter<float> f = mkf();
	const float r = f.update(vc_f32_in("x", -1e6f, 1e6f));
	vc_assert(__builtin_isfinite(r), "finite inputs give a finite state");
}
VC_PROOF(M01_filter_parameters)
{
	vc_mode("real"); vc_tol(1e-6, 1e-5);
	AlphaFilter<float> f = mkf();
	const float a0 = f._alpha, s0 = f.getState();
	const float dt = vc_f32_in("dt", 0.f, 1e5f), tau = vc_f32_in("tau", 0.f, 1e5f);
	f.setParameters(dt, tau);
	vc_assert(vc_implies(dt + tau <= 0.f, vc_eq(f._alpha, a0)), "degenerate parameters keep the previous weight");
	vc_assert(vc_implies(dt + tau > 1e-6f, vc_eq(f._alpha * (tau + dt), dt)), "the weight is interval / (interval + time constant)");
	vc_assert(vc_le(0.f, f._alpha) && vc_le(f._alpha, 1.f), "the weight stays within zero and one");
	vc_assert(vc_eq(f.getState(), s0), "setting parameters leaves the state unchanged");
}
VC_PROOF(M01_filter_reset)
{
	AlphaFilter<float> f = mkf();
	const float a0 = f._alpha, x = vc_f32("x");
	f.reset(x);
	vc_assert(vc_same(f.getState(), x), "reset stores the given value");
	vc_assert(vc_same(f._alpha, a0), "reset leaves the weight unchanged");
	f.setAlpha(vc_f32("a2"));
	vc_assert(vc_same(f.getState(), x), "changing the weight leaves the state unchanged");
}
