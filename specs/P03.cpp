// P03: cross track error to a line
#include "vc.h"
#include <geo/geo.cpp>
static double dbl(const char *n, double lo, double hi) { vc_hint(lo, hi); double x = vc_f64(n); vc_assume(x >= lo && x <= hi); return x; }
#define POS(l, o) const double l = dbl(#l, -80, 80), o = dbl(#o, -180, 180)
static constexpr double PI_2 = 1.57079632679489661923;
VC_PROOF(P03_line)
{
	vc_mode("real"); vc_tol(1e-2, 1e-4);
	POS(a, b); POS(c, d); POS(e, f);
	crosstrack_error_s r;
	r.past_end = vc_bool("pe"); r.distance = vc_f32("di"); r.bearing = vc_f32("be");
	const int rc = get_distance_to_line(&r, a, b, c, d, e, f);
	const float to_end = get_distance_to_next_waypoint(a, b, e, f);
	const float track = get_bearing_to_next_waypoint(c, d, e, f);
	const float diff = matrix::wrap_pi(track - get_bearing_to_next_waypoint(a, b, e, f));
	const bool at_end = to_end < 0.1f;
	const bool past = !at_end && (diff > PI_2 || diff < -PI_2);
	const bool on = !at_end && !past;
	vc_assert(rc == (at_end ? -1 : 0), "an error is reported exactly when the end of the line is reached");
	vc_assert(r.past_end == past, "past the end means the end lies behind");
	vc_assert(vc_implies(!on, vc_eq(r.distance, 0.f) && vc_eq(r.bearing, 0.f)), "no stale result remains when there is no closest point");
	vc_assert(vc_implies(on, vc_eq(r.distance, to_end * sinf(diff))), "the distance is the signed perpendicular distance");
	vc_assert(vc_implies(on, vc_eq(r.bearing, matrix::wrap_pi(sinf(diff) >= 0 ? track - PI_2 : track + PI_2))), "the bearing points perpendicularly back to the line");
}
