// P04: distance to an arc
#include "vc.h"
#include <geo/geo.cpp>
// the geodesy below is under contract in P02; here any result it may give
static double a_lat, a_lon, c_lat, c_lon, s_lat, s_lon, e_lat, e_lon;
static float to_center, from_center, d_center, d_start, d_end, b_start, b_end, arc_start, arc_len, r_;
static bool is(double a, double b, double c, double d) { return vc_same64(a, c) && vc_same64(b, d); }
static float bearing(double a, double b, double c, double d)
{
	if (is(a, b, c_lat, c_lon) && is(c, d, a_lat, a_lon)) { return from_center; }
	if (is(a, b, a_lat, a_lon) && is(c, d, c_lat, c_lon)) { return to_center; }
	if (is(a, b, a_lat, a_lon) && is(c, d, s_lat, s_lon)) { return b_start; }
	vc_assert(is(a, b, a_lat, a_lon) && is(c, d, e_lat, e_lon), "bearings between the position and the centre or the ends");
	return b_end;
}
static float dist(double a, double b, double c, double d)
{
	// the distance is symmetric
	const bool fwd = is(a, b, a_lat, a_lon); const double o_lat = fwd ? c : a, o_lon = fwd ? d : b;
	vc_assert(fwd || is(c, d, a_lat, a_lon), "distances from the position");
	if (is(o_lat, o_lon, c_lat, c_lon)) { return d_center; }
	if (is(o_lat, o_lon, s_lat, s_lon)) { return d_start; }
	vc_assert(is(o_lat, o_lon, e_lat, e_lon), "distances to the centre or the ends");
	return d_end;
}
static void waypoint(double a, double b, float bear, float d, double *lat, double *lon)
{
	vc_assert(is(a, b, c_lat, c_lon) && vc_same(d, r_), "ends lie at the radius around the centre");
	const float off = matrix::wrap_pi(bear - arc_start), off_e = matrix::wrap_pi(bear - (arc_start + arc_len));
	if (fabsf(off) < 1e-3f) { *lat = s_lat; *lon = s_lon; }
	else { vc_assert(fabsf(off_e) < 1e-3f, "ends lie at the bearing of the start and of start plus sweep"); *lat = e_lat; *lon = e_lon; }
}
static void setup()
{
	vc_mode("real"); vc_tol(1e-2, 1e-4);
	vc_replace("get_bearing_to_next_waypoint", bearing);
	vc_replace("get_distance_to_next_waypoint", dist);
	vc_replace("waypoint_from_heading_and_distance", waypoint);
	a_lat = 1.; a_lon = 2.; c_lat = 3.; c_lon = 4.; s_lat = 5.; s_lon = 6.; e_lat = 7.; e_lon = 8.;
	to_center = vc_f32_in("to_center", -3.14f, 3.14f); from_center = vc_f32_in("from_center", -3.14f, 3.14f);
	b_start = vc_f32_in("b_start", -3.14f, 3.14f); b_end = vc_f32_in("b_end", -3.14f, 3.14f);
	d_center = vc_f32_in("d_center", 0.f, 1e7f); d_start = vc_f32_in("d_start", 0.f, 1e7f); d_end = vc_f32_in("d_end", 0.f, 1e7f);
	arc_start = vc_f32_in("arc_start", -6.2f, 6.2f); arc_len = vc_f32_in("arc_sweep", -6.2f, 6.2f);
	r_ = vc_f32_in("radius", 0.f, 1e6f);
}
VC_PROOF(P04_arc)
{
	setup();
	vc_assume(fabsf(arc_len) > 0.01f);
	crosstrack_error_s x; x.past_end = vc_bool("pe"); x.distance = vc_f32("di"); x.bearing = vc_f32("be");
	const int rc = get_distance_to_arc(&x, a_lat, a_lon, c_lat, c_lon, r_, arc_start, arc_len);
	VC_SCOPE {
		vc_assume(r_ < 0.1f);
		vc_assert(rc == -1 && !x.past_end && vc_same(x.distance, 0.f) && vc_same(x.bearing, 0.f), "no arc: an error and no stale result");
	}
	VC_SCOPE {
		vc_assume(r_ >= 0.1f);
		vc_assert(rc == 0, "a result");
		const float dir = arc_len > 0.f ? 1.f : -1.f, len = fabsf(arc_len);
		const float s = matrix::wrap_2pi(dir * (from_center - arc_start));    // travelled from the start
		VC_SCOPE {
			vc_assume(s <= len);
			vc_assert(!x.past_end, "beside the arc: not past its end");
			vc_assert(vc_eq(x.distance, dir * (r_ - d_center)), "beside the arc: radial distance, positive to the right");
			vc_assert(vc_eq(x.bearing, matrix::wrap_pi(d_center <= r_ ? to_center + 3.14159265f : to_center)), "beside the arc: bearing to it along the radius");
		}
		VC_SCOPE {
			vc_assume(s > len);
			const bool end = d_end <= d_start;
			vc_assert(x.past_end == end, "beyond the arc: past the end when that is nearer");
			vc_assert(vc_eq(x.distance, end ? d_end : d_start) && vc_eq(x.bearing, matrix::wrap_pi(end ? b_end : b_start)), "beyond the arc: distance and bearing to the nearer end");
		}
	}
}
