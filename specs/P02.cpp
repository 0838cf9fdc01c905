// P02: great circle distance, bearing and waypoint geometry
#include "vc.h"
#include <geo/geo.cpp>
static double dbl(const char *n, double lo, double hi) { vc_hint(lo, hi); double x = vc_f64(n); vc_assume(x >= lo && x <= hi); return x; }
static constexpr double R = 6371000.0, PI = 3.14159265358979323846;
static double rad(double d) { return d / 180.0 * PI; }
static double clamp1(double x) { return x > 1.0 ? 1.0 : x < -1.0 ? -1.0 : x; }
#define POS(l, o) const double l = dbl(#l, -90, 90), o = dbl(#o, -180, 180)

// haversine of the central angle
static double hav(double la1, double lo1, double la2, double lo2)
{
	const double s = sin((rad(la2) - rad(la1)) / 2), t = sin((rad(lo2) - rad(lo1)) / 2);
	return s * s + t * t * cos(rad(la1)) * cos(rad(la2));
}
VC_PROOF(P02_distance)
{
	vc_mode("real"); vc_tol(0.5, 1e-5);
	POS(a, b); POS(c, d);
	const double h = hav(a, b, c, d), h1 = 1.0 - h;
	const float dist = get_distance_to_next_waypoint(a, b, c, d);
	vc_assert(vc_eq(dist, (float)(2 * R * atan2(sqrt(h), sqrt(h1 > 0.0 ? h1 : 0.0)))), "the distance is the haversine great circle distance");
}
VC_PROOF(P02_distance_total)
{
	vc_mode("iv");
	POS(a, b); POS(c, d);
	const float dist = get_distance_to_next_waypoint(a, b, c, d);
	vc_assert(dist == dist && dist < 5e7f && dist > -5e7f, "every pair of positions has a finite distance");
	float xy, z;
	const float al = vc_f32_in("alt", -1e5f, 1e5f), al2 = vc_f32_in("alt2", -1e5f, 1e5f);
	const float g = get_distance_to_point_global_wgs84(a, b, al, c, d, al2, &xy, &z);
	vc_assert(g == g && xy == xy && z == z && g >= 0 && xy >= 0 && z >= 0 && g < 1e8f, "every pair of positions has a finite 3D distance");
}
VC_PROOF(P02_distance_3d)
{
	vc_mode("real"); vc_tol(0.5, 1e-5);
	POS(a, b); POS(c, d);
	const float al = vc_f32_in("alt", -1e4f, 1e4f), al2 = vc_f32_in("alt2", -1e4f, 1e4f);
	float xy, z;
	const float g = get_distance_to_point_global_wgs84(a, b, al, c, d, al2, &xy, &z);
	const double h = hav(c, d, a, b), h1 = 1.0 - h;
	const float e = (float)(2 * R * atan2(sqrt(h), sqrt(h1 > 0.0 ? h1 : 0.0)));
	vc_assert(vc_eq(xy, fabsf(e)), "the horizontal distance is the great circle distance");
	vc_assert(vc_eq(z, fabsf(al - al2)), "the vertical distance is the altitude difference");
	vc_assert(vc_eq(g, sqrtf(e * e + (al - al2) * (al - al2))) && vc_le(0, g), "the total distance combines both");
}
VC_PROOF(P02_distance_local)
{
	vc_mode("real"); vc_tol(1e-3, 1e-5);
	float p[6];
	for (int i = 0; i < 6; i++) { vc_hint(-1000, 1000); p[i] = vc_f32_i("p", i); }
	float xy, z;
	const float g = mavlink_wpm_distance_to_point_local(p[0], p[1], p[2], p[3], p[4], p[5], &xy, &z);
	const float dx = p[0] - p[3], dy = p[1] - p[4], dz = p[2] - p[5];
	vc_assert(vc_eq(xy, sqrtf(dx * dx + dy * dy)), "the local horizontal distance is euclidean");
	vc_assert(vc_eq(z, fabsf(dz)), "the local vertical distance is the height difference");
	vc_assert(vc_eq(g, sqrtf(dx * dx + dy * dy + dz * dz)), "the local distance is euclidean");
}
VC_PROOF(P02_bearing_and_vector)
{
	vc_mode("real"); vc_tol(2e-2, 1e-5);
	POS(a, b); POS(c, d);
	const double dl = rad(d) - rad(b);
	const double n = cos(rad(a)) * sin(rad(c)) - sin(rad(a)) * cos(rad(c)) * cos(dl), e = sin(dl) * cos(rad(c));
	vc_assert(vc_eq(get_bearing_to_next_waypoint(a, b, c, d), matrix::wrap_pi(atan2f((float)e, (float)n))), "the bearing is the initial great circle course");
	float vn, ve;
	get_vector_to_next_waypoint(a, b, c, d, &vn, &ve);
	vc_assert(vc_eq(vn, (float)(R * n)) && vc_eq(ve, (float)(R * e)), "the vector points along the great circle course");
	get_vector_to_next_waypoint_fast(a, b, c, d, &vn, &ve);
	vc_assert(vc_eq(vn, (float)(R * (rad(c) - rad(a)))) && vc_eq(ve, (float)(R * dl * cos(rad(a)))), "the fast vector is the equirectangular displacement");
}
VC_PROOF(P02_add_vector)
{
	vc_mode("real"); vc_tol(1e-6, 1e-6);
	const double a = dbl("a", -80, 80), b = dbl("b", -180, 180);
	const float n = vc_f32_in("n", -1e5f, 1e5f), e = vc_f32_in("e", -1e5f, 1e5f);
	double la, lo;
	add_vector_to_global_position(a, b, n, e, &la, &lo);
	vc_assume(cos(rad(a)) > 0.1);
	vc_assert(vc_eq64((rad(la) - rad(a)) * R, n), "moving north shifts the latitude by the arc");
	vc_assert(vc_eq64((rad(lo) - rad(b)) * R * cos(rad(a)), e), "moving east shifts the longitude by the arc of the parallel");
	// and the fast vector is its inverse
	float vn, ve;
	get_vector_to_next_waypoint_fast(a, b, la, lo, &vn, &ve);
	vc_tol(1e-2, 1e-4);
	vc_assert(vc_eq(vn, n) && vc_eq(ve, e), "adding a vector and taking the fast vector are inverse");
}
VC_PROOF(P02_waypoint)
{
	vc_mode("real"); vc_tol(1e-6, 1e-6);
	const double a = dbl("a", -80, 80), b = dbl("b", -180, 180);
	const float br = vc_f32_in("bearing", -6.f, 6.f), dist = vc_f32_in("dist", -1e6f, 1e6f);
	double la, lo;
	waypoint_from_heading_and_distance(a, b, br, dist, &la, &lo);
	const double t = (double)matrix::wrap_2pi(br), q = dist / R;
	const double sl = clamp1(sin(rad(a)) * cos(q) + cos(rad(a)) * sin(q) * cos(t));
	vc_assert(vc_eq64(rad(la), asin(sl)), "the waypoint latitude solves the direct geodesic problem on the sphere");
	vc_assert(vc_eq64(rad(lo) - rad(b), atan2(sin(t) * sin(q) * cos(rad(a)), cos(q) - sin(rad(a)) * sin(asin(sl)))), "the waypoint longitude solves the direct geodesic problem on the sphere");
}
VC_PROOF(P02_waypoint_total)
{
	vc_mode("iv");
	POS(a, b);
	const float br = vc_f32_in("bearing", 0.f, 6.f), dist = vc_f32_in("dist", -2e7f, 2e7f);
	double la, lo;
	waypoint_from_heading_and_distance(a, b, br, dist, &la, &lo);
	vc_assert(la == la && la >= -90.01 && la <= 90.01, "the waypoint latitude is a latitude");
}
VC_PROOF(P02_waypoint_on_line)
{
	vc_mode("real"); vc_tol(1e-6, 1e-6);
	POS(a, b); POS(c, d);
	const float dist = vc_f32_in("dist", -1e6f, 1e6f);
	double la, lo, la2, lo2;
	create_waypoint_from_line_and_dist(a, b, c, d, dist, &la, &lo);
	waypoint_from_heading_and_distance(a, b, get_bearing_to_next_waypoint(a, b, c, d), dist, &la2, &lo2);
	vc_assert(vc_implies(fabsf(dist) < 1e-7f, vc_eq64(la, a) && vc_eq64(lo, b)), "zero distance is the start of the line");
	vc_assert(vc_implies(fabsf(dist) >= 1e-6f, vc_eq64(la, la2) && vc_eq64(lo, lo2)), "the waypoint lies on the line at the given distance");
}
