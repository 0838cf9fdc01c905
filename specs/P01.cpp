// P01: local map projection
#include "vc.h"
#include <geo/geo.cpp>
static double dbl(const char *n, double lo, double hi) { vc_hint(lo, hi); double x = vc_f64(n); vc_assume(x >= lo && x <= hi); return x; }
static constexpr double R = 6371000.0, PI = 3.14159265358979323846;
static map_projection_reference_s mk()
{
	map_projection_reference_s r;
	r.lat_rad = dbl("r.lat", -1.5, 1.5); r.lon_rad = dbl("r.lon", -3.1, 3.1);
	r.sin_lat = sin(r.lat_rad); r.cos_lat = cos(r.lat_rad);
	r.timestamp = vc_u64("r.t"); r.init_done = true;
	return r;
}
VC_PROOF(P01_uninitialised)
{
	vc_mode("uf");
	map_projection_reference_s r;
	r.init_done = false; r.lat_rad = vc_f64("a"); r.lon_rad = vc_f64("b"); r.sin_lat = vc_f64("c"); r.cos_lat = vc_f64("d"); r.timestamp = vc_u64("t");
	const float x0 = vc_f32("x"), y0 = vc_f32("y"); float x = x0, y = y0;
	const double la0 = vc_f64("la"), lo0 = vc_f64("lo"); double la = la0, lo = lo0;
	vc_assert(!map_projection_initialized(&r), "an uninitialised reference says so");
	const int e1 = map_projection_project(&r, vc_f64("lat"), vc_f64("lon"), &x, &y);
	vc_assert(e1 == -1 && vc_same(x, x0) && vc_same(y, y0), "projecting without a reference fails and writes nothing");
	const int e2 = map_projection_reproject(&r, x0, y0, &la, &lo);
	vc_assert(e2 == -1 && vc_same64(la, la0) && vc_same64(lo, lo0), "reprojecting without a reference fails and writes nothing");
	const int e3 = map_projection_reference(&r, &la, &lo);
	vc_assert(e3 == -1 && vc_same64(la, la0) && vc_same64(lo, lo0), "reading a missing reference fails and writes nothing");
}
VC_PROOF(P01_init)
{
	vc_mode("real"); vc_tol(1e-9, 1e-9);
	map_projection_reference_s r;
	r.init_done = false;
	const double lat = dbl("lat", -90, 90), lon = dbl("lon", -180, 180);
	const uint64_t t = vc_u64("t");
	vc_assert(map_projection_init_timestamped(&r, lat, lon, t) == 0 && map_projection_initialized(&r) && map_projection_timestamp(&r) == t, "initialising succeeds and stores its time");
	vc_assert(vc_eq64(r.lat_rad * 180.0, lat * PI) && vc_eq64(r.lon_rad * 180.0, lon * PI), "the reference is the given position");
	vc_assert(vc_eq64(r.sin_lat, sin(r.lat_rad)) && vc_eq64(r.cos_lat, cos(r.lat_rad)), "the cached trigonometry belongs to the reference");
	double la, lo;
	vc_assert(map_projection_reference(&r, &la, &lo) == 0 && vc_eq64(la, r.lat_rad) && vc_eq64(lo, r.lon_rad), "the stored reference is returned");
	map_projection_reference_s r2;
	r2.init_done = false;
	vc_assert(map_projection_init(&r2, lat, lon) == 0 && r2.init_done && vc_eq64(r2.lat_rad, r.lat_rad) && vc_eq64(r2.lon_rad, r.lon_rad) && vc_eq64(r2.sin_lat, r.sin_lat) && vc_eq64(r2.cos_lat, r.cos_lat), "untimed initialisation stores the same reference");
}
// azimuthal equidistant projection about the reference: k (n . north), k (n . east) with k = c / sin c, cos c = n . n0
VC_PROOF(P01_project)
{
	vc_mode("real"); vc_tol(1e-2, 1e-5);
	map_projection_reference_s r = mk();
	const double lat = dbl("lat", -89, 89), lon = dbl("lon", -180, 180);
	float x, y;
	vc_assert(map_projection_project(&r, lat, lon, &x, &y) == 0, "projecting succeeds");
	const double la = lat / 180.0 * PI, dl = lon / 180.0 * PI - r.lon_rad;
	double cc = r.sin_lat * sin(la) + r.cos_lat * cos(la) * cos(dl);
	cc = cc > 1.0 ? 1.0 : cc < -1.0 ? -1.0 : cc;
	const double c = acos(cc);
	const double north = r.cos_lat * sin(la) - r.sin_lat * cos(la) * cos(dl), east = cos(la) * sin(dl);
	vc_assert(vc_implies(c > 1e-6, vc_eq((float)(R * c / sin(c) * north), x)), "the north coordinate is the great circle distance along the azimuth");
	vc_assert(vc_implies(c > 1e-6, vc_eq((float)(R * c / sin(c) * east), y)), "the east coordinate is the great circle distance along the azimuth");
	vc_assert(vc_implies(!(c > 0) && !(c < 0), vc_eq((float)(R * north), x) && vc_eq((float)(R * east), y)), "the projection is defined at the reference itself");
}
VC_PROOF(P01_reproject)
{
	vc_mode("real"); vc_tol(1e-7, 1e-8);
	map_projection_reference_s r = mk();
	vc_hint(-1e6, 1e6); const float x = vc_f32("x"); vc_hint(-1e6, 1e6); const float y = vc_f32("y");
	vc_assume(x >= -1e7f && x <= 1e7f && y >= -1e7f && y <= 1e7f);
	double lat, lon;
	vc_assert(map_projection_reproject(&r, x, y, &lat, &lon) == 0, "reprojecting succeeds");
	const double xr = x / R, yr = y / R, c = sqrt(xr * xr + yr * yr);
	double sl = cos(c) * r.sin_lat + xr * sin(c) * r.cos_lat / c;
	sl = sl > 1.0 ? 1.0 : sl < -1.0 ? -1.0 : sl;
	vc_assert(vc_implies(c > 0, vc_eq64(lat * PI / 180.0, asin(sl))), "the latitude is that of the point at the given distance and azimuth");
	vc_assert(vc_implies(c > 0, vc_eq64(lon * PI / 180.0 - r.lon_rad, atan2(yr * sin(c), c * r.cos_lat * cos(c) - xr * r.sin_lat * sin(c)))), "the longitude is that of the point at the given distance and azimuth");
	vc_assert(vc_implies(!(c > 0), vc_eq64(lat * PI / 180.0, r.lat_rad) && vc_eq64(lon * PI / 180.0, r.lon_rad)), "the origin maps back to the reference");
}
VC_PROOF(P01_reproject_total)
{
	vc_mode("iv");
	map_projection_reference_s r = mk();
	const float x = vc_f32_in("x", -2e7f, 2e7f), y = vc_f32_in("y", -2e7f, 2e7f);
	double lat, lon;
	map_projection_reproject(&r, x, y, &lat, &lon);
	vc_assert(lat == lat && lat >= -90.01 && lat <= 90.01, "the reprojected latitude is a latitude");
}
