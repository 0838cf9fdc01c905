// G01: magnetic field lookup: total, memory safe and finite for every finite position (machine arithmetic)
#include "vc.h"
#include <geo_lookup/geo_mag_declination.cpp>

static float coord(const char *n, double lo, double hi) { vc_hint(lo, hi); float x = vc_f32(n); vc_assume(__builtin_isfinite(x)); return x; }
#define P(fnname) VC_PROOF(G01_##fnname) { vc_mode("iv"); float a = coord("lat", -95, 95), b = coord("lon", -365, 365); \
	float r = fnname(a, b); vc_assert(__builtin_isfinite(r), "the result is finite for every finite position"); }
P(get_mag_declination_radians) P(get_mag_declination_degrees) P(get_mag_inclination_radians)
P(get_mag_inclination_degrees) P(get_mag_strength_gauss) P(get_mag_strength_tesla)
