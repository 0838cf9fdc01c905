// G02: the lookup is the bilinear interpolation of the WMM-2020 grid, everywhere on the globe (ideal reals)
#include "vc.h"
#include <geo_lookup/geo_mag_declination.cpp>
#include "wmm2020_reference.h"

// latitude band: -1 = below the grid, 0..17 = [10 i - 90, 10 i - 80), 18 = at or above the north pole
// longitude band: 0..35 = [10 j - 180, 10 j - 170), 36 = exactly +180; turn: 0, +1 (lon + 360), -1 (lon - 360)
static void spec_cell(int i, int j, int turn)
{
	VC_SCOPE {
	vc_mode("real"); vc_tol(5e-5, 1e-5); vc_traps(false); vc_prune(true);
	vc_hint(10 * i - 90, 10 * i - 80);
	float lat = vc_f32("lat");
	const float o = 360.f * turn;
	vc_hint(10 * j - 180 + o, 10 * j - 170 + o);
	float lon = vc_f32("lon");
	if (i < 0) { vc_assume(lat < -90.f && lat > -1e4f); } else if (i == 18) { vc_assume(lat >= 90.f && lat < 1e4f); } else { vc_assume(lat >= 10.f * i - 90.f && lat < 10.f * i - 80.f); }
	if (j == 36) { vc_assume(turn == 0 && lon >= 180.f && lon <= 180.f); } else { vc_assume(lon >= 10.f * j - 180.f + o && lon < 10.f * j - 170.f + o); }
	if (turn > 0) { vc_assume(lon > 180.f); }
	// position inside the cell
	const int ci = i < 0 ? 0 : i > 17 ? 17 : i, cj = j > 35 ? 35 : j;
	const float u = i < 0 ? 0.f : i > 17 ? 1.f : (lat - (10.f * ci - 90.f)) / 10.f;
	const float v = (lon - o - (10.f * cj - 180.f)) / 10.f;
#define INTERP(T) ((1.f - u) * ((1.f - v) * T[ci][cj] + v * T[ci][cj + 1]) + u * ((1.f - v) * T[ci + 1][cj] + v * T[ci + 1][cj + 1]))
	const float d = get_mag_declination_radians(lat, lon), in = get_mag_inclination_radians(lat, lon), s = get_mag_strength_gauss(lat, lon);
	vc_assert(vc_eq(d, INTERP(wmm2020::declination_table) * 1e-4f), "declination is the bilinear interpolation of the WMM-2020 grid");
	vc_assert(vc_eq(in, INTERP(wmm2020::inclination_table) * 1e-4f), "inclination is the bilinear interpolation of the WMM-2020 grid");
	vc_assert(vc_eq(s, INTERP(wmm2020::strength_table) * 1e-4f), "field strength is the bilinear interpolation of the WMM-2020 grid");
	if (turn == 0) {
	vc_assert(vc_eq(get_mag_declination_degrees(lat, lon), d * 180.f / 3.14159265f), "declination in degrees and radians agree");
	vc_assert(vc_eq(get_mag_inclination_degrees(lat, lon), in * 180.f / 3.14159265f), "inclination in degrees and radians agree");
	vc_assert(vc_eq(get_mag_strength_tesla(lat, lon), s * 1e-4f), "field strength in tesla and gauss agree");
	}
	}
}
#define BAND(I, N) VC_PROOF(G02_latitude_band_##N) { for (int j = 0; j < 37; j++) { spec_cell(I, j, 0); if (j < 36) { spec_cell(I, j, 1); spec_cell(I, j, -1); } } }
BAND(-1, south_of_grid) BAND(0, 0) BAND(1, 1) BAND(2, 2) BAND(3, 3) BAND(4, 4) BAND(5, 5) BAND(6, 6) BAND(7, 7) BAND(8, 8) BAND(9, 9)
BAND(10, 10) BAND(11, 11) BAND(12, 12) BAND(13, 13) BAND(14, 14) BAND(15, 15) BAND(16, 16) BAND(17, 17) BAND(18, north_pole)
