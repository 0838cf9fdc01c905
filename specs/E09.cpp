// E09: terrain height estimator
#include "fusion.h"

static Ekf &setup()
{
	vc_mode("real"); vc_tol(1e-4, 1e-3);
	Ekf &e = any_ekf();
	return e;
}
static bool recent(const Ekf &e, uint64_t t) { return t + 5000000u > e._time_last_imu; }

// ---- range finder
VC_PROOF(E09_range)
{
	Ekf &e = setup();
	const stateSample s = e._state;
	const float x0 = e._terrain_vpos, v0 = e._terrain_var;
	vc_assume(v0 >= 0.f);
	vc_assume(e._params.range_noise > 0.f);
	const float meas = e._range_sensor.getDistBottom();
	const float n = e._params.range_noise, k = e._params.range_noise_scaler * e._range_sensor.getRange();
	const float R = fmaxf(e.P(9, 9) * e._params.vehicle_variance_scaler, 0.f) + n * n + k * k;
	const float gate = fmaxf(e._params.range_innov_gate, 1.f);
	const uint64_t t0 = e._time_last_hagl_fuse;
	const bool rej = e._innov_check_fail_status.flags.reject_hagl;
	e.fuseHagl();
	const float innov = (x0 - s.pos(2)) - meas, S = v0 + R;
	vc_lemma(R > 0.f, "noise is positive");
	vc_assert(vc_eq(e._hagl_innov, innov), "innovation is predicted minus measured height");
	vc_assert(vc_eq(e._hagl_innov_var, S), "innovation variance is P + R");
	vc_assert(vc_eq(e._hagl_test_ratio, innov * innov / (gate * gate * e._hagl_innov_var)), "test ratio");
	VC_SCOPE {
		vc_assume(e._hagl_test_ratio <= 1.f);
		vc_assert(vc_eq(e._terrain_vpos, x0 - v0 / S * innov), "inside the gate: Kalman update of the terrain height");
		vc_assert(vc_eq(e._terrain_var, v0 * R / S), "and of its variance");
		vc_assert(e._time_last_hagl_fuse == e._time_last_imu && !e._innov_check_fail_status.flags.reject_hagl, "success is recorded");
	}
	VC_SCOPE {
		vc_assume(!(e._hagl_test_ratio <= 1.f));
		const bool late = t0 + 10000000u < e._time_last_imu;
		vc_assert(vc_eq(e._terrain_vpos, late ? s.pos(2) + meas : x0), "outside the gate: only after ten seconds of rejection reset to the measurement");
		vc_assert(vc_eq(e._terrain_var, late ? R : v0), "with its variance");
		vc_assert(e._time_last_hagl_fuse == t0, "a rejection is not recorded as fused");
		vc_assert(e._innov_check_fail_status.flags.reject_hagl == (late ? rej : true), "rejection is reported");
	}
	vc_assert(e._terrain_var >= 0.f, "variance stays non-negative");
	frame_state(e, s, "state kept");
}

// ---- optical flow
static float R_los;
static float meas_var(Ekf *) { return R_los; }
VC_PROOF(E09_flow)
{
	Ekf &e = setup();
	R_los = vc_f32_in("R_los", 1e-3f, 100.f);
	vc_replace("Ekf::calcOptFlowMeasVar", meas_var);
	vc_assume(e._params.rng_gnd_clearance > 0.f);
	const stateSample s = e._state;
	const float v0 = fmaxf(e._terrain_var, 0.f);
	const float x0 = fmaxf(e._terrain_vpos, e._params.rng_gnd_clearance + s.pos(2));
	const uint64_t t0 = e._time_last_flow_terrain_fuse;
	float rel[3], off[3], w[3], v[3], q[4], T[3][3];
	for (int i = 0; i < 3; i++) {
		off[i] = e._params.flow_pos_body(i) - e._params.imu_pos_body(i);
		w[i] = -e._flow_sample_delayed.gyro_xyz(i) / e._flow_sample_delayed.dt;
	}
	for (int i = 0; i < 3; i++) { const int j = (i + 1) % 3, k = (i + 2) % 3; rel[i] = w[j] * off[k] - w[k] * off[j]; }
	for (int i = 0; i < 3; i++) { v[i] = s.vel(i); for (int j = 0; j < 3; j++) { v[i] += e._R_to_earth(i, j) * rel[j]; } }
	for (int i = 0; i < 4; i++) { q[i] = s.quat_nominal(i); }
	rot_matrix(q, T);
	float b[2], rate[2];
	for (int i = 0; i < 2; i++) {
		b[i] = T[0][i] * v[0] + T[1][i] * v[1] + T[2][i] * v[2];
		rate[i] = e._flow_compensated_XY_rad(i) / e._flow_sample_delayed.dt + e._flow_gyro_bias(i);
	}
	const float gate = fmaxf(e._params.flow_innov_gate, 1.f);
	// predicted flow velocity / range, as a function of the terrain height; linearised at the prior
	typedef Dual<1> H1;
	const H1 hagl = H1::var(x0, 0) - H1(s.pos(2));
	const H1 h[2] = {H1(b[1] * T[2][2]) / hagl, H1(-b[0] * T[2][2]) / hagl};
	e.fuseFlowForTerrain();
	float x = x0, var = v0;
	bool pass[2];
	vc_mode("poly");
	for (int i = 0; i < 2; i++) {
		const float y = e._flow_innov(i), Sy = e._flow_innov_var(i);
		pass[i] = y * y / (gate * gate * Sy) <= 1.f;
	}
	for (int c = 0; c < 4; c++) {
		VC_SCOPE {
			vc_assume(pass[0] == (c & 1) && pass[1] == (c >> 1));
			x = x0; var = v0;
			for (int i = 0; i < 2; i++) {
				vc_assert(vc_eq(e._flow_innov(i), h[i].v - rate[i]), "innovation is predicted minus measured flow");
				vc_assert(vc_eq(e._flow_innov_var(i), h[i].d[0] * h[i].d[0] * var + R_los), "innovation variance is H P H' + R");
				if (c >> i & 1) {
					x = x - var * h[i].d[0] / e._flow_innov_var(i) * e._flow_innov(i);
					var = fmaxf(var - var * h[i].d[0] / e._flow_innov_var(i) * h[i].d[0] * var, 0.f);
				}
			}
			vc_assert(vc_eq(e._terrain_vpos, x), "each axis inside the gate makes the Kalman update of the terrain height");
			vc_assert(vc_eq(e._terrain_var, var), "and of its variance");
		}
	}
	vc_mode("real");
	const bool used = pass[0] || pass[1];
	vc_assert(e._time_last_flow_terrain_fuse == (used ? e._time_last_imu : t0), "success is recorded");
	vc_assert(e._terrain_var >= 0.f, "variance stays non-negative");
	frame_state(e, s, "state kept");
}

// ---- initialisation
VC_PROOF(E09_init)
{
	Ekf &e = setup();
	const stateSample s = e._state;
	const bool air = e._control_status.flags.in_air;
	const bool range = (e._params.terrain_fusion_mode & TerrainFusionMask::TerrainFuseRangeFinder) && e._range_sensor.isDataHealthy();
	const bool flow = (e._params.terrain_fusion_mode & TerrainFusionMask::TerrainFuseOpticalFlow) && e._flow_for_terrain_data_ready;
	const float clr = e._params.rng_gnd_clearance, noise = e._params.range_noise, dist = e._range_sensor.getDistBottom();
	const float x0 = e._terrain_vpos, v0 = e._terrain_var;
	const uint64_t t0 = e._time_last_hagl_fuse, f0 = e._time_last_fake_hagl_fuse;
	const bool ok = e.initHagl();
	vc_assert(ok == (!air || range || flow), "initialised on the ground or with data");
	vc_assert(vc_eq(e._terrain_vpos, !air ? s.pos(2) + clr : range ? s.pos(2) + dist : flow ? fmaxf(0.f, s.pos(2)) : x0), "terrain height: clearance below, measured, or the origin");
	vc_assert(vc_eq(e._terrain_var, !air ? clr * clr : range ? noise * noise : flow ? 100.f : v0), "with its variance");
	vc_assert(e._time_last_hagl_fuse == (ok ? e._time_last_imu : t0), "time of initialisation");
	vc_assert(e._time_last_fake_hagl_fuse == (!air ? e._time_last_imu : f0), "an assumed height is marked as such");
	frame_state(e, s, "state kept");
}

// ---- the estimator step
static int hagls, flows, inits; static bool init_ok;
static void hagl(Ekf *e) { hagls++; e->_terrain_vpos = vc_f32("vpos_range"); e->_terrain_var = vc_f32("var_range"); vc_assume(e->_terrain_var >= 0.f); e->_time_last_hagl_fuse = vc_u64("t_range"); }
static void flow(Ekf *e) { flows++; e->_terrain_vpos = vc_f32("vpos_flow"); e->_terrain_var = vc_f32("var_flow"); vc_assume(e->_terrain_var >= 0.f); e->_time_last_flow_terrain_fuse = vc_u64("t_flow"); }
static bool init(Ekf *) { inits++; return init_ok; }
VC_PROOF(E09_step)
{
	Ekf &e = setup();
	hagls = flows = inits = 0;
	init_ok = vc_bool("init_ok");
	vc_replace("Ekf::fuseHagl", hagl);
	vc_replace("Ekf::fuseFlowForTerrain", flow);
	vc_replace("Ekf::initHagl", init);
	const stateSample s = e._state;
	const bool air = e._control_status.flags.in_air, was = e._terrain_initialised;
	const bool use_range = (e._params.terrain_fusion_mode & TerrainFusionMask::TerrainFuseRangeFinder), range = use_range && e._range_sensor.isDataHealthy();
	const bool use_flow = (e._params.terrain_fusion_mode & TerrainFusionMask::TerrainFuseOpticalFlow), flw = use_flow && e._flow_for_terrain_data_ready;
	const float x0 = e._terrain_vpos, v0 = e._terrain_var, clr = e._params.rng_gnd_clearance, ground = e._last_on_ground_posD;
	const float dt = e._imu_sample_delayed.delta_vel_dt, a = dt * e._params.terrain_p_noise, b = dt * e._params.terrain_gradient;
	const float grown = v0 + a * a + b * b * (s.vel(0) * s.vel(0) + s.vel(1) * s.vel(1));
	e.runTerrainEstimator();
	const bool run = was && air;
	vc_assert(vc_eq(e._last_on_ground_posD, air ? ground : s.pos(2)), "the ground position is remembered");
	vc_assert(inits == (run ? 0 : 1) && e._terrain_initialised == (run ? was : init_ok), "initialised when necessary and always on the ground");
	vc_assert(hagls == (run && range ? 1 : 0), "the range finder is fused when enabled and healthy");
	vc_assert(flows == (run && flw ? 1 : 0), "optical flow is fused when enabled and new");
	vc_assert(vc_implies(flows == 1, !e._flow_for_terrain_data_ready), "a flow sample is fused once");
	VC_SCOPE {
		vc_assume(!run);
		vc_assert(vc_same(e._terrain_vpos, x0) && vc_same(e._terrain_var, v0), "initialisation alone decides the terrain height");
	}
	VC_SCOPE {
		vc_assume(run);
		vc_assert(vc_le(clr, e._terrain_vpos - s.pos(2)), "the vehicle stays above ground clearance");
		vc_assert(e._terrain_var >= 0.f, "variance stays non-negative");
		VC_SCOPE {
			vc_assume(hagls + flows == 0);
			vc_assert(vc_eq(e._terrain_var, clampf(grown, 0.f, 1e4f)), "variance grows with the terrain gradient and is limited");
			vc_assert(vc_eq(e._terrain_vpos, fmaxf(x0, s.pos(2) + clr)), "without data the height stays");
		}
	}
	const bool rr = recent(e, e._time_last_hagl_fuse), rf = recent(e, e._time_last_flow_terrain_fuse);
	vc_assert(e._hagl_valid == (e._terrain_initialised && (rr || rf)), "height above ground is valid while data was fused in the last five seconds");
	vc_assert(e._hagl_sensor_status.flags.range_finder == (use_range && rr && e._time_last_fake_hagl_fuse != e._time_last_hagl_fuse), "range finder contribution is reported, an assumed height is not");
	vc_assert(e._hagl_sensor_status.flags.flow == (use_flow && rf), "flow contribution is reported");
	frame_state(e, s, "state kept");
}
