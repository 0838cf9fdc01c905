// E25: a new filter object starts from one state, whatever memory it is built on
#include "ekf_all.h"
#ifndef ECLVC_LAYOUT
#include "vc_layout.h"   // every member of Ekf and of what it contains, from the compiler's record layout; pointers and padding left out

alignas(16) static unsigned char other_mem_[sizeof(Ekf)];
VC_PROOF(E25_defined)
{
	vc_havoc(ekf_mem_, sizeof(ekf_mem_), "memory"); vc_havoc(other_mem_, sizeof(other_mem_), "other_memory");
	new (ekf_mem_) Ekf;
	new (other_mem_) Ekf;
	vc_assert(sizeof(Ekf_members) / sizeof(Ekf_members[0]) > 400, "the members are enumerated");
	for (const vc_member &m : Ekf_members) {
		bool same = true;
		for (unsigned i = 0; i < m.size; i++) { same = same && ekf_mem_[m.off + i] == other_mem_[m.off + i]; }
		vc_assert(same, m.name);
	}
}
VC_PROOF(E25_initial)
{
	vc_havoc(ekf_mem_, sizeof(ekf_mem_), "memory");
	Ekf &e = *new (ekf_mem_) Ekf;
	vc_assert(!e._filter_initialised && !e._initialised && !e._NED_origin_initialised && !e._terrain_initialised && e._is_first_imu_sample && e._mag_counter == 0 && e._baro_counter == 0, "nothing has started");
	vc_assert(e._control_status.value == 0 && e._control_status_prev.value == 0 && e._fault_status.value == 0 && e._warning_events.value == 0 && e._information_events.value == 0, "no status, fault or event");
	vc_assert(!e.attitude_valid() && !e.global_position_is_valid() && !e.isTerrainEstimateValid(), "nothing is reported valid");
	for (int i = 0; i < 3; i++) { for (int j = 0; j < 3; j++) { vc_assert(vc_same(e._R_ev_to_ekf(i, j), i == j ? 1.f : 0.f), "the vision frame is the filter frame until found otherwise"); } }
	const auto &r = e.state_reset_status();
	vc_assert(r.velNE_counter == 0 && r.velD_counter == 0 && r.posNE_counter == 0 && r.posD_counter == 0 && r.quat_counter == 0, "no reset has happened");
	vc_assert(e._gps_buffer.get_length() == 1 && e._mag_buffer.get_length() == 1 && e._baro_buffer.get_length() == 1 && e._range_buffer.get_length() == 1 && e._airspeed_buffer.get_length() == 1 && e._flow_buffer.get_length() == 1 && e._ext_vision_buffer.get_length() == 1 && e._drag_buffer.get_length() == 1 && e._auxvel_buffer.get_length() == 1 && e._imu_buffer.get_length() == 12 && e._output_buffer.get_length() == 12 && e._output_vert_buffer.get_length() == 12, "every buffer can be read from the start");
	vc_assert(e._gps_buffer.get_newest().time_us == 0 && e._mag_buffer.get_newest().time_us == 0 && e._baro_buffer.get_newest().time_us == 0 && e._range_buffer.get_newest().time_us == 0 && e._airspeed_buffer.get_newest().time_us == 0 && e._flow_buffer.get_newest().time_us == 0 && e._ext_vision_buffer.get_newest().time_us == 0 && e._drag_buffer.get_newest().time_us == 0 && e._auxvel_buffer.get_newest().time_us == 0 && e._imu_buffer.get_newest().time_us == 0, "buffers hold no samples");
}
static int interfaces; static uint64_t interface_time; static bool interface_ok;
static bool interface(EstimatorInterface *, uint64_t t) { interfaces++; interface_time = t; return interface_ok; }
VC_PROOF(E25_restart)
{
	Ekf &e = any_ekf();
	vc_replace("EstimatorInterface::initialise_interface", interface);
	interfaces = 0; interface_ok = vc_bool("interface");
	const uint64_t t = vc_u64_in("time", 1, 1ull << 50);
	vc_assume(e._params.range_valid_quality_s >= 0.f && e._params.range_valid_quality_s < 1000.f);
	parameters p0; memcpy(&p0, &e._params, sizeof p0);
	const float po = e._range_sensor._pitch_offset_rad, so = e._range_sensor._sin_pitch_offset, co = e._range_sensor._cos_pitch_offset;
	const bool ok = e.init(t);
	vc_assert(ok == interface_ok && interfaces == 1 && interface_time == t, "buffers are set up for the given time and failure is reported");
	const stateSample &s = e._state;
	for (int i = 0; i < 3; i++) { vc_assert(s.vel(i) == 0.f && s.pos(i) == 0.f && s.delta_ang_bias(i) == 0.f && s.delta_vel_bias(i) == 0.f && s.mag_I(i) == 0.f && s.mag_B(i) == 0.f, "states start at zero"); }
	vc_assert(s.wind_vel(0) == 0.f && s.wind_vel(1) == 0.f, "wind starts at zero");
	for (int i = 0; i < 4; i++) { vc_assert(s.quat_nominal(i) == (i ? 0.f : 1.f) && e._output_new.quat_nominal(i) == (i ? 0.f : 1.f), "attitude starts level"); }
	for (int i = 0; i < 3; i++) { vc_assert(e._output_new.vel(i) == 0.f && e._output_new.pos(i) == 0.f && e._delta_angle_corr(i) == 0.f, "outputs start at zero"); }
	vc_assert(!e._imu_updated && !e._NED_origin_initialised && !e._gps_speed_valid && !e._filter_initialised && !e._terrain_initialised, "nothing has started");
	vc_assert(e._control_status.value == 0 && e._control_status_prev.value == 0 && e._fault_status.value == 0 && e._innov_check_fail_status.value == 0, "no status or fault");
	for (int i = 0; i < 3; i++) { vc_assert(e._ang_rate_delayed_raw(i) == 0.f && e._prev_dvel_bias_var(i) == 0.f, "derived data start over"); }
	vc_assert(e._accel_magnitude_filt == 0.f && e._ang_rate_magnitude_filt == 0.f && e._gps_alt_ref == 0.f && vc_eq(e._dt_ekf_avg, Ekf::FILTER_UPDATE_PERIOD_S), "filters start over");
	vc_assert(e._gps_velNE_filt(0) == 0.f && e._gps_velNE_filt(1) == 0.f && e._gps_pos_deriv_filt(0) == 0.f && e._gps_pos_deriv_filt(1) == 0.f && e._gps_pos_deriv_filt(2) == 0.f, "GPS drift is judged afresh");
	const bool changed = fabsf(po - p0.rng_sens_pitch) > FLT_EPSILON;
	vc_assert(vc_same(e._range_sensor._pitch_offset_rad, changed ? p0.rng_sens_pitch : po) && vc_same(e._range_sensor._sin_pitch_offset, changed ? sinf(p0.rng_sens_pitch) : so) && vc_same(e._range_sensor._cos_pitch_offset, changed ? cosf(p0.rng_sens_pitch) : co), "range finder mounting as configured");
	vc_assert(vc_same(e._range_sensor._range_cos_max_tilt, p0.range_cos_max_tilt), "range finder tilt limit as configured");
	VC_SCOPE { vc_mode("uf"); vc_assert(e._range_sensor._quality_hyst_us == (uint64_t)(p0.range_valid_quality_s * 1e6f), "range finder quality hysteresis as configured"); }
	bool kept = true;
	for (unsigned i = 0; i < sizeof p0; i++) { kept = kept && ((const unsigned char *)&p0)[i] == ((const unsigned char *)&e._params)[i]; }
	vc_assert(kept, "settings are kept");
}
#endif
