// all of the estimator, compiled from /repo as one unit
#pragma once
#include "vc.h"
#include <new>
#include <ecl.h>
#include <EKF/ekf.h>
#include <EKF/utils.cpp>
#include <EKF/sensor_range_finder.cpp>
#include <EKF/imu_down_sampler.cpp>
#include <EKF/estimator_interface.cpp>
#include <EKF/ekf.cpp>
#include <EKF/ekf_helper.cpp>
#include <EKF/control.cpp>
#include <EKF/covariance.cpp>
#include <EKF/gps_checks.cpp>
#include <EKF/vel_pos_fusion.cpp>
#include <EKF/mag_control.cpp>
#include <EKF/mag_fusion.cpp>
#include <EKF/airspeed_fusion.cpp>
#include <EKF/sideslip_fusion.cpp>
#include <EKF/drag_fusion.cpp>
#include <EKF/optflow_fusion.cpp>
#include <EKF/gps_yaw_fusion.cpp>
#include <EKF/terrain_estimator.cpp>
#include <EKF/EKFGSF_yaw.cpp>
#include <geo/geo.cpp>
#include <geo_lookup/geo_mag_declination.cpp>

alignas(16) static unsigned char ekf_mem_[sizeof(Ekf)];
// any state whatever of the estimator object (buffers keep their constructed storage)
static Ekf &any_ekf()
{
	Ekf *e = new (ekf_mem_) Ekf();
	void *const vtable = *(void **)e;
	vc_havoc(e, sizeof(Ekf), "ekf");
	*(void **)e = vtable;
	return *e;
}
