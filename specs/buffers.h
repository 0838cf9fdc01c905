#pragma once
// delayed sensor buffers of any capacity, with any cursors and content
#include "ekf_all.h"
#include <cstddef>

static char *put(char *p, char kind, size_t off) { *p++ = kind; if (off >= 100) { *p++ = '0' + off / 100; } if (off >= 10) { *p++ = '0' + off / 10 % 10; } *p++ = '0' + off % 10; *p++ = ' '; return p; }
#define WORD(T, m) p = put(p, sizeof(T::m) == 8 ? 'Q' : sizeof(T::m) == 4 ? 'I' : 'B', offsetof(T, m));
#define REAL(T, m) for (size_t i = 0; i < sizeof(T::m) / 4; i++) { p = put(p, 'f', offsetof(T, m) + 4 * i); }
static char *members(char *p, const airspeedSample *) { WORD(airspeedSample, time_us) REAL(airspeedSample, true_airspeed) REAL(airspeedSample, eas2tas) return p; }
static char *members(char *p, const rangeSample *) { WORD(rangeSample, time_us) REAL(rangeSample, rng) WORD(rangeSample, quality) return p; }
static char *members(char *p, const flowSample *) { WORD(flowSample, time_us) REAL(flowSample, flow_xy_rad) REAL(flowSample, gyro_xyz) REAL(flowSample, dt) WORD(flowSample, quality) return p; }
static char *members(char *p, const extVisionSample *) { WORD(extVisionSample, time_us) REAL(extVisionSample, pos) REAL(extVisionSample, vel) REAL(extVisionSample, quat) REAL(extVisionSample, posVar) REAL(extVisionSample, velCov) REAL(extVisionSample, angVar) WORD(extVisionSample, vel_frame) return p; }
static char *members(char *p, const auxVelSample *) { WORD(auxVelSample, time_us) REAL(auxVelSample, vel) REAL(auxVelSample, velVar) return p; }
static char *members(char *p, const magSample *) { WORD(magSample, time_us) REAL(magSample, mag) return p; }
static char *members(char *p, const baroSample *) { WORD(baroSample, time_us) REAL(baroSample, hgt) return p; }
static char *members(char *p, const gpsSample *) { WORD(gpsSample, time_us) REAL(gpsSample, pos) REAL(gpsSample, hgt) REAL(gpsSample, vel) REAL(gpsSample, yaw) REAL(gpsSample, hacc) REAL(gpsSample, vacc) REAL(gpsSample, sacc) return p; }
static char *members(char *p, const dragSample *) { WORD(dragSample, time_us) REAL(dragSample, accelXY) return p; }
static char *members(char *p, const imuSample *) { WORD(imuSample, time_us) REAL(imuSample, delta_ang) REAL(imuSample, delta_vel) REAL(imuSample, delta_ang_dt) REAL(imuSample, delta_vel_dt) for (int i = 0; i < 3; i++) { p = put(p, 'B', offsetof(imuSample, delta_vel_clipping) + i); } return p; }
template <class T> static void fill_any(RingBuffer<T> &b)
{
	alignas(8) static unsigned char slots[256 * sizeof(T)];
	char layout[256]; *members(layout, (const T *)nullptr) = 0;
	if (vc_is_native()) { vc_hint(1, 6); }
	const unsigned n = vc_u8("capacity");
	vc_assume(n >= 1);
	vc_array(slots, n, sizeof(T), layout, "buffer");
	b._buffer = (T *)slots; b._size = n;
	if (vc_is_native()) { vc_hint(0, n - 1); }
	b._head = vc_u8("head");
	if (vc_is_native()) { vc_hint(0, n - 1); }
	b._tail = vc_u8("tail");
	b._first_write = vc_bool("first_write");
	vc_assume(b._head < n && b._tail < n && vc_implies(b._first_write, b._head == b._tail));
}
template <class T> static unsigned live(const RingBuffer<T> &b) { const unsigned x = (unsigned)b._head + b._size - b._tail; return b._first_write ? 0 : (x >= b._size ? x - b._size : x) + 1; }
