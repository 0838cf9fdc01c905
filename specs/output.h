// output predictor buffers of n slots: any cursor positions, any contents
#pragma once
#include "fusion.h"

static outputSample out_store[8];
static outputVert vert_store[8];
static void output_buffers(Ekf &e, unsigned n)
{
	vc_havoc(out_store, sizeof(out_store), "output_buffer");
	vc_havoc(vert_store, sizeof(vert_store), "output_vert_buffer");
	e._output_buffer._buffer = out_store; e._output_buffer._size = n;
	e._output_vert_buffer._buffer = vert_store; e._output_vert_buffer._size = n;
	vc_assume(e._output_buffer._head < n && e._output_buffer._tail < n);
	vc_assume(e._output_vert_buffer._head < n && e._output_vert_buffer._tail < n);
}
// both buffers with their cursors at given places (they are pushed together, never popped)
static void output_cursors(Ekf &e, unsigned n, unsigned head, unsigned tail)
{
	output_buffers(e, n);
	e._output_buffer._head = e._output_vert_buffer._head = head;
	e._output_buffer._tail = e._output_vert_buffer._tail = tail;
	e._output_buffer._first_write = e._output_vert_buffer._first_write = false;
}
// shifts of the output history by a reset of the filter state
static void frame_output(const outputSample &a, const outputSample &b, bool q, bool v, bool p, const char *what)
{
	for (int i = 0; i < 4 && q; i++) { vc_assert(vc_same(a.quat_nominal(i), b.quat_nominal(i)), what); }
	for (int i = 0; i < 3; i++) {
		if (v) { vc_assert(vc_same(a.vel(i), b.vel(i)), what); }
		if (p) { vc_assert(vc_same(a.pos(i), b.pos(i)), what); }
	}
	vc_assert(a.time_us == b.time_us, what);
}

// ---- buffers of any length, under loop invariants. One arbitrary slot stands for all; which invariant describes a loop (slots
// below k done, slots above, all, or none, field group by field group) is found by the tool among the candidates below.
static outputSample out_any[255];
static outputVert vert_any[255];
static unsigned L_n, L_i;                        // length, an arbitrary slot
static outputSample L_o0, L_o1;                  // that slot before and as wanted after
static outputVert L_v0, L_v1;
static void any_output_buffers(Ekf &e)
{
	if (vc_is_native()) { vc_hint(2, 40); }
	const unsigned n = L_n = vc_u8("length");
	vc_assume(n >= 2);
	vc_array(out_any, n, sizeof(outputSample), "Q0 f8 f12 f16 f20 f24 f28 f32 f36 f40 f44", "output_buffer");
	vc_array(vert_any, n, sizeof(outputVert), "Q0 f8 f12 f16", "output_vert_buffer");
	static_assert(sizeof(outputSample) == 48 && sizeof(outputVert) == 24, "");
	e._output_buffer._buffer = out_any; e._output_buffer._size = n;
	e._output_vert_buffer._buffer = vert_any; e._output_vert_buffer._size = n;
	if (vc_is_native()) { vc_hint(0, n - 1); }
	const unsigned head = vc_u8("head");
	if (vc_is_native()) { vc_hint(0, n - 1); }
	const unsigned tail = vc_u8("tail");
	if (vc_is_native()) { vc_hint(0, n - 1); }
	L_i = vc_u8("slot");
	vc_assume(head < n && tail < n && L_i < n);
	e._output_buffer._head = e._output_vert_buffer._head = head;
	e._output_buffer._tail = e._output_vert_buffer._tail = tail;
	e._output_buffer._first_write = e._output_vert_buffer._first_write = false;
	L_o0 = L_o1 = out_any[L_i]; L_v0 = L_v1 = vert_any[L_i];
}
enum Field { QUAT, VEL, POS, VVEL, VPOS, FIELDS };
static bool L_has(int f, bool want)              // the slot has its old or its wanted value
{
	const outputSample &s = out_any[L_i], &w = want ? L_o1 : L_o0; const outputVert &v = vert_any[L_i], &x = want ? L_v1 : L_v0;
	if (f == VVEL) { return vc_eq(v.vert_vel, x.vert_vel); }
	if (f == VPOS) { return vc_eq(v.vert_vel_integ, x.vert_vel_integ); }
	if (f == QUAT) { return vc_and(vc_and(vc_eq(s.quat_nominal(0), w.quat_nominal(0)), vc_eq(s.quat_nominal(1), w.quat_nominal(1))), vc_and(vc_eq(s.quat_nominal(2), w.quat_nominal(2)), vc_eq(s.quat_nominal(3), w.quat_nominal(3)))); }
	const Vector3f &a = f == VEL ? s.vel : s.pos, &b = f == VEL ? w.vel : w.pos;
	return vc_and(vc_eq(a(0), b(0)), vc_and(vc_eq(a(1), b(1)), vc_eq(a(2), b(2))));
}
template<int f> static bool L_up(uint64_t k) { return vc_and(vc_implies(L_i < k, L_has(f, true)), vc_implies(L_i >= k, L_has(f, false))); }
template<int f> static bool L_down(uint64_t k) { return vc_and(vc_implies(L_i + k >= L_n, L_has(f, true)), vc_implies(L_i + k < L_n, L_has(f, false))); }
template<int f> static bool L_none(uint64_t) { return L_has(f, false); }
template<int f> static bool L_all(uint64_t) { return L_has(f, true); }
static bool L_range(uint64_t k) { return k <= L_n; }
#define ANY_LOOP_FIELD(f, what) \
	vc_loop("*", L_up<f>, "?" what ": the slots visited are corrected, the others not"); \
	vc_loop("*", L_down<f>, "?" what ": the last slots are corrected, the others not"); \
	vc_loop("*", L_none<f>, "?" what ": no slot is changed"); \
	vc_loop("*", L_all<f>, "?" what ": every slot is corrected");
static void any_loops()
{
	vc_loop("*", L_range, "?at most one iteration per slot");
	ANY_LOOP_FIELD(QUAT, "orientation") ANY_LOOP_FIELD(VEL, "velocity") ANY_LOOP_FIELD(POS, "position") ANY_LOOP_FIELD(VVEL, "vertical velocity") ANY_LOOP_FIELD(VPOS, "vertical position")
}
// afterwards, for the arbitrary slot
static void any_slot_done(const char *q, const char *v, const char *p, const char *vert)
{
	vc_assert(L_has(QUAT, true), q); vc_assert(L_has(VEL, true), v); vc_assert(L_has(POS, true), p);
	vc_assert(vc_and(L_has(VVEL, true), L_has(VPOS, true)), vert);
	vc_assert(vc_and(out_any[L_i].time_us == L_o0.time_us, vc_and(vert_any[L_i].time_us == L_v0.time_us, vc_same(vert_any[L_i].dt, L_v0.dt))), "times are kept");
}
