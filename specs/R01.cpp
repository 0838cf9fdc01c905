// R01: the time-delay buffer every sensor sample goes through (EKF/RingBuffer.h).
// Abstract view: the live samples from oldest (_tail) to newest (_head); samples outside it are not live.
#include "vc.h"
#include <new>
#include <EKF/RingBuffer.h>

struct S { uint64_t time_us; float a; float b; };
typedef RingBuffer<S> RB;
static S store_[256];

// an empty buffer has one (blank) slot under both cursors
static bool inv(const RB &b)
{
	return b._size > 0 && b._head < b._size && b._tail < b._size
	       && vc_implies(b._first_write, b._head == b._tail && b._buffer[b._head].time_us == 0);
}
static unsigned wrap(unsigned x, unsigned n) { return x >= n ? x - n : x; }
static unsigned count(const RB &b) { return b._first_write ? 0 : wrap((unsigned)b._head + b._size - b._tail, b._size) + 1; }
// slot of the k-th newest element (k < size)
static unsigned slot(const RB &b, unsigned k) { return wrap((unsigned)b._head + b._size - k, b._size); }
static bool same(const S &x, const S &y) { return vc_and(x.time_us == y.time_us, vc_and(vc_same(x.a, y.a), vc_same(x.b, y.b))); }
static S mks(const char *t, const char *a, const char *b) { S s; s.time_us = vc_u64(t); s.a = vc_f32(a); s.b = vc_f32(b); return s; }

struct Mem { alignas(8) unsigned char m[sizeof(RB)]; };

// any reachable or unreachable but well formed buffer of n slots with arbitrary contents
static RB *mk(Mem &mem, unsigned n)
{
	RB *b = new (mem.m) RB();
	b->_buffer = store_;
	b->_size = n;
	vc_hint(0, n - 1); b->_head = vc_u8("head");
	vc_hint(0, n - 1); b->_tail = vc_u8("tail");
	b->_first_write = vc_bool("first_write");
	for (unsigned i = 0; i < n; i++) { vc_hint(0, 500000); store_[i].time_us = vc_u64_i("buf.t", i); store_[i].a = vc_f32_i("buf.a", i); store_[i].b = vc_f32_i("buf.b", i); }
	vc_assume(b->_head < n && b->_tail < n);
	vc_assume(inv(*b));
	return b;
}

static inline void push_contract(unsigned n)
{
	Mem mem;
	RB *b = mk(mem, n);
	S s = mks("t", "a", "b");
	const unsigned n0 = count(*b);
	vc_hint(0, n);
	unsigned k = vc_u8("k");          // an arbitrary live older sample
	vc_assume(vc_implies(n0 > 0, k < n0));
	vc_assume(k < n);
	S old = b->_buffer[slot(*b, k)];
	b->push(s);
	vc_assert(inv(*b), "push keeps the buffer well formed");
	vc_assert(b->_size == n && b->get_length() == n, "push keeps the capacity");
	vc_assert(count(*b) == (n0 < n ? n0 + 1 : n), "push adds one sample, up to the capacity");
	vc_assert(same(b->get_newest(), s), "the pushed sample is the newest");
	vc_assert(vc_implies(n0 == 0, same(b->get_oldest(), s)), "the first sample is also the oldest");
	if (n > 1) {
		unsigned k1 = k + 1 < n ? k + 1 : k;
		S now = b->_buffer[slot(*b, k1)];
		vc_assert(vc_implies(n0 > 0 && k + 1 < n, same(now, old)), "older samples keep their order until overwritten");
		vc_assert(vc_implies(n0 == 0, b->_head == b->_tail), "a first push does not leave stale samples live");
		// the oldest is the previous oldest unless the buffer was full
		vc_assert(vc_implies(n0 > 0 && n0 < n && k + 1 == n0, same(b->get_oldest(), old)), "the oldest sample is kept while there is room");
		vc_assert(vc_implies(n0 == n && k + 2 == n, same(b->get_oldest(), old)), "a full buffer drops exactly its oldest sample");
	}
}

static inline void pop_contract_at(unsigned n, unsigned head, unsigned live)
{
	Mem mem;
	RB *b = mk(mem, n);
	// case split over every position of the cursors
	vc_assume(b->_head == head && count(*b) == live);
	b->_head = head; b->_first_write = live == 0; b->_tail = live == 0 ? head : wrap(head + n - (live - 1), n);
	vc_hint(100000, 600000);
	const uint64_t ts = vc_u64("ts");
	vc_assume(ts >= 100000 && ts < (1ull << 62));
	const S out0 = mks("o.t", "o.a", "o.b");
	S out = out0;
	const unsigned n0 = live;
	for (unsigned i = 0; i < n; i++) { vc_assume(store_[i].time_us < (1ull << 62)); }
	// specification: scan the live samples from the newest; the first whose window contains ts is delivered
	unsigned p = n;
	S e = out0;
	for (unsigned k = n; k-- > 0;) {
		const S &x = b->_buffer[slot(*b, k)];
		const bool m = vc_and(k < n0, vc_and(x.time_us <= ts, ts < x.time_us + 100000));
		p = m ? k : p;
		e.time_us = m ? x.time_us : e.time_us; e.a = m ? x.a : e.a; e.b = m ? x.b : e.b;
	}
	vc_hint(0, n);
	const unsigned k = vc_u8("k");
	vc_assume(k < n);
	const unsigned sk = slot(*b, k);
	const S old = b->_buffer[sk];
	const uint8_t h0 = b->_head, t0 = b->_tail; const bool f0 = b->_first_write;
	const bool r = b->pop_first_older_than(ts, &out);
	vc_assert(r == (p < n), "a sample is delivered exactly when a live one is in the window");
	vc_assert(same(out, e), "the newest live sample in the window is delivered, and nothing is written on a miss");
	vc_assert(inv(*b), "pop keeps the buffer well formed");
	vc_assert(b->_size == n, "pop keeps the capacity");
	vc_assert(vc_implies(!r, vc_and(b->_head == h0, vc_and(b->_tail == t0, b->_first_write == f0))), "a miss leaves the live range unchanged");
	vc_assert(vc_implies(!r, same(b->_buffer[sk], old)), "a miss leaves every sample unchanged");
	vc_assert(vc_implies(r, count(*b) == p), "delivering a sample discards it and every older one, and keeps every newer one");
	vc_assert(vc_implies(k < p, same(b->_buffer[slot(*b, k)], old)), "samples newer than the one delivered keep their order and value");
}
static inline void pop_contract(unsigned n)
{
	for (unsigned h = 0; h < n; h++) { for (unsigned l = 0; l <= n; l++) { VC_SCOPE { pop_contract_at(n, h, l); } } }
}
#define SZ(N) VC_PROOF(R01_push_capacity_##N) { push_contract(N); } VC_PROOF(R01_pop_capacity_##N) { pop_contract(N); }
#define SZT(N) VC_PROOF(R01_push_capacity_##N##_thorough) { push_contract(N); } VC_PROOF(R01_pop_capacity_##N##_thorough) { pop_contract(N); }
SZ(1) SZ(2) SZ(3)
SZT(5) SZT(8) SZT(11)

// ---- every capacity a buffer can have (1 to 255): the search loop under an invariant
static unsigned G_age, G_n, G_h0, G_to_tail; static uint64_t G_ts; static S G_old;
static bool window(const S &x) { return vc_and(x.time_us <= G_ts, G_ts < x.time_us + 100000); }
static RB *any_buffer(Mem &mem)
{
	RB *b = new (mem.m) RB();
	if (vc_is_native()) { vc_hint(1, 6); }
	const unsigned n = vc_u8("capacity");
	vc_assume(n >= 1);
	b->_buffer = store_; b->_size = n;
	if (vc_is_native()) { vc_hint(0, n - 1); }
	b->_head = vc_u8("head");
	if (vc_is_native()) { vc_hint(0, n - 1); }
	b->_tail = vc_u8("tail");
	b->_first_write = vc_bool("first_write");
	vc_assume(b->_head < n && b->_tail < n);
	if (vc_is_native()) { vc_hint(0, 500000); }
	vc_array(store_, n, sizeof(S), "Q0 f8 f12", "buf");
	if (b->_first_write && vc_is_native()) { store_[b->_head].time_us = 0; b->_tail = b->_head; }
	vc_assume(inv(*b));
	G_n = n; G_h0 = b->_head;
	return b;
}
// the loop has looked at the k newest samples: none of them is the oldest, and the one of arbitrary age is not in the window
static bool searched(uint64_t k) { return vc_and(k <= G_to_tail, vc_implies(G_age < k, !window(G_old))); }
static uint64_t looked_at(uint64_t k) { return wrap((unsigned)G_h0 + G_n - (unsigned)k, G_n); }    // slots from the newest
VC_PROOF(R01_pop_any_capacity)
{
	vc_mode("uf");
	Mem mem; RB *b = any_buffer(mem);
	const unsigned n = G_n, n0 = count(*b);
	if (vc_is_native()) { vc_hint(100000, 600000); }
	const uint64_t ts = G_ts = vc_u64("ts");
	vc_assume(ts >= 100000 && ts < (1ull << 62));
	if (vc_is_native()) { vc_hint(0, n - 1); }
	const unsigned age = G_age = vc_u8("age");            // a sample of arbitrary age
	if (vc_is_native()) { vc_hint(0, n - 1); }
	const unsigned p = vc_u8("delivered_age");            // the age of the one delivered, if any
	vc_assume(age < n && p < n);
	const S old = G_old = b->_buffer[slot(*b, age)], mine = b->_buffer[slot(*b, p)];
	G_to_tail = wrap((unsigned)b->_head + n - b->_tail, n);
	const S out0 = mks("o.t", "o.a", "o.b"); S out = out0;
	const uint8_t h0 = b->_head, t0 = b->_tail; const bool f0 = b->_first_write;
	vc_loop("RingBuffer<S>::pop_first_older_than", searched, "no newer sample is in the window");
	vc_loop_var("RingBuffer<S>::pop_first_older_than", looked_at);
	const bool r = b->pop_first_older_than(ts, &out);
	vc_assert(inv(*b) && b->_size == n, "pop keeps the buffer well formed");
	VC_SCOPE {
		vc_assume(!r);
		vc_assert(vc_implies(age < n0, !window(old)), "no delivery only when no live sample is in the window");
		vc_assert(b->_head == h0 && b->_tail == t0 && b->_first_write == f0 && same(out, out0) && same(b->_buffer[slot(*b, age)], old), "a miss changes nothing");
	}
	VC_SCOPE {
		vc_assume(r);
		vc_assert(count(*b) < n0, "a delivered sample was live and is removed with every older one");
		vc_assume(count(*b) == p);
		vc_assert(same(out, mine) && window(mine), "the delivered sample is in the window");
		vc_assert(vc_implies(age < p, !window(old)), "no newer live sample is in the window");
		vc_assert(vc_implies(age < p, same(b->_buffer[slot(*b, age)], old)), "newer samples keep their order and value");
	}
}
VC_PROOF(R01_push_any_capacity)
{
	vc_mode("uf");
	Mem mem; RB *b = any_buffer(mem);
	const unsigned n = G_n, n0 = count(*b);
	const S s = mks("t", "a", "b");
	if (vc_is_native()) { vc_hint(0, n - 1); }
	const unsigned k = vc_u8("k");          // an arbitrary older sample
	vc_assume(k < n && vc_implies(n0 > 0, k < n0));
	const S old = b->_buffer[slot(*b, k)];
	b->push(s);
	vc_assert(inv(*b) && b->_size == n && b->get_length() == n, "push keeps the buffer well formed");
	vc_assert(count(*b) == (n0 < n ? n0 + 1 : n), "push adds one sample, up to the capacity");
	vc_assert(same(b->get_newest(), s) && vc_implies(n0 == 0, same(b->get_oldest(), s)), "the pushed sample is the newest");
	const S now = b->_buffer[slot(*b, k + 1 < n ? k + 1 : k)];
	vc_assert(vc_implies(n0 > 0 && k + 1 < n, same(now, old)), "older samples keep their order until overwritten");
	vc_assert(vc_implies(n0 > 0 && n0 < n && k + 1 == n0, same(b->get_oldest(), old)), "the oldest sample is kept while there is room");
	vc_assert(vc_implies(n0 == n && n > 1 && k + 2 == n, same(b->get_oldest(), old)), "a full buffer drops exactly its oldest sample");
}
static inline void alloc_contract(unsigned n)
{
	Mem mem;
	RB *b = new (mem.m) RB();
	vc_assert(b->valid() && b->_size == 1 && inv(*b) && count(*b) == 0, "a default buffer is valid and empty");
	vc_assert(!b->allocate(0) && b->valid() && b->_size == 1, "a zero-sized allocation is refused");
	vc_assert(b->allocate(n), "allocation succeeds");
	vc_assert(b->valid() && inv(*b) && count(*b) == 0 && b->_size == n, "a fresh buffer is valid and empty");
	const uint64_t ts = vc_u64("ts");
	vc_assume(ts >= 100000);
	const S out0 = mks("o.t", "o.a", "o.b");
	S out = out0;
	const bool r = b->pop_first_older_than(ts, &out);
	vc_assert(!r && same(out, out0), "a fresh buffer delivers nothing");
	const S s = mks("t", "a", "b");
	b->push(s);
	vc_assert(b->allocate(n) && count(*b) == 1 && same(b->get_newest(), s), "re-allocating the same size keeps the samples");
	const unsigned other = n < 255 ? n + 1 : 1;
	vc_assert(b->allocate(other) && b->_size == other && inv(*b) && count(*b) == 0, "re-allocating another size gives an empty buffer");
	b->~RB();
}
// every capacity there is (the length is a byte)
VC_PROOF(R01_allocate_every_capacity)
{
	for (unsigned n = 1; n <= 255; n++) { alloc_contract(n); }
}
