// Contract language of eclvc.  A specification file includes the real sources of /repo and states, per function
// under contract, a proof: havoc the inputs, assume the precondition, call the real function, assert the
// postcondition.  The same file is compiled (a) to LLVM bitcode, from which eclvc generates the obligations for
// all inputs, and (b) natively, to replay counterexamples against the real code.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <math.h>

extern "C" {
// arbitrary (universally quantified) inputs
float vc_f32(const char *name);
double vc_f64(const char *name);
uint8_t vc_u8(const char *name);
uint16_t vc_u16(const char *name);
uint32_t vc_u32(const char *name);
uint64_t vc_u64(const char *name);
bool vc_bool(const char *name);
// indexed variants: name[i]
float vc_f32_i(const char *name, int i);
uint64_t vc_u64_i(const char *name, int i);
bool vc_bool_i(const char *name, int i);
// hint for the native search only: plausible range (no logical meaning)
void vc_hint(double lo, double hi);
// all non-pointer contents of [p, p+n) become arbitrary
void vc_havoc(void *p, size_t n, const char *name);
// requires / contract of a callee
void vc_assume(bool c);
// ensures: label names the obligation
void vc_assert(bool c, const char *label);
// assert, then use as a fact
void vc_lemma(bool c, const char *label);
// reachability (vacuity) check: some input satisfying all assumptions so far must reach this point
void vc_cover(const char *label);
// replace callee (qualified name, no parameter list) by its contract
void vc_replace_(const char *callee, void (*stub)());
// which back ends may discharge the following obligations
void vc_mode(const char *mode);
// decide branches / float-to-integer conversions in ideal reals while generating (proofs in ideal reals only)
void vc_prune(bool on);
bool vc_push();
void vc_pop();
void vc_tol(double abs_tol, double rel_tol);
// switch the implicit obligations (memory safety, undefined arithmetic) on / off
void vc_traps(bool on);
// identical value (NaN same as NaN; -0 differs from +0)
bool vc_same(float a, float b);
bool vc_same64(double a, double b);
// logical connectives without branching
bool vc_implies(bool a, bool b);
bool vc_and(bool a, bool b);
bool vc_or(bool a, bool b);
// equality of float values: exact in the logic; within vc_tol when evaluated natively
bool vc_eq(float a, float b);
bool vc_eq64(double a, double b);
bool vc_le(float a, float b);   // a <= b, natively with slack
bool vc_is_native();
// the n elements of es bytes at p become an arbitrary array (symbolic indexing); layout: "Q0 f8" = u64 at 0, float at 8
void vc_array(void *p, size_t n, size_t es, const char *layout, const char *name);
void vc_note(const char *text);
// invariant of the loop of a function, over the number k of iterations done; an empty label gives instead a closed
// form of a loop variable
void vc_loop_(const char *fn, void (*f)(), const char *label);
}
#define vc_loop(fn, inv, label) vc_loop_(fn, (void (*)())(bool (*)(uint64_t))(inv), label)
#define vc_loop_var(fn, form) vc_loop_(fn, (void (*)())(uint64_t (*)(uint64_t))(form), "")

#define vc_replace(callee, stub) vc_replace_(callee, (void (*)())(stub))
// scope: assumptions and state changes inside the block are forgotten at its end
#define VC_SCOPE for (bool vc_r_ = vc_push(); vc_r_; vc_pop(), vc_r_ = false)
#define VC_PROOF(name) extern "C" __attribute__((noinline)) void proof_##name()

static inline float vc_f32_in(const char *n, float lo, float hi)
{
	vc_hint(lo, hi);
	float x = vc_f32(n);
	vc_assume(x >= lo && x <= hi);
	return x;
}
static inline uint64_t vc_u64_in(const char *n, uint64_t lo, uint64_t hi)
{
	vc_hint((double)lo, (double)hi);
	uint64_t x = vc_u64(n);
	vc_assume(x >= lo && x <= hi);
	return x;
}
static inline uint8_t vc_u8_in(const char *n, uint8_t lo, uint8_t hi)
{
	vc_hint(lo, hi);
	uint8_t x = vc_u8(n);
	vc_assume(x >= lo && x <= hi);
	return x;
}
