// Native runtime of the contract language: runs a proof function on concrete inputs (replay of a counterexample,
// or seeded search for one) against the real code.
#include "vc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <signal.h>
#include <time.h>
#include <string>
#include <map>
#include <vector>
#include <dlfcn.h>
#include <elf.h>
#include <link.h>
#include <cxxabi.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>

namespace {
struct Cell { size_t off; char sort; int size; };
std::map<std::string, std::vector<Cell>> cells;        // havoc name -> typed cells
std::map<std::string, std::vector<unsigned char>> given; // input name -> bytes (replay)
std::vector<std::pair<std::string, std::string>> log_;
std::map<std::string, int> count_;
bool replaying, zeros;
uint64_t rng;
int style;
bool hinted; double hlo, hhi;
double atol_, rtol_;
sigjmp_buf jb;
std::string target;
std::string failed;
std::vector<double> recentf;
std::vector<uint64_t> recenti;

uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng * 0x2545F4914F6CDD1DULL; }
double u01() { return (rnd() >> 11) * (1.0 / 9007199254740992.0); }

double rndf()
{
	if (hinted) { hinted = false;
		int k = rnd() % 16; if (k == 0) return hlo; if (k == 1) return hhi;
		return hlo + (hhi - hlo) * u01(); }
	int k = rnd() % 100;
	if (!recentf.empty() && k < 12) return recentf[rnd() % recentf.size()];
	if (style == 0) k = 40 + k % 60;
	double r;
	if (k < 16) r = 0.0; else if (k < 20) r = (double)(int64_t)(rnd() % 7) - 3;
	else if (k < 23) r = ldexp(u01() - 0.5, (int)(rnd() % 60) - 30);
	else if (k < 25) r = style == 3 ? (rnd() & 1 ? NAN : INFINITY) : 1.0;
	else if (k < 27 && style >= 2) r = ldexp(u01() - 0.5, (int)(rnd() % 252) - 126);
	else if (k < 60) r = u01();
	else if (k < 75) r = 2 * u01() - 1;
	else if (k < 88) r = 10 * (2 * u01() - 1);
	else if (k < 96) r = 100 * (2 * u01() - 1);
	else r = 1000 * (2 * u01() - 1);
	recentf.push_back(r);
	return r;
}
uint64_t rndi(int bits)
{
	uint64_t m = bits >= 64 ? ~0ULL : ((1ULL << bits) - 1);
	if (hinted) { hinted = false; int k = rnd() % 16; if (k == 0) return (uint64_t)hlo; if (k == 1) return (uint64_t)hhi;
		return ((uint64_t)(hlo + (hhi - hlo) * u01())) & m; }
	int k = rnd() % 100;
	uint64_t r;
	if (!recenti.empty() && k < 20) r = recenti[rnd() % recenti.size()] + (rnd() % 3) - 1;
	else if (k < 50) r = rnd() % 8;
	else if (k < 55) r = 0;
	else if (k < 60) r = m - rnd() % 3;
	else if (k < 75) r = rnd() & 0xff;
	else if (k < 90 && bits > 32) r = rnd() % 100000000ULL;
	else r = rnd();
	r &= m;
	recenti.push_back(r);
	return r;
}
std::string fresh(const char *n)
{
	int k = count_[n]++;
	return k ? std::string(n) + "#" + std::to_string(k) : std::string(n);
}
std::string hex(const void *p, size_t n)
{
	std::string s; char b[4];
	for (size_t i = 0; i < n; i++) { snprintf(b, 4, "%02x", ((const unsigned char *)p)[i]); s += b; }
	return s;
}
template<class V> V input(const std::string &n, V (*gen)())
{
	V v;
	if (replaying && given.count(n)) { memset(&v, 0, sizeof v); memcpy(&v, given[n].data(), std::min(sizeof v, given[n].size())); hinted = false; }
	else if (replaying && zeros) { memset(&v, 0, sizeof v); hinted = false; }
	else v = gen();
	log_.push_back({n, hex(&v, sizeof v)});
	return v;
}
float gf() { return (float)rndf(); }
double gd() { return rndf(); }
uint8_t g8() { return rndi(8); }
uint16_t g16() { return rndi(16); }
uint32_t g32() { return rndi(32); }
uint64_t g64() { return rndi(64); }
bool gb() { return rnd() >> 40 & 1; }
void fail(const char *label)
{
	if (target.empty() || target == label) { failed = label; siglongjmp(jb, 2); }
}
void onsig(int s)
{
	failed = s == SIGILL || s == SIGTRAP ? "undefined behaviour (trap)" : s == SIGFPE ? "arithmetic fault" : "memory fault";
	siglongjmp(jb, 3);
}
}
static volatile bool sanitizer_hit;
extern "C" void __asan_on_error() { sanitizer_hit = true; }   // address sanitizer builds: memory obligations
extern "C" {
static std::string idx(const char *n, int i) { return fresh(n) + "[" + std::to_string(i) + "]"; }
float vc_f32(const char *n) { return input<float>(fresh(n), gf); }
double vc_f64(const char *n) { return input<double>(fresh(n), gd); }
uint8_t vc_u8(const char *n) { return input<uint8_t>(fresh(n), g8); }
uint16_t vc_u16(const char *n) { return input<uint16_t>(fresh(n), g16); }
uint32_t vc_u32(const char *n) { return input<uint32_t>(fresh(n), g32); }
uint64_t vc_u64(const char *n) { return input<uint64_t>(fresh(n), g64); }
bool vc_bool(const char *n) { return input<bool>(fresh(n), gb); }
float vc_f32_i(const char *n, int i) { return input<float>(idx(n, i), gf); }
uint64_t vc_u64_i(const char *n, int i) { return input<uint64_t>(idx(n, i), g64); }
bool vc_bool_i(const char *n, int i) { return input<bool>(idx(n, i), gb); }
void vc_hint(double lo, double hi) { hinted = true; hlo = lo; hhi = hi; }
void vc_havoc(void *p, size_t n, const char *name)
{
	std::string nm = fresh(name);
	unsigned char *b = (unsigned char *)p;
	for (auto &c : cells[nm]) {
		if (c.off + c.size > n) continue;
		std::string key = nm + "@" + std::to_string(c.off);
		unsigned char buf[8];
		if (replaying && given.count(key)) { memset(buf, 0, 8); memcpy(buf, given[key].data(), std::min<size_t>(8, given[key].size())); }
		else if (replaying && zeros) memset(buf, 0, 8);
		else switch (c.sort) {
			case 'f': { float f = gf(); memcpy(buf, &f, 4); break; }
			case 'd': { double f = gd(); memcpy(buf, &f, 8); break; }
			case 'B': { buf[0] = gb(); break; }
			default: { uint64_t v = rndi(c.size * 8); memcpy(buf, &v, 8); }
			}
		memcpy(b + c.off, buf, c.size);
		log_.push_back({key, hex(buf, c.size)});
	}
}
void vc_assume(bool c) { if (!c) siglongjmp(jb, 1); }
void vc_assert(bool c, const char *l) { if (!c) fail(l); }
void vc_lemma(bool c, const char *l) { if (!c) fail(l); }
void vc_cover(const char *) {}

// Replace a callee by its contract: the first bytes of its code become a jump to the stub (own text only; the
// build uses -fno-inline).  Patches are undone before the next trial.
static std::vector<std::pair<unsigned char *, std::vector<unsigned char>>> patched_;
static std::map<std::string, std::vector<unsigned char *>> &symbols()
{
	static std::map<std::string, std::vector<unsigned char *>> m;
	if (!m.empty()) return m;
	int fd = open("/proc/self/exe", O_RDONLY);
	struct stat sb; fstat(fd, &sb);
	unsigned char *b = (unsigned char *)mmap(nullptr, sb.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
	close(fd);
	Elf64_Ehdr *eh = (Elf64_Ehdr *)b;
	Elf64_Shdr *sh = (Elf64_Shdr *)(b + eh->e_shoff);
	struct Base { uintptr_t a; } base = {0};
	dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *p) { ((Base *)p)->a = i->dlpi_addr; return 1; }, &base);
	for (int i = 0; i < eh->e_shnum; i++) {
		if (sh[i].sh_type != SHT_SYMTAB) continue;
		Elf64_Sym *y = (Elf64_Sym *)(b + sh[i].sh_offset);
		const char *str = (const char *)b + sh[sh[i].sh_link].sh_offset;
		for (size_t k = 0; k < sh[i].sh_size / sizeof(Elf64_Sym); k++) {
			if (ELF64_ST_TYPE(y[k].st_info) != STT_FUNC || !y[k].st_value) continue;
			int st; char *d = abi::__cxa_demangle(str + y[k].st_name, nullptr, nullptr, &st);
			std::string n = d ? d : str + y[k].st_name; free(d);
			int depth = 0; size_t cut = std::string::npos;
			for (size_t j = 0; j < n.size(); j++) {
				if (n[j] == '<') depth++; else if (n[j] == '>') depth--;
				else if (n[j] == '(' && !depth) {
					if (n.compare(j, 21, "(anonymous namespace)") == 0) { j += 20; continue; }
					cut = j; break; }
			}
			if (cut != std::string::npos) n.resize(cut);
			if (n.find("operator") == std::string::npos) {
				// drop the return type of templates
				size_t from = 0; depth = 0;
				for (size_t j = 0; j < n.size(); j++) {
					if (n[j] == '<' || n[j] == '(') depth++; else if (n[j] == '>' || n[j] == ')') depth--;
					else if (n[j] == ' ' && !depth) from = j + 1;
				}
				n = n.substr(from);
			}
			m[n].push_back((unsigned char *)(base.a + y[k].st_value));
			if (!n.empty() && n.back() == '>' && n.find("operator") == std::string::npos) {
				// all instances of a function template, by its bare name
				depth = 0;
				for (size_t j = n.size(); j-- > 0;) {
					if (n[j] == '>') depth++; else if (n[j] == '<') depth--;
					if (!depth) { m[n.substr(0, j)].push_back((unsigned char *)(base.a + y[k].st_value)); break; }
				}
			}
		}
	}
	munmap(b, sb.st_size);
	return m;
}
static void poke(unsigned char *at, const unsigned char *by, size_t n)
{
	uintptr_t pg = (uintptr_t)at & ~4095ul;
	mprotect((void *)pg, 8192, PROT_READ | PROT_WRITE | PROT_EXEC);
	memcpy(at, by, n);
	mprotect((void *)pg, 8192, PROT_READ | PROT_EXEC);
}
void vc_unreplace_() { for (; !patched_.empty(); patched_.pop_back()) poke(patched_.back().first, patched_.back().second.data(), patched_.back().second.size()); }
void vc_replace_(const char *callee, void (*stub)())
{
	for (unsigned char *f : symbols()[callee]) {
		patched_.push_back({f, std::vector<unsigned char>(f, f + 12)});
		unsigned char j[12] = {0x48, 0xb8, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xe0};
		memcpy(j + 2, &stub, 8);
		poke(f, j, 12);
	}
}
void vc_mode(const char *) {}
void vc_prune(bool) {}
// VC_SCOPE=2.1 : only the second scope and in it the first one are entered; unset: all, empty: none
static std::vector<int> want_, at_; static bool all_; static size_t inside_;
bool vc_push()
{
	if (all_) return true;
	at_.resize(inside_ + 1);
	at_[inside_]++;
	if (inside_ >= want_.size() || at_[inside_] != want_[inside_]) return false;
	inside_++;
	return true;
}
void vc_pop() { if (!all_) inside_--; }
static void scopes_()
{
	at_.clear(); want_.clear(); inside_ = 0;
	const char *e = getenv("VC_SCOPE");
	all_ = !e;
	for (; e && *e; e++) { want_.push_back(strtol(e, (char **)&e, 10)); if (!*e) break; }
}
void vc_tol(double a, double r) { atol_ = a; rtol_ = r; }
void vc_traps(bool) {}
bool vc_same(float a, float b) { return memcmp(&a, &b, 4) == 0 || (a != a && b != b); }
bool vc_same64(double a, double b) { return memcmp(&a, &b, 8) == 0 || (a != a && b != b); }
bool vc_implies(bool a, bool b) { return !a || b; }
bool vc_and(bool a, bool b) { return a && b; }
bool vc_or(bool a, bool b) { return a || b; }
static bool close_(double a, double b)
{
	if (a == b) return true;
	if (!isfinite(a) || !isfinite(b)) { if (rtol_ > 0) siglongjmp(jb, 1); return false; }
	return fabs(a - b) <= atol_ + rtol_ * fmax(fabs(a), fabs(b));
}
bool vc_eq(float a, float b) { return close_(a, b); }
bool vc_eq64(double a, double b) { return close_(a, b); }
bool vc_le(float a, float b) { return a <= b || close_(a, b); }
bool vc_is_native() { return true; }
void vc_note(const char *) {}
void vc_loop_(const char *, void (*)(), const char *) {}
void vc_array(void *p, size_t n, size_t es, const char *layout, const char *name)
{
	// layout: "Q0 f8 ..."  type letter + offset
	std::string nm = fresh(name);
	for (size_t i = 0; i < n; i++) {
		const char *l = layout;
		while (*l) {
			char ty = *l++; int off = strtol(l, (char **)&l, 10); while (*l == ' ') l++;
			unsigned char *b = (unsigned char *)p + i * es + off;
			std::string key = nm + "." + std::to_string(off) + "[" + std::to_string(i) + "]";
			int sz = ty == 'Q' ? 8 : ty == 'I' || ty == 'f' ? 4 : ty == 'H' ? 2 : 1;
			unsigned char buf[8];
			if (replaying && given.count(key)) { memset(buf, 0, 8); memcpy(buf, given[key].data(), std::min<size_t>(8, given[key].size())); }
			else if (replaying && zeros) memset(buf, 0, 8);
			else if (ty == 'f') { float f = gf(); memcpy(buf, &f, 4); }
			else { uint64_t v = rndi(sz * 8); memcpy(buf, &v, 8); }
			memcpy(b, buf, sz);
			log_.push_back({key, hex(buf, sz)});
		}
	}
}
}
// usage: prog proof cellsfile label|- random seed trials seconds    |   prog proof cellsfile label|- replay inputsfile
int main(int argc, char **argv)
{
	if (argc < 6) return 64;
	void (*f)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
	if (!f) { printf("NOPROOF\n"); return 65; }
	if (FILE *c = fopen(argv[2], "r")) {
		char nm[512]; unsigned long off; char so; int sz;
		while (fscanf(c, "%511s %lu %c %d", nm, &off, &so, &sz) == 4) cells[nm].push_back({off, so, sz});
		fclose(c);
	}
	if (strcmp(argv[3], "-")) target = argv[3];
	int sigs[] = {SIGILL, SIGTRAP, SIGFPE, SIGSEGV, SIGBUS, SIGABRT};
	for (int s : sigs) { struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onsig; sa.sa_flags = SA_NODEFER; sigaction(s, &sa, nullptr); }
	replaying = !strcmp(argv[4], "replay");
	if (replaying) {
		FILE *c = fopen(argv[5], "r"); char nm[512], hx[64];
		while (c && fscanf(c, "%511s %63s", nm, hx) == 2) {
			std::vector<unsigned char> v; for (size_t i = 0; hx[i]; i += 2) { unsigned x; sscanf(hx + i, "%2x", &x); v.push_back(x); }
			given[nm] = v;
		}
		if (c) fclose(c);
	}
	uint64_t seed = replaying ? 1 : strtoull(argv[5], nullptr, 10);
	long trials = replaying ? 4000 : atol(argv[6]);   // inputs the model leaves open: zero first, then random
	double secs = replaying ? 4 : atof(argv[7]);
	struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
	long accepted = 0;
	static volatile long t;
	for (t = 0; t < trials; t++) {
		rng = seed * 0x9E3779B97F4A7C15ULL + (uint64_t)t * 0xBF58476D1CE4E5B9ULL + 0x1234567; for (int i = 0; i < 4; i++) rnd();
		style = t % 4; log_.clear(); count_.clear(); recentf.clear(); recenti.clear(); hinted = false; zeros = t == 0;
		atol_ = 0; rtol_ = 0; failed.clear(); scopes_(); vc_unreplace_();
		int r = sigsetjmp(jb, 1);
		if (r == 0) { f(); accepted++; }
		if (sanitizer_hit) { failed = "memory fault (address sanitizer)"; r = 3; }
		if (r == 2 || (r == 3 && (target.empty() || target == "!fault" || 1))) {
			printf("FAIL %s\n", failed.c_str());
			for (auto &l : log_) printf("IN %s %s\n", l.first.c_str(), l.second.c_str());
			return 1;
		}
		if ((t & 63) == 0) { clock_gettime(CLOCK_MONOTONIC, &t1);
			if ((t1.tv_sec - t0.tv_sec) + 1e-9 * (t1.tv_nsec - t0.tv_nsec) > secs) break; }
	}
	printf("PASS accepted=%ld trials=%ld\n", accepted, (long)t);
	return 0;
}
