// Shared by the replay harnesses: random numbers, the case being run (printed
// when anything fails, crashes or hangs), and counters for the evidence.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <csignal>
#include <cstdint>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unistd.h>
#include <time.h>

#include "utils/logger.h"

namespace vf {
static char caseText[65536];
static size_t caseLen = 0;
static unsigned long evaluations = 0;
static std::set<uint64_t> distinctSet;
static std::vector<std::string> samples;
static uint64_t seed = 1;
static double budget = 20;
static bool thorough = false;
static bool expectFatal = false;
static bool inFail = false;
static unsigned long warnings = 0;
static const char* only = 0;
static const char* prop = 0;

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double t0;
inline bool timeLeft(double fraction = 1) { return now() - t0 < budget * fraction; }

inline void say(const char* fmt, va_list ap) {
	int n = vsnprintf(caseText + caseLen, sizeof(caseText) - caseLen, fmt, ap);
	if (n > 0) caseLen += n;
	if (caseLen >= sizeof(caseText)) caseLen = sizeof(caseText) - 1;
}
/** Starts the description of a case. */
__attribute__((format(printf, 1, 2))) inline void begin(const char* fmt, ...) {
	caseLen = 0; caseText[0] = 0;
	va_list ap; va_start(ap, fmt); say(fmt, ap); va_end(ap);
}
/** Adds to the description of the case. */
__attribute__((format(printf, 1, 2))) inline void step(const char* fmt, ...) {
	va_list ap; va_start(ap, fmt); say(fmt, ap); va_end(ap);
}
inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
	const unsigned char* c = (const unsigned char*)p;
	for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
	return h;
}
/** Counts the finished case. */
inline void done(bool nontrivial = true) {
	evaluations++;
	if (nontrivial && distinctSet.size() < 2000000) distinctSet.insert(hashBytes(caseText, caseLen));
	if (samples.size() < 3 || (samples.size() < 6 && evaluations % 1000 == 1)) samples.push_back(std::string(caseText, caseLen > 400 ? 400 : caseLen));
}
inline void out(const char* s) { ssize_t r = write(1, s, strlen(s)); (void)r; }
[[noreturn]] inline void die(const char* what) {
	if (inFail) _exit(1);
	inFail = true;
	out("FAIL: "); out(what); out("\nCASE: "); out(caseText); out("\n");
	_exit(1);
}
[[noreturn]] __attribute__((format(printf, 1, 2))) inline void fail(const char* fmt, ...) {
	static char b[8192]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	die(b);
}
/** Is the property one of those listed? (no --prop: every property is checked) */
inline bool about(const char* ids) { return !prop || strstr(ids, prop); }
/** A check that belongs to the listed properties only. */
#define VF_PROP(ids, c, ...) do { if (!(c) && vf::about(ids)) vf::fail(__VA_ARGS__); } while (0)
#define VF_CHECK(c, ...) do { if (!(c)) vf::fail(__VA_ARGS__); } while (0)

inline void onSignal(int s) {
	switch (s) {
	case SIGABRT: die("the code under test aborted (assertion or sanitizer)");
	case SIGSEGV: die("invalid memory access (SIGSEGV)");
	case SIGFPE: die("arithmetic trap (SIGFPE)");
	case SIGBUS: die("invalid memory access (SIGBUS)");
	case SIGALRM: die("the code under test does not return (timeout)");
	default: die("signal");
	}
}
extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
inline void onDeath() { if (!inFail) { inFail = true; out("FAIL: sanitizer report (see above)\nCASE: "); out(caseText); out("\n"); } }

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) {}
	uint64_t next() { s += 0x9E3779B97F4A7C15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	long range(long a, long b) { return a + (long)below(b - a + 1); }
	double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	bool flip() { return next() & 1; }
};

inline void init(int argc, char** argv) {
	for (int i = 1; i < argc; i++) {
		if (!strncmp(argv[i], "--seed=", 7)) seed = strtoull(argv[i] + 7, 0, 10);
		else if (!strncmp(argv[i], "--budget=", 9)) budget = atof(argv[i] + 9);
		else if (!strcmp(argv[i], "--thorough")) thorough = true;
		else if (!strncmp(argv[i], "--prop=", 7)) prop = argv[i] + 7;
		else if (!strncmp(argv[i], "--only=", 7)) only = argv[i] + 7;
	}
	t0 = now();
	static char alt[1 << 16];
	stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
	int sigs[] = { SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGALRM };
	for (int s : sigs) { struct sigaction a; memset(&a, 0, sizeof a); a.sa_handler = onSignal; a.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(s, &a, 0); }
	if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(onDeath);
	alarm((unsigned)(budget * 4 + 60));
}
inline bool want(const char* name) { return !only || !strcmp(only, name); }
inline int finish() {
	printf("OK evaluations=%lu distinct=%zu\n", evaluations, distinctSet.size());
	for (size_t i = 0; i < samples.size(); i++) { for (char& c : samples[i]) if (c == '\n') c = ' '; printf("SAMPLE %s\n", samples[i].c_str()); }
	return 0;
}
struct Fatal {};
}
#ifndef VF_OWN_FATAL
namespace utils {
void verifFatal() { if (vf::expectFatal) throw vf::Fatal(); vf::die("unexpected fatal error (logError)"); }
void verifWarn() { vf::warnings++; }
}
#endif
#endif
