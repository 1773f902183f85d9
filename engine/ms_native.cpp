// Native replay runtime: reads the concrete counterexample, evaluates the assertions in an uninstrumented build.
#include "ms.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <map>
#include <string>
#include <vector>
#include <unistd.h>
static std::vector<uint64_t> input; static size_t pos = 0;
static uint64_t next(int lo, int hi, bool ranged, uint64_t def) { uint64_t r = pos < input.size() ? input[pos] : def; ++pos; if (ranged) { int64_t s = (int64_t)r; if (s < lo || s > hi) s = lo; r = (uint64_t)s; } return r; }
extern "C" {
int ms_int(const char* n, int lo, int hi) { int v = (int)(int64_t)next(lo, hi, true, lo); printf("  input %s = %d\n", n, v); return v; }
int ms_pick(const char* n, int lo, int hi) { return ms_int(n, lo, hi); }
int ms_thorough(void) { const char* e = getenv("VERIF_TIER"); return e && !strcmp(e, "thorough"); }
double ms_lattice(const char* n, int lo, int hi, int st) { double v = ldexp((double)(int64_t)next(lo, hi, true, lo), st); printf("  input %s = %.17g\n", n, v); return v; }
double ms_double(const char* n) { double one = 1.0; uint64_t d; memcpy(&d, &one, 8); uint64_t u = next(0, 0, false, d); double v; memcpy(&v, &u, 8); printf("  input %s = %.17g\n", n, v); return v; }
void ms_assume(bool c) { if (!c) { printf("assumption not met\n"); fflush(stdout); _exit(77); } }
void ms_assert(bool c, const char* l) { if (!c) { printf("ASSERTION FAILED: %s\n", l); fflush(stdout); _exit(78); } }
void ms_reach(const char*) {}
void ms_fail(const char* l) { ms_assert(false, l); }
int ms_symbolic(void) { return 0; }
}
static std::map<std::string, void (*)()>& regs() { static std::map<std::string, void (*)()> r; return r; }
ms_reg::ms_reg(const char* name, void (*fn)()) { regs()[name] = fn; }
int main(int argc, char** argv) {
    if (argc < 2) { for (auto& [k, v] : regs()) printf("%s\n", k.c_str()); return 0; }
    for (int i = 2; i < argc; ++i) input.push_back(strtoull(argv[i], nullptr, 0));
    alarm(60);
    setvbuf(stdout, nullptr, _IOLBF, 0);
    auto it = regs().find(argv[1]); if (it == regs().end()) return 2;
    try { it->second(); } catch (std::exception& e) { printf("ASSERTION FAILED: uncaught exception: %s\n", e.what()); return 80; } catch (...) { printf("ASSERTION FAILED: uncaught exception\n"); return 80; }
    printf("held\n"); return 0;
}
