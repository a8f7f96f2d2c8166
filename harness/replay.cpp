// Native side of the harness interface: feeds recorded values to the real code.
#include <cstdio>
#include <cstdlib>
#include <cstdint>
// (no C++ allocations here: harnesses may count them)
struct val { unsigned first; unsigned long long second; }; static val *vals; static size_t nvals, pos; static unsigned long checks;
extern "C" std::uint64_t vp_nondet(std::uint32_t id, std::uint32_t bits) {
	if (pos >= nvals) { std::printf("REPLAY: out of recorded values\n"); std::fflush(stdout); std::_Exit(78); }
	if (vals[pos].first != id) { std::printf("REPLAY: value order differs\n"); std::fflush(stdout); std::_Exit(78); }
	auto v = vals[pos++].second; if (bits < 64) v &= (1ull << bits) - 1; std::printf("  input #%u (%u bits) = %llu\n", id, bits, v); return v;
}
extern "C" std::uint64_t vp_case(std::uint64_t v) { return v; }
extern "C" void vp_assume(bool c) { if (!c) { std::printf("REPLAY: assumption not met\n"); std::fflush(stdout); std::_Exit(77); } }
extern "C" void vp_check(bool c, const char *l) { ++checks; if (!c) { std::printf("CHECK FAILED: %s\n", l); std::fflush(stdout); std::_Exit(1); } }
extern "C" void VP_ENTRY();
int main(int argc, char **argv) {
	if (argc > 1) { FILE *f = std::fopen(argv[1], "r"); unsigned i; unsigned long long v; while (f && std::fscanf(f, "%u %llu", &i, &v) == 2) { vals = (val *)std::realloc(vals, (nvals + 1) * sizeof(val)); vals[nvals++] = {i, v}; } if (f) std::fclose(f); }
	VP_ENTRY(); std::free(vals); std::printf("OK: %lu checks passed\n", checks); return 0;
}
