// Property-based testing engine: every random choice of a case is one entry of a recorded "choice
// sequence", so a case is replayed, shrunk and saved as the list of its choices.
#ifndef PBT_H
#define PBT_H

#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <initializer_list>

namespace pbt {

enum class Mode { Rng, Replay, Bytes };

struct Case {
	// ---- choices -------------------------------------------------------
	uint64_t draw(uint64_t n); // uniform in [0, n); n == 0: any 64 bit value
	int64_t range(int64_t lo, int64_t hi); // inclusive
	uint64_t urange(uint64_t lo, uint64_t hi);
	bool chance(unsigned num, unsigned den); // true with probability num/den, shrinks to false
	bool flip() { return draw(2) != 0; }
	size_t weighted(std::initializer_list<unsigned> w); // index by weight, shrinks to 0
	uint64_t u64();           // boundary-biased 64-bit value
	uint64_t ubits();         // uniform bit length, then uniform value
	size_t size(size_t max);  // small-biased size in [0, max]
	std::string bytes(size_t n);                       // any bytes
	std::string text(size_t n, const char *alphabet);  // from alphabet
	template <class T> const T &pick(const std::vector<T> &v) { return v[draw(v.size())]; }

	// ---- reporting -----------------------------------------------------
	bool tracing = false;
	void trace(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	[[noreturn]] void error(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
	void nontrivial() { is_nontrivial = true; }
	void label(const char *name); // class counters in the evidence
	void count(const char *name, uint64_t n);

	// ---- engine internals ---------------------------------------------
	Mode mode = Mode::Rng;
	uint64_t s[4];
	const uint64_t *in = nullptr;
	size_t in_len = 0, in_pos = 0;
	const uint8_t *data = nullptr;
	size_t data_len = 0, data_pos = 0;
	bool is_nontrivial = false;
	void begin();
};

std::string hex(const void *p, size_t n, size_t max = 64);
std::string quote(const std::string &s, size_t max = 120);
// scratch directory of this worker process, created on first use and removed by the parent
const std::string &scratch();

// fault injection / leak accounting for code linked with --wrap=malloc,... (engine/alloc.c)
extern "C" {
extern int pbt_alloc_on;          // accounting and injection active
extern long pbt_alloc_live;       // allocations minus frees while active
extern long pbt_alloc_count;      // allocations attempted while active
extern long pbt_alloc_fail_at;    // fail the n-th allocation from now (0: the next), -1: never
extern int pbt_alloc_fail_sticky; // keep failing after the first
extern long pbt_alloc_failed;     // number of injected failures
extern unsigned long pbt_alloc_cap; // refuse any single request above this (0: no cap)
extern long pbt_alloc_bytes, pbt_alloc_peak; // bytes held now / at most, while active
void pbt_alloc_reset(void);
}
struct Alloc {
	int old;
	Alloc() : old(pbt_alloc_on) { pbt_alloc_on = 1; }
	~Alloc() { pbt_alloc_on = old; }
};

} // namespace pbt

// provided by the harness
struct HarnessInfo {
	const char *rule;     // how cases are made, what is non-trivial
	bool racy = false;    // failures may need several replays
	unsigned cpu_limit = 30;  // seconds of CPU per case
	unsigned wall_limit = 120; // seconds without finishing a case
};
extern const HarnessInfo harness_info;
void run_case(pbt::Case &c);
void harness_init() __attribute__((weak)); // once per worker process

#define REQUIRE(c, cond, ...)                                                  \
	do {                                                                   \
		if (!(cond)) (c).fail(__VA_ARGS__);                            \
	} while (0)

namespace pbt {
// bytes handed to the library without a terminator: in memory that ends with them, or followed by other characters
struct Bytes {
	char *p;
	explicit Bytes(const std::string &s)
	{
		unsigned k = s.empty() ? 1 : 0;
		for (unsigned char ch : s.substr(0, 16)) k += ch;
		size_t extra = k % 3 == 1 ? 1 + k % 4 : 0;
		p = new char[s.size() + extra];
		memcpy(p, s.data(), s.size());
		memset(p + s.size(), 'q', extra);
	}
	~Bytes() { delete[] p; }
	Bytes(const Bytes &) = delete;
	operator const char *() const { return p; }
};
}

#endif
