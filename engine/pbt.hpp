// Choice-sequence property-based testing engine (see DESIGN.md, "Engine").
// Every random decision of a case is drawn from a Source and recorded as an
// integer; a case is replayed, mutated and shrunk on that integer sequence.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {

struct Failure { std::string site, msg; };
struct Discard { };

class Source {
public:
	// uniform integer in [0, max]
	uint64_t draw(uint64_t max);
	// uniform in [lo, hi]
	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t) draw((uint64_t) (hi - lo)); }
	bool coin() { return draw(1) != 0; }
	// true with probability 1/n  (0 = false, so shrinks towards false)
	bool oneIn(unsigned n) { return draw(n - 1) == n - 1; }
	// true with probability (n-1)/n, shrinks towards false ("stop")
	bool more(unsigned n) { return draw(n) != 0; }
	// index by weight; shrinks towards index 0
	size_t weighted(std::initializer_list<unsigned> w);
	template <class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }
	std::string pick(std::initializer_list<const char*> v) { return v.begin()[draw(v.size() - 1)]; }
	int64_t pickInt(std::initializer_list<int64_t> v) { return v.begin()[draw(v.size() - 1)]; }
	// small sizes are frequent, large possible: in [0, max]
	size_t size(size_t max);
	// a size which is often at or near one of the given boundaries
	size_t sizeNear(size_t max, std::initializer_list<size_t> marks);
	// n bytes from an alphabet (empty alphabet: any byte)
	std::string bytes(size_t n, const std::string& alphabet = std::string());
	// variable-length string, elements deletable one by one
	std::string str(unsigned avg, const std::string& alphabet = std::string());
	// n pseudo-random bytes from one drawn seed (for bulk data)
	std::string bulk(size_t n, const std::string& alphabet = std::string());

	// engine side
	bool generating = true;
	std::vector<uint64_t> in;  // sequence to replay
	size_t pos = 0;
	uint64_t rng[2] = { 1, 2 };
	uint64_t next();
	uint64_t* out = nullptr; size_t nout = 0, cap = 0;
	void seed(uint64_t s);
};

class Ctx {
public:
	std::map <std::string, uint64_t> labels;
	bool nontrivialFlag = false;
	uint64_t key = 1469598103934665603ull;
	std::string notes;
	bool wantNotes = false;

	void label(const std::string& l) { ++labels[l]; }
	void nontrivial(bool b = true) { nontrivialFlag = nontrivialFlag || b; }
	void mix(const std::string& s) { for (unsigned char c : s) { key ^= c; key *= 1099511628211ull; } key ^= 0xff; key *= 1099511628211ull; }
	void mix(uint64_t v) { for (int i = 0 ; i < 8 ; ++i) { key ^= (v >> (8 * i)) & 0xff; key *= 1099511628211ull; } }
	void note(const std::string& s) { if (wantNotes && notes.size() < 60000) { notes += s; notes += "\n"; } }
	bool listed(const std::string& findingId);  // is this known finding listed in known_findings.txt?
	// note that the case belongs to a listed known finding (counted, assertion skipped by the caller)
	bool known(const std::string& findingId) { if (!listed(findingId)) return false; label("known-finding " + findingId); return true; }
};

struct Probe { std::string id, what; std::function <void(Ctx&)> run; };  // throws / crashes while the finding is still there

struct Property {
	std::string id;
	std::string rule;
	std::function <void(Source&, Ctx&)> run;
	uint64_t quick = 20000, thorough = 400000;
	unsigned mutatePct = 35;      // share of cases mutated from coverage corpus
	unsigned caseCpuSeconds = 20;
	unsigned caseWallSeconds = 150;
	std::function <void()> init;
	std::vector <Probe> probes;
	unsigned quickWall = 150, thoroughWall = 3000;  // safety cap
	std::vector <std::string> assumptions;
	std::function <void()> cleanup;  // removes scratch space (parent, at the end)
	unsigned workers = 0;
};

std::string esc(const std::string& s, size_t max = 4000);
std::string scratchDir();   // private directory of this run, removed at the end

[[noreturn]] void fail(const char* file, int line, const std::string& msg);

#define CHECK_MSG(cond, expr) do { if (!(cond)) { std::ostringstream _o; _o << expr; ::pbt::fail(__FILE__, __LINE__, _o.str()); } } while (0)
#define CHECK(cond) CHECK_MSG(cond, "condition failed: " #cond)
#define CHECK_EQ(a, b, what) do { auto _a = (a); auto _b = (b); if (!(_a == _b)) { std::ostringstream _o; _o << what << ": got " << ::pbt::show(_a) << ", expected " << ::pbt::show(_b); ::pbt::fail(__FILE__, __LINE__, _o.str()); } } while (0)
#define FAIL(expr) do { std::ostringstream _o; _o << expr; ::pbt::fail(__FILE__, __LINE__, _o.str()); } while (0)
#define NOTE(c, expr) do { if ((c).wantNotes) { std::ostringstream _o; _o << expr; (c).note(_o.str()); } } while (0)

inline std::string show(const std::string& s) { return "\"" + esc(s, 1500) + "\"(" + std::to_string(s.size()) + ")"; }
inline std::string show(const char* s) { return show(std::string(s)); }
template <class T> auto show(const T& v) -> decltype(std::to_string(v)) { return std::to_string(v); }
template <class T> auto show(const std::vector<T>& v) -> std::string { std::string r = "["; size_t n = 0; for (const auto& x : v) { if (n++) r += ", "; if (n > 60) { r += "..."; break; } r += show(x); } return r + "]"; }
template <class A, class B> auto show(const std::pair<A, B>& v) -> std::string { return "(" + show(v.first) + "," + show(v.second) + ")"; }

}  // namespace pbt

pbt::Property makeProperty();  // provided by each check
