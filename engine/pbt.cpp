#include "pbt.hpp"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace pbt {

// ---------------------------------------------------------------- coverage
static uint8_t *covStart, *covStop;
}
// a check which is compiled with coverage itself (header-only code under test) defines this
extern "C" const int pbt_own_coverage __attribute__((weak));
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t* start, uint8_t* stop) {
	if (start != stop && (&pbt_own_coverage != nullptr || (size_t) (stop - start) > (size_t) (pbt::covStop - pbt::covStart))) {
		pbt::covStart = start; pbt::covStop = stop;
	}
}
extern "C" void __sanitizer_cov_pcs_init(const uintptr_t*, const uintptr_t*) { }
// sanitizer defaults
extern "C" const char* __asan_default_options() {
	return "detect_leaks=0:exitcode=99:abort_on_error=0:handle_abort=1:allocator_may_return_null=0:max_allocation_size_mb=1500:hard_rss_limit_mb=3500:detect_stack_use_after_return=0:symbolize=1:print_legend=0:fast_unwind_on_malloc=1:malloc_context_size=6:quarantine_size_mb=16:detect_container_overflow=0:print_full_thread_history=0";
}
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1:halt_on_error=1:exitcode=99"; }
namespace pbt {

// ---------------------------------------------------------------- rng
static uint64_t splitmix(uint64_t& x) { uint64_t z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
void Source::seed(uint64_t s) { rng[0] = splitmix(s); rng[1] = splitmix(s); if (!rng[0] && !rng[1]) rng[0] = 1; }
uint64_t Source::next() {
	uint64_t a = rng[0], b = rng[1]; rng[0] = b; a ^= a << 23; rng[1] = a ^ b ^ (a >> 18) ^ (b >> 5); return rng[1] + b;
}
uint64_t Source::draw(uint64_t max) {
	uint64_t v;
	if (pos < in.size()) { v = in[pos]; if (v > max) v = (max == UINT64_MAX) ? v : v % (max + 1); }
	else if (generating) v = (max == UINT64_MAX) ? next() : (uint64_t) (((unsigned __int128) next() * (max + 1)) >> 64);
	else v = 0;
	++pos;
	if (nout >= cap) throw Discard();
	out[nout++] = v;
	return v;
}
size_t Source::weighted(std::initializer_list<unsigned> w) {
	unsigned t = 0; for (unsigned x : w) t += x;
	uint64_t d = draw(t - 1); size_t i = 0;
	for (unsigned x : w) { if (d < x) return i; d -= x; ++i; }
	return 0;
}
size_t Source::size(size_t max) {
	if (max == 0) return 0;
	switch (weighted({ 5, 4, 2, 1 })) {
	case 0: return draw(std::min<size_t>(max, 4));
	case 1: return draw(std::min<size_t>(max, 20));
	case 2: return draw(std::min<size_t>(max, 150));
	default: return draw(max);
	}
}
size_t Source::sizeNear(size_t max, std::initializer_list<size_t> marks) {
	if (coin()) return size(max);
	size_t m = marks.begin()[draw(marks.size() - 1)];
	int64_t r = (int64_t) m + range(-4, 4);
	return r < 0 ? 0 : std::min<size_t>(max, (size_t) r);
}
std::string Source::bytes(size_t n, const std::string& alphabet) {
	std::string r; r.reserve(n);
	for (size_t i = 0 ; i < n ; ++i) r += alphabet.empty() ? (char) draw(255) : alphabet[draw(alphabet.size() - 1)];
	return r;
}
std::string Source::str(unsigned avg, const std::string& alphabet) {
	std::string r;
	while (more(avg)) r += alphabet.empty() ? (char) draw(255) : alphabet[draw(alphabet.size() - 1)];
	return r;
}
std::string Source::bulk(size_t n, const std::string& alphabet) {
	Source t; t.seed(draw(1u << 30) + 77);
	std::string r; r.resize(n);
	for (size_t i = 0 ; i < n ; ++i) r[i] = alphabet.empty() ? (char) (t.next() >> 13) : alphabet[(t.next() >> 13) % alphabet.size()];
	return r;
}

// ---------------------------------------------------------------- misc
std::string esc(const std::string& s, size_t max) {
	std::string r; size_t i = 0;
	for (unsigned char c : s) {
		if (i++ >= max) { r += "...+" + std::to_string(s.size() - max); break; }
		char b[8];
		if (c == '\n') r += "\\n"; else if (c == '\r') r += "\\r"; else if (c == '\t') r += "\\t"; else if (c == '\\') r += "\\\\";
		else if (c == '"') r += "\\\"";
		else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); r += b; } else r += (char) c;
	}
	return r;
}
void fail(const char* file, int line, const std::string& msg) {
	const char* b = strrchr(file, '/');
	throw Failure { std::string(b ? b + 1 : file) + ":" + std::to_string(line), msg };
}
static std::string g_scratch;
std::string scratchDir() { return g_scratch; }
static std::set <std::string> g_listed;
bool Ctx::listed(const std::string& id) { return g_listed.count(id) != 0; }

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double) t.tv_sec + (double) t.tv_nsec * 1e-9; }

enum { ST_RUN = 0, ST_FAIL = 2, ST_HANG = 3 };
struct Slot {
	volatile int status;
	volatile uint64_t caseIdx;
	volatile uint64_t nextIdx;
	char site[256];
	char msg[16384];
	char notes[65536];
	volatile size_t liveN;
	static const size_t CAP = 400000;
	uint64_t choices[CAP];
};
static Slot* g_slot;
static Source* g_src;

static void onTimer(int) {
	// async-signal-safe enough: only plain stores, then _exit
	g_slot->status = ST_HANG; g_slot->liveN = g_src ? g_src->nout : 0;
	const char* m = "case exceeded its CPU or wall time limit (endless loop or runaway)";
	strcpy(g_slot->site, "hang"); strcpy(g_slot->msg, m);
	_exit(78);
}
static void arm(unsigned cpu, unsigned wall) {
	struct itimerval t; memset(&t, 0, sizeof t);
	t.it_value.tv_sec = cpu; setitimer(ITIMER_PROF, &t, nullptr);
	t.it_value.tv_sec = wall; setitimer(ITIMER_REAL, &t, nullptr);
}
static void put(char* dst, size_t cap, const std::string& s) { size_t n = std::min(cap - 1, s.size()); memcpy(dst, s.data(), n); dst[n] = 0; }

// runs one case; true = ok
static bool runOne(Property& p, Source& s, Ctx& c, Slot* slot) {
	g_src = &s;
	s.out = slot->choices; s.cap = Slot::CAP; s.nout = 0; s.pos = 0;
	slot->status = ST_RUN;
	bool ok = true;
	try { p.run(s, c); }
	catch (const Failure& f) { put(slot->site, sizeof slot->site, f.site); put(slot->msg, sizeof slot->msg, f.msg); ok = false; }
	catch (const Discard&) { c.label("discarded (case too large)"); }
	catch (const std::exception& e) { put(slot->site, sizeof slot->site, std::string("exception ") + typeid(e).name()); put(slot->msg, sizeof slot->msg, std::string("unexpected exception ") + typeid(e).name() + ": " + e.what()); ok = false; }
	slot->liveN = s.nout;
	if (!ok) { slot->status = ST_FAIL; put(slot->notes, sizeof slot->notes, c.notes); }
	return ok;
}

// crash path: keep the number of choices drawn so far visible to the parent
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static void onDeath() { if (g_slot && g_src) g_slot->liveN = g_src->nout; }

static uint64_t mixSeed(uint64_t seed, const std::string& id, uint64_t i) {
	uint64_t h = seed * 0x9e3779b97f4a7c15ull + 0x1234567;
	for (char c : id) { h ^= (unsigned char) c; h *= 1099511628211ull; }
	h ^= i * 0xbf58476d1ce4e5b9ull; return splitmix(h);
}

static void mutate(std::vector<uint64_t>& v, Source& r, const std::vector<std::vector<uint64_t>>& corpus) {
	auto rnd = [&](uint64_t n) { return n ? r.next() % n : 0; };
	unsigned n = 1 + (unsigned) rnd(4);
	for (unsigned k = 0 ; k < n ; ++k) {
		if (v.empty()) return;
		size_t i = rnd(v.size());
		switch (rnd(8)) {
		case 0: v[i] = r.next(); break;
		case 1: v[i] = rnd(256); break;
		case 2: v[i] += rnd(2) ? 1 : (uint64_t) -1; break;
		case 3: { size_t m = std::min<size_t>(v.size() - i, 1 + rnd(8)); v.erase(v.begin() + i, v.begin() + i + m); break; }
		case 4: { size_t m = std::min<size_t>(v.size() - i, 1 + rnd(16)); std::vector<uint64_t> t(v.begin() + i, v.begin() + i + m); v.insert(v.begin() + rnd(v.size()), t.begin(), t.end()); break; }
		case 5: v.resize(i); break;
		case 6: { const auto& o = corpus[rnd(corpus.size())]; if (o.empty()) break; size_t a = rnd(o.size()), m = std::min<size_t>(o.size() - a, 1 + rnd(60)); v.insert(v.begin() + i, o.begin() + a, o.begin() + a + m); break; }
		default: { v.insert(v.begin() + i, r.next()); break; }
		}
	}
}

static void worker(Property& p, unsigned w, unsigned W, uint64_t n, uint64_t seed, double deadline, Slot* slot, const std::string& outFile) {
	g_slot = slot;
	__sanitizer_set_death_callback(onDeath);
	signal(SIGPROF, onTimer); signal(SIGALRM, onTimer);
	if (p.init) p.init();
	std::map<std::string, uint64_t> labels;
	std::unordered_set<uint64_t> keys;
	std::vector<std::vector<uint64_t>> corpus;
	std::vector<uint8_t> virgin(covStop - covStart, 0);
	std::vector<std::string> samples;
	size_t covered = 0;
	uint64_t done = 0; size_t corpusChoices = 0;
	bool capped = false;
	const bool survey = getenv("PBT_SURVEY") != nullptr; std::map<std::string, std::string> surveyBest;
	uint64_t i = slot->nextIdx;
	for ( ; i < n ; i += W) {
		if ((done & 15) == 0 && now() > deadline) { capped = true; break; }
		slot->caseIdx = i; slot->nextIdx = i + W;
		Source s; s.seed(mixSeed(seed, p.id, i));
		bool mutated = false;
		if (!corpus.empty() && s.next() % 100 < p.mutatePct) {
			mutated = true;
			size_t k = (s.next() & 1) ? corpus.size() - 1 - s.next() % std::min<size_t>(corpus.size(), 16) : s.next() % corpus.size();
			s.in = corpus[k];
			mutate(s.in, s, corpus);
		}
		Ctx c; c.wantNotes = done < 25;
		if (covStart != covStop) memset(covStart, 0, covStop - covStart);
		arm(p.caseCpuSeconds, p.caseWallSeconds);
		bool ok = runOne(p, s, c, slot);
		if (!ok && survey) {  // development aid: classify oracle failures instead of stopping
			std::string k = std::string("FAIL ") + slot->site + " " + std::string(slot->msg).substr(0, std::min<size_t>(70, std::string(slot->msg).find_first_of("\"0123456789")));
			if (labels.size() < 400) { ++labels[k]; std::string n = std::string(slot->msg) + " || "; auto& best = surveyBest[k]; 
				Ctx c2; c2.wantNotes = true; Source s2; s2.generating = false; s2.in.assign(slot->choices, slot->choices + slot->liveN); runOne(p, s2, c2, slot);
				n += c2.notes; if (best.empty() || n.size() < best.size()) best = n; }
			++done; continue;
		}
		if (!ok) _exit(77);
		++done;
		// coverage
		bool fresh = false;
		size_t nc = covStop - covStart;
		for (size_t j = 0 ; j + 8 <= nc ; j += 8) {
			uint64_t q; memcpy(&q, covStart + j, 8);
			if (!q) continue;
			for (size_t b = j ; b < j + 8 ; ++b) if (covStart[b]) {
				uint8_t v = covStart[b];
				uint8_t bit = v == 1 ? 1 : v == 2 ? 2 : v == 3 ? 4 : v < 8 ? 8 : v < 16 ? 16 : v < 32 ? 32 : v < 128 ? 64 : 128;
				if (!(virgin[b] & bit)) { if (!virgin[b]) ++covered; virgin[b] |= bit; fresh = true; }
			}
		}
		if (fresh && p.mutatePct && s.nout < 20000 && corpusChoices < 4000000) {
			corpus.emplace_back(slot->choices, slot->choices + s.nout); corpusChoices += s.nout;
		}
		for (const auto& l : c.labels) labels[l.first] += l.second;
		if (mutated) ++labels["[mutated from coverage corpus]"];
		if (c.nontrivialFlag) {
			keys.insert(c.key);
			if (c.wantNotes && !c.notes.empty() && samples.size() < 4) samples.push_back(c.notes.substr(0, 1500));
		}
	}
	arm(0, 0);
	if (survey) for (const auto& b : surveyBest) fprintf(stderr, "SURVEY %s\n   %s\n", b.first.c_str(), b.second.substr(0, 1500).c_str());
	std::ofstream o(outFile);
	o << "cases " << done << "\ncovered " << covered << " " << virgin.size() << "\ncorpus " << corpus.size() << "\ncapped " << capped << "\n";
	for (const auto& l : labels) o << "label " << l.second << " " << esc(l.first) << "\n";
	for (uint64_t k : keys) o << "key " << k << "\n";
	for (const auto& s : samples) o << "sample " << esc(s, 3000) << "\n";
	o.close();
	_exit(0);
}

struct Verdict { int kind = 0; /* 0 ok, 1 check, 2 crash, 3 hang */ std::string site, msg, notes; std::vector<uint64_t> choices; };

static std::string slurp(const std::string& f, size_t max = 200000) { std::ifstream i(f, std::ios::binary); std::string s; s.resize(max); i.read(&s[0], (std::streamsize) max); s.resize((size_t) i.gcount()); return s; }

static std::string crashSummary(const std::string& err) {
	std::istringstream is(err); std::string l, sum, first, frame;
	while (std::getline(is, l)) {
		if (first.empty() && (l.find("ERROR: ") != std::string::npos || l.find("runtime error:") != std::string::npos)) first = l;
		if (l.find("SUMMARY:") != std::string::npos) sum = l;
		if (frame.empty() && l.find(" in vmime::") != std::string::npos) frame = l;
	}
	return first + (sum.empty() ? "" : " | " + sum) + (frame.empty() ? "" : " | " + frame);
}

// re-reads liveN on crash without death callback (plain signal): use slot->liveN as is
static Verdict replayChild(Property& p, const std::vector<uint64_t>& ch, Slot* slot, unsigned cpu, bool notes, bool toStderr = false) {
	Verdict v;
	slot->status = 0; slot->site[0] = slot->msg[0] = slot->notes[0] = 0; slot->liveN = 0;
	std::string err = g_scratch + "/replay.err";
	fflush(nullptr);
	pid_t pid = fork();
	if (pid == 0) {
		if (!toStderr) { int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); dup2(fd, 1); }
		g_slot = slot; __sanitizer_set_death_callback(onDeath);
		signal(SIGPROF, onTimer); signal(SIGALRM, onTimer);
		if (p.init) p.init();
		Source s; s.generating = false; s.in = ch; Ctx c; c.wantNotes = notes;
		arm(cpu, p.caseWallSeconds);
		bool ok = runOne(p, s, c, slot);
		put(slot->notes, sizeof slot->notes, c.notes);
		_exit(ok ? 0 : 77);
	}
	int st = 0; while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
	v.notes = slot->notes; v.site = slot->site; v.msg = slot->msg;
	v.choices.assign(slot->choices, slot->choices + std::min<size_t>((size_t) slot->liveN, +Slot::CAP));
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) v.kind = 0;
	else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) v.kind = 1;
	else if (WIFEXITED(st) && WEXITSTATUS(st) == 78) v.kind = 3;
	else {
		v.kind = 2; v.site = "crash";
		std::string e = slurp(err);
		v.msg = "process died (" + std::string(WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))) + ") " + crashSummary(e) + "\n" + e.substr(0, 6000);
		if (v.choices.empty()) v.choices = ch;
	}
	return v;
}

static bool same(const Verdict& a, const Verdict& b) { return a.kind == b.kind && (a.kind != 1 || a.site == b.site); }

static std::vector<uint64_t> shrink(Property& p, Verdict ref, Slot* slot, double budget) {
	std::vector<uint64_t> cur = ref.choices;
	double end = now() + budget; unsigned evals = 0;
	auto attempt = [&](std::vector<uint64_t> cand) {
		if (now() > end) return false;
		if (cand == cur) return false;
		++evals;
		Verdict v = replayChild(p, cand, slot, 6, false);
		if (!same(v, ref)) return false;
		std::vector<uint64_t> got = v.choices.empty() || v.choices.size() > cand.size() ? cand : v.choices;
		while (!got.empty() && got.back() == 0) got.pop_back();
		auto sum = [](const std::vector<uint64_t>& x) { long double s = 0; for (uint64_t y : x) s += (long double) y; return s; };
		if (got.size() < cur.size() || (got.size() == cur.size() && sum(got) < sum(cur))) { cur = got; return true; }
		return false;
	};
	while (!cur.empty() && cur.back() == 0) cur.pop_back();
	bool progress = true;
	while (progress && now() < end) {
		progress = false;
		for (size_t k = std::max<size_t>(1, cur.size() / 2) ; k >= 1 && now() < end ; k /= 2) {
			for (size_t i = cur.size() ; i-- > 0 && now() < end ; ) {
				if (k > 1 && i % k) continue;
				if (i >= cur.size()) continue;
				std::vector<uint64_t> c = cur; c.erase(c.begin() + i, c.begin() + std::min(c.size(), i + k));
				if (attempt(c)) progress = true;
			}
			if (k == 1) break;
		}
		for (size_t k = std::max<size_t>(1, cur.size() / 4) ; k >= 1 && now() < end ; k /= 2) {
			for (size_t i = 0 ; i < cur.size() && now() < end ; i += k) {
				std::vector<uint64_t> c = cur; bool any = false;
				for (size_t j = i ; j < std::min(c.size(), i + k) ; ++j) { any |= c[j] != 0; c[j] = 0; }
				if (any && attempt(c)) progress = true;
			}
			if (k == 1) break;
		}
		for (size_t i = 0 ; i < cur.size() && now() < end ; ++i) {
			if (!cur[i]) continue;
			uint64_t lo = 0;
			while (i < cur.size() && lo < cur[i] && now() < end) {
				uint64_t mid = lo + (cur[i] - lo) / 2; std::vector<uint64_t> c = cur; c[i] = mid;
				if (attempt(c)) progress = true; else lo = mid + 1;
			}
			for (size_t d = 1 ; d <= 4 && i < cur.size() ; ++d) {
				if (!cur[i] || i + 1 + d > cur.size()) break;
				std::vector<uint64_t> c = cur; c[i]--; c.erase(c.begin() + i + 1, c.begin() + i + 1 + d);
				if (attempt(c)) { progress = true; break; }
			}
		}
	}
	return cur;
}

static std::string jstr(const std::string& s) {
	std::string r = "\"";
	for (unsigned char c : s) { char b[8]; if (c == '"' || c == '\\') { r += '\\'; r += (char) c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); r += b; } else r += (char) c; }
	return r + "\"";
}

static void rmTree(const std::string& d) {
	if (d.size() < 10 || d.find("/pbt.") == std::string::npos) return;
	std::string c = "rm -rf -- '" + d + "'"; if (system(c.c_str())) { }
}

static std::vector<uint64_t> readReplay(const std::string& f) {
	std::ifstream i(f); std::string l; std::vector<uint64_t> r;
	while (std::getline(i, l)) if (l.compare(0, 8, "choices:") == 0) { std::istringstream is(l.substr(8)); uint64_t x; while (is >> x) r.push_back(x); break; }
	return r;
}

static int mainImpl(int argc, char** argv) {
	Property p = makeProperty();
	std::string tier = "quick", root = ".", replay;
	uint64_t seed = 1, cases = 0; unsigned W = (unsigned) std::max(1L, std::min(16L, sysconf(_SC_NPROCESSORS_ONLN)));
	bool fixedW = false; double wallOpt = 0;
	if (const char* e = getenv("VERIF_SEED")) seed = strtoull(e, nullptr, 10);
	if (const char* e = getenv("VERIF_TIER")) tier = e;
	for (int i = 1 ; i < argc ; ++i) {
		std::string a = argv[i];
		auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--tier") tier = val(); else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--cases") cases = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--root") root = val(); else if (a == "--replay") replay = val();
		else if (a == "--workers") { W = (unsigned) atoi(val().c_str()); fixedW = true; }
		else if (a == "--wall") wallOpt = atof(val().c_str());
	}
	// 8 workers whatever the machine: the work of a run does not depend on the core count
	if (!fixedW) W = p.workers ? p.workers : 8;
	if (tier != "thorough") tier = "quick";
	{
		std::ifstream k(root + "/known_findings.txt"); std::string l;
		while (std::getline(k, l)) {
			if (l.compare(0, 8, "finding:") != 0) continue;
			size_t a = l.find("id="); if (a == std::string::npos) continue;
			size_t b = l.find(' ', a); g_listed.insert(l.substr(a + 3, b == std::string::npos ? b : b - a - 3));
		}
	}
	const char* tmp = getenv("TMPDIR"); std::string t = std::string(tmp && *tmp ? tmp : "/tmp") + "/pbt." + p.id + ".XXXXXX";
	std::vector<char> tb(t.begin(), t.end()); tb.push_back(0);
	if (!mkdtemp(tb.data())) { perror("mkdtemp"); return 2; }
	g_scratch = tb.data(); chmod(g_scratch.c_str(), 0755);

	auto mapSlot = [] { void* m = mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (m == MAP_FAILED) { perror("mmap"); exit(2); } return (Slot*) m; };
	Slot* rslot = mapSlot();

	if (!replay.empty()) {
		std::vector<uint64_t> ch = readReplay(replay);
		Verdict v = replayChild(p, ch, rslot, p.caseCpuSeconds * 2, true, getenv("PBT_WIRE") != nullptr);
		std::cout << v.notes << "\n";
		if (v.kind) std::cout << (v.kind == 1 ? "FAILS: " : v.kind == 2 ? "CRASHES: " : "HANGS: ") << v.site << ": " << v.msg << "\n"; else std::cout << "passes\n";
		rmTree(g_scratch);
		if (v.kind) { std::cout << "VIOLATION property=" << p.id << " replay=" << replay << std::endl; return 1; }
		return 0;
	}

	double t0 = now();
	// known findings: each listed one is shown to be still there
	unsigned nKnown = 0;
	for (const auto& pr : p.probes) {
		if (!g_listed.count(pr.id)) continue;
		Property q = p; q.run = [&](Source&, Ctx& c) { pr.run(c); };
		Verdict v = replayChild(q, {}, rslot, p.caseCpuSeconds, false);
		if (v.kind) { ++nKnown; std::cout << "KNOWN-FINDING: property=" << p.id << " " << pr.id << " " << pr.what << std::endl; }
		else std::cout << "note: known finding " << pr.id << " no longer fails\n";
	}
	uint64_t n = cases ? cases : tier == "thorough" ? p.thorough : p.quick;
	double deadline = now() + (wallOpt > 0 ? wallOpt : tier == "thorough" ? p.thoroughWall : p.quickWall);
	std::vector<Slot*> slots; std::vector<pid_t> pids(W, 0);
	auto outName = [&](unsigned w) { return g_scratch + "/out." + std::to_string(w); };
	auto errName = [&](unsigned w) { return g_scratch + "/err." + std::to_string(w); };
	auto launch = [&](unsigned w) {
		fflush(nullptr); std::cout.flush();
		pid_t pid = fork();
		if (pid == 0) {
			int fd = open(errName(w).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 2); dup2(fd, 1);
			worker(p, w, W, n, seed, deadline, slots[w], outName(w));
		}
		pids[w] = pid;
	};
	for (unsigned w = 0 ; w < W ; ++w) { slots.push_back(mapSlot()); slots[w]->nextIdx = w; launch(w); }
	unsigned running = W, unreproduced = 0; int rc = 0; uint64_t lostCases = 0;
	std::string unreproducedText;
	while (running) {
		int st; pid_t pid = wait(&st);
		if (pid < 0) { if (errno == EINTR) continue; break; }
		unsigned w = 0; while (w < W && pids[w] != pid) ++w;
		if (w == W) continue;
		--running; pids[w] = 0;
		if (getenv("PBT_SURVEY")) fprintf(stderr, "%s", slurp(errName(w), 60000).c_str());
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
		// a failure
		Slot* s = slots[w]; Verdict v;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 77) v.kind = 1; else if (WIFEXITED(st) && WEXITSTATUS(st) == 78) v.kind = 3; else { v.kind = 2; v.site = "crash"; std::string e = slurp(errName(w)); v.msg = "process died (" + std::string(WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))) + ") " + crashSummary(e) + "\n" + e.substr(0, 5000); }
		if (v.kind != 2) { v.site = s->site; v.msg = s->msg; }
		v.choices.assign(s->choices, s->choices + std::min<size_t>((size_t) s->liveN, +Slot::CAP));
		uint64_t idx = s->caseIdx;
		if (v.kind == 2 && v.choices.empty()) { size_t m = Slot::CAP; while (m && !s->choices[m - 1]) --m; v.choices.assign(s->choices, s->choices + m); }
		unsigned again = 0; Verdict last;
		for (int k = 0 ; k < 3 ; ++k) { Verdict r = replayChild(p, v.choices, rslot, p.caseCpuSeconds, false); if (r.kind && (r.kind == v.kind || v.kind != 3)) { ++again; last = r; } else if (v.kind == 3) break; }
		if (again < 2) {
			++unreproduced;
			unreproducedText += "case " + std::to_string(idx) + ": " + v.site + ": " + v.msg.substr(0, 600) + "\n";
			fprintf(stderr, "note: failure of case %llu did not reproduce (%u/3): %s: %.1500s\n", (unsigned long long) idx, again, v.site.c_str(), v.msg.c_str());
			if (unreproduced <= 40) { launch(w); ++running; }
			continue;
		}
		for (unsigned x = 0 ; x < W ; ++x) if (pids[x]) kill(pids[x], SIGKILL);
		while (wait(&st) > 0 || errno == EINTR) { }
		last.choices = v.choices;
		std::vector<uint64_t> small = last.kind == 3 ? v.choices : shrink(p, last, rslot, tier == "thorough" ? 180 : 60);
		Verdict fin = replayChild(p, small, rslot, p.caseCpuSeconds, true);
		if (!fin.kind) { small = v.choices; fin = replayChild(p, small, rslot, p.caseCpuSeconds, true); if (!fin.kind) fin = last; }
		std::string dir = root + "/build/replays"; { std::string c = "mkdir -p '" + dir + "'"; if (system(c.c_str())) { } }
		std::string f = dir + "/" + p.id + "-s" + std::to_string(seed) + "-c" + std::to_string(idx) + ".txt";
		std::ofstream o(f);
		o << "property: " << p.id << "\nseed: " << seed << " case: " << idx << "\nkind: " << (fin.kind == 1 ? "oracle" : fin.kind == 2 ? "crash" : "hang") << "\nsite: " << fin.site << "\nmessage: " << fin.msg << "\nchoices:";
		for (uint64_t x : small) o << " " << x;
		o << "\n---- case ----\n" << fin.notes << "\n"; o.close();
		std::cout << "failure of " << p.id << " at " << fin.site << ": " << fin.msg.substr(0, 3000) << "\n" << fin.notes.substr(0, 4000) << "\n";
		std::cout << "VIOLATION property=" << p.id << " replay=" << f << std::endl;
		rc = 1; break;
	}
	// evidence
	uint64_t total = 0, covered = 0, covTotal = 0, corpus = 0; bool capped = false;
	std::map<std::string, uint64_t> labels; std::unordered_set<uint64_t> keys; std::vector<std::string> samples;
	for (unsigned w = 0 ; w < W ; ++w) {
		std::ifstream i(outName(w)); std::string l;
		while (std::getline(i, l)) {
			std::istringstream is(l); std::string k; is >> k;
			if (k == "cases") { uint64_t x; is >> x; total += x; }
			else if (k == "covered") { uint64_t x, y; is >> x >> y; covered = std::max(covered, x); covTotal = y; }
			else if (k == "corpus") { uint64_t x; is >> x; corpus += x; }
			else if (k == "capped") { int x; is >> x; capped |= x != 0; }
			else if (k == "label") { uint64_t x; is >> x; std::string r; std::getline(is, r); labels[r.substr(1)] += x; }
			else if (k == "key") { uint64_t x; is >> x; keys.insert(x); }
			else if (k == "sample" && samples.size() < 8) samples.push_back(l.substr(7, 1800));
		}
		if (rc) { total += slots[w]->caseIdx / W; }
	}
	(void) lostCases;
	if (samples.empty()) samples.push_back(rc ? "(run ended at the violation)" : "(none)");
	{
		std::string c = "mkdir -p '" + root + "/evidence'"; if (system(c.c_str())) { }
		std::ofstream o(root + "/evidence/" + p.id + ".json");
		o << "{\"property\":" << jstr(p.id) << ",\"tier\":" << jstr(tier) << ",\"seed\":" << seed << ",\"level\":\"exploration\",\n\"coverage\":{\"evaluations\":" << total << ",\"distinct_nontrivial\":" << keys.size() << ",\n\"rule\":" << jstr(p.rule)
		  << ",\n\"requested_cases\":" << n << ",\"wall_cap_hit\":" << (capped ? "true" : "false") << ",\"edges_hit_best_worker\":" << covered << ",\"edges_total\":" << covTotal << ",\"corpus_entries\":" << corpus << ",\"workers\":" << W << ",\"unreproduced_failures\":" << unreproduced
		  << ",\n\"labels\":{";
		bool f = true; size_t nl = 0;
		for (const auto& l : labels) { if (nl++ > 250) break; o << (f ? "" : ",") << jstr(l.first) << ":" << l.second; f = false; }
		o << "},\n\"samples\":["; f = true;
		for (const auto& s : samples) { o << (f ? "" : ",\n") << jstr(s); f = false; }
		o << "]},\n\"assumptions\":["; f = true;
		for (const auto& s : p.assumptions) { o << (f ? "" : ",") << jstr(s); f = false; }
		o << "],\n\"wall_s\":" << (now() - t0) << ",\"violations\":" << (rc ? 1 : 0) << "}\n";
	}
	std::cout << p.id << " " << tier << " seed=" << seed << ": " << total << " cases, " << keys.size() << " distinct non-trivial, " << covered << "/" << covTotal << " edges, " << (now() - t0) << " s" << (capped ? " (wall cap)" : "") << (unreproduced ? " UNREPRODUCED=" + std::to_string(unreproduced) : "") << std::endl;
	if (getenv("PBT_LABELS")) for (const auto& l : labels) std::cout << "   " << l.second << "  " << l.first << "\n";
	if (p.cleanup) p.cleanup();
	rmTree(g_scratch);
	return rc;
}
}  // namespace pbt

int main(int argc, char** argv) {
	// a stack large enough that only unbounded recursion exhausts it
	struct rlimit r; getrlimit(RLIMIT_STACK, &r);
	rlim_t want = 64u << 20;
	if (r.rlim_cur != want && !getenv("PBT_STACK")) {
		r.rlim_cur = r.rlim_max == RLIM_INFINITY ? want : std::min<rlim_t>(want, r.rlim_max);
		setrlimit(RLIMIT_STACK, &r); setenv("PBT_STACK", "1", 1);
		execv("/proc/self/exe", argv);
	}
	setenv("LC_ALL", "C.UTF-8", 1); setenv("LANG", "C.UTF-8", 1); setenv("TZ", "UTC", 1);
	unsetenv("ASAN_OPTIONS"); unsetenv("UBSAN_OPTIONS");
	return pbt::mainImpl(argc, argv);
}
