// C22: stream filters give the output of their whole-string definition, however the content is split.
#include "common.hpp"
#include "vmime/utility/filteredStream.hpp"
typedef vmime::utility::outputStream OS; typedef vmime::utility::inputStream IS;
static std::string dump(const std::string& x) { return pbt::esc(x); }
// delivers its data in the given pieces (possibly empty ones), never more than asked for
struct pieces : IS {
	std::vector<std::string> v; size_t i = 0, p = 0; bool late = false, ended = false;
	bool eof() const override { return late ? ended : i >= v.size(); } void reset() override { i = p = 0; ended = false; } vmime::size_t skip(const vmime::size_t) override { return 0; }
	vmime::size_t read(vmime::byte_t* const d, const vmime::size_t n) override { if (i >= v.size()) { ended = true; return 0; } size_t k = std::min(n, v[i].size() - p); memcpy(d, v[i].data() + p, k); p += k; if (p >= v[i].size()) { ++i; p = 0; } return k; }
};
static std::vector<std::string> split(Source& s, const std::string& t, bool empties) { std::vector<std::string> r; size_t p = 0; int mode = (int) s.draw(3); while (p < t.size()) { size_t n = mode == 0 ? t.size() : mode == 1 ? 1 + s.draw(2) : mode == 2 ? 1 + s.draw(8) : 1 + s.draw(std::min<size_t>(t.size() - 1, 5000)); n = std::min(n, t.size() - p); if (empties && s.oneIn(8)) r.push_back(""); r.push_back(t.substr(p, n)); p += n; } if (empties && s.oneIn(4)) r.push_back(""); return r; }
static std::string content(Source& s, const std::string& seq = "") {
	std::string r; unsigned n = (unsigned) s.size(40); for (unsigned i = 0 ; i < n ; ++i) switch (s.weighted({ 4, 3, 4, 3, 3, 2, 1, (unsigned) (seq.empty() ? 0 : 6) })) { case 0: r += '.'; break; case 1: r += '\r'; break; case 2: r += '\n'; break; case 3: r += "\r\n"; break; case 4: r += s.pick({ "a", "x", "foo", " " }); break; case 5: r += s.pick({ "\r\n.\r\n", "\n.\n", "\r\n..", "\n..\n", "..." }); break; case 6: r += s.bytes(1 + s.draw(3)); break; default: { size_t a = s.draw(seq.size()); r += seq.substr(0, a); if (s.oneIn(3)) r += seq.substr(s.draw(seq.size())); } }
	if (s.oneIn(25)) { std::string f = std::string(s.sizeNear(33000, { 32768 }), 'q'); r = s.coin() ? f + r : r + f; } return r;
}
// the definitions
static std::string dotOut(const std::string& t) { std::string r; for (size_t i = 0 ; i < t.size() ; ++i) { r += t[i]; if (t[i] == '.' && (i ? t[i - 1] == '\n' : i + 1 < t.size() && (t[i + 1] == '\r' || t[i + 1] == '\n'))) r += '.'; } return r; }
static std::string dotIn(const std::string& t) { std::string r; for (size_t i = 0 ; i < t.size() ; ++i) { bool ls = i == 0 || t[i - 1] == '\n'; r += t[i]; if (ls && t[i] == '.' && i + 1 < t.size() && t[i + 1] == '.') ++i; } return r; }
static std::string toLF(const std::string& t) { std::string r; for (size_t i = 0 ; i < t.size() ; ++i) if (!(t[i] == '\r' && i + 1 < t.size() && t[i + 1] == '\n')) r += t[i]; return r; }
static std::string allCRLF(const std::string& t) { std::string r; for (size_t i = 0 ; i < t.size() ; ++i) { if (t[i] == '\r') { r += "\r\n"; if (i + 1 < t.size() && t[i + 1] == '\n') ++i; } else if (t[i] == '\n') r += "\r\n"; else r += t[i]; } return r; }
template <class F> static std::string out(Source& s, const std::vector<std::string>& v, std::vector<size_t>* mid) { std::string r; size_t done = 0; vmime::utility::outputStreamStringAdapter os(r); F f(os); CHECK_MSG(&f.getNextOutputStream() == &os, "next stream"); for (auto& x : v) { if (s.coin()) f.write(reinterpret_cast <const vmime::byte_t*>(x.data()), x.size()); else f.write(x.data(), x.size()); done += x.size(); if (mid && s.oneIn(6)) { f.flush(); mid->push_back(done); } } f.flush(); return r; }
static std::string readAll(Source& s, IS& f, size_t atLeast) {
	std::string r; int mode = (int) s.draw(3); unsigned idle = 0;
	while (!f.eof()) { size_t n = atLeast + (mode == 0 ? 4096 : mode == 1 ? s.draw(2) : s.draw(20)); std::vector<vmime::byte_t> b(n); size_t k = f.read(b.data(), n); CHECK_MSG(k <= n, "read() says " << k << " of " << n); r.append((const char*) b.data(), k); idle = k ? 0 : idle + 1; CHECK_MSG(idle < 400, "nothing is read any more, and it is not the end"); } return r;
}
template <int N> static std::string stop(Source& s, IS& in, const char* seq, bool again, std::string& second) { vmime::utility::stopSequenceFilteredInputStream <N> f(in, seq); std::string r = readAll(s, f, N + 1); if (again) { f.reset(); second = readAll(s, f, N + 1); } return r; }
static void run(Source& s, Ctx& c) {
	int what = (int) s.draw(6); std::string seq; if (what == 5) seq = s.pick({ "x", "\n.\n", "\r\n.\r\n", "xy", "aab", "aa", "abab.", "--", "\n\n" });
	std::string t = content(s, seq); c.mix(t); c.mix(std::to_string(what) + seq);
	switch (what) {
	case 0: { std::vector<size_t> fl; auto v = split(s, t, true); NOTE(c, "dot-stuffing " << pbt::show(v)); CHECK_EQ(dump(out <vmime::utility::dotFilteredOutputStream>(s, v, s.coin() ? &fl : nullptr)), dump(dotOut(t)), "dot-stuffing"); c.label("dot-stuffing"); c.nontrivial(dotOut(t) != t && v.size() > 1); break; }
	case 1: case 2: { bool rt = what == 2; std::string w = t; if (rt) { if (t.compare(0, 2, "..") == 0) throw pbt::Discard(); auto v = split(s, t, false); t = out <vmime::utility::dotFilteredOutputStream>(s, v, nullptr); } else { w = dotIn(t); }
		pieces in; in.v = split(s, t, true); in.late = s.coin(); NOTE(c, "dot-unstuffing " << pbt::show(in.v)); vmime::utility::dotFilteredInputStream f(in); CHECK_MSG(&f.getPreviousInputStream() == &in, "previous stream"); CHECK_EQ(dump(readAll(s, f, 1)), dump(w), std::string(rt ? "stuffing and unstuffing" : "dot-unstuffing")); if (s.oneIn(4)) { f.reset(); CHECK_EQ(dump(readAll(s, f, 1)), dump(w), "dot-unstuffing after reset()"); c.label("reset"); } c.label(rt ? std::string("stuffing and unstuffing") : "dot-unstuffing"); c.nontrivial(w != t && in.v.size() > 1); break; }
	case 3: { auto v = split(s, t, true); NOTE(c, "CRLF to LF " << pbt::show(v)); std::vector<size_t> fl; std::string got = out <vmime::utility::CRLFToLFFilteredOutputStream>(s, v, s.coin() ? &fl : nullptr), want; size_t b = 0; fl.push_back(t.size()); for (size_t e : fl) { want += toLF(t.substr(b, e - b)); b = e; } CHECK_EQ(dump(got), dump(want), "CRLF to LF"); c.label("CRLF to LF"); c.nontrivial(toLF(t) != t && v.size() > 1); break; }
	case 4: { std::vector<size_t> fl; auto v = split(s, t, true); NOTE(c, "LF to CRLF " << pbt::show(v)); CHECK_EQ(dump(out <vmime::utility::LFToCRLFFilteredOutputStream>(s, v, s.coin() ? &fl : nullptr)), dump(allCRLF(t)), "LF to CRLF"); c.label("LF to CRLF"); c.nontrivial(allCRLF(t) != t && v.size() > 1);
		auto v2 = split(s, allCRLF(t), false); CHECK_EQ(dump(out <vmime::utility::LFToCRLFFilteredOutputStream>(s, v2, nullptr)), dump(allCRLF(t)), "LF to CRLF of CRLF"); break; }
	case 5: { pieces in; in.v = split(s, t, true); in.late = s.coin(); NOTE(c, "stop at " << pbt::esc(seq) << " in " << pbt::show(in.v)); std::string want = t.substr(0, t.find(seq)), got, second; bool again = s.oneIn(4);
		switch (seq.size()) { case 1: got = stop <1>(s, in, seq.data(), again, second); break; case 2: got = stop <2>(s, in, seq.data(), again, second); break; case 3: got = stop <3>(s, in, seq.data(), again, second); break; default: got = stop <5>(s, in, seq.data(), again, second); }
		CHECK_EQ(dump(got), dump(want), "up to the stop sequence"); if (again) { CHECK_EQ(dump(second), dump(want), "up to the stop sequence, after reset()"); c.label("reset"); } c.label(want != t ? "stop sequence present" : "stop sequence absent"); c.nontrivial(in.v.size() > 1 && t.find(seq[0]) != std::string::npos); break; }
	default: { // what a POP3 client does with a multi-line response
		std::string body = t; if (!body.empty() && (body.size() < 2 || body.compare(body.size() - 2, 2, "\r\n"))) body += "\r\n"; std::string b2; for (size_t i = 0 ; i < body.size() ; ++i) { bool ls = i == 0 || body[i - 1] == '\n'; if (ls && body[i] == '.') b2 += '.'; b2 += body[i]; } if (b2.find("\n.\n") != std::string::npos || b2.find("\n.\r\n") != std::string::npos || body.empty()) throw pbt::Discard();
		pieces in; in.v = split(s, b2 + ".\r\n" + s.pick({ "", "+OK next\r\n", "\r\n.\r\n" }), false); NOTE(c, "response " << pbt::show(in.v)); vmime::utility::stopSequenceFilteredInputStream <5> f1(in, "\r\n.\r\n"); vmime::utility::stopSequenceFilteredInputStream <3> f2(f1, "\n.\n"); vmime::utility::dotFilteredInputStream f3(f2); CHECK_EQ(dump(readAll(s, f3, 16)), dump(body.substr(0, body.size() - 2)), "content of the response"); c.label("stop sequences and unstuffing"); c.nontrivial(b2 != body); break; }
	}
}
Property makeProperty() {
	Property p; p.id = "C22"; p.run = run; p.quick = 250000; p.thorough = 15000000;
	p.rule = "contents over dots, CR, LF, letters, arbitrary bytes and pieces of the stop sequences (some above 32 KiB), split at random into writes or reads (single bytes, small and large pieces, empty ones): the output of each filter against its definition on the whole string; non-trivial: the filter changes the content and it is delivered in several pieces";
	p.assumptions = { "as the existing tests say, a dot which is the first byte of the content is doubled only before a line end; the CRLF-to-LF filter gives out a CR it holds back at a flush(): a flush() there separates it from a following LF" };
	return p;
}
