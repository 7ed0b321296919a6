// C27: message sets denote exactly the chosen messages, in memory and on the wire.
#include "common.hpp"
#include "vmime/net/messageSet.hpp"
#include "vmime/net/imap/IMAPUtils.hpp"
#include "vmime/net/imap/IMAPSearchAttributes.hpp"
#include "vmime/net/pop3/POP3Utils.hpp"
#include "vmime/net/maildir/maildirUtils.hpp"
using namespace vmime::net;
typedef unsigned long long u64; static const u64 INF = ~0ull;
typedef std::vector<std::pair<u64, u64>> ivs;
static ivs norm(ivs v) { for (auto& p : v) if (p.first > p.second) std::swap(p.first, p.second); std::sort(v.begin(), v.end()); ivs r; for (auto& p : v) { if (!r.empty() && (r.back().second == INF || p.first <= r.back().second + 1)) r.back().second = std::max(r.back().second, p.second); else r.push_back(p); } return r; }
static std::string show(const ivs& v) { std::string r; for (auto& p : v) r += std::to_string(p.first) + ".." + (p.second == INF ? std::string("end") : std::to_string(p.second)) + " "; return r; }
struct en : messageSetEnumerator { ivs num; std::vector<std::pair<std::string, std::string>> uid; void enumerateNumberMessageRange(const numberMessageRange& r) { num.push_back({ r.getFirst(), r.getLast() == (size_t) -1 ? INF : r.getLast() }); } void enumerateUIDMessageRange(const UIDMessageRange& r) { uid.push_back({ (std::string) r.getFirst(), (std::string) r.getLast() }); } };
// sequence-set of RFC 3501
static bool parseSet(const std::string& t, ivs& out) { size_t i = 0; auto num = [&](u64& n) { if (i < t.size() && t[i] == '*') { n = INF; ++i; return true; } if (i >= t.size() || t[i] < '1' || t[i] > '9') return false; n = 0; while (i < t.size() && isdigit((unsigned char) t[i])) n = n * 10 + (u64) (t[i++] - '0'); return true; }; while (true) { u64 a, b; if (!num(a)) return false; b = a; if (i < t.size() && t[i] == ':') { ++i; if (!num(b)) return false; } out.push_back({ a, b }); if (i == t.size()) return true; if (t[i++] != ',') return false; } }
static u64 number(Source& s) { switch (s.draw(5)) { case 0: return 1 + s.draw(9); case 1: return s.pickInt({ 1, 2, 9, 10, 11, 99, 100, 65535, 65536, 2147483647 }); case 2: return s.pick(std::vector<u64>{ 2147483648ull, 4294967294ull, 4294967295ull, 4294967293ull }); default: return 1 + s.draw(40); } }
static u64 number0(Source& s) { return s.oneIn(30) ? 0 : number(s); }
static void checkNum(const messageSet& m, const ivs& want, bool minimal, Source& s) {
	en e; m.enumerate(e); CHECK_MSG(e.uid.empty(), "UID ranges in a number set"); CHECK_EQ(show(norm(e.num)), show(norm(want)), "numbers enumerated"); CHECK_EQ(e.num.size(), m.getRangeCount(), "number of ranges");
	if (minimal) { CHECK_EQ(show(e.num), show(norm(want)), "ranges are not minimal, sorted and disjoint"); } CHECK_EQ((int) m.isEmpty(), (int) want.empty(), "isEmpty()"); CHECK_EQ((int) m.isNumberSet(), (int) !want.empty(), "isNumberSet()"); CHECK_MSG(!m.isUIDSet(), "isUIDSet() of a number set");
	std::string w = imap::IMAPUtils::messageSetToSequenceSet(m); ivs x; if (want.empty()) { CHECK_EQ(w, std::string(), "wire form of the empty set"); } else { CHECK_MSG(parseSet(w, x), "wire form is not a sequence-set: " << w); CHECK_EQ(show(norm(x)), show(norm(want)), "wire form " + w); }
	if (!want.empty()) { imap::IMAPSearchAttributes a; a.add(imap::IMAPSearchTokenFactory::MESSAGESET(m)); std::string k = a.generate().at(0); CHECK_MSG(k.size() > 2 && k[0] == '(' && k.back() == ')', "search key " << k); x.clear(); CHECK_MSG(parseSet(k.substr(1, k.size() - 2), x), "search key " << k); CHECK_EQ(show(norm(x)), show(norm(want)), "search key " + k); }
	u64 span = 0; for (auto& p : want) { u64 l = p.second == INF ? 0 : p.second - p.first; span += l; } if (span < 3000) { size_t count = (size_t) s.draw(60); bool openOk = true; (void) openOk; std::vector<size_t> l = s.coin() ? pop3::POP3Utils::messageSetToNumberList(m, count) : maildir::maildirUtils::messageSetToNumberList(m, count); ivs g, wn; for (size_t n : l) g.push_back({ n, n }); for (auto& p : want) { if (p.second == INF) { if (p.first <= count) wn.push_back({ p.first, count }); } else wn.push_back(p); } // numbers above the count only make the operation fail: one of them is enough
		auto upTo = [&](const ivs& v, bool& more) { ivs r; more = false; for (auto& p : v) { if (p.second > count) more = true; if (p.first <= count) r.push_back({ p.first, std::min<u64>(p.second, count) }); } return norm(r); }; bool m1, m2; ivs g2 = upTo(g, m1), w2 = upTo(wn, m2);
		CHECK_EQ(show(g2), show(w2), "numbers for a folder of " + std::to_string(count)); CHECK_EQ((int) m1, (int) m2, "numbers above the count, for a folder of " + std::to_string(count)); }
}
static void checkUid(const messageSet& m, const std::vector<std::pair<std::string, std::string>>& want) {
	en e; m.enumerate(e); CHECK_MSG(e.num.empty(), "number ranges in a UID set"); CHECK_EQ((int) m.isEmpty(), (int) want.empty(), "isEmpty()"); CHECK_EQ((int) m.isUIDSet(), (int) !want.empty(), "isUIDSet()"); CHECK_MSG(!m.isNumberSet(), "isNumberSet() of a UID set");
	auto sh = [](const std::vector<std::pair<std::string, std::string>>& v) { std::string r; for (auto& p : v) r += "'" + p.first + "'..'" + p.second + "' "; return r; }; CHECK_EQ(sh(e.uid), sh(want), "UIDs enumerated"); CHECK_EQ(m.getRangeCount(), want.size(), "number of ranges");
	std::string w = imap::IMAPUtils::messageSetToSequenceSet(m), x; for (auto& p : want) { if (&p != &want[0]) x += ","; x += p.first; if (p.second != p.first) x += ":" + (p.second == "18446744073709551615" ? std::string("*") : p.second); } CHECK_EQ(w, x, "wire form");
	if (!want.empty()) { imap::IMAPSearchAttributes a; a.add(imap::IMAPSearchTokenFactory::UID(m)); CHECK_EQ(a.generate().at(0), "UID " + x, "search key"); }
}
static void numbers(Source& s, Ctx& c) {
	messageSet m = messageSet::empty(); ivs want; bool minimal = false, threw = false, bad = false; unsigned k = (unsigned) s.draw(2);
	try {
		if (k == 0) { u64 a = number0(s); NOTE(c, "number " << a); bad = a == 0; want = { { a, a } }; m = messageSet::byNumber((size_t) a); }
		else if (k == 1) { u64 a = number0(s), b = s.oneIn(3) ? INF : s.oneIn(8) ? number(s) : a + s.draw(50); NOTE(c, "range " << a << " to " << b); bad = a == 0 || a == INF || b < a; want = { { a, b } }; m = messageSet::byNumber((size_t) a, (size_t) b); c.label(b == INF ? "open-ended range" : "range"); }
		else { std::vector<size_t> v; size_t n = s.size(40); for (size_t i = 0 ; i < n ; ++i) { u64 a = s.oneIn(200) ? 0 : !v.empty() && s.oneIn(3) ? v[s.draw(v.size() - 1)] + s.draw(2) : number(s); if (a == 0) bad = true; v.push_back((size_t) a); want.push_back({ a, a }); } NOTE(c, "numbers " << pbt::show(v)); minimal = true; m = messageSet::byNumber(v); c.label("list of numbers"); }
	} catch (std::invalid_argument&) { threw = true; }
	CHECK_EQ((int) threw, (int) bad, "refused"); if (threw) { c.label("refused"); return; }
	checkNum(m, want, minimal, s);
	messageSet cp(m); unsigned n = (unsigned) s.draw(4); for (unsigned i = 0 ; i < n ; ++i) { u64 a = number(s), b = a + s.draw(20); if (s.coin()) b = a; NOTE(c, "add range " << a << " to " << b); if (a == b && s.coin()) cp.addRange(numberMessageRange((size_t) a)); else cp.addRange(numberMessageRange((size_t) a, (size_t) b)); checkNum(m, want, minimal, s); want.push_back({ a, b }); checkNum(cp, want, false, s); want.pop_back(); ivs w2 = want; w2.push_back({ a, b }); m = cp; want = w2; minimal = false; c.label("ranges added"); }
	messageSet& self = m; m = self; checkNum(m, want, minimal, s); bool mixed = false; if (!m.isEmpty()) { try { m.addRange(UIDMessageRange("x")); } catch (std::invalid_argument&) { mixed = true; } CHECK_MSG(mixed, "a UID range was added to a number set"); checkNum(m, want, minimal, s); }
	c.mix(show(want)); c.nontrivial(want.size() > 1);
}
static std::string uidText(Source& s) { switch (s.draw(11)) { case 0: return s.pick({ "", "abc", "12a", "1700000.V1_2.host", "007", "0", "00", "+5", "-3", " 4", "4 ", "4294967296", "42949672960", "18446744073709551617", "99999999999999999999999", "4,5", "1:2" }); default: return std::to_string(number(s)); } }
static bool canon(const std::string& t, u64& n) { if (t.empty() || t.size() > 10 || t[0] == '0') return false; n = 0; for (char ch : t) { if (!isdigit((unsigned char) ch)) return false; n = n * 10 + (u64) (ch - '0'); } return n <= 0xffffffffull; }
static void uids(Source& s, Ctx& c) {
	messageSet m = messageSet::empty(); std::vector<std::pair<std::string, std::string>> want;
	switch (s.draw(2)) {
	case 0: { std::string u = uidText(s); NOTE(c, "uid " << u); m = messageSet::byUID(message::uid(u)); want = { { u, u } }; break; }
	case 1: { std::string a = std::to_string(number(s)), b; if (s.oneIn(3)) { b = "18446744073709551615"; m = messageSet::byUID(message::uid(a), message::uid((unsigned long) -1)); c.label("open-ended UID range"); } else { b = std::to_string(number(s)); m = messageSet::byUID(message::uid(a), message::uid(b)); } NOTE(c, "uid range " << a << " to " << b); want = { { a, b } }; break; }
	default: { std::vector<message::uid> v; ivs nums; bool all = true; bool other = s.oneIn(3); size_t n = s.size(30); std::string sh; for (size_t i = 0 ; i < n ; ++i) { std::string u = other ? uidText(s) : !nums.empty() && s.oneIn(3) ? std::to_string(std::min<u64>(nums[s.draw(nums.size() - 1)].first + s.draw(2), 0xffffffffull)) : std::to_string(number(s)); sh += "'" + u + "' "; u64 x; if (canon(u, x)) nums.push_back({ x, x }); else all = false; v.push_back(message::uid(u)); want.push_back({ u, u }); } NOTE(c, "uids " << sh); m = messageSet::byUID(v); if (all) { want.clear(); for (auto& p : norm(nums)) want.push_back({ std::to_string(p.first), std::to_string(p.second) }); c.label("list of numeric UIDs"); } else c.label("list with UIDs which are not numbers"); }
	}
	checkUid(m, want); messageSet cp = messageSet::byNumber(1); cp = m; checkUid(cp, want); if (s.coin()) { cp.addRange(UIDMessageRange(message::uid("77"))); auto w2 = want; w2.push_back({ "77", "77" }); checkUid(cp, w2); checkUid(m, want); } if (!m.isEmpty()) { bool mixed = false; try { m.addRange(numberMessageRange(3)); } catch (std::invalid_argument&) { mixed = true; } CHECK_MSG(mixed, "a number range was added to a UID set"); }
	for (auto& p : want) c.mix(p.first + ":" + p.second); c.nontrivial(want.size() > 1);
}
static void fromServer(Source& s, Ctx& c) {
	std::string t; ivs want; size_t n = s.oneIn(10000) ? 9000 : 1 + s.size(30); bool big = n > 1000; for (size_t i = 0 ; i < n ; ++i) { if (i) t += ","; u64 a = big ? 2 * i + 1 : number(s), b = a; if (!big && s.oneIn(3)) { b = number(s); if (b == a) { t += std::to_string(a) + ":" + std::to_string(a); } else t += std::to_string(a) + ":" + std::to_string(b); } else t += std::to_string(a); want.push_back({ a, b }); }
	if (!big) NOTE(c, "set from the server: " << t); imap::IMAPParser p; std::string line = t + " x"; size_t pos = 0; std::unique_ptr<imap::IMAPParser::uid_set> u(p.get<imap::IMAPParser::uid_set>(line, &pos)); CHECK_MSG(u != nullptr, "a uid-set was refused: " << t.substr(0, 200)); CHECK_EQ(pos, t.size(), "end of the uid-set");
	messageSet m = imap::IMAPUtils::buildMessageSet(*u); en e; m.enumerate(e); ivs got; for (auto& r : e.uid) got.push_back({ strtoull(r.first.c_str(), nullptr, 10), strtoull(r.second.c_str(), nullptr, 10) }); CHECK_EQ(show(norm(got)), show(norm(want)), "UIDs built from what the server sent"); CHECK_MSG(e.num.empty() && m.isUIDSet(), "not a UID set"); ivs back; CHECK_MSG(parseSet(imap::IMAPUtils::messageSetToSequenceSet(m), back), "wire form"); CHECK_EQ(show(norm(back)), show(norm(want)), "sent back");
	c.label(big ? "very long set from the server" : "set from the server"); c.mix(t); c.nontrivial(n > 1);
}
static void run(Source& s, Ctx& c) { switch (s.weighted({ 4, 4, 2 })) { case 0: numbers(s, c); break; case 1: uids(s, c); break; default: fromServer(s, c); } }
Property makeProperty() {
	Property p; p.id = "C27"; p.run = run; p.init = installPlatform; p.quick = 600000; p.thorough = 4000000;
	p.rule = "sets built from single numbers, ranges (also open-ended and invalid), unordered lists with duplicates and neighbours, numeric and other UIDs (leading zeros, beyond 32 bits, empty), ranges added, sets copied and assigned, uid-sets parsed from a server (up to 9000 items); non-trivial: the set has more than one element or range";
	return p;
}
