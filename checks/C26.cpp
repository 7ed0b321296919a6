// C26: property sets behave like a map from case-insensitive names to typed values.
#include "common.hpp"
#include "vmime/propertySet.hpp"
#include <climits>
struct entry { std::string name, value; };
struct model { std::vector<entry> v; size_t find(const std::string& n) const { for (size_t i = 0 ; i < v.size() ; ++i) if (lower(v[i].name) == lower(n)) return i; return (size_t) -1; } bool has(const std::string& n) const { return find(n) != (size_t) -1; } void set(const std::string& n, const std::string& x) { size_t i = find(n); if (i == (size_t) -1) v.push_back({ n, x }); else v[i].value = x; } void del(const std::string& n) { size_t i = find(n); if (i != (size_t) -1) v.erase(v.begin() + i); } };
static std::string show(const model& m) { std::string r; for (auto& e : m.v) r += lower(e.name) + "=" + pbt::esc(e.value) + ";"; return r; }
static std::string showV(const vmime::propertySet& p) { std::string r; for (auto& e : p.getPropertyList()) r += lower(e->getName()) + "=" + pbt::esc(e->getValue()) + ";"; return r; }
static std::string caseOf(Source& s, std::string n) { switch (s.draw(3)) { case 0: for (auto& c : n) c = (char) toupper((unsigned char) c); return n; case 1: return lower(n); default: return n; } }
static std::string name(Source& s) { return caseOf(s, s.pick({ "a", "b", "auth.username", "store.imap.Port", "x-y", "flag", "options", "Server.Address" })); }
static std::string value(Source& s) { switch (s.draw(6)) { case 0: return std::to_string((long long) s.draw(100) - 50); case 1: return s.pick({ "true", "TRUE", "false", "1", "0", "", "yes", "2147483647", "-2147483648", "99999999999", "18446744073709551615", "12abc", " 7", "1.5", "-1" }); case 2: return s.bytes(s.draw(8)); case 3: return s.str(8, "a;=\"' \\b"); default: return s.pick({ "value", "localhost", "/var/mail", "two words", "tail ", "semi;colon", "q\"uote", "back\\slash", "eq=ual" }); } }
template <class T> static bool refParse(const std::string& v, T& out) { // the longest prefix which is a number of this type, after white space
	size_t i = 0; while (i < v.size() && isspace((unsigned char) v[i])) ++i; bool neg = false; if (i < v.size() && (v[i] == '-' || v[i] == '+')) { neg = v[i] == '-'; ++i; } size_t st = i; unsigned __int128 n = 0; while (i < v.size() && isdigit((unsigned char) v[i])) { n = n * 10 + (unsigned) (v[i] - '0'); if (n > ((unsigned __int128) 1 << 100)) n = (unsigned __int128) 1 << 100; ++i; } if (i == st) return false;
	if (std::is_signed<T>::value) { __int128 x = neg ? -(__int128) n : (__int128) n; if (x < (__int128) std::numeric_limits<T>::min() || x > (__int128) std::numeric_limits<T>::max()) return false; out = (T) x; return true; } if (n > (unsigned __int128) std::numeric_limits<T>::max()) return false; out = neg ? (T) (0 - (T) n) : (T) n; return true; }
static bool refBool(const std::string& v) { if (lower(v) == "true") return true; int n = 0; return refParse(v, n) && n != 0; }
template <class T> static void readNum(const vmime::propertySet& p, const model& m, const std::string& n, bool proxy, const char* t) { T want = 0, got = 0; bool has = m.has(n), ok = has && refParse(m.v[m.find(n)].value, want); try { got = proxy ? p[n].getValue <T>() : p.getProperty <T>(n); CHECK_MSG(ok, t << " of " << n << " gives " << got << " in " << show(m)); CHECK_EQ(got, want, std::string(t) + " of " + n); } catch (vmime::exceptions::no_such_property&) { CHECK_MSG(!has, "no_such_property for " << n << " in " << show(m)); } catch (vmime::exceptions::invalid_property_type&) { CHECK_MSG(has && !ok, "invalid_property_type for " << t << " of " << n << " in " << show(m)); } }
static std::string quote(Source& s, const std::string& v) { char q = s.coin() ? '"' : '\''; std::string r(1, q); for (char c : v) { if (c == q || c == '\\' || s.oneIn(12)) r += '\\'; r += c; } return r + q; }
static std::string textForm(Source& s, model& m) {
	std::string r; unsigned n = (unsigned) s.draw(4); auto sp = [&] { return s.oneIn(4) ? s.pick({ " ", "  ", "\t" }) : std::string(); };
	for (unsigned i = 0 ; i < n ; ++i) { if (i) r += ";"; if (s.oneIn(8)) r += ";"; std::string k = name(s); r += sp() + k; if (s.oneIn(4)) { r += sp(); m.set(k, "1"); continue; } std::string v = value(s); bool simple = v.find_first_of(" \t\r\n;\v\f") == std::string::npos && (v.empty() || (v[0] != '"' && v[0] != '\'')); for (unsigned char c : v) if (isspace(c)) simple = false; r += sp() + "=" + sp() + (simple && s.draw(2) ? v : quote(s, v)); if (s.oneIn(5)) r += " "; m.set(k, v); } if (s.oneIn(4)) r += ";"; return r;
}
static void run(Source& s, Ctx& c) {
	vmime::propertySet P; model m; unsigned ops = 0, sets = 0; vmime::shared_ptr <vmime::propertySet> other; model om;
	if (s.coin()) { std::string t = textForm(s, m); NOTE(c, "constructed from " << pbt::esc(t)); P = vmime::propertySet(t); c.label("constructed from text"); CHECK_EQ(showV(P), show(m), "after parsing"); ++sets; }
	while (ops < 40 && s.more(14)) {
		++ops; std::string n = name(s); bool proxy = s.coin();
		switch (s.weighted({ 5, 3, 2, 2, 2, 3, 2, 2, 1, 1, 2 })) {
		case 0: { std::string v = value(s); NOTE(c, n << " = " << pbt::esc(v)); if (proxy) P[n] = v; else P.setProperty(n, v); m.set(n, v); ++sets; CHECK_EQ(P.getProperty <std::string>(caseOf(s, n)), v, "string read back"); break; }
		case 1: { long long v; const char* t; switch (s.draw(3)) { case 0: { int x = s.pickInt({ 0, 1, -1, 143, INT_MAX, INT_MIN }); v = x; t = "int"; if (proxy) P[n].setValue(x); else P.setProperty(n, x); CHECK_EQ(P.getProperty <int>(caseOf(s, n)), x, "int read back"); break; } case 1: { unsigned x = (unsigned) s.draw(UINT_MAX); v = x; t = "unsigned"; P.setProperty(n, x); CHECK_EQ(P.getProperty <unsigned>(n), x, "unsigned read back"); break; } default: { long long x = (long long) s.draw(1ull << 50) * 5000 - (1ll << 60); v = x; t = "long long"; P.setProperty(n, x); CHECK_EQ(P.getProperty <long long>(n), x, "long long read back"); } } NOTE(c, n << " = " << t << " " << v); m.set(n, std::to_string(v)); ++sets; c.label("number set"); break; }
		case 2: { bool b = s.coin(); NOTE(c, n << " = " << (b ? "true" : "false")); if (proxy) P[n] = b; else P.setProperty(n, b); m.set(n, b ? "true" : "false"); ++sets; CHECK_EQ((int) P.getProperty <bool>(n), (int) b, "bool read back"); break; }
		case 3: { NOTE(c, "remove " << n); P.removeProperty(n); m.del(n); break; }
		case 4: { std::string t = textForm(s, m); NOTE(c, "set from " << pbt::esc(t)); P.setFromString(t); ++sets; c.label("set from text"); break; }
		case 5: { readNum <int>(P, m, n, proxy, "int"); if (s.coin()) readNum <unsigned>(P, m, n, proxy, "unsigned"); else readNum <long long>(P, m, n, proxy, "long long"); break; }
		case 6: { bool has = m.has(n); std::string want = has ? m.v[m.find(n)].value : ""; try { bool b = P.getProperty <bool>(n); CHECK_MSG(has, "bool of a missing property"); CHECK_EQ((int) b, (int) refBool(want), "bool of " + pbt::esc(want)); std::string x = proxy ? (std::string) P[n] : P.getProperty <std::string>(n); CHECK_EQ(pbt::esc(x), pbt::esc(want), "string"); } catch (vmime::exceptions::no_such_property&) { CHECK_MSG(!has, "no_such_property for " << n); } break; }
		case 7: { bool has = m.has(n); CHECK_EQ((int) P.hasProperty(n), (int) has, "hasProperty()"); CHECK_EQ(pbt::esc(P.getProperty <std::string>(n, "dflt")), pbt::esc(has ? m.v[m.find(n)].value : "dflt"), "string with a default"); if (!has) { CHECK_EQ(P.getProperty <int>(n, 77), 77, "int with a default"); CHECK_EQ((int) P.getProperty <bool>(n, true), 1, "bool with a default"); } break; }
		case 8: { if (s.oneIn(3)) { NOTE(c, "remove all"); P.removeAllProperties(); m.v.clear(); } break; }
		case 9: { NOTE(c, "assigned to itself"); vmime::propertySet& r = P; P = r; break; }
		default: { if (other && s.coin()) { CHECK_EQ(showV(*other), show(om), "a copy, after changes to the original"); P = *other; m = om; NOTE(c, "restored from the copy"); } else { other = vmime::make_shared <vmime::propertySet>(P); om = m; NOTE(c, "copied"); if (s.coin()) { other->setProperty(n, std::string("in the copy")); om.set(n, "in the copy"); } } c.label("copied"); break; }
		}
		CHECK_EQ(showV(P), show(m), "all properties");
	}
	const vmime::propertySet& K = P; for (auto& e : m.v) { CHECK_EQ(pbt::esc(K.getProperty <std::string>(caseOf(s, e.name))), pbt::esc(e.value), "value of " + e.name); CHECK_EQ(pbt::esc((std::string) K[e.name]), pbt::esc(e.value), "value of " + e.name); } CHECK_EQ(K.getPropertyList().size(), m.v.size(), "number of properties"); c.mix(show(m)); c.nontrivial(sets > 1 && !m.v.empty());
}
Property makeProperty() {
	Property p; p.id = "C26"; p.run = run; p.init = installPlatform; p.quick = 600000; p.thorough = 10000000;
	p.rule = "histories of up to 40 operations over 8 names in varying letter case: sets of strings, integers and booleans, typed reads with and without defaults, removals, copies, assignments (also to itself), parsing of generated textual forms (quoted and simple values, escapes, flags, white space, repeated names), all properties compared with a map after each; non-trivial: at least two sets, and properties left at the end";
	p.assumptions = { "floating-point values are not generated" };
	return p;
}
