// C25: URLs parse back to their components; paths behave as lists of components.
#include "textgen.hpp"
#include "vmime/utility/url.hpp"
#include "vmime/utility/urlUtils.hpp"
#include "vmime/utility/path.hpp"
#include "vmime/platforms/posix/posixFile.hpp"
typedef vmime::utility::url Url; typedef vmime::utility::path Path;
struct model { std::string proto, user, pass, host, path; unsigned port = 65535; std::map<std::string, std::string> params; };
static std::string showU(const model& m) { std::string r = pbt::esc(m.proto) + "|" + pbt::esc(m.user) + "|" + pbt::esc(m.pass) + "|" + pbt::esc(m.host) + "|" + std::to_string(m.port) + "|" + pbt::esc(m.path); for (auto& p : m.params) r += "|" + pbt::esc(p.first) + "=" + pbt::esc(p.second); return r; }
static model fromV(const Url& u) { model m; m.proto = u.getProtocol(); m.user = u.getUsername(); m.pass = u.getPassword(); m.host = u.getHost(); m.port = u.getPort(); m.path = u.getPath(); m.params = u.getParams(); return m; }
static std::string comp(Source& s, bool empty) { std::string r; switch (s.weighted({ (unsigned) (empty ? 2 : 0), 4, 4, 2, 1 })) { case 0: return ""; case 1: r = s.pick({ "a", "user", "path/to", "x y", "INBOX", "café", "a@b.c", "p:w", "50%", "a%41b", "?q=1&r", "~", "..", "/abs", "trail/", " lead", "[x]", "#f", "a+b" }); break; case 2: r = s.str(10, "ab/:@?&=%#[]+ .~-_!*'(),;$\\\"<>{}|^`"); break; case 3: r = s.bytes(1 + s.draw(6)); break; default: { std::vector<uint32_t> v; for (unsigned i = 0, n = 1 + (unsigned) s.draw(3) ; i < n ; ++i) v.push_back(genCodepoint(s)); r = toUtf8(v); } } if (r.empty() && !empty) r = "z"; return r; }
static bool ipv6(const std::string& h) { return h.find(':') != std::string::npos; }
static model gen(Source& s) {
	model m; m.proto = s.pick({ "imap", "pop3s", "smtp", "http", "maildir", "sendmail", "file", "x-y.z" }); m.port = s.coin() ? 65535 : (unsigned) (1 + s.draw(65533)); if (s.coin()) { m.user = comp(s, false); if (s.coin()) m.pass = comp(s, true); } m.host = s.pick({ "localhost", "a.example.org", "a", "ab", "de", "beef", "fade.ad", "127.0.0.1", "::1", "fe80::12:ab", "::", "1:2:3:4:5:6:7:8", "::ffff:1.2.3.4", "h_x", "*", "b\xc3\xbc" "cher.example", "2001:DB8::1" }); if (s.oneIn(6)) { do m.host = comp(s, false); while (trimWs(m.host) != m.host && false); }
	m.path = s.oneIn(3) ? "" : comp(s, true); if (s.oneIn(3)) for (unsigned i = 0, n = 1 + (unsigned) s.draw(2) ; i < n ; ++i) { std::string k = comp(s, false); m.params[k] = comp(s, true); }
	if (m.proto == "file") { m.user = m.pass = m.host = ""; m.port = 65535; } return m;
}
// an encoder of our own, which leaves alone what does not need encoding there
static std::string enc(Source& s, const std::string& v, const char* must) { std::string r; for (unsigned char c : v) { bool need = c <= 32 || c >= 127 || c == '%' || strchr(must, c); if (need || s.oneIn(8)) { static const char U[] = "0123456789ABCDEF", L[] = "0123456789abcdef"; const char* H = s.coin() ? U : L; r += '%'; r += H[c >> 4]; r += H[c & 15]; } else r += (char) c; } return r; }
static std::string write(Source& s, const model& m) {
	std::string r = m.proto; if (s.oneIn(4)) for (auto& c : r) c = (char) toupper((unsigned char) c); r += "://"; if (!m.user.empty()) { r += enc(s, m.user, "/:"); if (!m.pass.empty() || s.oneIn(4)) r += ":" + enc(s, m.pass, "/"); r += "@"; } if (m.proto != "file") r += ipv6(m.host) && m.host.find_first_not_of("0123456789abcdefABCDEF:.") == std::string::npos ? "[" + m.host + "]" : enc(s, m.host, "/:@[]"); if (m.port != 65535) r += ":" + std::to_string(m.port);
	if (!m.path.empty() || !m.params.empty() || s.coin()) r += "/" + enc(s, m.path, "?"); if (!m.params.empty()) { r += "?"; bool f = true; for (auto& p : m.params) { if (!f) r += "&"; f = false; r += enc(s, p.first, "&="); if (p.second == p.first && s.coin()) continue; r += "=" + enc(s, p.second, "&"); } } return r;
}
static void urls(Source& s, Ctx& c) {
	model m = gen(s); c.mix(showU(m)); c.label("url"); NOTE(c, showU(m)); Url u(m.proto, m.host, (vmime::port_t) m.port, m.path, m.user, m.pass); if (s.oneIn(4)) { u = Url("x", "y"); u.setProtocol(m.proto); u.setHost(m.host); u.setPort((vmime::port_t) m.port); u.setPath(m.path); u.setUsername(m.user); u.setPassword(m.pass); } u.getParams() = m.params;
	CHECK_EQ(showU(fromV(u)), showU(m), "components"); std::string t = u; NOTE(c, "text: " << pbt::esc(t)); for (unsigned char ch : t) CHECK_MSG(ch > 32 && ch < 127, "the text of a URL contains " << (unsigned) ch); if (!ipv6(m.host)) CHECK_MSG(t.find('[') == std::string::npos, "brackets around a host which is not an IPv6 address: " << t);
	{ size_t a = t.find("://") + 3, e = t.find('/', a); std::string auth = t.substr(a, e == std::string::npos ? e : e - a); size_t ats = std::count(auth.begin(), auth.end(), '@'); CHECK_EQ(ats, (size_t) !m.user.empty(), "separators in the authority " + auth); }
	Url b(t); CHECK_EQ(showU(fromV(b)), showU(m), "parsing the text"); CHECK_EQ(pbt::esc((std::string) b), pbt::esc(t), "building again"); Url b2("q://r:1/s?t=u"); b2 = t; CHECK_EQ(showU(fromV(b2)), showU(m), "assigning the text"); Url cp(b); Url as("q://r:1/s?t=u"); as = b; CHECK_EQ(showU(fromV(cp)) + showU(fromV(as)), showU(m) + showU(m), "copies");
	if (m.path.find_first_of(" \t\r\n") == std::string::npos || true) { std::string w = write(s, m); NOTE(c, "written: " << pbt::esc(w)); Url x(w); CHECK_EQ(showU(fromV(x)), showU(m), "parsing " + pbt::esc(w)); } c.nontrivial(!m.user.empty() || !m.path.empty() || !m.params.empty());
	if (m.proto != "file" && s.oneIn(4)) { std::string bad = s.pick({ "://h/p", "nohost", "p:///x", "p://h:12a/x", "p://h:x", "", "p:/h", "p://u@/x", "p://[::1]x/" }); if (bad == "p://[::1]x/") return; try { Url z(bad); FAIL("malformed URL accepted: " << bad); } catch (vmime::exceptions::malformed_url&) {} }
}
static void coding(Source& s, Ctx& c) {
	std::string t = s.bulk(s.size(60)); if (s.coin()) t = comp(s, true); c.mix(t); c.label("percent-encoding"); c.nontrivial(t.size() > 2); NOTE(c, pbt::esc(t)); std::string e = vmime::utility::urlUtils::encode(t); NOTE(c, e); for (unsigned char ch : e) CHECK_MSG(ch > 32 && ch < 127 && !strchr("$&+,/:;=?@<>#{}[]|\\^\"~`", ch), "encoded form contains " << ch); CHECK_EQ(pbt::esc(vmime::utility::urlUtils::decode(e)), pbt::esc(t), "decoding"); std::string own = enc(s, t, ""); CHECK_EQ(pbt::esc(vmime::utility::urlUtils::decode(own)), pbt::esc(t), "decoding " + own);
	std::string junk = s.str(20, "%%%abfF09gz\x80"); if (s.coin()) { junk = s.str(24, "ab://@:[]?&=%1 "); if (s.coin()) junk.insert(s.draw(junk.size()), "://"); NOTE(c, "junk " << pbt::esc(junk)); try { Url u(junk); std::string t2 = u; Url v(t2); if (u.getUsername().empty()) u.setPassword(""); CHECK_EQ(showU(fromV(v)), showU(fromV(u)), "URL read from junk, built and parsed: " + t2); } catch (vmime::exceptions::malformed_url&) {} } vmime::utility::urlUtils::decode(junk); try { Url u(junk); } catch (vmime::exceptions::malformed_url&) {} try { Url u("p://" + junk); (std::string) u; } catch (vmime::exceptions::malformed_url&) {} try { Url u("p://[" + junk + s.pick({ "", "]", "]:", "]:1", "]1" })); } catch (vmime::exceptions::malformed_url&) {}
}
// ---- paths
typedef std::vector<std::string> L;
static vmime::word word(Source& s, const std::string& u8) { if (s.oneIn(3)) { std::string o; std::string cs = s.pick({ "iso-8859-1", "utf-16be", "windows-1251" }); std::string back; if (iconvTo(u8, "utf-8", cs.c_str(), o) && iconvTo(o, cs.c_str(), "utf-8", back) && back == u8) return vmime::word(o, vmime::charset(std::string(cs))); } return vmime::word(u8, vmime::charset("utf-8")); }
static std::string name(Source& s) { return s.pick({ "a", "b", "c", "A", "INBOX", "inbox", "caf\xc3\xa9", "x y", "..", "a.b", "\xd0\xb6", "", "a/b" }); }
static L list(Source& s, unsigned max) { L r; unsigned n = (unsigned) s.draw(max); for (unsigned i = 0 ; i < n ; ++i) r.push_back(s.draw(2) ? s.pick({ "a", "b" }) : name(s)); return r; }
static Path toV(Source& s, const L& l) { Path p; switch (s.draw(3)) { case 0: for (auto& x : l) p.appendComponent(word(s, x)); break; case 1: for (auto& x : l) p /= word(s, x); break; case 2: for (auto& x : l) p = p / word(s, x); break; default: { size_t k = s.draw(l.size()); Path a, b; for (size_t i = 0 ; i < l.size() ; ++i) (i < k ? a : b).appendComponent(word(s, l[i])); p = a / b; } } return p; }
static L fromV(const Path& p) { L r; for (size_t i = 0 ; i < p.getSize() ; ++i) r.push_back(p.getComponentAt(i).getConvertedText(vmime::charset("utf-8"))); return r; }
static bool prefix(const L& a, const L& b) { return a.size() <= b.size() && std::equal(a.begin(), a.end(), b.begin()); }
static L operator+(L a, const L& b) { a.insert(a.end(), b.begin(), b.end()); return a; }
static void paths(Source& s, Ctx& c) {
	L a = list(s, 4), b = list(s, 4); if (s.oneIn(3)) b = a + list(s, 2); else if (s.oneIn(3) && !a.empty()) { b = a; b[s.draw(b.size() - 1)] = name(s); } Path A = toV(s, a), B = toV(s, b); c.label("path"); c.mix(pbt::show(a) + pbt::show(b)); c.nontrivial(!a.empty() && !b.empty()); NOTE(c, pbt::show(a) << " and " << pbt::show(b));
	CHECK_EQ(fromV(A), a, "components"); CHECK_EQ(A.getSize(), a.size(), "size"); CHECK_EQ((int) A.isEmpty() + (int) A.isRoot(), 2 * (int) a.empty(), "empty"); CHECK_EQ((int) (A == B), (int) (a == b), "equality"); CHECK_EQ((int) (A != B), (int) (a != b), "inequality"); CHECK_EQ((int) A.isParentOf(B), (int) (prefix(a, b) && a.size() < b.size()), "isParentOf()"); CHECK_EQ((int) A.isDirectParentOf(B), (int) (prefix(a, b) && a.size() + 1 == b.size()), "isDirectParentOf()");
	{ L w = a; if (!w.empty()) w.pop_back(); CHECK_EQ(fromV(A.getParent()), w, "getParent()"); } if (!a.empty()) { CHECK_EQ(A.getLastComponent().getConvertedText(vmime::charset("utf-8")), a.back(), "getLastComponent()"); size_t i = s.draw(a.size() - 1); CHECK_EQ(A[i].getConvertedText(vmime::charset("utf-8")), a[i], "operator[]"); }
	CHECK_EQ(fromV(A / B), a + b, "joining"); { Path x = A; x /= B; CHECK_EQ(fromV(x), a + b, "joining in place"); if (s.oneIn(8)) { Path y = A; y /= y; CHECK_EQ(fromV(y), a + a, "joining with itself"); } } { Path x = B; x = A; Path y(A); CHECK_EQ(fromV(x), a, "assignment"); CHECK_EQ(fromV(y), a, "copy"); x.appendComponent(vmime::word("q")); CHECK_EQ(fromV(A), a, "the original after changing a copy"); }
	{ L n = list(s, 3); Path N = toV(s, n), x = B; x.renameParent(A, N); L w = !b.empty() && prefix(a, b) ? n + L(b.begin() + a.size(), b.end()) : b; NOTE(c, "renameParent to " << pbt::show(n)); CHECK_EQ(fromV(x), w, "renameParent()"); }
	{ std::string sep = s.pick({ "/", ".", "::", "\\", "ab" }); L f; for (auto& x : b) if (!x.empty() && x.find(sep) == std::string::npos && sep != "ab") f.push_back(x); if (sep == "ab") for (auto& x : b) if (x == "c" || x == "x y") f.push_back(x); if (sep == "::") f = f; Path F = toV(s, f); std::string t = F.toString(sep, vmime::charset("utf-8")), w; for (size_t i = 0 ; i < f.size() ; ++i) w += (i ? sep : "") + f[i]; CHECK_EQ(t, w, "toString()"); NOTE(c, pbt::esc(t)); CHECK_EQ(fromV(Path::fromString(t, sep, vmime::charset("utf-8"))), f, "fromString()"); std::string extra; for (size_t i = 0 ; i < f.size() ; ++i) { do extra += sep; while (s.oneIn(3)); extra += f[i]; } if (s.coin()) extra += sep; CHECK_EQ(fromV(Path::fromString(extra, sep, vmime::charset("utf-8"))), f, "fromString() of " + extra); }
	{ L f; for (auto& x : b) if (!x.empty() && x.find('/') == std::string::npos) f.push_back(x); Path F; for (auto& x : f) F.appendComponent(vmime::word(x, vmime::charset("utf-8"))); vmime::platforms::posix::posixFileSystemFactory fs; std::string t = fs.pathToString(F), w = "/"; for (size_t i = 0 ; i < f.size() ; ++i) w += (i ? "/" : "") + f[i]; CHECK_EQ(t, w, "native path"); CHECK_EQ(fromV(fs.stringToPath(t)), f, "path from native"); CHECK_EQ((int) fs.isValidPath(F), 1, "valid path"); CHECK_EQ((int) fs.isValidPath(F / vmime::word("x/y")), 0, "path which contains a separator"); }
}
static void run(Source& s, Ctx& c) { switch (s.weighted({ 4, 2, 4 })) { case 0: urls(s, c); break; case 1: coding(s, c); break; default: paths(s, c); } }
Property makeProperty() {
	Property p; p.id = "C25"; p.run = run; p.init = installPlatform; p.quick = 900000; p.thorough = 10000000;
	p.rule = "URLs with components of any bytes (and IPv4, IPv6, short and hexadecimal-looking hosts): the text parses back, is printable and delimited correctly, and texts written by an independent encoder parse to the components; percent-encoding of any bytes; paths of up to 4 components in several charsets against lists (equality, joining, parents, renaming, text and native forms); non-trivial: more than a protocol and a host, or two non-empty paths";
	p.assumptions = { "protocols are lower case, passwords come with user names, file: URLs have a path only, port numbers lie in 1..65534", "a host which contains ':' is an IPv6 address or is percent-encoded" };
	return p;
}
