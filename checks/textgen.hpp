// Texts in many charsets, and an independent RFC 2047 decoder.
#pragma once
#include "gen.hpp"
#include <iconv.h>

inline bool iconvTo(const std::string& in, const std::string& from, const std::string& to, std::string& out) {
	iconv_t cd = iconv_open(to.c_str(), from.c_str()); if (cd == (iconv_t) -1) return false;
	out.clear(); std::string i2 = in; char* p = &i2[0]; size_t n = in.size(); bool ok = true; char buf[4096];
	while (true) { char* q = buf; size_t m = sizeof buf; size_t r = iconv(cd, n ? &p : nullptr, n ? &n : nullptr, &q, &m); int e = errno; out.append(buf, (size_t) (q - buf)); if (r != (size_t) -1) { if (n == 0) { q = buf; m = sizeof buf; iconv(cd, nullptr, nullptr, &q, &m); out.append(buf, (size_t) (q - buf)); break; } } else if (e == E2BIG) continue; else { ok = false; break; } }
	iconv_close(cd); return ok;
}
struct csInfo { const char* name; unsigned lo, hi; };  // a range of code points it can represent, besides ASCII
inline const std::vector<csInfo>& charsetsKnown() {
	static const std::vector<csInfo> C = { { "utf-8", 0xa1, 0xffff }, { "us-ascii", 0, 0 }, { "iso-8859-1", 0xa1, 0xff }, { "iso-8859-15", 0xc0, 0xff }, { "windows-1252", 0xa1, 0xff }, { "koi8-r", 0x410, 0x44f }, { "iso-8859-5", 0x401, 0x44f }, { "windows-1251", 0x410, 0x44f }, { "iso-8859-7", 0x3b1, 0x3c9 },
		{ "iso-2022-jp", 0x3041, 0x3093 }, { "euc-jp", 0x30a1, 0x30f6 }, { "shift_jis", 0x3041, 0x3093 }, { "gb2312", 0x3041, 0x3093 }, { "big5", 0x4e00, 0x4e01 }, { "euc-kr", 0xac00, 0xac01 } };
	return C;
}
// a run of letters the charset can represent
inline void genLetters(Source& s, const csInfo& c, unsigned n, std::vector<uint32_t>& o, unsigned nonAsciiOf10) {
	for (unsigned i = 0 ; i < n ; ++i) {
		if (!c.hi || s.draw(9) >= nonAsciiOf10) { o.push_back((uint32_t) s.pickInt({ 'a', 'b', 'Z', '0', '-', '_', '=', '?', '"', '.', ',', '(', ')', '<', '@', '\\', ';', ':', '%', '\'', '*', '/', '!', '#', '~' })); if (s.coin()) o.back() = 'a' + (uint32_t) s.draw(25); continue; }
		if (std::string(c.name) == "utf-8") { uint32_t x = genCodepoint(s); o.push_back(x <= 0x20 ? 'x' : x); }
		else o.push_back(c.lo + (uint32_t) s.draw(c.hi - c.lo));
	}
	if (std::string(c.name) == "shift_jis") for (auto& x : o) if (x == '\\' || x == '~') x = '-';  // converters disagree on these
	if (std::string(c.name) == "iso-8859-5") for (auto& x : o) if (x == 0x40d) x = 0x410;
}
inline std::string toUtf8(const std::vector<uint32_t>& v) { std::string r; for (auto x : v) putUtf8(r, x); return r; }
inline std::string collapse(const std::string& s) { std::string r; bool sp = false; for (char c : s) { if (c == ' ' || c == '\t' || c == '\r' || c == '\n') sp = true; else { if (sp && !r.empty()) r += ' '; sp = false; r += c; } } return r; }
inline std::string refQ(const std::string& e) { std::string r; for (size_t i = 0 ; i < e.size() ; ++i) { if (e[i] == '_') r += ' '; else if (e[i] == '=' && i + 2 < e.size() && hexval((unsigned char) e[i + 1]) >= 0 && hexval((unsigned char) e[i + 2]) >= 0) { r += (char) (hexval((unsigned char) e[i + 1]) * 16 + hexval((unsigned char) e[i + 2])); i += 2; } else r += e[i]; } return r; }
struct encWord { std::string cs, lang, enc, data, bytes; size_t pos, len; };
inline bool encWordAt(const std::string& s, size_t p, encWord& w) {
	if (s.compare(p, 2, "=?") != 0) return false;
	size_t a = s.find('?', p + 2); if (a == std::string::npos) return false;
	if (a + 2 >= s.size() || s[a + 2] != '?') return false;
	size_t e = s.find("?=", a + 3); if (e == std::string::npos) return false;
	w.cs = s.substr(p + 2, a - p - 2); w.enc = s.substr(a + 1, 1); w.data = s.substr(a + 3, e - a - 3); w.pos = p; w.len = e + 2 - p;
	for (char c : w.cs + w.data) if (c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '?') return false;
	size_t st = w.cs.find('*'); w.lang = ""; if (st != std::string::npos) { w.lang = w.cs.substr(st + 1); w.cs.resize(st); }
	w.bytes = (w.enc == "B" || w.enc == "b") ? refUnB64(w.data) : refQ(w.data);
	return true;
}
// independent decoder of unstructured text; every encoded word is decoded on its own
inline std::string refDecode2047(const std::string& generated, std::vector<encWord>* words = nullptr, std::string* err = nullptr) {
	std::string u; for (size_t i = 0 ; i < generated.size() ; ++i) { if (generated[i] == '\r' && i + 1 < generated.size() && generated[i + 1] == '\n') { ++i; continue; } u += generated[i]; }
	std::string r, ws; bool prevEnc = false; size_t i = 0;
	while (i < u.size()) {
		if (u[i] == ' ' || u[i] == '\t') { ws += u[i++]; continue; }
		size_t j = i; while (j < u.size() && u[j] != ' ' && u[j] != '\t') ++j;
		encWord w;
		if (encWordAt(u, i, w)) {
			if (!prevEnc) r += ws; ws.clear();
			std::string dec; if (!iconvTo(w.bytes, w.cs, "utf-8", dec)) { if (err) *err = "encoded word is not decodable on its own: " + u.substr(w.pos, w.len); dec = "\xef\xbf\xbd"; }
			r += dec; if (words) words->push_back(w); prevEnc = true; i += w.len; continue;
		}
		r += ws; ws.clear(); r += u.substr(i, j - i); prevEnc = false; i = j;
	}
	return r;
}
