// Shared harness helpers: deterministic platform, scripted streams, text and message helpers.
#pragma once
#include "pbt.hpp"
#include "vmime/vmime.hpp"
#include "vmime/platforms/posix/posixHandler.hpp"
#include "vmime/contentTypeField.hpp"
#include "vmime/contentDispositionField.hpp"
#include "vmime/attachmentHelper.hpp"
#include <algorithm>
#include <memory>
#include <set>

using pbt::Source; using pbt::Ctx; using pbt::Property;
typedef vmime::byte_t byte_t;

// ---- deterministic platform: fixed clock, host, pid and pseudo-random bytes
class detHandler : public vmime::platforms::posix::posixHandler {
public:
	static unsigned long& clock() { static unsigned long t = 1700000000ul; return t; }
	unsigned long getUnixTime() const { return clock(); }
	const vmime::datetime getCurrentLocalTime() const { return vmime::datetime((time_t) clock()); }
	const vmime::charset getLocalCharset() const { return vmime::charset("utf-8"); }
	const vmime::string getHostName() const { return "verif.example"; }
	unsigned int getProcessId() const { return 4242; }
	void generateRandomBytes(unsigned char* b, const unsigned int n) { static unsigned x = 12345; for (unsigned i = 0 ; i < n ; ++i) { x = x * 1103515245u + 12345u; b[i] = (unsigned char) (x >> 16); } }
};
inline void installPlatform() { vmime::platform::setHandler <detHandler>(); }

// ---- streams
// reads return at most the next scripted fragment; eofLate: eof() only known after a read returned 0
class chunkIn : public vmime::utility::inputStream {
public:
	chunkIn(const std::string& d, const std::vector<size_t>& cuts, bool eofLate = false) : m_d(d), m_cuts(cuts), m_late(eofLate) { }
	bool eof() const { return m_late ? m_hit : m_p >= m_d.size(); }
	void reset() { m_p = 0; m_c = 0; m_hit = false; }
	size_t read(byte_t* const data, const size_t count) {
		if (m_p >= m_d.size()) { m_hit = true; return 0; }
		size_t n = std::min(count, m_d.size() - m_p);
		if (!m_cuts.empty()) { size_t k = m_cuts[m_c++ % m_cuts.size()]; n = std::min(n, std::max<size_t>(1, k)); }
		memcpy(data, m_d.data() + m_p, n); m_p += n; return n;
	}
	size_t skip(const size_t count) { size_t n = std::min(count, m_d.size() - m_p); m_p += n; return n; }
	size_t pos() const { return m_p; }
private:
	std::string m_d; std::vector<size_t> m_cuts; bool m_late; size_t m_p = 0, m_c = 0; bool m_hit = false;
};
class chunkSeekIn : public vmime::utility::seekableInputStream {
public:
	chunkSeekIn(const std::string& d, const std::vector<size_t>& cuts) : m_d(d), m_cuts(cuts) { }
	bool eof() const { return m_p >= m_d.size(); }
	void reset() { m_p = 0; }
	size_t read(byte_t* const data, const size_t count) {
		size_t n = m_p >= m_d.size() ? 0 : std::min(count, m_d.size() - m_p);
		if (n && !m_cuts.empty()) { size_t k = m_cuts[m_c++ % m_cuts.size()]; n = std::min(n, std::max<size_t>(1, k)); }
		memcpy(data, m_d.data() + (n ? m_p : 0), n); m_p += n; return n;
	}
	size_t skip(const size_t count) { size_t n = m_p >= m_d.size() ? 0 : std::min(count, m_d.size() - m_p); m_p += n; return n; }
	size_t getPosition() const { return m_p; }
	void seek(const size_t pos) { m_p = std::min(pos, m_d.size()); }
private:
	std::string m_d; std::vector<size_t> m_cuts; size_t m_p = 0, m_c = 0;
};
class strOut : public vmime::utility::outputStream {
public:
	std::string s; size_t writes = 0, flushes = 0;
	void flush() { ++flushes; }
protected:
	void writeImpl(const byte_t* const data, const size_t count) { s.append(reinterpret_cast<const char*>(data), count); ++writes; }
};
// fragment sizes (empty: whole reads)
inline std::vector<size_t> genCuts(Source& s) {
	std::vector<size_t> r;
	switch (s.draw(3)) {
	case 0: return r;
	case 1: r.push_back(1 + s.draw(6)); return r;
	case 2: { size_t n = 1 + s.draw(5); for (size_t i = 0 ; i < n ; ++i) r.push_back(1 + s.draw(40)); return r; }
	default: { size_t n = 1 + s.draw(3); for (size_t i = 0 ; i < n ; ++i) r.push_back(1 + s.draw(s.coin() ? 5000 : 70)); return r; }
	}
}
inline std::string showCuts(const std::vector<size_t>& c) { return pbt::show(c); }

// ---- base64 / quoted-printable reference implementations (independent of vmime)
inline std::string refB64(const std::string& d) {
	static const char A[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string r; unsigned v = 0; int b = 0;
	for (unsigned char c : d) { v = (v << 8) | c; b += 8; while (b >= 6) { b -= 6; r += A[(v >> b) & 63]; } }
	if (b) r += A[(v << (6 - b)) & 63];
	while (r.size() % 4) r += '=';
	return r;
}
inline int b64val(unsigned char c) {
	if (c >= 'A' && c <= 'Z') return c - 'A'; if (c >= 'a' && c <= 'z') return c - 'a' + 26;
	if (c >= '0' && c <= '9') return c - '0' + 52; if (c == '+') return 62; if (c == '/') return 63; return -1;
}
inline std::string refUnB64(const std::string& e) {  // ignores anything outside the alphabet, stops at '='
	std::string r; unsigned v = 0; int b = 0;
	for (unsigned char c : e) { if (c == '=') break; int x = b64val(c); if (x < 0) continue; v = ((v << 6) | (unsigned) x) & 0xffffff; b += 6; if (b >= 8) { b -= 8; r += (char) ((v >> b) & 255); } }
	return r;
}
inline int hexval(unsigned char c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'A' && c <= 'F') return c - 'A' + 10; if (c >= 'a' && c <= 'f') return c - 'a' + 10; return -1; }
inline std::string refUnQP(const std::string& e, bool q2047) {
	std::string r;
	for (size_t i = 0 ; i < e.size() ; ) {
		unsigned char c = (unsigned char) e[i];
		if (c == '=') {
			if (i + 1 < e.size() && e[i + 1] == '\n') { i += 2; continue; }
			if (i + 2 < e.size() && e[i + 1] == '\r' && e[i + 2] == '\n') { i += 3; continue; }
			if (i + 2 < e.size() && hexval((unsigned char) e[i + 1]) >= 0 && hexval((unsigned char) e[i + 2]) >= 0) { r += (char) (hexval((unsigned char) e[i + 1]) * 16 + hexval((unsigned char) e[i + 2])); i += 3; continue; }
			r += '='; ++i; continue;
		}
		if (c == '_' && q2047) { r += ' '; ++i; continue; }
		r += (char) c; ++i;
	}
	return r;
}

// ---- UTF-8
inline void putUtf8(std::string& r, uint32_t c) {
	if (c < 0x80) r += (char) c;
	else if (c < 0x800) { r += (char) (0xc0 | (c >> 6)); r += (char) (0x80 | (c & 63)); }
	else if (c < 0x10000) { r += (char) (0xe0 | (c >> 12)); r += (char) (0x80 | ((c >> 6) & 63)); r += (char) (0x80 | (c & 63)); }
	else { r += (char) (0xf0 | (c >> 18)); r += (char) (0x80 | ((c >> 12) & 63)); r += (char) (0x80 | ((c >> 6) & 63)); r += (char) (0x80 | (c & 63)); }
}
// decodes; false when not valid UTF-8
inline bool getUtf8(const std::string& s, std::vector<uint32_t>& out) {
	for (size_t i = 0 ; i < s.size() ; ) {
		unsigned char c = (unsigned char) s[i]; uint32_t v; int n;
		if (c < 0x80) { v = c; n = 0; } else if (c >= 0xc2 && c < 0xe0) { v = c & 31; n = 1; } else if (c >= 0xe0 && c < 0xf0) { v = c & 15; n = 2; } else if (c >= 0xf0 && c < 0xf5) { v = c & 7; n = 3; } else return false;
		if (i + n >= s.size() + (n == 0 ? 1 : 0)) { if (i + n >= s.size()) return false; }
		for (int k = 1 ; k <= n ; ++k) { unsigned char d = (unsigned char) s[i + k]; if ((d & 0xc0) != 0x80) return false; v = (v << 6) | (d & 63); }
		if ((n == 2 && (v < 0x800 || (v >= 0xd800 && v < 0xe000))) || (n == 3 && (v < 0x10000 || v > 0x10ffff))) return false;
		out.push_back(v); i += 1 + n;
	}
	return true;
}
inline uint32_t genCodepoint(Source& s) {
	switch (s.weighted({ 8, 4, 3, 2, 1 })) {
	case 0: return 0x20 + (uint32_t) s.draw(0x5e);
	case 1: return 0xa1 + (uint32_t) s.draw(0x11f);
	case 2: { uint32_t c = 0x370 + (uint32_t) s.draw(0x2000); return c; }
	case 3: { uint32_t c = 0x3041 + (uint32_t) s.draw(0x6000); return c; }
	default: return 0x1f300 + (uint32_t) s.draw(0x2ff);
	}
}
inline std::string trimWs(const std::string& s) { size_t a = s.find_first_not_of(" \t\r\n"); if (a == std::string::npos) return ""; size_t b = s.find_last_not_of(" \t\r\n"); return s.substr(a, b - a + 1); }
inline std::string lower(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c = (char) (c + 32); return s; }
inline std::string toCRLF(const std::string& s) { std::string r; for (size_t i = 0 ; i < s.size() ; ++i) { if (s[i] == '\n' && (i == 0 || s[i - 1] != '\r')) r += '\r'; r += s[i]; } return r; }
inline std::vector<std::string> splitLines(const std::string& s) { std::vector<std::string> r; size_t p = 0; while (p <= s.size()) { size_t q = s.find("\r\n", p); if (q == std::string::npos) { r.push_back(s.substr(p)); break; } r.push_back(s.substr(p, q - p)); p = q + 2; } return r; }

// runs f; true if it ended normally, false if it threw a vmime exception (the only kind allowed)
template <class F> bool tolerant(F f) { try { f(); return true; } catch (const vmime::exception&) { return false; } }
