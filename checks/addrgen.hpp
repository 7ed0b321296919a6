// Generators and models of mailboxes, groups and address lists.
#pragma once
#include "textgen.hpp"
#include "vmime/mailboxField.hpp"

struct mbx { std::string name, local, domain; };
struct adr { bool group = false; std::string name; std::vector<mbx> m; };
static std::string showM(const mbx& m) { return "[" + collapse(m.name) + "|" + m.local + "|" + m.domain + "]"; }
static std::string showA(const std::vector<adr>& v) { std::string r; for (auto& a : v) { if (a.group) r += "group{" + collapse(a.name) + ":"; for (auto& m : a.m) r += showM(m); if (a.group) r += "}"; r += "\n"; } return r; }

static const char ATEXT[] = "abcxyzABZ0189!#$%&'*+-/=?^_`{|}~";
static std::string atom(Source& s, unsigned n) { std::string r; for (unsigned i = 0 ; i < n ; ++i) r += s.oneIn(4) ? ATEXT[s.draw(sizeof ATEXT - 2)] : (char) ('a' + s.draw(25)); return r; }
static std::string letters(Source& s, unsigned n) { std::string r; static const uint32_t base[] = { 0xe0, 0x3b1, 0x430, 0x4e00, 0x3041, 0x5d0 }; uint32_t b = base[s.draw(5)]; for (unsigned i = 0 ; i < n ; ++i) putUtf8(r, b + (uint32_t) s.draw(b == 0xe0 ? 20 : b == 0x3b1 ? 16 : 25)); return r; }
static std::string genDomain(Source& s, bool uni) {
	unsigned n = 1 + (unsigned) s.draw(3); std::string r;
	for (unsigned i = 0 ; i < n ; ++i) {
		if (i) r += '.';
		if (uni && s.coin()) { if (s.coin()) r += (char) ('a' + s.draw(25)); r += letters(s, 1 + (unsigned) s.draw(7)); }
		else { unsigned l = 1 + (unsigned) s.draw(9); for (unsigned k = 0 ; k < l ; ++k) r += k && k + 1 < l && s.oneIn(6) ? '-' : (char) (s.oneIn(5) ? '0' + s.draw(9) : (s.oneIn(8) ? 'A' : 'a') + s.draw(25)); }
	}
	size_t p = 0; while ((p = r.find("--", p)) != std::string::npos) r[p] = 'x';
	return r;
}
static bool needsQuote(const std::string& l) { if (l.empty()) return false; for (char c : l) if (!strchr(ATEXT, c) && !isalnum((unsigned char) c) && c != '.' && !(c & 0x80)) return true; return l[0] == '.' || l.back() == '.' || l.find("..") != std::string::npos; }
static std::string genLocal(Source& s, int kind) {
	switch (kind) {
	case 0: { std::string r = atom(s, 1 + (unsigned) s.draw(9)); while (s.oneIn(3)) r += "." + atom(s, 1 + (unsigned) s.draw(5)); size_t p; while ((p = r.find("=?")) != std::string::npos) r[p] = 'x'; return r; }
	case 1: { std::string r; unsigned n = 1 + (unsigned) s.draw(8); for (unsigned i = 0 ; i < n ; ++i) r += s.coin() ? (char) ('a' + s.draw(25)) : " @\"\\,;:<>()[]."[s.draw(13)]; return r; }
	default: return (s.coin() ? atom(s, 1) : "") + letters(s, 1 + (unsigned) s.draw(6)) + (s.coin() ? atom(s, 2) : "");
	}
}
static std::string genName(Source& s, bool uni) {
	std::string r; unsigned n = 1 + (unsigned) s.draw(4);
	for (unsigned i = 0 ; i < n ; ++i) {
		if (i) r += ' ';
		switch (s.draw(uni ? 5 : 3)) {
		case 0: { unsigned l = 1 + (unsigned) s.draw(s.oneIn(8) ? 80 : 8); for (unsigned k = 0 ; k < l ; ++k) r += (char) ('a' + s.draw(25)); break; }
		case 1: { unsigned l = 1 + (unsigned) s.draw(6); for (unsigned k = 0 ; k < l ; ++k) r += "ab\",;:<>()@.[]\\/?='*_%&!"[s.draw(23)]; break; }
		case 2: r += s.pick({ "Doe,", "J.", "(work)", "O'Neil", "\"The", "Boss\"", "a@b", "<x>", "=", "x;y", "a:b", "\\", "-" }); break;
		case 3: r += atom(s, 1 + (unsigned) s.draw(5)); break;
		case 4: r += letters(s, 1 + (unsigned) s.draw(10)); break;
		default: { uint32_t cp = genCodepoint(s); putUtf8(r, cp <= 0x20 ? 'y' : cp); r += letters(s, 1); break; }
		}
	}
	// what looks like an encoded word cannot be told from one
	size_t p; while ((p = r.find("=?")) != std::string::npos) r[p] = 'x';
	return r;
}
static vmime::text toText(Source& s, const std::string& n) {
	if (n.empty()) return vmime::text();
	bool ascii = true; for (char c : n) if (c & 0x80) ascii = false;
	switch (s.draw(2)) {
	case 0: { vmime::text t; t.createFromString(n, vmime::charsets::UTF_8); return t; }
	case 1: return vmime::text(n, vmime::charset(ascii ? "us-ascii" : "utf-8"));
	default: return vmime::text(n, vmime::charset("utf-8"));
	}
}
static mbx genMbx(Source& s) {
	mbx m; if (s.draw(3)) m.name = genName(s, s.coin());
	m.local = genLocal(s, (int) s.weighted({ 6, 2, 2 })); m.domain = genDomain(s, s.oneIn(3)); return m;
}
static std::vector<adr> genList(Source& s, bool groups) {
	std::vector<adr> r; unsigned n = (unsigned) s.draw(5);
	for (unsigned i = 0 ; i < n ; ++i) { adr a; if (groups && s.oneIn(3)) { a.group = true; a.name = genName(s, s.coin()); unsigned k = (unsigned) s.draw(3); for (unsigned j = 0 ; j < k ; ++j) a.m.push_back(genMbx(s)); } else a.m.push_back(genMbx(s)); r.push_back(a); }
	return r;
}
static std::string u8(const vmime::word& w) { return w.getConvertedText(vmime::charset("utf-8")); }
static mbx fromV(const vmime::mailbox& m) { return mbx{ m.getName().getConvertedText(vmime::charset("utf-8")), u8(m.getEmail().getLocalName()), u8(m.getEmail().getDomainName()) }; }
static std::vector<adr> fromV(const vmime::addressList& l) {
	std::vector<adr> r;
	for (size_t i = 0 ; i < l.getAddressCount() ; ++i) { auto x = l.getAddressAt(i); adr a; if (x->isGroup()) { auto g = vmime::dynamicCast<const vmime::mailboxGroup>(x); a.group = true; a.name = g->getName().getConvertedText(vmime::charset("utf-8")); for (auto& m : g->getMailboxList()) a.m.push_back(fromV(*m)); } else a.m.push_back(fromV(*vmime::dynamicCast<const vmime::mailbox>(x))); r.push_back(a); }
	return r;
}
