// Address lists: API -> text -> (independent RFC 5322 reader, vmime's parser); and foreign syntax -> vmime's parser.
#include "addrgen.hpp"
// ---- independent reader of RFC 5322 address lists (strict) ----
struct rdr {
	std::string s; size_t p = 0;
	struct bad { std::string w; };
	void cfws() { while (p < s.size()) { if (strchr(" \t\r\n", s[p])) ++p; else if (s[p] == '(') { int d = 0; do { if (p >= s.size()) throw bad{ "open comment" }; if (s[p] == '\\') ++p; else if (s[p] == '(') ++d; else if (s[p] == ')') --d; ++p; } while (d); } else break; } }
	std::string quoted() { std::string r; ++p; for (;;) { if (p >= s.size()) throw bad{ "open quoted string" }; char c = s[p++]; if (c == '"') return r; if (c == '\\') { if (p >= s.size()) throw bad{ "escape at end" }; c = s[p++]; } if (c == '\r' && s.compare(p, 1, "\n") == 0) { ++p; continue; } r += c; } }
	bool isA(size_t q) { return q < s.size() && (isalnum((unsigned char) s[q]) || strchr(ATEXT, s[q]) || (s[q] & 0x80)) && s[q]; }
	// phrase or local part; words = decoded text
	std::string phrase(bool* dotAtomOnly, std::string* raw) {
		std::string r; bool prevEnc = false, first = true; *dotAtomOnly = true; raw->clear();
		for (;;) {
			size_t b = p; cfws(); bool ws = p > b && !first;
			if (p >= s.size()) break;
			if (s[p] == '"') { if (ws) r += ' '; std::string q = quoted(); r += q; *raw += q; prevEnc = false; }
			else if (isA(p) || s[p] == '.') {
				size_t q = p; while (isA(q) || (q < s.size() && s[q] == '.')) ++q;
				std::string t = s.substr(p, q - p); encWord w;
				if (encWordAt(t, 0, w) && w.len == t.size()) { if (ws && !prevEnc) r += ' '; std::string d; if (!iconvTo(w.bytes, w.cs, "utf-8", d)) throw bad{ "undecodable word " + t }; r += d; *raw += d; prevEnc = true; }
				else { if (ws) r += ' '; r += t; *raw += t; prevEnc = false; }
				p = q;
			} else break;
			first = false;
		}
		return r;
	}
	std::string domain() { cfws(); std::string r; while (p < s.size() && (isA(p) || s[p] == '.')) r += s[p++]; if (r.empty()) throw bad{ "no domain" }; cfws(); return r; }
	mbx mailbox() {
		mbx m; bool d; std::string raw; std::string ph = phrase(&d, &raw);
		if (p < s.size() && s[p] == '@') { ++p; m.local = raw; m.domain = domain(); return m; }
		if (p >= s.size() || s[p] != '<') throw bad{ "expected '<' at " + s.substr(p, 20) };
		++p; m.name = ph; std::string l = phrase(&d, &raw); if (p >= s.size() || s[p] != '@') throw bad{ "expected '@' at " + s.substr(p, 20) };
		++p; m.local = raw; m.domain = domain(); if (p >= s.size() || s[p] != '>') throw bad{ "expected '>'" }; ++p; cfws(); return m;
	}
	std::vector<adr> list() {
		std::vector<adr> r; cfws(); if (p >= s.size()) return r;
		for (;;) {
			adr a; size_t b = p; bool d; std::string raw; std::string ph = phrase(&d, &raw);
			if (p < s.size() && s[p] == ':') { ++p; a.group = true; a.name = ph; cfws(); if (p < s.size() && s[p] != ';') for (;;) { a.m.push_back(mailbox()); if (p < s.size() && s[p] == ',') { ++p; cfws(); continue; } break; } if (p >= s.size() || s[p] != ';') throw bad{ "group not closed" }; ++p; cfws(); }
			else { p = b; a.m.push_back(mailbox()); }
			r.push_back(a); cfws();
			if (p >= s.size()) return r;
			if (s[p] != ',') throw bad{ "expected ',' at " + s.substr(p, 20) };
			++p; cfws();
		}
	}
};
static std::string refPuny(const std::string& u8s) {  // label by label, RFC 3492
	std::string out; size_t i = 0;
	while (true) {
		size_t j = u8s.find('.', i); std::string lab = u8s.substr(i, j == std::string::npos ? j : j - i); std::vector<uint32_t> cp; bool ascii = true;
		for (size_t k = 0 ; k < lab.size() ;) { unsigned char c = (unsigned char) lab[k]; uint32_t x; int n; if (c < 0x80) { x = c; n = 1; } else if (c < 0xe0) { x = c & 0x1f; n = 2; } else if (c < 0xf0) { x = c & 15; n = 3; } else { x = c & 7; n = 4; } for (int z = 1 ; z < n ; ++z) x = (x << 6) | ((unsigned char) lab[k + z] & 0x3f); k += n; cp.push_back(x); if (x > 127) ascii = false; }
		if (ascii) out += lab; else {
			out += "xn--"; size_t h = 0; for (auto x : cp) if (x < 128) { out += (char) x; ++h; } size_t b = h; if (b) out += '-';
			uint32_t n = 128, delta = 0, bias = 72;
			while (h < cp.size()) { uint32_t m = 0xffffffff; for (auto x : cp) if (x >= n && x < m) m = x; delta += (m - n) * (uint32_t) (h + 1); n = m;
				for (auto x : cp) { if (x < n) ++delta; if (x == n) { uint32_t q = delta; for (uint32_t k = 36 ;; k += 36) { uint32_t t = k <= bias ? 1 : k >= bias + 26 ? 26 : k - bias; if (q < t) break; uint32_t dg = t + (q - t) % (36 - t); out += (char) (dg < 26 ? 'a' + dg : '0' + dg - 26); q = (q - t) / (36 - t); } out += (char) (q < 26 ? 'a' + q : '0' + q - 26);
					uint32_t np = (uint32_t) h + 1; uint32_t dl = h == b ? delta / 700 : delta / 2; dl += dl / np; uint32_t k = 0; while (dl > 455) { dl /= 35; k += 36; } bias = k + 36 * dl / (dl + 38); delta = 0; ++h; } }
				++delta; ++n; }
		}
		if (j == std::string::npos) return out; out += '.'; i = j + 1;
	}
}
static void puny(std::vector<adr>& v) { for (auto& a : v) for (auto& m : a.m) m.domain = refPuny(m.domain); }

// ---- foreign syntax ----
static std::string ws(Source& s, bool need) { std::string r; if (need || s.oneIn(3)) r += s.pick({ " ", " ", "\r\n ", "\t", "  ", "\r\n\t" }); if (s.oneIn(6)) { r += s.pick({ "(c)", "(a (nested) one)", "(x, y; z: <w@v>)", "(esc \\) p)", "()" }); if (need || s.coin()) r += ' '; } return r; }
static std::string sp(Source& s) { return s.oneIn(3) ? s.pick({ " ", "\r\n ", "\t", "  " }) : ""; }
static std::string qstr(Source& s, const std::string& t, bool any = true) { std::string r = "\""; for (char c : t) { if (c == '"' || c == '\\' || (any && s.oneIn(20) && !(c & 0x80) && c != ' ')) r += '\\'; r += c; } return r + '"'; }
static std::string phraseText(Source& s, const std::string& n, bool* ok) {
	bool ascii = true; for (char c : n) if (c & 0x80) ascii = false;
	if (!ascii || s.oneIn(5)) { std::string r; size_t i = 0; // encoded words cut at characters
		while (i < n.size()) { size_t j = std::min(n.size(), i + 1 + (size_t) s.draw(20)); while (j < n.size() && ((unsigned char) n[j] & 0xc0) == 0x80) ++j; if (!r.empty()) r += s.pick({ " ", "\r\n ", "  " }); std::string part = n.substr(i, j - i);
			if (s.coin()) r += "=?utf-8?B?" + refB64(part) + "?="; else { r += "=?UTF-8?q?"; for (char c : part) { char b[8]; if (isalnum((unsigned char) c)) r += c; else if (c == ' ' && s.coin()) r += '_'; else { snprintf(b, sizeof b, "=%02X", (unsigned char) c); r += b; } } r += "?="; } i = j; }
		return r; }
	bool plain = !n.empty(); for (char c : n) if (!isalnum((unsigned char) c) && c != ' ' && !strchr("!#$%&'*+-/^_`{|}~", c)) plain = false;
	if (n.find("  ") != std::string::npos) plain = false;
	if (plain && s.coin()) { std::string r; for (char c : n) if (c == ' ') r += s.pick({ " ", " ", "\r\n " }); else r += c; return r; }
	(void) ok; return qstr(s, n);
}
static std::string comment(Source& s) { return s.pick({ "(c)", "(a (nested) one)", "(x y)", "(esc \\) p)", "()", "(a \\( b)", "(<)", "(a@b)", "(\")" }); }
static std::string mbxText(Source& s, const mbx& m, bool comments) {
	auto w = [&](bool need) { return comments ? ws(s, need) : sp(s); };
	std::string l = needsQuote(m.local) || s.oneIn(12) ? qstr(s, m.local, false) : m.local;
	bool quoted = l[0] == '"'; auto cm = [&]() -> std::string { return comments && !quoted && s.oneIn(6) ? comment(s) : ""; }; // next to the local part and the domain
	if (m.name.empty()) { std::string a = cm() + l + cm() + "@" + cm() + m.domain + cm(); return s.coin() ? "<" + a + ">" : a; }
	return phraseText(s, m.name, nullptr) + (comments && s.oneIn(4) ? " (note)" : "") + s.pick({ " ", " ", "\r\n ", "  " }) + "<" + cm() + l + cm() + "@" + cm() + m.domain + cm() + ">" + (s.oneIn(4) ? w(false) : "");
}

static void run(Source& s, Ctx& c) {
	int mode = (int) s.weighted({ 6, 3, 2 });
	if (mode == 2) {  // one address as text
		bool intl = s.coin(); c.label("one address");
		std::string l = genLocal(s, (int) s.draw(2)), d = genDomain(s, s.coin());
		vmime::emailAddress e(l, d); vmime::generationContext gc; gc.setInternationalizedEmailSupport(intl); gc.setMaxLineLength((size_t) s.pickInt({ 78, 30, 998 }));
		strOut o; e.generate(gc, o);
		NOTE(c, pbt::show(l) << " @ " << pbt::show(d) << " -> " << pbt::show(o.s)); c.mix(l + "@" + d); c.nontrivial(true);
		vmime::emailAddress f; vmime::parsingContext pc; pc.setInternationalizedEmailSupport(true); f.parse(pc, o.s);
		CHECK_EQ(u8(f.getLocalName()) + " @ " + u8(f.getDomainName()), l + " @ " + d, "written as " + pbt::show(o.s));
		vmime::emailAddress g(e.toString());
		CHECK_EQ(u8(g.getLocalName()) + " @ " + u8(g.getDomainName()), l + " @ " + d, "toString " + pbt::show(e.toString()));
		if (!intl) { for (char ch : o.s) CHECK_MSG(!(ch & 0x80), "8-bit byte in " << pbt::show(o.s)); rdr r{ o.s }; try { mbx m = r.mailbox(); CHECK_EQ(m.local + " @ " + m.domain, l + " @ " + refPuny(d), "independent reader of " + pbt::show(o.s)); } catch (rdr::bad& b) { FAIL("not an address: " << b.w << " in " << pbt::show(o.s)); } }
		{ auto cm = [&]() -> std::string { return s.oneIn(5) ? comment(s) : ""; }; std::string k = cm(), t = sp(s) + k + (k.empty() ? "" : sp(s)) + (needsQuote(l) || s.oneIn(8) ? qstr(s, l, false) : l) + cm() + "@" + cm() + d + cm() + sp(s); vmime::emailAddress h; h.parse(pc, t); CHECK_EQ(u8(h.getLocalName()) + " @ " + u8(h.getDomainName()), l + " @ " + d, "parsed from " + pbt::show(t)); }
		CHECK(f == g && !(f != g)); CHECK(f == vmime::emailAddress(f)); return;
	}
	bool one = s.oneIn(4);
	std::vector<adr> want = genList(s, !one); if (one) { want.clear(); adr a; a.m.push_back(genMbx(s)); want.push_back(a); }
	for (auto& a : want) { c.mix(showA({ a })); if (a.group) c.label("group"); for (auto& m : a.m) { if (m.name.empty()) c.label("no name"); if (needsQuote(m.local)) c.label("quoted local part"); } }
	c.nontrivial(!want.empty());
	if (mode == 1) {
		c.label("foreign syntax"); bool comments = s.oneIn(3);
		std::string t; bool first = true;
		for (auto& a : want) { if (!first) { t += (s.coin() ? "" : sp(s)) + "," + sp(s); while (s.oneIn(20)) t += " ,"; } first = false;
			if (a.group) { t += phraseText(s, a.name, nullptr) + sp(s) + ":" + sp(s); bool f2 = true; for (auto& m : a.m) { if (!f2) t += "," + sp(s); f2 = false; t += mbxText(s, m, comments); } t += sp(s) + ";"; }
			else t += mbxText(s, a.m[0], comments); }
		NOTE(c, "text " << pbt::show(t) << "\nwant\n" << showA(want));
		vmime::addressList l; l.parse(t);
		// empty list elements are ignored
		CHECK_EQ(showA(fromV(l)), showA(want), "parsed from " + pbt::show(t));
		return;
	}
	size_t mll = (size_t) s.pickInt({ 78, 78, 76, 40, 60, 100, 998, 30 }); bool intl = s.oneIn(3);
	vmime::generationContext gc; gc.setMaxLineLength(mll); gc.setInternationalizedEmailSupport(intl);
	auto f = vmime::headerFieldFactory::getInstance()->create(one ? s.pick({ "From", "Sender" }) : s.pick({ "To", "Cc", "Bcc", "Reply-To" }));
	auto mk = [&](const mbx& m) { return vmime::make_shared<vmime::mailbox>(toText(s, m.name), vmime::emailAddress(m.local, m.domain)); };
	if (one) f->setValue(mk(want[0].m[0]));
	else { auto l = vmime::make_shared<vmime::addressList>(); for (auto& a : want) { if (a.group) { auto g = vmime::make_shared<vmime::mailboxGroup>(toText(s, a.name)); for (auto& m : a.m) g->appendMailbox(mk(m)); l->appendAddress(g); } else l->appendAddress(mk(a.m[0])); } f->setValue(l); }
	strOut o; f->generate(gc, o);
	NOTE(c, "line length " << mll << " intl " << intl << " generated " << pbt::show(o.s) << "\nwant\n" << showA(want));
	auto h = vmime::make_shared<vmime::header>(); vmime::parsingContext pc; pc.setInternationalizedEmailSupport(true); h->parse(pc, o.s + "\r\nX-N: 1\r\n\r\n");
	CHECK_EQ(h->getFieldCount(), (size_t) 2, "fields of " + pbt::show(o.s));
	std::vector<adr> got; auto v = h->getFieldAt(0)->getValue();
	if (one) { adr a; auto m = vmime::dynamicCast<vmime::mailbox>(v); CHECK(!!m); a.m.push_back(fromV(*m)); got.push_back(a); } else { auto l = vmime::dynamicCast<vmime::addressList>(v); CHECK(!!l); got = fromV(*l); }
	CHECK_EQ(showA(got), showA(want), "parsed back from " + pbt::show(o.s));
	rdr r{ o.s.substr(o.s.find(':') + 1) }; std::vector<adr> ref;
	try { ref = r.list(); } catch (rdr::bad& b) { FAIL("not an address list: " << b.w << " in " << pbt::show(o.s)); }
	std::vector<adr> w2 = want; if (!intl) { puny(w2); for (char ch : o.s) CHECK_MSG(!(ch & 0x80), "8-bit byte in " << pbt::show(o.s)); } else { puny(w2); puny(ref); }
	CHECK_EQ(showA(ref), showA(w2), "independent reader of " + pbt::show(o.s));
}
Property makeProperty() {
	Property p; p.id = "C12"; p.run = run; p.init = installPlatform; p.quick = 120000; p.thorough = 3000000;
	p.rule = "lists of up to 5 mailboxes and groups with ASCII, special-character and Unicode names, dotted, quoted and Unicode local parts and IDN domains, generated at 8 line lengths with and without internationalised addresses, read back by vmime and by an independent strict RFC 5322 reader with its own punycode; and the same lists written with foreign syntax (comments, folding, quoted pairs, encoded words) read by vmime; non-trivial: the list is not empty";
	return p;
}
