// C17: charset conversion: the same characters whatever the path, the chunks and the size; invalid input follows the policy.
// FLAVOURS: main alt
#include "textgen.hpp"
#include "vmime/charsetConverter.hpp"
struct sinkOut : public vmime::utility::outputStream { std::string d; void writeImpl(const byte_t* const b, const size_t n) { d.append(reinterpret_cast<const char*>(b), n); } void flush() { } };
static bool isUni(const std::string& n) { return n.compare(0, 3, "utf") == 0; }
static const std::vector<csInfo>& sets() {
	static std::vector<csInfo> C; if (C.empty()) { C = charsetsKnown(); for (auto n : { "utf-16le", "utf-16be", "utf-32le", "utf-32be", "utf-16", "utf-7" }) C.push_back({ n, 0xa1, 0xffff }); C.push_back({ "gb18030", 0xa1, 0xffff }); C.push_back({ "iso-8859-2", 0x154, 0x155 }); C.push_back({ "windows-1250", 0x154, 0x155 }); }
	return C;
}
static bool can(const csInfo& k, uint32_t x) { if (x < 0x80) return true; if (isUni(k.name) || std::string(k.name) == "gb18030") return true; std::string o, u; putUtf8(u, x); return iconvTo(u, "utf-8", k.name, o); }
static std::string decode(const std::string& bytes, const std::string& cs) { std::string r; CHECK_MSG(iconvTo(bytes, cs, "utf-8", r), "the output is not valid " << cs << ": " << pbt::show(bytes)); return r; }
// all the ways of converting
static std::string convertBy(Source& s, Ctx& c, unsigned how, const std::string& in, const std::string& a, const std::string& b, const vmime::charsetConverterOptions& o, std::string& way) {
	std::string out; auto cuts = genCuts(s); vmime::charset A(a), B(b);
	switch (how) {
	case 0: { way = "string"; vmime::charset::convert(in, out, A, B, o); break; }
	case 1: { way = "converter string with status"; vmime::charsetConverter::status st; auto k = vmime::charsetConverter::create(A, B, o); try { k->convert(in, out, &st); } catch (const vmime::exception&) { std::string u = "hello", i2, o2; if (iconvTo(u, "utf-8", a, i2)) { try { k->convert(i2, o2); } catch (const vmime::exception& e) { FAIL("the converter which refused a text then refuses a valid one: " << e.what()); } std::string d = decode(o2, b); if (d.compare(0, 3, "\xef\xbb\xbf") == 0) d.erase(0, 3); CHECK_EQ(d, u, "the converter which refused a text, used again"); c.label("converter used after a refusal"); } throw; } CHECK_EQ(st.outputBytesWritten, out.size(), "outputBytesWritten"); if (!o.silentlyReplaceInvalidSequences) CHECK_EQ(st.inputBytesRead, in.size(), "inputBytesRead"); if (s.oneIn(3)) { std::string o2; k->convert(in, o2); CHECK_EQ(o2, out, "the same converter used again"); c.label("converter used twice"); } break; }
	case 2: { way = "stream " + showCuts(cuts); chunkIn is(in, cuts, s.coin()); sinkOut os; vmime::charset::convert(is, os, A, B, o); out = os.d; break; }
	default: { way = "filtered stream " + showCuts(cuts); sinkOut os; auto k = vmime::charsetConverter::create(A, B, o); auto f = k->getFilteredOutputStream(os, o); CHECK_MSG(f, "no filtered stream"); size_t p = 0, i = 0; while (p < in.size()) { size_t n = cuts.empty() ? in.size() : std::min(in.size() - p, cuts[i++ % cuts.size()]); f->write(in.data() + p, n); p += n; } f->flush(); out = os.d; }
	}
	return out;
}
static void agree(Source& s, Ctx& c) {
	c.label("valid text");
	const csInfo& a = s.pick(sets()); const csInfo* b = &s.pick(sets()); if (std::string(a.name) == b->name && !s.oneIn(4)) b = &sets()[0];
	std::vector<uint32_t> cp; bool big = s.oneIn(40); unsigned n = (unsigned) s.size(big ? 60 : 30); for (unsigned i = 0 ; i < n ; ++i) { std::vector<uint32_t> w; genLetters(s, s.coin() ? a : *b, 1, w, 7); for (auto x : w) cp.push_back(can(a, x) && can(*b, x) ? x : 'a' + x % 26); if (s.oneIn(6)) cp.push_back((uint32_t) s.pickInt({ ' ', '\r', '\n', '\t' })); }
	bool uni2 = isUni(a.name) && isUni(b->name); auto asian = [](const std::string& n) { return n.compare(0, 8, "iso-2022") == 0 || n.compare(0, 3, "euc") == 0 || n == "shift_jis" || n == "gb2312" || n == "big5" || n == "gb18030"; };
	bool as = asian(a.name) || asian(b->name);  // letters on which all the tables agree
	for (auto& x : cp) { bool good = x < 0x80 || (x >= 0xc0 && x <= 0xff && !as) || (x >= 0x3b1 && x <= 0x3c9 && !as) || (x >= 0x410 && x <= 0x44f && !as) || x == 0x401 || x == 0x154 || x == 0x155 || (x >= 0x3041 && x <= 0x3093) || (x >= 0x30a1 && x <= 0x30f6) || x == 0x4e00 || x == 0x4e01 || x == 0xac00 || x == 0xac01; if (!good && !(uni2 && !(x >= 0xd800 && x < 0xe000))) x = 'v'; }
	for (auto& x : cp) if (x == '\\' || x == '~' || x == 0xa5 || x == 0x203e || (x >= 0xff00 && x < 0xfff0) || x == 0xfeff || x == 0x2212 || x == 0x301c || x == 0x2016 || (x >= 0xe000 && x < 0xf900) || ((std::string(a.name) == "gb18030" || std::string(b->name) == "gb18030") && x > 0xff && x < 0x2e80)) x = 'y';
	if (big && !cp.empty()) { std::vector<uint32_t> r; size_t total = s.sizeNear(70000, { 16384, 32767, 32768, 65536, 10922 }); while (r.size() < total) r.insert(r.end(), cp.begin(), cp.end()); cp = r; c.label("large"); }
	std::string u = toUtf8(cp), in; CHECK_MSG(iconvTo(u, "utf-8", a.name, in), a.name << " " << pbt::show(u)); c.mix(in); c.mix(a.name); c.mix(b->name);
	unsigned how = (unsigned) s.draw(3); std::string way; vmime::charsetConverterOptions o; o.silentlyReplaceInvalidSequences = s.coin(); c.label(std::string("from ") + a.name); c.label(std::string("to ") + b->name);
	std::string hd = std::string(a.name) + " to " + b->name; NOTE(c, hd << ": " << u.size() << " bytes in UTF-8 " << pbt::show(u.substr(0, 300)));
	std::string out = convertBy(s, c, how, in, a.name, b->name, o, way); NOTE(c, "by " << way << ": " << out.size() << " bytes"); c.label(way.substr(0, way.find(' ')));
	std::string got = decode(out, b->name); if (got.compare(0, 3, "\xef\xbb\xbf") == 0) got.erase(0, 3);
	CHECK_MSG(got == u, hd << " by " << way << ": got " << pbt::show(got) << ", expected " << pbt::show(u));
	// the output must end in the initial state
	if (std::string(b->name).compare(0, 8, "iso-2022") == 0) { std::string t = decode(out + "AB", b->name); CHECK_MSG(t == u + "AB", hd << " by " << way << ": the output does not end in ASCII: " << pbt::show(out)); }
	if (std::string(b->name) != "utf-16" && std::string(b->name) != "utf-7" && std::string(b->name).compare(0, 8, "iso-2022") != 0 && std::string(a.name) != "utf-16") { std::string ref; iconvTo(u, "utf-8", b->name, ref); CHECK_MSG(ref == out, hd << " by " << way << ": bytes " << pbt::show(out) << ", expected " << pbt::show(ref)); }
	std::string back = convertBy(s, c, (unsigned) s.draw(3), out, b->name, a.name, o, way); got = decode(back, a.name); if (got.compare(0, 3, "\xef\xbb\xbf") == 0) got.erase(0, 3); CHECK_MSG(got == u, hd << " and back by " << way << ": got " << pbt::show(got) << ", expected " << pbt::show(u));
	if (std::string(a.name) != "utf-16") { std::string::size_type fi = 0; CHECK_MSG(vmime::charset(a.name).isValidText(in, &fi), "valid text said to be invalid at " << fi); CHECK_EQ((size_t) fi, in.size(), "firstInvalidByte of a valid text"); }
	c.nontrivial(u.size() > 1);
}
// valid runs with something invalid or inexpressible between them
static void policy(Source& s, Ctx& c) {
	int kind = (int) s.draw(3); std::string A, B; std::vector<std::string> bad; const csInfo* lettersOf = nullptr;
	if (kind == 0) { A = "utf-8"; B = s.pick({ "utf-16le", "utf-8", "iso-8859-1", "us-ascii", "utf-32be", "koi8-r", "euc-jp" }); bad = { "\xff", "\xfe\xff", "\xc3", "\xe3\x81", "\xf0\x9f\x98", "\x80", "\xc0\xaf", "\x80\x81\x82" }; c.label("invalid UTF-8"); }
	else if (kind == 1) { A = "us-ascii"; B = s.pick({ "utf-8", "iso-8859-1", "utf-16be" }); bad = { "\x80", "\xff", "\xc3\xa9", "\xe9\xe9\xe9" }; c.label("8-bit in US-ASCII"); }
	else if (kind == 2) { A = "utf-8"; B = s.pick({ "iso-8859-1", "us-ascii", "koi8-r", "windows-1251", "iso-8859-7" }); bad = { "\xf0\x9f\x98\x80", "\xe4\xba\x8c", "\xe3\x81\x82\xe3\x81\x84", "\xe1\x83\x90" }; c.label("inexpressible, from UTF-8"); }
	else {
#ifdef PBT_MAIN
		A = s.pick({ "euc-jp", "shift_jis", "iso-2022-jp", "utf-16le", "utf-16be", "utf-32le" });
#else
		A = s.pick({ "koi8-r", "iso-8859-5", "windows-1251" });  // (see KF-iconv-skip for charsets of several bytes)
#endif
		B = s.pick({ "iso-8859-1", "us-ascii", "iso-8859-15" }); bad = { }; c.label("inexpressible, other charset"); }
	for (auto& k : sets()) if (kind == 0 ? k.name == (B == "koi8-r" || B == "euc-jp" || B == "iso-8859-1" || B == "us-ascii" ? B : std::string("utf-8")) : kind == 2 ? k.name == B : std::string(k.name) == "us-ascii") lettersOf = &k;
	std::string inv = s.pick({ "?", "?", "_", "##", "" }); 
#ifdef PBT_MAIN
	if (inv.empty()) inv = "?";
#endif
	// a list of segments: valid UTF-8 text, or something bad (in the source charset)
	struct seg { bool ok; std::string u, raw; }; std::vector<seg> v; std::string u16; unsigned n = 1 + (unsigned) s.draw(7); bool anyBad = false; size_t firstBad = std::string::npos; std::string in; bool big = s.oneIn(60); std::string wide = A == "utf-16le" || A == "utf-16be" || A == "utf-32le" ? A : "";
	std::string all;  // in UTF-8, for charsets which must be encoded as a whole
	for (unsigned i = 0 ; i < n ; ++i) {
		seg g; g.ok = !v.empty() && !v.back().ok ? true : s.coin();
		if (g.ok) { std::vector<uint32_t> cp; unsigned m = 1 + (unsigned) s.draw(8); std::vector<uint32_t> w; genLetters(s, *lettersOf, m, w, 5); for (auto x : w) if (x != '?' && x != '_' && x != '#' && x != '\\' && x != '~' && !(x >= 0xe000 && x < 0xf900) && x != 0xfffd && !(x >= 0xff00 && x < 0xffe0)) cp.push_back(x); if (cp.empty()) cp.push_back('z'); g.u = toUtf8(cp); if (big && s.coin()) { std::string r; size_t t = s.sizeNear(66000, { 32766, 32767, 32768, 16384, 10923 }); while (r.empty() || r.size() < t) r += g.u; g.u = r; c.label("large"); } }
		else if (kind == 3) g.u = A == "koi8-r" || A == "iso-8859-5" || A == "windows-1251" ? "\xd0\x96" : s.pick({ "\xe3\x81\x82", "\xe3\x82\xab", "\xe3\x81\x82\xe3\x81\x84" });
		else g.raw = bad[s.draw(bad.size() - 1)];
		if (!g.ok && kind != 3) { if (firstBad == std::string::npos) firstBad = all.size(); all += g.raw; } else all += g.u;
		anyBad = anyBad || !g.ok; v.push_back(g);
	}
	if (kind == 3) CHECK_MSG(iconvTo(all, "utf-8", A, in), A); else in = all;
	c.mix(in); c.mix(A + B + inv); vmime::charsetConverterOptions o; o.invalidSequence = inv; o.silentlyReplaceInvalidSequences = s.draw(2) != 0;
	std::string hd = A + " to " + B + (o.silentlyReplaceInvalidSequences ? ", substitute \"" + inv + "\"" : ", strict"), way; c.label(o.silentlyReplaceInvalidSequences ? "substitute" : "strict"); NOTE(c, hd << ": " << in.size() << " bytes " << pbt::show(in.substr(0, 300)));
	if (A == B && kind == 0) c.label("same charset");
	unsigned how = (unsigned) s.draw(3); if (how == 0 && A == B) how = 1; std::string out; bool refused = false;
	try { out = convertBy(s, c, how, in, A, B, o, way); } catch (const vmime::exceptions::illegal_byte_sequence_for_charset& e) { refused = true; if (o.silentlyReplaceInvalidSequences) FAIL(hd << ": refused: " << e.what()); }
	NOTE(c, "by " << way << ": " << (refused ? std::string("refused") : pbt::show(out.substr(0, 300))));
	if (!o.silentlyReplaceInvalidSequences) CHECK_MSG(refused == anyBad, hd << " by " << way << (refused ? ": refused" : ": accepted ") << pbt::show(out));
	else {
		std::string got = decode(out, B); std::vector<std::string> subs = { inv, "\xef\xbf\xbd" }; size_t p = 0; bool bom = got.compare(0, 3, "\xef\xbb\xbf") == 0; if (bom) p = 3;
		for (size_t i = 0 ; i < v.size() ; ++i) {
			if (v[i].ok) { CHECK_MSG(got.compare(p, v[i].u.size(), v[i].u) == 0, hd << " by " << way << ": segment " << i << " (" << pbt::show(v[i].u.substr(0, 100)) << ") is not in the output at " << p << ": " << pbt::show(got.substr(p, 300)) << " of " << pbt::show(got.substr(0, 400))); p += v[i].u.size(); }
			else { unsigned k = 0; bool more = true; while (more) { more = false; for (auto& x : subs) if (!x.empty() && got.compare(p, x.size(), x) == 0) { p += x.size(); ++k; more = true; break; } } CHECK_MSG(k >= 1 || inv.empty(), hd << " by " << way << ": nothing stands for segment " << i << " in " << pbt::show(got.substr(0, 400))); CHECK_MSG(k <= 12, hd << ": too many substitutes"); while (i + 1 < v.size() && !v[i + 1].ok) ++i; }
		}
		CHECK_MSG(p == got.size(), hd << " by " << way << ": additional output " << pbt::show(got.substr(p)));
	}
	if (kind < 2) { std::string::size_type fi = 777; bool ok = vmime::charset(A).isValidText(in, &fi); CHECK_EQ((int) ok, (int) !anyBad, "isValidText"); CHECK_EQ((size_t) fi, anyBad ? firstBad : in.size(), hd + ": firstInvalidByte of " + pbt::show(in.substr(0, 200))); }
	c.nontrivial(anyBad && v.size() > 1);
}
// anything at all: only documented exceptions
static void soup(Source& s, Ctx& c) {
	c.label("any bytes"); std::string in = s.str(20), A = s.oneIn(6) ? s.str(4, "abcuxf-8\xff") : s.pick(sets()).name, B = s.oneIn(6) ? s.str(4, "abcuxf-8") : s.pick(sets()).name; c.mix(in); c.mix(A); c.mix(B); std::string way; vmime::charsetConverterOptions o; o.silentlyReplaceInvalidSequences = s.coin(); c.nontrivial(!in.empty());
	NOTE(c, pbt::show(A) << " to " << pbt::show(B) << ": " << pbt::show(in));
	std::string r[4]; for (unsigned how = 0 ; how < 4 ; ++how) { if (how == 1) continue; try { r[how] = "ok" + convertBy(s, c, how, in, A, B, o, way); } catch (const vmime::exceptions::charset_conv_error&) { r[how] = "refused"; } catch (const vmime::exceptions::illegal_byte_sequence_for_charset&) { r[how] = "refused"; } }
	if (A != B && lower(A) != lower(B) && !o.silentlyReplaceInvalidSequences) { CHECK_MSG((r[0] == "refused") == (r[2] == "refused"), "refused by one of string and stream only"); if (r[0] != "refused") CHECK_EQ(r[2], r[0], "string and stream"); }
	if (A != B && lower(A) != lower(B) && o.silentlyReplaceInvalidSequences) CHECK_EQ(r[2], r[0], "string and stream, substitute");
	try { vmime::charset(A).isValidText(in, nullptr); } catch (const vmime::exceptions::charset_conv_error&) { } catch (const vmime::exceptions::illegal_byte_sequence_for_charset&) { }
}
static void run(Source& s, Ctx& c) { switch (s.draw(5)) { case 0: case 1: agree(s, c); break; case 2: case 3: case 4: policy(s, c); break; default: soup(s, c); } }
Property makeProperty() {
	Property p; p.id = "C17"; p.run = run; p.init = installPlatform; p.quick = 240000; p.thorough = 3000000;
	p.rule = "text of letters two of 24 charsets have in common (at times up to 70000 characters, near the converters' buffer sizes) converted there and back by string, stream and filtered stream in generated chunks, against glibc's iconv on the whole text; valid runs with invalid or inexpressible pieces between, under the strict and the substituting policy; any bytes and charset names; non-trivial: more than one character, or an invalid piece between others";
	p.assumptions = { "reference: glibc iconv applied once to the whole text (letters where ICU and glibc tables differ are not generated)" };
#ifdef PBT_ALT
	p.probes.push_back({ "KF-iconv-skip", "iconv flavour: substituting a two-byte character which the target cannot represent skips one byte only (Shift_JIS 83 41 'a' to ISO-8859-1 gives \"?Aa\")", [](Ctx&) { std::string out; vmime::charset::convert(std::string("\x83\x41" "a"), out, vmime::charset("shift_jis"), vmime::charset("iso-8859-1")); CHECK_EQ(out, std::string("?a"), "conversion"); } });
#endif
	return p;
}
