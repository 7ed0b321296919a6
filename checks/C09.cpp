#include "textgen.hpp"

static void genWords(Source& s, const csInfo& cs, std::vector<uint32_t>& o, bool spaces) {
	unsigned n = 1 + (unsigned) s.draw(10), mixed = (unsigned) s.draw(3);
	for (unsigned i = 0 ; i < n ; ++i) {
		if (i) { o.push_back(' '); if (spaces) while (s.oneIn(4)) o.push_back(s.oneIn(4) ? '\t' : ' '); }
		genLetters(s, cs, 1 + (unsigned) s.draw(s.oneIn(12) ? 120 : 11), o, mixed == 0 ? 0 : mixed == 1 ? 10 : s.coin() ? 5 : s.coin() ? 10 : 0);
	}
}
static void run(Source& s, Ctx& c) {
	size_t mll = (size_t) s.pickInt({ 78, 78, 76, 40, 30, 60, 100, 998, 0 }); bool infinite = mll == 0;
	vmime::generationContext gctx; gctx.setMaxLineLength(infinite ? vmime::lineLengthLimits::infinite : mll);
	vmime::text t; std::string want; bool exact = true; std::string lang; bool oneWord = false; std::string names;
	if (s.draw(2) != 0) {
		c.label("from a string");
		const csInfo& cs = s.pick(charsetsKnown()); std::vector<uint32_t> cp; bool spaces = s.oneIn(3); exact = !spaces;
		genWords(s, cs, cp, spaces); want = toUtf8(cp); names = cs.name;
		std::string enc; CHECK_MSG(iconvTo(want, "utf-8", cs.name, enc), cs.name << pbt::show(want));
		t.createFromString(enc, vmime::charset(cs.name));
		CHECK_EQ(t.getConvertedText(vmime::charset("utf-8")), want, std::string("text made from a string in ") + cs.name);
	} else {
		c.label("from words");
		unsigned n = 1 + (unsigned) s.draw(4); bool prevAscii = false; oneWord = n == 1;
		for (unsigned i = 0 ; i < n ; ++i) {
			const csInfo& cs = s.pick(charsetsKnown()); std::vector<uint32_t> cp;
			// words are separated by the white space at the start of the next one
			genLetters(s, cs, 1 + (unsigned) s.draw(12), cp, s.coin() ? 10 : 4);
			if (s.coin()) { cp.push_back(' '); genWords(s, cs, cp, false); }
			bool ascii = true; for (auto x : cp) if (x > 126) ascii = false;
			if (i && !(!ascii && !prevAscii && s.coin())) cp.insert(cp.begin(), ' ');
			prevAscii = ascii;
			std::string u = toUtf8(cp), enc; CHECK_MSG(iconvTo(u, "utf-8", cs.name, enc), cs.name << pbt::show(u)); want += u; names += std::string(cs.name) + " ";
			std::string l = s.oneIn(4) ? s.pick({ "fr", "en-us", "ja" }) : ""; if (oneWord) lang = l;
			t.appendWord(vmime::make_shared<vmime::word>(enc, vmime::charset(cs.name), l));
		}
	}
	want = want.substr(want[0] == ' ' ? 1 : 0);
	NOTE(c, names << " line length " << mll << " lang " << lang << " text " << pbt::show(want));
	c.mix(want); c.mix(mll); c.nontrivial(want.size() > 3);
	auto f = vmime::headerFieldFactory::getInstance()->create(s.pick({ "Subject", "X-A-Long-Field-Name-For-A-Text", "X-T" }));
	f->setValue(t);
	strOut o; f->generate(gctx, o);
	std::string g = o.s;
	NOTE(c, "generated " << pbt::show(g));
	// independent decoder
	size_t colon = g.find(':'); std::vector<encWord> ws; std::string err;
	std::string ref = refDecode2047(g.substr(colon + 1), &ws, &err);
	CHECK_MSG(err.empty(), err << " in " << pbt::show(g));
	CHECK_EQ(collapse(ref), collapse(want), "independent decoding of " + pbt::show(g));
	if (exact) { std::string r = ref; while (!r.empty() && r[0] == ' ') r.erase(0, 1); CHECK_EQ(r, want, "independent decoding of " + pbt::show(g)); }
	if (!ws.empty()) c.label("encoded words");
	if (g.find("\r\n ") != std::string::npos) c.label("folded");
	// vmime's own parser
	auto p = vmime::headerFieldFactory::getInstance()->create("Subject");
	auto hdr = vmime::make_shared<vmime::header>(); hdr->parse(g + "\r\nX-Next: 1\r\n\r\n");
	CHECK_EQ(hdr->getFieldCount(), (size_t) 2, "number of fields of " + pbt::show(g));
	auto pt = vmime::dynamicCast<vmime::text>(hdr->getFieldAt(0)->getValue()); CHECK(!!pt);
	std::string got = pt->getConvertedText(vmime::charset("utf-8"));
	CHECK_EQ(collapse(got), collapse(want), "parsed text of " + pbt::show(g));
	if (exact) CHECK_EQ(got, want, "parsed text of " + pbt::show(g));
	if (oneWord && !lang.empty()) for (auto& w : pt->getWordList()) CHECK_EQ(w->getLanguage(), lang, "language of " + pbt::show(g));
	// a second trip keeps the characters
	strOut o2; hdr->getFieldAt(0)->generate(gctx, o2);
	auto h2 = vmime::make_shared<vmime::header>(); h2->parse(o2.s + "\r\n\r\n");
	auto p2 = vmime::dynamicCast<vmime::text>(h2->getFieldAt(0)->getValue()); CHECK(!!p2);
	std::string g2 = p2->getConvertedText(vmime::charset("utf-8")), a = collapse(g2), b = collapse(want);
	a.erase(std::remove(a.begin(), a.end(), ' '), a.end()); b.erase(std::remove(b.begin(), b.end(), ' '), b.end());
	if (want.find("=?") == std::string::npos && want.find("?=") == std::string::npos) CHECK_EQ(a, b, "second trip of " + pbt::show(g));
	// each word on its own: convert, decode
	if (s.oneIn(4)) {
		std::string enc = t.getWordAt(0)->generate(infinite ? vmime::lineLengthLimits::infinite : mll, 0);
		auto w = vmime::make_shared<vmime::text>(); w->parse(enc);
		CHECK_EQ(collapse(w->getConvertedText(vmime::charset("utf-8"))), collapse(t.getWordAt(0)->getConvertedText(vmime::charset("utf-8"))), "single word " + pbt::show(enc));
	}
}
Property makeProperty() {
	Property p; p.id = "C09"; p.run = run; p.init = installPlatform; p.quick = 60000; p.thorough = 3000000;
	p.rule = "texts in 15 charsets, given as one string or as several words with languages, generated at 9 line lengths and field names; read back by vmime and by an independent RFC 2047 decoder (iconv) that decodes each encoded word on its own; non-trivial: more than 3 bytes of text";
	return p;
}
