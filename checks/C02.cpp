#include "gen.hpp"
#include "vmime/mailboxField.hpp"

template <class T> static vmime::shared_ptr<vmime::component> mk() { return vmime::make_shared<T>(); }
struct kind { const char* name; vmime::shared_ptr<vmime::component> (*make)(); const char* field; };
static const kind K[] = {
	{ "text", mk<vmime::text>, "Subject" }, { "mailbox", mk<vmime::mailbox>, "From" }, { "mailboxList", mk<vmime::mailboxList>, "From" }, { "addressList", mk<vmime::addressList>, "To" },
	{ "mailboxGroup", mk<vmime::mailboxGroup>, "To" }, { "emailAddress", mk<vmime::emailAddress>, "From" }, { "datetime", mk<vmime::datetime>, "Date" }, { "mediaType", mk<vmime::mediaType>, "Content-Type" },
	{ "contentDisposition", mk<vmime::contentDisposition>, "Content-Disposition" }, { "encoding", mk<vmime::encoding>, "Content-Transfer-Encoding" }, { "messageId", mk<vmime::messageId>, "Message-Id" },
	{ "messageIdSequence", mk<vmime::messageIdSequence>, "References" }, { "relay", mk<vmime::relay>, "Received" }, { "path", mk<vmime::path>, "Return-Path" }, { "disposition", mk<vmime::disposition>, "Disposition" },
	{ "charset", mk<vmime::charset>, "X-Charset" }, { "word", mk<vmime::word>, "X-Word" },
};
static const unsigned NK = sizeof K / sizeof K[0];

// a header field body: every line break is followed by white space
static std::string unfoldable(std::string v) {
	for (size_t i = 0 ; i < v.size() ; ++i) if (v[i] == '\n' && (i + 1 >= v.size() || (v[i + 1] != ' ' && v[i + 1] != '\t'))) v.insert(i + 1, " ");
	return v;
}
static void wellFormed(const std::string& g, const std::string& what) {
	for (size_t i = 0 ; i < g.size() ; ++i)
		if (g[i] == '\n') CHECK_MSG(i + 1 < g.size() && (g[i + 1] == ' ' || g[i + 1] == '\t'), what << ": a generated line does not continue the field " << pbt::show(g));
}
static bool tryGen(const vmime::component& c, std::string& out, size_t mll) { return tolerant([&] { out = c.generate(mll); }); }

static void run(Source& s, Ctx& c) {
	vmime::parsingContext ctx; ctx.setInternationalizedEmailSupport(s.oneIn(4));
	unsigned k = (unsigned) s.draw(NK + 2);
	std::string v;
	switch (s.weighted({ 6, 4, 1 })) { case 0: v = genValueSoup(s); break; case 1: v = genGoodValue(s, k < NK ? K[k].field : "Content-Type", ""); while (s.oneIn(2) && !v.empty()) { size_t p = s.draw(v.size()); v.insert(p, genToken(s)); } break; default: v = s.str(12); }
	bool folded = s.draw(2) != 0; if (folded) v = unfoldable(v);
	size_t mll = (size_t) s.pickInt({ 78, 0, 40, 998 });
	NOTE(c, (k < NK ? K[k].name : "field") << " line length " << mll << " value " << pbt::show(v));
	c.mix(k); c.mix(v); c.nontrivial(v.size() > 3);
	if (k >= NK) {
		// a whole field
		std::string name = genFieldName(s);
		vmime::shared_ptr<vmime::headerField> f;
		bool ok = tolerant([&] { f = vmime::headerFieldFactory::getInstance()->create(name, v); });
		if (!ok || !f) { c.label("field: not created"); return; }
		c.label("field");
		std::string g1;
		if (!tryGen(*f, g1, mll)) { c.label("field: generation refused"); return; }
		if (folded && name.find('\n') == std::string::npos) wellFormed(g1, "field");
		return;
	}
	const kind& q = K[k]; c.label(q.name);
	auto a = q.make();
	bool ok = tolerant([&] { a->parse(ctx, v); });
	if (!ok) { c.label(std::string(q.name) + ": refused"); return; }
	// nothing outside the range matters
	std::string pre = genToken(s), post = genToken(s), wide = pre + v + post;
	auto b = q.make(); size_t np = (size_t) -7;
	bool okb = tolerant([&] { b->parse(ctx, wide, pre.size(), pre.size() + v.size(), &np); });
	CHECK_MSG(okb, q.name << ": refused inside a larger buffer");
	CHECK_MSG(np >= pre.size() && np <= pre.size() + v.size(), q.name << ": position after the parse is outside the range: " << np << " of " << pre.size() << "+" << v.size());
	CHECK_MSG(b->getParsedOffset() >= pre.size() || b->getParsedLength() == 0, q.name << ": parsed offset outside");
	CHECK_MSG(b->getParsedLength() <= v.size() && b->getParsedOffset() + b->getParsedLength() <= pre.size() + v.size(), q.name << ": parsed end outside");
	// a re-used object behaves as a new one
	auto d = q.make(); tolerant([&] { d->parse(ctx, genGoodValue(s, q.field, "")); d->parse(ctx, v); });
	std::string g1, gb, gd;
	bool gok = tryGen(*a, g1, mll);
	CHECK_EQ(tryGen(*b, gb, mll), gok, std::string(q.name) + ": generation inside a larger buffer");
	CHECK_EQ(gb, g1, std::string(q.name) + ": value depends on bytes outside its range");
	bool gokd = tryGen(*d, gd, mll);
	CHECK_EQ(gokd, gok, std::string(q.name) + ": re-used object generation");
	CHECK_EQ(gd, g1, std::string(q.name) + ": value depends on the value held before");
	if (!gok) { c.label(std::string(q.name) + ": generation refused"); return; }
	if (folded) wellFormed(g1, q.name);
}

Property makeProperty() {
	Property p; p.id = "C02"; p.run = run; p.init = installPlatform; p.quick = 500000; p.thorough = 12000000; p.mutatePct = 50;
	p.rule = "token soup over every header grammar, mutated valid values and random bytes, fed to each of 17 value types and to whole fields, alone and inside a larger buffer; non-trivial: more than 3 bytes";
	return p;
}
