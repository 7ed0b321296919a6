#include "gen.hpp"
#include "vmime/mailboxField.hpp"

struct fieldModel { std::string name; int kind; std::vector<uint32_t> cps; std::string gen; std::vector<std::pair<std::string, std::string>> params; };
struct partModel { std::vector<fieldModel> fields; std::string data, enc; bool preEncoded = false, text = false; std::string prolog, epilog; std::vector<partModel> kids; bool typed = false; };

static std::string words(Source& s, bool uni) {
	std::string r; unsigned n = 1 + (unsigned) s.draw(8);
	for (unsigned i = 0 ; i < n ; ++i) { if (i) r += ' '; unsigned l = 1 + (unsigned) s.draw(s.oneIn(10) ? 90 : 9); for (unsigned k = 0 ; k < l ; ++k) { if (uni) { uint32_t cp = genCodepoint(s); putUtf8(r, cp <= 0x20 ? 'x' : cp); } else r += (char) ('a' + s.draw(25)); } }
	return r;
}
static std::string noSpace(const std::string& s) { std::string r; for (char c : s) if (c != ' ') r += c; return r; }
static std::string asciiLine(Source& s) { std::string r; unsigned n = 1 + (unsigned) s.draw(4); for (unsigned i = 0 ; i < n ; ++i) { if (i) r += ' '; r += s.pick({ "this", "is", "a", "MIME", "message.", "-", "--", "x:y" }); } return r; }

static void addFields(Source& s, const vmime::shared_ptr<vmime::header>& h, partModel& m) {
	auto fac = vmime::headerFieldFactory::getInstance();
	unsigned n = (unsigned) s.draw(4);
	for (unsigned i = 0 ; i < n ; ++i) {
		fieldModel f; vmime::shared_ptr<vmime::headerField> hf;
		f.kind = (int) s.draw(5);
		switch (f.kind) {
		case 0: case 1: { f.name = s.pick({ "Subject", "Content-Description", "X-Text", "Organization", "Comments" }); hf = fac->create(f.name);
			if (!vmime::dynamicCast<vmime::text>(hf->getValue())) { f.kind = 5; }
			else { std::string t = words(s, s.coin()); auto tx = vmime::make_shared<vmime::text>(); tx->createFromString(t, vmime::charsets::UTF_8); hf->setValue(tx); f.gen = t; } break; }
		case 2: { f.name = s.pick({ "From", "Sender" }); hf = fac->create(f.name); std::string nm = words(s, false), un = "u" + std::to_string(s.draw(99)); vmime::text tx; tx.createFromString(nm, vmime::charsets::UTF_8); hf->setValue(vmime::mailbox(tx, vmime::emailAddress(un, "example.org"))); f.gen = nm + "|" + un + "@example.org"; break; }
		case 3: { f.name = "Date"; hf = fac->create(f.name); hf->setValue(vmime::datetime((int) (1970 + s.draw(90)), 1 + (int) s.draw(11), 1 + (int) s.draw(27), (int) s.draw(23), (int) s.draw(59), (int) s.draw(59), (int) s.draw(26) * 30 - 390)); break; }
		case 4: { f.name = s.pick({ "Message-Id", "Content-Id" }); hf = fac->create(f.name); hf->setValue(vmime::messageId("id" + std::to_string(s.draw(9999)), "host.example")); break; }
		default: break;
		}
		if (f.kind == 5) {
			f.name = "Content-Disposition"; hf = fac->create(f.name); hf->setValue(vmime::contentDisposition(s.pick({ "attachment", "inline" })));
			auto pf = vmime::dynamicCast<vmime::parameterizedHeaderField>(hf); unsigned k = (unsigned) s.draw(3);
			for (unsigned j = 0 ; j < k ; ++j) { std::string pn = "p" + std::to_string(j), pv = words(s, s.coin()); pf->appendParameter(vmime::make_shared<vmime::parameter>(pn, vmime::word(pv, vmime::charset("utf-8")))); f.params.push_back({ pn, pv }); }
		}
		if (f.kind >= 3) f.gen = genStr(*hf->getValue());
		h->appendField(hf); m.fields.push_back(f);
	}
}
static std::string leafData(Source& s) {
	std::string r; unsigned n = (unsigned) s.draw(6);
	for (unsigned i = 0 ; i < n ; ++i) switch (s.draw(6)) {
		case 0: r += s.str(10); break;
		case 1: r += s.pick({ "From x\r\n", ".\r\n", "..", "--", "--=_\r\n", "\r\n--\r\n", "\n", "\r", "\r\n", " \r\n", "\t", "=", "=20\r\n" }); break;
		case 2: r += asciiLine(s) + "\r\n"; break;
		case 3: r += std::string(s.size(300), 'a'); break;
		case 4: r += "Subject: nested\r\n\r\nbody"; break;
		case 5: r += s.bulk((size_t) s.pickInt({ 500, 4096, 70 })); break;
		default: r += s.pick({ "\xc3\xa9", "\xff", "\0" }); break;
	}
	return r;
}
static void build(Source& s, const vmime::shared_ptr<vmime::bodyPart>& p, partModel& m, unsigned depth, bool boundaries) {
	addFields(s, p->getHeader(), m);
	auto b = p->getBody();
	if (depth < 4 && s.draw(depth == 0 ? 2 : 4) != 0 && (depth == 0 || s.coin())) {
		bool before = s.coin();
		if (before || s.coin()) { p->getHeader()->ContentType()->setValue(vmime::mediaType("multipart", s.pick({ "mixed", "alternative", "related", "digest" }))); m.typed = true; }
		if (m.typed && boundaries && s.oneIn(3)) vmime::dynamicCast<vmime::contentTypeField>(p->getHeader()->ContentType())->setBoundary("my" + std::to_string(depth) + "." + std::to_string(s.draw(9)) + "'()+_,-./:=?z");
		if (s.oneIn(3)) { m.prolog = asciiLine(s); b->setPrologText(m.prolog); }
		if (s.oneIn(3)) { m.epilog = asciiLine(s); b->setEpilogText(m.epilog); }
		unsigned k = 1 + (unsigned) s.draw(3); m.kids.resize(k);
		bool deferred = s.coin();
		for (unsigned i = 0 ; i < k ; ++i) {
			auto q = vmime::make_shared<vmime::bodyPart>();
			if (deferred) { b->appendPart(q); build(s, q, m.kids[i], depth + 1, boundaries); }
			else { build(s, q, m.kids[i], depth + 1, boundaries); b->appendPart(q); }
		}
		return;
	}
	m.data = leafData(s);
	m.enc = s.pick({ "base64", "quoted-printable", "7bit", "8bit", "binary", "uuencode", "base64" });
	if (s.coin()) { m.text = s.coin(); p->getHeader()->ContentType()->setValue(m.text ? vmime::mediaType("text", "plain") : vmime::mediaType("application", "octet-stream")); }
	else m.text = true;  // the default type
	// text encoded as quoted-printable is only canonical with CRLF line ends
	if (m.enc == "quoted-printable" && m.text) m.data = toCRLF([&] { std::string r; for (size_t i = 0 ; i < m.data.size() ; ++i) if (m.data[i] != '\r' || (i + 1 < m.data.size() && m.data[i + 1] == '\n')) r += m.data[i]; return r; }());
	vmime::shared_ptr<vmime::contentHandler> h; vmime::encoding none = vmime::contentHandler::NO_ENCODING;
	std::string stored = m.data; vmime::encoding stEnc = none;
	if (s.oneIn(4)) { stEnc = vmime::encoding("base64"); stored = refB64(m.data); m.preEncoded = true; }
	if (s.coin()) h = vmime::make_shared<vmime::stringContentHandler>(stored, stEnc);
	else h = vmime::make_shared<vmime::streamContentHandler>(vmime::make_shared<chunkSeekIn>(stored, genCuts(s)), stored.size(), stEnc);
	b->setContents(h);
	b->setEncoding(vmime::encoding(m.enc));
}
static void compare(const partModel& m, const vmime::shared_ptr<vmime::bodyPart>& p, const std::string& at, bool first) {
	std::vector<vmime::shared_ptr<vmime::headerField>> fl;
	for (auto& f : p->getHeader()->getFieldList()) { std::string n = f->getName(); if (n == "Content-Type" || n == "Content-Transfer-Encoding" || n == "MIME-Version") continue; fl.push_back(f); }
	std::vector<fieldModel> want; for (auto& f : m.fields) want.push_back(f);
	CHECK_EQ(fl.size(), want.size(), at + " number of fields");
	for (size_t i = 0 ; i < fl.size() ; ++i) {
		CHECK_EQ(fl[i]->getName(), want[i].name, at + " field name");
		if (want[i].kind < 2) { auto t = vmime::dynamicCast<vmime::text>(fl[i]->getValue()); CHECK(!!t); std::string u = t->getConvertedText(vmime::charsets::UTF_8); CHECK_EQ(noSpace(u), noSpace(want[i].gen), at + " " + want[i].name); }
		else if (want[i].kind == 2) { auto mb = vmime::dynamicCast<vmime::mailbox>(fl[i]->getValue()); CHECK(!!mb); std::string u = mb->getName().getConvertedText(vmime::charsets::UTF_8) + "|" + mb->getEmail().toString(); CHECK_EQ(noSpace(u), noSpace(want[i].gen), at + " " + want[i].name); }
		else CHECK_EQ(genStr(*fl[i]->getValue()), want[i].gen, at + " " + want[i].name);
		if (want[i].kind == 5) {
			auto pf = vmime::dynamicCast<vmime::parameterizedHeaderField>(fl[i]); CHECK(!!pf);
			CHECK_EQ(pf->getParameterCount(), want[i].params.size(), at + " number of parameters");
			for (size_t j = 0 ; j < want[i].params.size() ; ++j) { CHECK_EQ(pf->getParameterAt(j)->getName(), want[i].params[j].first, at + " parameter name"); CHECK_EQ(pf->getParameterAt(j)->getValue().getConvertedText(vmime::charset("utf-8")), want[i].params[j].second, at + " parameter value"); }
		}
	}
	auto b = p->getBody();
	CHECK_EQ(b->getPartCount(), m.kids.size(), at + " number of parts");
	if (m.kids.empty()) { CHECK_EQ(extractStr(b->getContents()), m.data, at + " contents (" + m.enc + ")"); return; }
	CHECK_EQ(b->getPrologText(), m.prolog, at + " prolog"); CHECK_EQ(b->getEpilogText(), m.epilog, at + " epilog");
	for (size_t i = 0 ; i < m.kids.size() ; ++i) compare(m.kids[i], b->getPartAt(i), at + "/" + std::to_string(i), first);
}

static void run(Source& s, Ctx& c) {
	auto msg = vmime::make_shared<vmime::message>(); partModel m;
	build(s, msg, m, 0, true);
	vmime::generationContext ctx; size_t mll = (size_t) s.pickInt({ 78, 78, 76, 40, 998, 20 }); ctx.setMaxLineLength(mll);
	ctx.setPrologText(""); ctx.setEpilogText("");
	std::string ctxProlog;
	if (s.oneIn(4)) { ctxProlog = asciiLine(s); ctx.setPrologText(ctxProlog); if (m.prolog.empty() && !m.kids.empty()) m.prolog = ctxProlog; }
	strOut o; msg->generate(ctx, o);
	NOTE(c, "line length " << mll << " generated " << pbt::show(o.s)); c.mix(o.s.size()); c.mix(o.s.substr(0, 3000)); c.nontrivial(o.s.size() > 20); c.label(m.kids.empty() ? "single part" : "multipart");
	auto back = vmime::make_shared<vmime::message>();
	back->parse(o.s);
	compare(m, back, "part", true);
	size_t announced = msg->getGeneratedSize(ctx);
	CHECK_MSG(announced >= o.s.size(), "announced size " << announced << " is smaller than the generated " << o.s.size());
	// second trip: what was parsed generates a text with the same meaning
	strOut o2; back->generate(ctx, o2);
	auto again = vmime::make_shared<vmime::message>(); again->parse(o2.s);
	compare(m, again, "second trip part", false);
	CHECK_MSG(back->getGeneratedSize(ctx) >= o2.s.size(), "announced size of the parsed message " << back->getGeneratedSize(ctx) << " is smaller than the generated " << o2.s.size());
}

Property makeProperty() {
	Property p; p.id = "C05"; p.run = run; p.init = installPlatform; p.quick = 10000; p.thorough = 1500000;
	p.rule = "trees of parts built through the API (every order of attaching, explicit and automatic boundaries, 7 transfer encodings, string, stream and pre-encoded contents, texts, addresses, dates, ids, dispositions with parameters), generated at several line lengths, parsed and compared with the model, twice; announced size checked; non-trivial: more than 20 generated bytes";
	return p;
}
