// C41: where the header ends, and what becomes of lines which are not header fields.
#include "common.hpp"
#include "vmime/parsingContext.hpp"
typedef vmime::headerParseRecoveryMethod RM;
static std::string genEol(Source& s) { return s.oneIn(4) ? "\n" : "\r\n"; }
static std::string ws(Source& s) { return s.pick({ " ", "\t", "  ", " \t " }); }
static std::string genWord(Source& s) { return s.pick({ "word", "a:b", "x", ":", "--", "From", "(c)", "\"q\"", "<i@j>", "1;2=3", "http://h/", "X-A: no", "." , "averyverylongwordaveryverylongwordaveryverylongwordaveryverylongwordaveryverylongword" }); }
static std::string flat(const std::string& v) { std::string r; bool sp = false; for (char ch : v) { if (ch == ' ' || ch == '\t' || ch == '\r' || ch == '\n') sp = true; else { if (sp && !r.empty()) r += ' '; sp = false; r += ch; } } return r; }
static std::vector<std::string> fieldsOf(const vmime::shared_ptr <const vmime::header>& h) { std::vector<std::string> r; for (auto& f : h->getFieldList()) { auto t = f->getValue <vmime::text>(); CHECK_MSG(t, "field " << f->getName() << " is not a text"); r.push_back(f->getName() + ": " + flat(t->getWholeBuffer())); } return r; }
static void run(Source& s, Ctx& c) {
	bool assume = s.oneIn(3), blankOk = true, malformed = false, stopped = false; std::string wire, body; std::vector<std::string> want; size_t stop = 0; unsigned n = (unsigned) s.draw(7), after = 0;
	for (unsigned i = 0 ; i < n ; ++i) {
		switch (s.weighted({ 6, 3, 2 })) {
		case 0: {
			std::string nm = s.pick({ "X-A", "Subject", "x", "comments", "X-1!#$%&'*+^`{|}~", "X_b.c", "Keywords", ">From" }), v; wire += nm + (s.oneIn(6) ? ws(s) : "") + ":" + (s.oneIn(5) ? "" : ws(s)); unsigned k = (unsigned) s.weighted({ 1, 5, 3, 2 });
			for (unsigned j = 0 ; j < k ; ++j) { std::string w = genWord(s); if (j == 0 && w[0] == ':') w = "v"; if (j) { std::string sep = s.oneIn(3) ? genEol(s) + ws(s) : ws(s); if (sep.find('\n') != sep.npos) c.label("folded"); wire += sep; v += " "; } else if (s.oneIn(8)) { wire += genEol(s) + ws(s); c.label("folded"); } wire += w; v += w; }
			if (s.oneIn(8) && k) wire += ws(s); wire += genEol(s); if (!stopped) { want.push_back(nm + ": " + flat(v)); if (malformed) ++after; } blankOk = false; break; }
		case 1: { if (!stopped && assume) { stopped = true; stop = wire.size(); } malformed = true; blankOk = true; wire += s.pick({ "garbage", "From a@b.example Mon Jan  1 00:00:00 2024", "two words", ">From x: y", "X-Broken no colon", "a \t b: c", "--", ".", "HTTP/1.1 200 OK", "name \tx:", "X" }) + genEol(s); break; }
		default: if (!blankOk || assume) break; wire += ws(s) + s.pick({ "indented", "X-A: indented", "i: j", ">" }) + genEol(s); c.label("indented line without field"); }
	}
	std::string head = wire; body = s.pick({ "", "body", "body\r\nX-A: not a field\r\n", "\r\n\r\n", " x", "garbage\r\n", ".\r\n" }) + (s.oneIn(6) ? s.bytes(s.size(30)) : ""); bool eoh = s.draw(5) != 0; bool dangling = false;
	if (eoh) { if (blankOk && s.oneIn(4) && !stopped) { wire += ws(s); c.label("blank line ends the header"); } wire += genEol(s); if (!stopped) stop = wire.size(); wire += body; }
	else { c.label("no body"); if (!wire.empty() && s.coin()) { wire.pop_back(); if (!wire.empty() && wire.back() == '\r') wire.pop_back(); dangling = true; c.label("no line end"); if (stop > wire.size()) stop = wire.size(); } if (!stopped) stop = wire.size(); }
	if (assume && malformed && !stopped) return; std::string rest = wire.substr(stop); c.mix(wire); c.nontrivial(malformed || want.size() > 1); if (malformed) c.label(assume ? "malformed: end of header" : "malformed: skipped"); if (after) c.label("fields after a malformed line");
	bool nested = !wire.empty() && s.oneIn(3); std::string all = wire; if (nested) { c.label("in a part"); all = "MIME-Version: 1.0\r\nContent-Type: multipart/mixed; boundary=\"bnd=_7\"\r\n\r\n--bnd=_7\r\n" + wire + "\r\n--bnd=_7--\r\n"; }
	int how = (int) s.draw(assume ? 1 : 2); NOTE(c, "how " << how << (assume ? " ASSUME_END_OF_HEADERS " : "SKIP_LINE ") << pbt::esc(all)); (void) dangling;
	vmime::parsingContext ctx; CHECK_EQ((int) ctx.getHeaderParseErrorRecoveryMethod(), (int) RM::SKIP_LINE, "default method"); if (assume) ctx.setHeaderParseErrorRecoveryMethod(RM::ASSUME_END_OF_HEADERS); else if (s.coin()) ctx.setHeaderParseErrorRecoveryMethod(RM::SKIP_LINE);
	vmime::parsingContext ctx2(ctx); bool copy = s.coin(); vmime::parsingContext& use = copy ? ctx2 : ctx; auto m = vmime::make_shared <vmime::message>();
	if (how == 0) m->parse(use, all); else if (how == 1) { auto in = vmime::make_shared <chunkSeekIn>(all, genCuts(s)); m->parse(use, vmime::dynamicCast <vmime::utility::inputStream>(in), 0, all.size(), nullptr); } else m->parse(all);
	if (how != 2) CHECK_EQ((int) use.getHeaderRecoveryNeeded(), (int) malformed, "recovery needed"); if (copy) CHECK_EQ((int) ctx.getHeaderRecoveryNeeded(), 0, "recovery needed, of the context which was not used");
	vmime::shared_ptr <vmime::bodyPart> p = m; if (nested) { CHECK_EQ(m->getBody()->getPartCount(), 1u, "parts"); p = m->getBody()->getPartAt(0); }
	CHECK_EQ(fieldsOf(p->getHeader()), want, "header fields"); strOut os; p->getBody()->getContents()->extractRaw(os); CHECK_EQ(pbt::esc(os.s), pbt::esc(rest), "body"); CHECK_EQ(p->getBody()->getPartCount(), 0u, "parts of the body");
	// generated again, there is nothing to recover from
	std::string g = p->getHeader()->generate(); vmime::header h2; vmime::parsingContext c3; h2.parse(c3, g); CHECK_EQ((int) c3.getHeaderRecoveryNeeded(), 0, "the header generated is malformed: " + pbt::esc(g)); auto h3 = vmime::make_shared <vmime::header>(); h3->parse(g); CHECK_EQ(fieldsOf(h3), want, "fields after generating and parsing");
}
Property makeProperty() {
	Property p; p.id = "C41"; p.run = run; p.init = installPlatform; p.quick = 1000000; p.thorough = 6000000;
	p.rule = "headers of up to 7 lines: fields (folded, without value, with blanks around the colon), lines which are not fields, indented lines which continue none, ended by an empty or blank line (CRLF or LF), by the end of the data, or in the middle of a line; as a message or as a part, from text or a stream, with both recovery methods; non-trivial: a malformed line or several fields";
	p.assumptions = { "fields of text type, printable ASCII", "indented lines which continue no field are generated with the method SKIP_LINE only" };
	return p;
}
