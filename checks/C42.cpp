// C42: parsing and generation contexts: settings are kept by copies, used by what is given the context, and put back after a switch.
#include "common.hpp"
#include "vmime/parsingContext.hpp"
#include "vmime/generationContext.hpp"
#include "vmime/contentDispositionField.hpp"
typedef vmime::generationContext G; typedef vmime::parsingContext P; typedef vmime::headerParseRecoveryMethod RM;
struct mG { bool intl = false, wrap = true, silent = true; std::string inv = "?", pro, epi; size_t max = 0; int mode = 0; };
struct mP { bool intl = false, host = true, silent = true; std::string inv = "?"; int rec = 0; };
static std::string S(const mG& g) { return "intl " + std::to_string(g.intl) + " wrap " + std::to_string(g.wrap) + " silent " + std::to_string(g.silent) + " replacement " + g.inv + " prolog " + g.pro + " epilog " + g.epi + " length " + std::to_string(g.max) + " mode " + std::to_string(g.mode); }
static std::string S(const mP& p) { return "intl " + std::to_string(p.intl) + " host " + std::to_string(p.host) + " silent " + std::to_string(p.silent) + " replacement " + p.inv + " recovery " + std::to_string(p.rec); }
static mG F(const G& g) { mG m; m.intl = g.getInternationalizedEmailSupport(); m.wrap = g.getWrapMessageId(); m.silent = g.getCharsetConversionOptions().silentlyReplaceInvalidSequences; m.inv = g.getCharsetConversionOptions().invalidSequence; m.pro = g.getPrologText(); m.epi = g.getEpilogText(); m.max = g.getMaxLineLength(); m.mode = (int) g.getEncodedParameterValueMode(); return m; }
static mP F(const P& p) { mP m; m.intl = p.getInternationalizedEmailSupport(); m.host = p.getUseMyHostname(); m.silent = p.getCharsetConversionOptions().silentlyReplaceInvalidSequences; m.inv = p.getCharsetConversionOptions().invalidSequence; m.rec = (int) p.getHeaderParseErrorRecoveryMethod(); return m; }
static void cnv(Source& s, vmime::context& x, bool& silent, std::string& inv) { vmime::charsetConverterOptions o; o.silentlyReplaceInvalidSequences = silent = s.coin(); o.invalidSequence = inv = s.pick({ "?", "", "_", "\xef\xbf\xbd" }); x.setCharsetConversionOptions(o); }
static std::string set(Source& s, G& g, mG& m) {
	switch (s.draw(6)) {
	case 0: g.setInternationalizedEmailSupport(m.intl = s.coin()); return "internationalized"; case 1: g.setWrapMessageId(m.wrap = s.coin()); return "wrap"; case 2: cnv(s, g, m.silent, m.inv); return "conversion";
	case 3: m.pro = s.pick({ "", "prolog", "see\r\nbelow" }); g.setPrologText(m.pro); return "prolog"; case 4: m.epi = s.pick({ "", "epilog" }); g.setEpilogText(m.epi); return "epilog";
	case 5: m.max = s.pick(std::vector<size_t>{ 40, 78, 60, 200, 998 }); g.setMaxLineLength(m.max); return "line length";
	default: { static const G::EncodedParameterValueModes M[] = { G::EncodedParameterValueModes::PARAMETER_VALUE_NO_ENCODING, G::EncodedParameterValueModes::PARAMETER_VALUE_RFC2047_ONLY, G::EncodedParameterValueModes::PARAMETER_VALUE_RFC2231_ONLY, G::EncodedParameterValueModes::PARAMETER_VALUE_RFC2231_AND_RFC2047 }; auto v = M[s.draw(3)]; g.setEncodedParameterValueMode(v); m.mode = (int) v; return "parameters"; } }
}
static std::string set(Source& s, P& p, mP& m) { switch (s.draw(3)) { case 0: p.setInternationalizedEmailSupport(m.intl = s.coin()); return "internationalized"; case 1: p.setUseMyHostname(m.host = s.coin()); return "host name"; case 2: cnv(s, p, m.silent, m.inv); return "conversion"; default: { auto v = s.coin() ? RM::SKIP_LINE : RM::ASSUME_END_OF_HEADERS; p.setHeaderParseErrorRecoveryMethod(v); m.rec = (int) v; return "recovery"; } } }
static vmime::shared_ptr <vmime::message> sample(Source& s) {
	auto m = vmime::make_shared <vmime::message>(); auto h = m->getHeader(); h->MessageId()->setValue(vmime::messageId(std::string(30 + s.draw(60), 'i'), "host.example")); h->Subject()->setValue(vmime::text(s.pick({ "a long subject of many words, which is folded somewhere or other, depending on the length", "caf\xc3\xa9 cr\xc3\xa8me" }), vmime::charset("utf-8")));
	h->From()->setValue(vmime::mailbox(vmime::text("Ren\xc3\xa9", vmime::charset("utf-8")), vmime::emailAddress(vmime::word("ren\xc3\xa9", vmime::charset("utf-8")), vmime::word("h.example", vmime::charset("utf-8")))));
	auto d = vmime::dynamicCast <vmime::contentDispositionField>(h->ContentDisposition()); d->setValue(vmime::contentDisposition("attachment")); d->setFilename(vmime::word(s.pick({ "caf\xc3\xa9 a.txt", "plain name.txt" }), vmime::charset("utf-8")));
	if (s.coin()) { h->ContentType()->setValue(vmime::mediaType("multipart", "mixed")); vmime::dynamicCast <vmime::contentTypeField>(h->ContentType())->setBoundary("=_bnd"); auto p = vmime::make_shared <vmime::bodyPart>(); p->getHeader()->Subject()->setValue(vmime::text("part")); p->getBody()->setContents(vmime::make_shared <vmime::stringContentHandler>("contents")); m->getBody()->appendPart(p); } else m->getBody()->setContents(vmime::make_shared <vmime::stringContentHandler>("some contents"));
	return m;
}
static std::string gen(const vmime::shared_ptr <vmime::message>& m, const G* g) { strOut os; if (g) m->generate(*g, os); else m->generate(os); return os.s; }
static std::string parsed(P* p, const std::string& w) { auto m = vmime::make_shared <vmime::message>(); if (p) m->parse(*p, w); else m->parse(w); std::string r; for (auto& f : m->getHeader()->getFieldList()) r += f->getName() + "|" + f->getValue()->generate(10000) + "\n"; strOut os; m->getBody()->getContents()->extractRaw(os); return r + "\n" + os.s; }
template <class C, class M> struct lab {
	typedef vmime::context::switcher <C> SW; C ctx[3]; M mod[3]; std::vector<std::unique_ptr <SW>> sw; std::vector<M> saved; M def, first;
	lab() { first = def = F(C::getDefaultContext()); for (int i = 0 ; i < 3 ; ++i) mod[i] = F(ctx[i]); }
	~lab() { while (!sw.empty()) sw.pop_back(); C::getDefaultContext() = C(); }
	void all(const std::string& op) { for (int i = 0 ; i < 3 ; ++i) CHECK_EQ(S(F(ctx[i])), S(mod[i]), "context " + std::to_string(i) + " after " + op); CHECK_EQ(S(F(C::getDefaultContext())), S(def), "default context after " + op); }
	bool step(Source& s, Ctx& c) {
		int i = (int) s.draw(2), j = (int) s.draw(2); std::string op; bool copied = false;
		switch (s.weighted({ 5, 2, 2, 2, 2, 1, 1 })) {
		case 0: op = "setting " + set(s, ctx[i], mod[i]) + " of " + std::to_string(i); break;
		case 1: { C k(ctx[i]); op = "copying " + std::to_string(i); CHECK_EQ(S(F(k)), S(mod[i]), "copy"); M km = mod[i]; std::string w = set(s, k, km); CHECK_EQ(S(F(k)), S(km), "copy after setting " + w); copied = true; break; }
		case 2: op = "assigning " + std::to_string(i) + " to " + std::to_string(j); if (s.coin()) ctx[j] = ctx[i]; else { C k; k = ctx[i]; ctx[j] = k; } mod[j] = mod[i]; copied = true; break;
		case 3: if (sw.size() >= 3) break; op = "switching to " + std::to_string(i); saved.push_back(def); sw.emplace_back(new SW(ctx[i])); def = mod[i]; c.label("switch"); if (sw.size() > 1) c.label("nested switch"); copied = true; break;
		case 4: if (sw.empty()) break; op = "switching back"; sw.pop_back(); def = saved.back(); saved.pop_back(); break;
		case 5: op = "setting " + set(s, C::getDefaultContext(), def) + " of the default context"; break;
		default: { C k(C::getDefaultContext()); op = "copying the default context"; CHECK_EQ(S(F(k)), S(def), "copy of the default context"); ctx[i] = k; mod[i] = def; copied = true; } }
		if (!op.empty()) { NOTE(c, op); c.mix(op); all(op); } return copied;
	}
};
static void generation(Source& s, Ctx& c) {
	c.label("generation"); lab<G, mG> L; unsigned cp = 0; for (unsigned k = 0 ; k < 20 && s.more(8) ; ++k) cp += L.step(s, c); c.nontrivial(cp > 0); auto m = sample(s); int i = (int) s.draw(2); G pure; { const mG& q = L.mod[i]; pure.setInternationalizedEmailSupport(q.intl); pure.setWrapMessageId(q.wrap); vmime::charsetConverterOptions o; o.silentlyReplaceInvalidSequences = q.silent; o.invalidSequence = q.inv; pure.setCharsetConversionOptions(o); pure.setPrologText(q.pro); pure.setEpilogText(q.epi); pure.setMaxLineLength(q.max); pure.setEncodedParameterValueMode((G::EncodedParameterValueModes) q.mode); }
	std::string a = gen(m, &pure), b = gen(m, &L.ctx[i]); CHECK_EQ(b, a, "message generated with context " + std::to_string(i)); { vmime::context::switcher <G> sw(L.ctx[i]); CHECK_EQ(gen(m, nullptr), a, "message generated after switching to context " + std::to_string(i)); } L.all("generating"); if (s.coin()) { L.all("generating"); G k(L.ctx[i]); CHECK_EQ(gen(m, &k), a, "message generated with a copy"); }
	if (L.mod[i].pro == "prolog" && m->getBody()->getPartCount()) CHECK_MSG(a.find("\r\n\r\nprolog\r\n--=_bnd") != a.npos, "prolog: " << a); if (L.mod[i].epi == "epilog" && m->getBody()->getPartCount()) CHECK_MSG(a.find("--=_bnd--\r\nepilog") != a.npos, "epilog: " << a);
	while (!L.sw.empty()) { L.sw.pop_back(); } CHECK_MSG(L.saved.empty() || S(F(G::getDefaultContext())) == S(L.saved[0]), "default context after all switches");
}
static void parsing(Source& s, Ctx& c) {
	c.label("parsing"); lab<P, mP> L; unsigned cp = 0; for (unsigned k = 0 ; k < 20 && s.more(8) ; ++k) cp += L.step(s, c); c.nontrivial(cp > 0); std::string w = "Subject: one\r\n" + s.pick({ "", "not a field\r\n" }) + "From: " + s.pick({ "a@b.example", "postmaster", "=?utf-8?Q?caf=C3=A9?= <x>", "ren\xc3\xa9@h.example" }) + "\r\nX-A: two\r\n\r\nbody"; c.mix(w); NOTE(c, pbt::esc(w)); int i = (int) s.draw(2); P pure; { const mP& q = L.mod[i]; pure.setInternationalizedEmailSupport(q.intl); pure.setUseMyHostname(q.host); vmime::charsetConverterOptions o; o.silentlyReplaceInvalidSequences = q.silent; o.invalidSequence = q.inv; pure.setCharsetConversionOptions(o); pure.setHeaderParseErrorRecoveryMethod((RM::headerLineError) q.rec); }
	std::string a = parsed(&pure, w), b = parsed(&L.ctx[i], w); CHECK_EQ(b, a, "message parsed with context " + std::to_string(i)); { vmime::context::switcher <P> sw(L.ctx[i]); CHECK_EQ(parsed(nullptr, w), a, "message parsed after switching to context " + std::to_string(i)); } L.all("parsing"); P k(L.ctx[i]); CHECK_EQ(parsed(&k, w), a, "message parsed with a copy");
	bool bad = w.find("not a field") != w.npos; CHECK_EQ((int) (a.find("From|") != a.npos), (int) (!bad || L.mod[i].rec == RM::SKIP_LINE), "field after a malformed line"); if (!bad && w.find("postmaster") != w.npos) CHECK_EQ((int) (a.find("postmaster@" + vmime::platform::getHandler()->getHostName()) != a.npos), (int) L.mod[i].host, "host name added: " + a);
	while (!L.sw.empty()) { L.sw.pop_back(); } CHECK_MSG(L.saved.empty() || S(F(P::getDefaultContext())) == S(L.saved[0]), "default context after all switches");
}
static void run(Source& s, Ctx& c) { if (s.coin()) generation(s, c); else parsing(s, c); }
Property makeProperty() {
	Property p; p.id = "C42"; p.run = run; p.init = installPlatform; p.quick = 250000; p.thorough = 2000000;
	p.rule = "up to 20 steps on three contexts and the default one (each setting, copies by construction and assignment, nested switches of the default context and back), then a message generated or parsed with a context made from nothing with the expected settings, with the context, with a copy and as default context; non-trivial: something was copied or switched";
	return p;
}
