#include "textgen.hpp"
#include "gen.hpp"
#include "vmime/relay.hpp"
#include "vmime/path.hpp"
#include "vmime/disposition.hpp"
#include "vmime/mailboxField.hpp"
// Copies (clone, copyFrom over a used object, copy construction, assignment, self-assignment) of every component of a
// random tree: same text as the source, unaffected by later changes of the source and the other way round, usable after it is gone.
typedef vmime::shared_ptr<vmime::component> comp;

static std::string txt(const vmime::component& c) {
	std::string r;
	auto g = [&](size_t m) { try { std::string a = c.generate(m), b = c.generate(m); return a == b ? a : std::string("(random)"); } catch (const vmime::exception& e) { return std::string("throws ") + e.name(); } };
	r = g(78) + "\x01" + g(vmime::lineLengthLimits::infinite); return r;
}
static std::string sig(const comp& c) {
	if (auto p = vmime::dynamicCast<vmime::bodyPart>(c)) return dump(p, false, true) + txt(*c);
	if (auto b = vmime::dynamicCast<vmime::body>(c)) { std::string r = b->getPrologText() + "|" + b->getEpilogText() + "|"; try { r += extractRawStr(b->getContents()); } catch (const vmime::exception& e) { r += e.name(); } for (auto& p : b->getPartList()) r += dump(p, false, true); return r + txt(*c); }
	if (auto w = vmime::dynamicCast<vmime::word>(c)) return w->getBuffer() + "|" + w->getCharset().getName() + "|" + w->getLanguage() + "|" + txt(*c);
	if (auto w = vmime::dynamicCast<vmime::text>(c)) { std::string r; for (auto& x : w->getWordList()) r += x->getBuffer() + "|" + x->getCharset().getName() + "|" + x->getLanguage() + "|"; return r + txt(*c); }
	if (auto p = vmime::dynamicCast<vmime::parameter>(c)) return p->getName() + "|" + p->getValue().getBuffer() + "|" + p->getValue().getCharset().getName() + "|" + p->getValue().getLanguage() + "|" + txt(*c);
	if (auto e = vmime::dynamicCast<vmime::encoding>(c)) return txt(*c) + "|" + std::to_string((int) e->getUsage());
	return txt(*c);
}
static void below(const comp& c, std::vector<comp>& out) {
	if (!c || out.size() > 300) return;
	out.push_back(c);
	if (auto f = vmime::dynamicCast<vmime::headerField>(c)) { below(f->getValue(), out); if (auto pf = vmime::dynamicCast<vmime::parameterizedHeaderField>(c)) for (auto& p : pf->getParameterList()) below(p, out); return; }
	for (auto& x : c->getChildComponents()) below(x, out);
}
static vmime::shared_ptr<vmime::bodyPart> leafPart(Source& s) { auto p = vmime::make_shared<vmime::bodyPart>(); p->getHeader()->ContentType()->setValue(vmime::mediaType("text/x-" + std::to_string(s.draw(9)))); p->getBody()->setContents(vmime::make_shared<vmime::stringContentHandler>("part " + s.str(5, "abc\r\n"))); return p; }
static vmime::shared_ptr<vmime::headerField> someField(Source& s) {
	std::string n = genFieldName(s); auto f = vmime::headerFieldFactory::getInstance()->create(n);
	try { f->parse(genGoodValue(s, n, "")); } catch (const vmime::exception&) { }
	return f;
}
static vmime::word someWord(Source& s) { vmime::word w(s.str(6, "abcdef \xc3\xa9=?\""), vmime::charset(s.pick({ "us-ascii", "utf-8", "iso-8859-1" }))); if (s.oneIn(4)) w.setLanguage("fr"); return w; }
static vmime::text someText(Source& s) { vmime::text t; unsigned n = (unsigned) s.draw(3); for (unsigned i = 0 ; i < n ; ++i) t.appendWord(vmime::make_shared<vmime::word>(someWord(s))); return t; }
static vmime::shared_ptr<vmime::address> someAddr(Source& s) { if (s.oneIn(4)) { auto g = vmime::make_shared<vmime::mailboxGroup>(someText(s)); unsigned n = (unsigned) s.draw(2); for (unsigned i = 0 ; i < n ; ++i) g->appendMailbox(vmime::make_shared<vmime::mailbox>(someText(s), vmime::emailAddress("u" + std::to_string(i), "h.org"))); return g; } return vmime::make_shared<vmime::mailbox>(someText(s), vmime::emailAddress(s.pick({ "a", "bob", "x.y" }), s.pick({ "c.d", "h" }))); }

// changes one component in some way
static void mutate(Source& s, const comp& c, std::string& what) {
	what = typeid(*c).name();
	if (s.oneIn(5) && !vmime::dynamicCast<vmime::bodyPart>(c) && !vmime::dynamicCast<vmime::body>(c)) { what += " parse"; try { std::string v = genValueSoup(s); c->parse(v); } catch (const vmime::exception&) { } return; }
#define AS(T) if (auto x = vmime::dynamicCast<vmime::T>(c))
	AS(bodyPart) { switch (s.draw(3)) { case 0: { auto h = vmime::make_shared<vmime::header>(); h->Subject()->setValue(vmime::text("new header")); x->setHeader(h); break; } case 1: { auto b = vmime::make_shared<vmime::body>(); b->setPrologText("new body"); b->setContents(vmime::make_shared<vmime::stringContentHandler>("new contents")); x->setBody(b); break; } case 2: { std::string t = genEntity(s, soupOpts(), 2, ""); x->parse(t); break; } default: x->getBody()->appendPart(leafPart(s)); } return; }
	AS(body) { switch (s.draw(7)) { case 0: x->appendPart(leafPart(s)); break; case 1: if (x->getPartCount()) x->removePart((size_t) 0); else x->setPrologText("zz"); break; case 2: x->removeAllParts(); break; case 3: x->setPrologText("p" + s.str(3, "ab")); break; case 4: x->setEpilogText("e" + s.str(3, "ab")); break; case 5: x->setContents(vmime::make_shared<vmime::stringContentHandler>("changed " + s.str(3, "ab"))); break; case 6: if (x->getPartCount()) x->insertPartBefore((size_t) 0, leafPart(s)); else x->setEncoding(vmime::encoding("base64")); break; default: x->setContentType(vmime::mediaType("image/x-zz"), vmime::charset("utf-8")); } return; }
	AS(header) { switch (s.draw(4)) { case 0: x->appendField(someField(s)); break; case 1: if (x->getFieldCount()) x->removeField((size_t) s.draw(x->getFieldCount() - 1)); break; case 2: x->removeAllFields(); break; case 3: x->Subject()->setValue(vmime::text("changed subject")); break; default: if (x->getFieldCount()) x->replaceField(x->getFieldAt(0), someField(s)); } return; }
	AS(parameterizedHeaderField) { switch (s.draw(4)) { case 0: x->appendParameter(vmime::make_shared<vmime::parameter>("zz", someWord(s))); return; case 1: if (x->getParameterCount()) x->removeParameter((size_t) s.draw(x->getParameterCount() - 1)); return; case 2: x->getParameter("yy")->setValue(someWord(s)); return; case 3: if (x->getParameterCount()) x->insertParameterBefore((size_t) 0, vmime::make_shared<vmime::parameter>("ww", someWord(s))); return; default: break; } }
	AS(headerField) { switch (s.draw(2)) { case 0: x->setName("X-Renamed"); break; case 1: x->setValue("changed value"); break; default: { auto v = vmime::clone(x->getValue()); try { v->parse("other"); } catch (const vmime::exception&) { } x->setValue(v); } } return; }
	AS(parameter) { switch (s.draw(3)) { case 0: x->setValue(vmime::word("renamed")); break; case 1: x->setValue(someWord(s)); break; case 2: x->setValue(vmime::charset("x-changed")); break; default: x->setValue(vmime::word("v1")); } return; }
	AS(word) { switch (s.draw(2)) { case 0: x->setBuffer("changed" + s.str(3, "ab ")); break; case 1: x->setCharset(vmime::charset("iso-8859-15")); break; default: x->setLanguage("de"); x->setBuffer("\xc3\xa9"); } return; }
	AS(text) { switch (s.draw(4)) { case 0: x->appendWord(vmime::make_shared<vmime::word>(someWord(s))); break; case 1: if (x->getWordCount()) x->removeWord((size_t) 0); break; case 2: x->removeAllWords(); break; case 3: if (x->getWordCount()) x->getWordAt((size_t) s.draw(x->getWordCount() - 1))->setBuffer("changed word"); break; default: x->createFromString("created \xc3\xa9", vmime::charset("utf-8")); } return; }
	AS(mailbox) { if (s.coin()) x->setName(someText(s)); else x->setEmail(vmime::emailAddress("changed", "z.z")); return; }
	AS(mailboxGroup) { switch (s.draw(3)) { case 0: x->setName(someText(s)); break; case 1: x->appendMailbox(vmime::make_shared<vmime::mailbox>("n@n")); break; case 2: x->removeAllMailboxes(); break; default: if (x->getMailboxCount()) x->getMailboxAt(0)->setEmail(vmime::emailAddress("q@q")); } return; }
	AS(addressList) { switch (s.draw(3)) { case 0: x->appendAddress(someAddr(s)); break; case 1: x->removeAllAddresses(); break; case 2: if (x->getAddressCount()) x->removeAddress((size_t) s.draw(x->getAddressCount() - 1)); break; default: if (x->getAddressCount()) x->insertAddressBefore((size_t) 0, someAddr(s)); } return; }
	AS(mailboxList) { switch (s.draw(2)) { case 0: x->appendMailbox(vmime::make_shared<vmime::mailbox>("n@n")); break; case 1: x->removeAllMailboxes(); break; default: if (x->getMailboxCount()) x->getMailboxAt(0)->setName(vmime::text("nn")); } return; }
	AS(messageIdSequence) { switch (s.draw(2)) { case 0: x->appendMessageId(vmime::make_shared<vmime::messageId>("new", "id")); break; case 1: x->removeAllMessageIds(); break; default: if (x->getMessageIdCount()) x->getMessageIdAt(0)->setLeft("left"); } return; }
	AS(messageId) { if (s.coin()) x->setLeft("ll"); else x->setRight("rr"); return; }
	AS(emailAddress) { if (s.coin()) x->setLocalName(vmime::word("ll")); else x->setDomainName(vmime::word("dd.dd")); return; }
	AS(mediaType) { if (s.coin()) x->setType("tt"); else x->setSubType("ss"); return; }
	AS(encoding) { if (s.oneIn(3)) x->setUsage(vmime::encoding::USAGE_TEXT); else x->setName(s.coin() ? "x-e" : "base64"); return; }
	AS(contentDisposition) { x->setName("x-d"); return; }
	AS(charset) { *x = vmime::charset("x-c"); return; }
	AS(datetime) { x->setDate(1999, 2, 3); x->setTime(4, 5, 6, 60); return; }
	AS(disposition) { switch (s.draw(3)) { case 0: x->addModifier("mm"); break; case 1: x->setType("tt"); break; case 2: x->setActionMode("aa"); break; default: x->setSendingMode("ss"); } return; }
	AS(relay) { switch (s.draw(3)) { case 0: x->setFrom("ff"); break; case 1: x->getWithList().push_back("ww"); break; case 2: x->setDate(vmime::datetime(1999, 1, 1)); break; default: x->setFor("rr"); } return; }
	AS(path) { x->setLocalPart("pp"); x->setDomain("dd"); return; }
#undef AS
}
// clone; a body is put in a part of its own (with the same header), as it must belong to one
static std::vector<vmime::shared_ptr<vmime::bodyPart>> holders; static vmime::shared_ptr<vmime::header> bodyHeader; static bool bodyNested;
static comp dup(const comp& o) { comp k = o->clone(); if (auto b = vmime::dynamicCast<vmime::body>(k)) { auto p = vmime::make_shared<vmime::bodyPart>(); if (bodyHeader) p->setHeader(vmime::clone(bodyHeader)); { std::string x = txt(*b); (void) x; } p->setBody(b); if (bodyNested) { auto q = vmime::make_shared<vmime::bodyPart>(); q->getBody()->appendPart(p); holders.push_back(q); } holders.push_back(p); } else if (auto x = vmime::dynamicCast<vmime::bodyPart>(o)) if (x->getParentPart()) { auto q = vmime::make_shared<vmime::bodyPart>(); q->getBody()->appendPart(vmime::dynamicCast<vmime::bodyPart>(k)); holders.push_back(q); /* a part is generated differently when it is the outermost one */ } return k; }
static void rehead(const comp& k) { if (auto b = vmime::dynamicCast<vmime::body>(k)) if (!holders.empty()) { auto h = vmime::make_shared<vmime::header>(); if (bodyHeader) h = vmime::clone(bodyHeader); holders.back()->setHeader(h); } }
// copy of c made in one of the possible ways
static comp copyOf(Source& s, Ctx& c, const comp& o, std::string& how) {
	switch (s.draw(3)) {
	case 0: how = "clone"; return dup(o);
	case 1: { how = "copyFrom"; comp k = dup(o); unsigned n = (unsigned) s.draw(3); for (unsigned i = 0 ; i < n ; ++i) { std::vector<comp> v; below(k, v); std::string w; mutate(s, v[s.draw(v.size() - 1)], w); } if (n) c.label("copied over a used object"); if (auto f = vmime::dynamicCast<vmime::headerField>(o)) { vmime::dynamicCast<vmime::headerField>(k)->setName(f->getName()); }  /* the name is not copied */ k->copyFrom(*o); rehead(k); return k; }
	case 2: {
#define AS(T) if (auto x = vmime::dynamicCast<vmime::T>(o)) { how = "copy constructor"; return vmime::make_shared<vmime::T>(*x); }
		AS(word) AS(text) AS(mailbox) AS(mailboxGroup) AS(addressList) AS(mailboxList) AS(messageIdSequence) AS(messageId) AS(emailAddress) AS(mediaType) AS(encoding) AS(contentDisposition) AS(charset) AS(datetime) AS(disposition) AS(relay) AS(path)
#undef AS
		how = "clone"; return dup(o); }
	default: {
#define AS(T) if (auto x = vmime::dynamicCast<vmime::T>(o)) { how = "assignment"; auto k = vmime::dynamicCast<vmime::T>(dup(o)); std::string w; mutate(s, k, w); *k = *x; rehead(k); return k; }
		AS(message) AS(bodyPart) AS(body) AS(header) AS(word) AS(text) AS(mailbox) AS(mailboxGroup) AS(addressList) AS(mailboxList) AS(messageIdSequence) AS(messageId) AS(emailAddress) AS(mediaType) AS(encoding) AS(contentDisposition) AS(charset) AS(datetime) AS(disposition) AS(relay) AS(path) AS(parameter)
#undef AS
		how = "clone"; return dup(o); }
	}
}
static void run(Source& s, Ctx& c) {
	comp root;
	switch (s.draw(4)) {
	case 0: case 1: { auto m = vmime::make_shared<vmime::message>(); std::string t = s.coin() ? genMessageText(s) : genEntity(s, soupOpts{ false, 4 }, 0, ""); c.mix(t); NOTE(c, "message " << pbt::show(t)); m->parse(t); root = m; c.label("parsed message"); break; }
	case 2: { auto h = vmime::make_shared<vmime::header>(); unsigned n = 1 + (unsigned) s.draw(6); for (unsigned i = 0 ; i < n ; ++i) { auto f = someField(s); if (auto pf = vmime::dynamicCast<vmime::parameterizedHeaderField>(f)) while (s.oneIn(2)) pf->appendParameter(vmime::make_shared<vmime::parameter>(s.pick({ "a", "b", "filename" }), someWord(s))); h->appendField(f); } root = h; c.label("built header"); break; }
	case 3: { auto p = vmime::make_shared<vmime::message>(); p->getHeader()->To()->setValue(vmime::addressList()); p->getBody()->setPrologText("pro"); unsigned n = (unsigned) s.draw(3); for (unsigned i = 0 ; i < n ; ++i) { auto q = leafPart(s); if (s.oneIn(3)) q->getBody()->appendPart(leafPart(s)); p->getBody()->appendPart(q); } root = p; c.label("built message"); break; }
	default:
		switch (s.draw(9)) { case 0: { auto l = vmime::make_shared<vmime::addressList>(); unsigned n = (unsigned) s.draw(4); for (unsigned i = 0 ; i < n ; ++i) l->appendAddress(someAddr(s)); root = l; break; } case 1: { auto l = vmime::make_shared<vmime::mailboxList>(); unsigned n = (unsigned) s.draw(3); for (unsigned i = 0 ; i < n ; ++i) l->appendMailbox(vmime::make_shared<vmime::mailbox>(someText(s), vmime::emailAddress("a", "b"))); root = l; break; } case 2: root = vmime::make_shared<vmime::text>(someText(s)); break; case 3: root = vmime::make_shared<vmime::word>(someWord(s)); break; case 4: root = someAddr(s); break;
		case 5: { auto r = vmime::make_shared<vmime::relay>(); r->setFrom("a (b)"); r->setBy("c"); unsigned n = (unsigned) s.draw(3); for (unsigned i = 0 ; i < n ; ++i) r->getWithList().push_back("p" + std::to_string(i)); r->setId("id1"); r->setDate(vmime::datetime(2001, 2, 3, 4, 5, 6, 60)); root = r; break; } case 6: { auto d = vmime::make_shared<vmime::disposition>("manual-action", "MDN-sent-manually", "displayed", ""); unsigned n = (unsigned) s.draw(3); for (unsigned i = 0 ; i < n ; ++i) d->addModifier("m" + std::to_string(i)); root = d; break; }
		case 7: { auto p = vmime::make_shared<vmime::parameter>("nm"); p->setValue(someWord(s)); root = p; break; } case 8: { auto q = vmime::make_shared<vmime::messageIdSequence>(); unsigned n = (unsigned) s.draw(4); for (unsigned i = 0 ; i < n ; ++i) q->appendMessageId(vmime::make_shared<vmime::messageId>("m" + std::to_string(i), "h")); root = q; break; }
		default: root = vmime::make_shared<vmime::path>("l", "d"); } c.label("single value");
	}
	std::vector<comp> all; below(root, all);
	comp o = s.coin() ? root : all[s.draw(all.size() - 1)]; c.label(std::string("copy of ") + typeid(*o).name()); c.mix(typeid(*o).name());
	holders.clear(); bodyHeader = nullptr; if (vmime::dynamicCast<vmime::body>(o)) for (auto& x : all) if (auto p = vmime::dynamicCast<vmime::bodyPart>(x)) if (p->getBody() == o) { bodyHeader = p->getHeader(); bodyNested = p->getParentPart() != nullptr; }
	std::string before = sig(o), how; c.mix(before); c.nontrivial(before.size() > 4);
	comp k = copyOf(s, c, o, how); c.label(how);
	std::string tn = typeid(*o).name(); NOTE(c, tn << " " << how);
	CHECK_MSG(typeid(*k) == typeid(*o), "type of the copy"); 
	CHECK_EQ(sig(k), before, tn + ": text of the copy (" + how + ")"); CHECK_EQ(sig(o), before, tn + ": text of the source after being copied (" + how + ")");
	if (s.oneIn(4)) { comp z = s.coin() ? o : k; z->copyFrom(*z); CHECK_EQ(sig(z), before, tn + ": text after being copied onto itself"); c.label("self-assignment"); }
	unsigned rounds = 1 + (unsigned) s.draw(3);
	for (unsigned i = 0 ; i < rounds ; ++i) {
		bool src = s.coin(); comp m = src ? o : k, other = src ? k : o; std::vector<comp> v; below(m, v); std::string w, keep = sig(other); size_t n = (size_t) s.draw(v.size() - 1);
		mutate(s, v[n], w); NOTE(c, "change of the " << (src ? "source" : "copy") << ": " << w << " (component " << n << " of " << v.size() << ")");
		CHECK_EQ(sig(other), keep, tn + " " + how + ": changed through the " + (src ? "source" : "copy") + " (" + w + ")");
	}
	std::string keep = sig(k), w; if (s.coin()) { o.reset(); root.reset(); all.clear(); CHECK_EQ(sig(k), keep, tn + " " + how + ": after its source is gone"); std::vector<comp> v; below(k, v); mutate(s, v[s.draw(v.size() - 1)], w); sig(k); } else { keep = sig(o); k.reset(); CHECK_EQ(sig(o), keep, tn + " " + how + ": after its copy is gone"); }
}
Property makeProperty() {
	Property p; p.id = "C15"; p.run = run; p.init = installPlatform; p.quick = 75000; p.thorough = 3000000;
	p.rule = "a parsed message (valid or broken), a built message or header, or a single value; the whole or any component below it copied by clone, copyFrom over a used object, copy construction, assignment; then up to 4 changes of any component of the source or of the copy, self-assignment, destruction of either; non-trivial: the text of the copied component is not empty";
	return p;
}
