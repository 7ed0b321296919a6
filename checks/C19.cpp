// C19: message builder -> generated text -> message parser gives back what was put in.
#include "addrgen.hpp"
#include "vmime/fileContentHandler.hpp"
#include "vmime/fileAttachment.hpp"
#include "vmime/parsedMessageAttachment.hpp"
#include "vmime/generatedMessageAttachment.hpp"
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>
static std::string extr(const vmime::shared_ptr <const vmime::contentHandler>& h) { strOut os; h->extract(os); return os.s; }
static vmime::shared_ptr <vmime::mailbox> mkM(Source& s, const mbx& m) { vmime::emailAddress e(vmime::word(m.local, vmime::charset("utf-8")), vmime::word(m.domain, vmime::charset("utf-8"))); return m.name.empty() ? vmime::make_shared <vmime::mailbox>(e) : vmime::make_shared <vmime::mailbox>(toText(s, m.name), e); }
static vmime::addressList mkL(Source& s, const std::vector<adr>& v) { vmime::addressList l; for (auto& a : v) { if (a.group) { auto g = vmime::make_shared <vmime::mailboxGroup>(toText(s, a.name)); for (auto& m : a.m) g->appendMailbox(mkM(s, m)); l.appendAddress(g); } else l.appendAddress(mkM(s, a.m[0])); } return l; }
static std::vector<adr> genL(Source& s) { std::vector<adr> r = genList(s, true); while (r.size() > 3) r.pop_back(); return r; }
static std::string genLine(Source& s, unsigned words) { std::string r; for (unsigned i = 0 ; i <= words ; ++i) { if (i) r += ' '; std::vector<uint32_t> o; genLetters(s, charsetsKnown()[s.coin() ? 0 : 1], 1 + (unsigned) s.draw(9), o, 5); r += toUtf8(o); } size_t p; while ((p = r.find("=?")) != std::string::npos) r[p] = 'x'; while ((p = r.find("?=")) != std::string::npos) r[p] = 'x'; return r; }
static std::string genData(Source& s) {
	switch (s.weighted({ 3, 3, 2, 1, 1 })) {
	case 0: return s.str(12, std::string("ab \r\n.=-\t\0\x80\xff", 12));
	case 1: { std::string r; unsigned n = (unsigned) s.draw(5); for (unsigned i = 0 ; i < n ; ++i) r += s.pick({ "line", ".", "From me", "--", "--=_", "", "Content-Type: text/plain", "a line of text which is somewhat longer than what is convenient for a line in a message", "caf\xc3\xa9 \xe9\xe8" }) + s.pick({ "\r\n", "\r\n", "\n", "\r" }); return r; }
	case 2: return s.bulk(s.size(400)); case 3: return s.bulk(s.sizeNear(70000, { 16384, 32768, 65536, 24576, 57 })); default: return std::string(s.sizeNear(2000, { 78, 998, 1000 }), 'x'); }
}
struct att { std::vector<std::pair<int, vmime::datetime>> dates; int kind; std::string data, type, desc, name; bool sizeKnown = false; vmime::shared_ptr <vmime::attachment> a; };
struct obj { std::string data, type, id; bool used; };
static std::string genType(Source& s, bool text) { return s.pick({ "application/octet-stream", "application/pdf", "image/png", "image/svg+xml", "audio/x-wav", "application/x-very-long-subtype.with-dots_and-more.vendor", "video/mp4", text ? "text/plain" : "text/css", text ? "text/html" : "application/json", text ? "text/csv" : "font/woff", "model/3mf" }); }
static const char* const ENCS[] = { "7bit", "8bit", "binary", "base64", "quoted-printable", "uuencode" };
static vmime::shared_ptr <vmime::contentHandler> mkData(Source& s, const std::string& d) {
	switch (s.draw(3)) { case 0: return vmime::make_shared <vmime::stringContentHandler>(d); case 1: return vmime::make_shared <vmime::streamContentHandler>(vmime::make_shared <chunkSeekIn>(d, genCuts(s)), d.size());
	case 2: return vmime::make_shared <vmime::streamContentHandler>(vmime::make_shared <chunkIn>(d, genCuts(s), s.coin()), d.size());
	default: { std::string e = s.pick({ "base64", "quoted-printable" }), st; if (e == "base64") st = refB64(d); else { vmime::utility::outputStreamStringAdapter os(st); chunkIn is(d, {}); auto en = vmime::encoding(e).getEncoder(); en->encode(is, os); os.flush(); } return vmime::make_shared <vmime::stringContentHandler>(st, vmime::encoding(e)); } }
}
static std::vector<std::string> files;
static att genAtt(Source& s, Ctx& c) {
	att a; a.kind = (int) s.weighted({ 4, 3, 2, 1 }); a.data = genData(s); a.type = genType(s, true); vmime::text desc; vmime::word name;
	if (s.coin()) { a.desc = genLine(s, (unsigned) s.draw(3)); desc = vmime::text(a.desc, vmime::charset("utf-8")); } if (s.draw(3)) { a.name = genLine(s, (unsigned) s.draw(2)) + s.pick({ ".txt", ".pdf", "", "\"", "\\", " (1).doc" }); if (a.name.find("=?") != std::string::npos) a.name = "n"; name = vmime::word(a.name, vmime::charset("utf-8")); }
	vmime::mediaType mt(a.type);
	switch (a.kind) {
	case 0: c.label("attachment: data"); if (s.coin()) a.a = vmime::make_shared <vmime::defaultAttachment>(mkData(s, a.data), mt, desc, name); else a.a = vmime::make_shared <vmime::defaultAttachment>(mkData(s, a.data), vmime::encoding(ENCS[s.draw(5)]), mt, desc, name); break;
	case 1: { c.label("attachment: file info"); auto h = mkData(s, a.data); auto f = s.coin() ? vmime::make_shared <vmime::fileAttachment>(h, name, mt, desc) : vmime::make_shared <vmime::fileAttachment>(h, name, mt, desc, vmime::encoding(ENCS[s.draw(5)])); for (int k = 0 ; k < 3 ; ++k) if (s.coin()) { vmime::datetime d((int) s.range(1970, 2099), (int) s.range(1, 12), (int) s.range(1, 28), (int) s.draw(23), (int) s.draw(59), (int) s.draw(59), (int) s.range(-720, 840)); a.dates.push_back({ k, d }); if (k == 0) f->getFileInfo().setCreationDate(d); else if (k == 1) f->getFileInfo().setModificationDate(d); else f->getFileInfo().setReadDate(d); } a.a = f; break; }
	case 2: { c.label("attachment: file"); std::string fn; for (char ch : a.name) if (ch != '/' && ch != '\0') fn += ch; if (fn.empty() || fn == "." || fn == ".." || fn.size() > 200) fn = "f"; std::string dir = pbt::scratchDir() + "/c19-" + std::to_string(getpid()) + "-" + std::to_string(files.size()); auto fs = vmime::platform::getHandler()->getFileSystemFactory(); mkdir(dir.c_str(), 0700); std::string full = dir + "/" + fn; { std::ofstream o(full, std::ios::binary | std::ios::trunc); o << a.data; } files.push_back(full); a.name = fn; a.sizeKnown = true; a.a = s.coin() ? vmime::make_shared <vmime::fileAttachment>(full, mt, desc) : vmime::make_shared <vmime::fileAttachment>(full, mt, desc, vmime::encoding(ENCS[s.draw(5)])); break; }
	default: { c.label("attachment: message"); auto m = vmime::make_shared <vmime::message>(); std::string t = "Subject: " + s.pick({ "in", "attached" }) + "\r\nX-Id: 1\r\n"; std::string body = genData(s); std::string n8; for (char ch : body) if (ch) n8 += ch; if (s.coin()) t += "Content-Type: multipart/mixed; boundary=\"in=b\"\r\n\r\npro\r\n--in=b\r\n\r\n" + n8 + "\r\n--in=b\r\nContent-Type: image/png\r\n\r\nx\r\n--in=b--\r\n"; else t += "\r\n" + n8; m->parse(t); strOut os; m->generate(os); a.data = os.s; a.type = "message/rfc822"; a.name = ""; a.desc = ""; a.a = vmime::make_shared <vmime::parsedMessageAttachment>(m); } }
	return a;
}
static void run(Source& s, Ctx& c) {
	files.clear(); vmime::messageBuilder mb; mbx from; bool hasFrom = s.draw(5) != 0; if (hasFrom) { from = genMbx(s); mb.setExpeditor(*mkM(s, from)); }
	std::vector<adr> to = genL(s), cc, bcc; if (s.oneIn(3)) cc = genL(s); if (s.oneIn(4)) bcc = genL(s); if (s.coin()) mb.setRecipients(mkL(s, to)); else { auto l = mkL(s, to); for (size_t i = 0 ; i < l.getAddressCount() ; ++i) mb.getRecipients().appendAddress(l.getAddressAt(i)); } mb.setCopyRecipients(mkL(s, cc)); mb.setBlindCopyRecipients(mkL(s, bcc));
	std::string subject; if (s.draw(5)) subject = genLine(s, (unsigned) s.draw(8)); mb.setSubject(vmime::text(subject, vmime::charset("utf-8")));
	std::string body = genData(s), plain, cs = s.pick({ "utf-8", "us-ascii", "iso-8859-1", "iso-2022-jp", "windows-1252", "x-own" }); bool html = s.coin(), csSet = s.draw(5) != 0; std::vector<obj> objs;
	NOTE(c, "from " << (hasFrom ? showM(from) : "(none)") << " to " << showA(to) << "cc " << showA(cc) << "bcc " << showA(bcc) << "subject " << pbt::show(subject)); c.mix(showA(to) + showA(cc) + showA(bcc) + subject + body);
	if (!html) { c.label("plain"); if (s.coin()) mb.constructTextPart(vmime::mediaType("text/plain")); auto tp = mb.getTextPart(); if (csSet) tp->setCharset(vmime::charset(cs)); tp->setText(mkData(s, body)); }
	else {
		c.label("html"); mb.constructTextPart(vmime::mediaType("text/html")); auto h = vmime::dynamicCast <vmime::htmlTextPart>(mb.getTextPart()); if (csSet) h->setCharset(vmime::charset(cs)); if (s.coin()) { plain = genData(s); h->setPlainText(mkData(s, plain)); }
		unsigned n = (unsigned) s.draw(4); if (s.coin()) n = 0;
		for (unsigned i = 0 ; i < n ; ++i) { obj o; o.data = genData(s); o.type = genType(s, false); vmime::shared_ptr <const vmime::htmlTextPart::embeddedObject> e; switch (s.draw(2)) { case 0: e = h->addObject(o.data, vmime::mediaType(o.type)); break; case 1: e = h->addObject(mkData(s, o.data), vmime::mediaType(o.type)); break; default: e = h->addObject(mkData(s, o.data), vmime::encoding(ENCS[s.draw(5)]), vmime::mediaType(o.type)); } o.id = e->getId(); CHECK_EQ(e->getReferenceId(), "cid:" + o.id, "reference id"); o.used = s.draw(5) != 0; objs.push_back(o); if (o.used) body += (s.coin() ? "<img src=\"" : "url(") + (s.coin() ? e->getReferenceId() : "CID:" + o.id) + s.pick({ "\">", ")", "'>\r\n" }); }
		if (!objs.empty()) c.label("embedded objects"); if (!plain.empty()) c.label("html and plain"); h->setText(mkData(s, body));
	}
	if (!csSet) cs = "us-ascii"; 
	std::vector<att> as; unsigned na = (unsigned) s.draw(3); if (s.oneIn(20)) na = 12; for (unsigned i = 0 ; i < na ; ++i) { as.push_back(genAtt(s, c)); if (s.coin()) mb.attach(as.back().a); else mb.appendAttachment(as.back().a); if (s.oneIn(8)) { size_t k = s.draw(as.size() - 1); mb.removeAttachment(k); as.erase(as.begin() + (long) k); c.label("attachment removed"); } }
	CHECK_EQ(mb.getAttachmentCount(), as.size(), "getAttachmentCount"); for (size_t i = 0 ; i < as.size() ; ++i) CHECK_MSG(mb.getAttachmentAt(i) == as[i].a && mb.getAttachmentList()[i] == as[i].a, "attachment " << i << " of the builder");
	NOTE(c, (html ? "html " : "plain ") << cs << " " << pbt::show(body.substr(0, 500)) << (plain.empty() ? "" : " plain text " + pbt::show(plain.substr(0, 200))) << ", " << objs.size() << " objects, " << as.size() << " attachments"); for (auto& a : as) NOTE(c, "attachment " << a.type << " name " << pbt::show(a.name) << " description " << pbt::show(a.desc) << " data " << pbt::show(a.data.substr(0, 200)));
	bool any = !to.empty(); for (auto* l : { &cc, &bcc }) for (auto& a : *l) if (!a.m.empty()) any = true; if (!any && (!cc.empty() || !bcc.empty())) { throw pbt::Discard(); }  // only empty groups in the copies
	vmime::shared_ptr <vmime::message> msg; bool none = false; bool skip = to.empty() && ((!cc.empty() && cc[0].m.empty()) || (!bcc.empty() && bcc[0].m.empty()));
	try { msg = mb.construct(); } catch (const vmime::exceptions::no_recipient&) { none = true; } for (auto& f : files) if (none) unlink(f.c_str()); if (none && skip) { c.label("empty group first"); return; } CHECK_MSG(none == !any, (none ? "no recipient found" : "built without any recipient")); if (none) { c.label("no recipient"); return; }
	c.nontrivial(body.size() > 3 || !as.empty());
	std::string wire; { vmime::generationContext g(vmime::generationContext::getDefaultContext()); g.setMaxLineLength((size_t) s.pickInt({ 78, 78, 998, 60 })); vmime::utility::outputStreamStringAdapter os(wire); msg->generate(g, os); os.flush(); }
	for (auto& f : files) { unlink(f.c_str()); rmdir(f.substr(0, f.rfind('/')).c_str()); }
	NOTE(c, "generated " << wire.size() << " bytes: " << pbt::esc(wire.substr(0, 3000)));
	vmime::shared_ptr <vmime::messageParser> mp; if (s.coin()) mp = vmime::make_shared <vmime::messageParser>(wire); else { auto m = vmime::make_shared <vmime::message>(); if (s.coin()) m->parse(wire); else { auto in = vmime::make_shared <chunkSeekIn>(wire, genCuts(s)); m->parse(vmime::dynamicCast <vmime::utility::inputStream>(in), wire.size()); } mp = vmime::make_shared <vmime::messageParser>(m); }
	CHECK_EQ(showM(fromV(mp->getExpeditor())), hasFrom ? showM(from) : showM(mbx()), "sender"); CHECK_EQ(showA(fromV(mp->getRecipients())), showA(to), "recipients"); CHECK_EQ(showA(fromV(mp->getCopyRecipients())), showA(cc), "copy recipients"); CHECK_EQ(showA(fromV(mp->getBlindCopyRecipients())), showA(bcc), "blind copy recipients");
	CHECK_EQ(mp->getSubject().getConvertedText(vmime::charset("utf-8")), subject, "subject"); CHECK_MSG(mp->getDate() == vmime::datetime::now(), "date");
	// text parts
	std::vector<std::string> wantT; if (!html) wantT.push_back("text/plain " + body); else { if (!plain.empty()) wantT.push_back("text/plain " + plain); wantT.push_back("text/html " + body); }
	std::vector<std::string> gotT; for (size_t i = 0 ; i < mp->getTextPartCount() ; ++i) { auto t = mp->getTextPartAt(i); CHECK_MSG(mp->getTextPartList()[i] == t, "text part list"); gotT.push_back(t->getType().generate() + " " + extr(t->getText())); CHECK_EQ(lower(t->getCharset().getName()), cs, "charset of text part " + std::to_string(i)); }
	CHECK_EQ(gotT, wantT, "text parts");
	if (html) {
		auto h = vmime::dynamicCast <const vmime::htmlTextPart>(mp->getTextPartAt(mp->getTextPartCount() - 1)); CHECK_MSG(h, "not a HTML text part"); CHECK_EQ(extr(h->getPlainText()), plain, "plain text of the HTML part"); size_t used = 0; for (auto& o : objs) used += o.used; CHECK_EQ(h->getObjectCount(), used, "number of embedded objects"); size_t k = 0;
		for (auto& o : objs) { CHECK_EQ((int) h->hasObject(o.id), (int) o.used, "hasObject()"); CHECK_EQ((int) h->hasObject("cid:" + o.id), (int) o.used, "hasObject() with scheme"); if (!o.used) continue; auto e = h->findObject(s.coin() ? "CID:" + o.id : o.id); CHECK_MSG(e && e == h->getObjectAt(k++), "findObject()"); CHECK_EQ(e->getId(), o.id, "id of embedded object"); CHECK_EQ(e->getType().generate(), o.type, "type of embedded object"); CHECK_EQ(extr(e->getData()), o.data, "data of embedded object"); CHECK_MSG(e->getReferenceType() == vmime::htmlTextPart::embeddedObject::REFERENCED_BY_ID, "reference type"); }
	}
	// attachments (an unreferenced object has a Content-Id: not an attachment)
	CHECK_EQ(mp->getAttachmentCount(), as.size(), "number of attachments");
	for (size_t i = 0 ; i < as.size() ; ++i) {
		auto a = mp->getAttachmentAt(i); std::string w = "attachment " + std::to_string(i); CHECK_EQ(a->getType().generate(), as[i].type, w + ": type"); CHECK_EQ(a->getName().getConvertedText(vmime::charset("utf-8")), as[i].name, w + ": name"); CHECK_EQ(a->getDescription().getConvertedText(vmime::charset("utf-8")), as[i].desc, w + ": description"); CHECK_EQ(extr(a->getData()), as[i].data, w + " (" + a->getEncoding().getName() + "): data");
		if (as[i].kind == 3) { auto g = vmime::dynamicCast <const vmime::messageAttachment>(a); CHECK_MSG(g, w + ": not a message attachment"); strOut os; g->getMessage()->generate(os); CHECK_EQ(os.s, as[i].data, w + ": message"); }
		if (as[i].kind == 1 || as[i].kind == 2) { auto d = a->getHeader()->findField <vmime::contentDispositionField>("Content-Disposition"); CHECK_MSG(d, "no disposition"); CHECK_EQ(lower(d->getValue <vmime::contentDisposition>()->getName()), "attachment", w + ": disposition"); CHECK_EQ((int) d->hasFilename(), (int) !as[i].name.empty(), w + ": has a filename"); if (d->hasFilename()) CHECK_EQ(d->getFilename().getConvertedText(vmime::charset("utf-8")), as[i].name, w + ": filename"); bool want[3] = { false, false, false }; for (auto& x : as[i].dates) { want[x.first] = true; auto got = x.first == 0 ? d->getCreationDate() : x.first == 1 ? d->getModificationDate() : d->getReadDate(); CHECK_MSG(got == x.second && got.getZone() == x.second.getZone(), w << ": date " << x.first << " is " << got.generate() << ", expected " << x.second.generate()); } CHECK_MSG(d->hasCreationDate() == want[0] && d->hasModificationDate() == want[1] && d->hasReadDate() == want[2], w << ": dates present"); CHECK_MSG(d->hasSize(), w << ": no size"); if (as[i].sizeKnown) CHECK_EQ(d->getSize(), std::to_string(as[i].data.size()), w + ": size"); }
	}
	// what was built can be built again
	{ strOut a, b; std::string cnt; try { auto m2 = mb.construct(); CHECK_EQ(m2->getBody()->getPartCount(), msg->getBody()->getPartCount(), "built again"); } catch (const vmime::exceptions::no_recipient&) { FAIL("built again: no recipient"); } }
}
Property makeProperty() {
	Property p; p.id = "C19"; p.run = run; p.init = installPlatform; p.quick = 30000; p.thorough = 1500000;
	p.rule = "a sender, three recipient lists (mailboxes, groups, names in any language), a subject, a plain or HTML text of any bytes in 6 charsets with up to 4 embedded objects (referenced or not) and an alternative plain text, up to 12 attachments (data, file, message; any name, description, type, encoding; contents given as string, streams, already encoded) put in the builder, generated at 3 line lengths and read by the message parser from text or stream; non-trivial: a text longer than 3 bytes or an attachment";
	p.assumptions = { "embedded objects are not of type text/plain or text/html (the parser reports any inline part of these types as a text part)", "header values in which white space is not significant are compared with white space collapsed" };
	return p;
}
