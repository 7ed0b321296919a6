// C21: read receipts: requests, whether confirmation is needed, receipts built and received.
#include "addrgen.hpp"
#include "vmime/disposition.hpp"
#include "vmime/mailboxField.hpp"
#include "vmime/path.hpp"
#include "vmime/mdn/MDNHelper.hpp"
using namespace vmime::mdn;
static std::string ext(const vmime::shared_ptr <const vmime::contentHandler>& h) { strOut os; h->extract(os); return os.s; }
static vmime::shared_ptr <vmime::message> parse(const std::string& t) { auto m = vmime::make_shared <vmime::message>(); m->parse(t); return m; }
static std::string gen(const vmime::shared_ptr <vmime::message>& m) { std::string r; vmime::utility::outputStreamStringAdapter os(r); m->generate(os); os.flush(); return r; }
static std::string odd(Source& s, std::string v) { switch (s.draw(5)) { case 0: return lower(v); case 1: for (auto& c : v) c = (char) toupper((unsigned char) c); return v; default: return v; } }
struct disp { std::string am, sm, ty; std::vector<std::string> mods; };
static std::string showD(const disp& d) { return d.am + "|" + d.sm + "|" + d.ty + "|" + pbt::show(d.mods); }
static std::string showD(const vmime::disposition& d) { disp r{ d.getActionMode(), d.getSendingMode(), d.getType(), d.getModifierList() }; return showD(r); }
static disp genDisp(Source& s) {
	disp d; d.am = s.pick({ "manual-action", "automatic-action" }); d.sm = s.pick({ "MDN-sent-manually", "MDN-sent-automatically" }); d.ty = s.pick({ "displayed", "deleted", "dispatched", "processed", "denied", "failed", "x-other" });
	unsigned n = (unsigned) s.weighted({ 5, 3, 1, 1 }); for (unsigned i = 0 ; i < n ; ++i) { std::string m = s.pick({ "error", "warning", "superseded", "expired", "mailbox-terminated", "x-mod", "failed/why" }); if (m.find('/') != std::string::npos) m = "x-m2"; if (std::find(d.mods.begin(), d.mods.end(), m) == d.mods.end()) d.mods.push_back(m); } return d;
}
static std::string genId(Source& s) { return s.pick({ "id1", "2006.A.B-c", "x$y" }) + std::to_string(s.draw(99)) + "@" + s.pick({ "host.example", "h", "[127.0.0.1]" }); }
static std::string genAscii(Source& s) { std::string r; do { r += (r.empty() ? "" : " "); r += s.pick({ "UA", "Foo/1.0", "(Linux)", "x86_64", "Bar", "=?x", "a:b", "quux-mail", "averyveryverylongproductnamewithoutspaces" }); } while (s.more(3)); return r; }
// requests written by hand
static void requests(Source& s, Ctx& c) {
	struct em { std::string local, domain; }; std::vector<std::vector<std::string>> unused; std::vector<std::pair<std::string, std::string>> boxes; // name, email
	bool hasReq = s.draw(4) != 0; unsigned n = hasReq ? (unsigned) s.weighted({ 0, 5, 3, 1 }) : 0;
	for (unsigned i = 0 ; i < n ; ++i) boxes.push_back({ s.pick({ "", "", "John", "John Doe", "Doe, John" }), s.pick({ "a", "john.doe", "x+y", "A" }) + "@" + s.pick({ "b.example", "c", "b.example.org" }) });
	int rp = (int) s.draw(3); std::string rpath; if (rp == 1) rpath = "<>"; else if (rp == 2) rpath = "<" + (boxes.empty() ? "a@b.example" : boxes[0].second) + ">"; else if (rp == 3) rpath = "<" + s.pick({ "a", "john.doe", "zz", "x+y" }) + "@" + s.pick({ "b.example", "c", "zz" }) + ">";
	std::vector<std::string> f = { "From: s@x", "Subject: t" }; if (hasReq) { std::string v; for (auto& b : boxes) { if (!v.empty()) v += s.pick({ ", ", ",\r\n ", "," }); bool q = b.first.find(',') != std::string::npos || (!b.first.empty() && s.coin()); v += b.first.empty() ? (s.coin() ? b.second : "<" + b.second + ">") : (q ? "\"" + b.first + "\"" : b.first) + " <" + b.second + ">"; } f.push_back(odd(s, "Disposition-Notification-To") + ": " + v); }
	if (rp) f.push_back(odd(s, "Return-Path") + ": " + rpath); if (s.coin()) f.push_back("Message-Id: <i@j>");
	for (size_t i = f.size() ; i > 1 ; --i) std::swap(f[i - 1], f[s.draw(i - 1)]); std::string t; for (auto& x : f) t += x + "\r\n"; t += "\r\nbody"; NOTE(c, pbt::esc(t)); c.mix(t); auto m = parse(t); c.label("request"); c.nontrivial(hasReq);
	auto v = MDNHelper::getPossibleMDNs(m); std::vector<std::string> got, want; for (auto& i : v) { CHECK_MSG(i.getMessage() == m, "message of the request"); got.push_back(collapse(i.getRecipient().getName().getConvertedText(vmime::charset("utf-8"))) + "<" + i.getRecipient().getEmail().toString() + ">"); } for (auto& b : boxes) want.push_back(b.first + "<" + b.second + ">"); CHECK_EQ(got, want, "receipts which can be sent");
	bool need; if (!rp) need = true; else if (!hasReq) need = false; else if (boxes.size() > 1) need = true; else if (boxes.empty()) need = false; else need = rpath != "<" + boxes[0].second + ">";
	CHECK_EQ((int) MDNHelper::needConfirmation(m), (int) need, "confirmation needed"); CHECK_EQ((int) MDNHelper::isMDN(m), 0, "not a receipt");
	try { MDNHelper::getReceivedMDN(m); FAIL("getReceivedMDN() of a message which is not a receipt"); } catch (vmime::exceptions::invalid_argument&) {}
}
// receipts written by hand
static std::string enc64(const std::string& d) { std::string e = refB64(d), r; for (size_t i = 0 ; i < e.size() ; i += 60) r += e.substr(i, 60) + (i + 60 < e.size() ? "\r\n" : ""); return r; }
static void received(Source& s, Ctx& c) {
	bool report = s.draw(5) != 0; int rt = (int) s.weighted({ 6, 1, 1 }); disp d = genDisp(s); std::string omid = s.draw(3) ? genId(s) : "", mic = s.oneIn(3) ? "Q2hlY2sgSW50ZWdyaXR5IQ==, sha1" : ""; bool hasDisp = s.draw(7) != 0; bool second = s.draw(7) != 0, b64 = s.oneIn(3);
	std::vector<std::string> f = { "Reporting-UA: ua.example; Foomail 97.1", "Original-Recipient: rfc822;tom@ex.com", "Final-Recipient: rfc822;tom@ex.com" }; if (!omid.empty()) f.push_back(odd(s, "Original-Message-ID") + ": <" + omid + ">"); if (!mic.empty()) f.push_back(odd(s, "Received-content-MIC") + ": " + mic);
	if (hasDisp) { std::string v = d.am + s.pick({ "/", "/", " / " }) + d.sm + s.pick({ ";", "; ", ";\r\n  " }) + d.ty; for (size_t i = 0 ; i < d.mods.size() ; ++i) v += (i ? s.pick({ ",", ", " }) : std::string("/")) + d.mods[i]; f.push_back(odd(s, "Disposition") + ": " + v); }
	for (size_t i = f.size() ; i > 1 ; --i) std::swap(f[i - 1], f[s.draw(i - 1)]); std::string body; for (auto& x : f) body += x + "\r\n"; if (s.coin()) body += "\r\n";
	std::vector<std::string> parts; parts.push_back(s.coin() ? "Content-Type: text/plain\r\n\r\nThe message sent on ... was displayed.\r\n" : "\r\nno type at all\r\n"); if (second) parts.push_back("Content-Type: " + odd(s, "message/disposition-notification") + (b64 ? "\r\nContent-Transfer-Encoding: base64" : "") + "\r\n\r\n" + (b64 ? enc64(body) : body)); if (s.coin()) parts.push_back("Content-Type: " + s.pick({ "message/rfc822", "text/rfc822-headers" }) + "\r\n\r\nMessage-Id: <other@id>\r\nDisposition: a/b;c\r\n\r\nx"); if (s.oneIn(4)) std::swap(parts.front(), parts.back());
	std::string ct = report ? "multipart/report" : s.pick({ "multipart/mixed", "multipart/related", "text/report" }), t = "From: a@b\r\nContent-Type: " + odd(s, ct); std::vector<std::string> prm = { "boundary=\"bnd=_1\"" }; if (rt == 0) prm.push_back(odd(s, "report-type") + s.pick({ "=disposition-notification", "=\"disposition-notification\"" })); else if (rt == 1) prm.push_back("report-type=delivery-status"); if (s.coin()) std::swap(prm.front(), prm.back()); for (auto& p : prm) t += s.pick({ "; ", ";\r\n " }) + p; t += "\r\n\r\n"; for (auto& p : parts) t += "--bnd=_1\r\n" + p + "\r\n"; t += "--bnd=_1--\r\n";
	NOTE(c, pbt::esc(t)); c.mix(t); bool is = report && rt == 0; c.nontrivial(is); c.label(is ? "receipt received" : "message which resembles a receipt");
	auto m = parse(t); CHECK_EQ((int) MDNHelper::isMDN(m), (int) is, "isMDN()"); if (!is) { try { MDNHelper::getReceivedMDN(m); FAIL("getReceivedMDN() of a message which is not a receipt"); } catch (vmime::exceptions::invalid_argument&) {} return; }
	auto r0 = MDNHelper::getReceivedMDN(m); receivedMDNInfos r(r0); if (s.coin()) r = r0; CHECK_MSG(r.getMessage() == m, "message"); if (!second) { hasDisp = false; omid = ""; mic = ""; }
	CHECK_EQ(r.getOriginalMessageId().getId(), omid, "original message id"); if (!hasDisp) d = disp(); CHECK_EQ(showD(r.getDisposition()), showD(d), "disposition"); CHECK_EQ(r.getContentMIC(), mic, "content MIC");
}
// request attached, generated, parsed; receipt built, generated, parsed
static std::vector<std::string> fieldsOf(const vmime::shared_ptr <const vmime::header>& h) { std::vector<std::string> r; for (auto& f : h->getFieldList()) r.push_back(f->getName() + ": " + f->getValue()->generate()); return r; }
static void built(Source& s, Ctx& c) {
	auto m = vmime::make_shared <vmime::message>(); auto h = m->getHeader(); h->From()->setValue(vmime::mailbox("sender@x.example")); h->Subject()->setValue(toText(s, genName(s, true))); std::string id = s.draw(4) ? genId(s) : ""; if (!id.empty()) h->MessageId()->setValue(vmime::messageId(id)); if (s.coin()) h->Date()->setValue(vmime::datetime(2020, 1, 2, 3, 4, 5)); m->getBody()->setContents(vmime::make_shared <vmime::stringContentHandler>("the body"));
	if (s.oneIn(4)) { auto f = vmime::headerFieldFactory::getInstance()->create("X-Long"); f->setValue(vmime::text(genAscii(s), vmime::charset("us-ascii"))); h->appendField(f); }
	std::vector<mbx> req; unsigned n = 1 + (unsigned) s.weighted({ 4, 2, 1 }); for (unsigned i = 0 ; i < n ; ++i) req.push_back(genMbx(s));
	if (n == 1 && s.coin()) MDNHelper::attachMDNRequest(m, vmime::mailbox(toText(s, req[0].name), vmime::emailAddress(vmime::word(req[0].local, vmime::charset("utf-8")), vmime::word(req[0].domain, vmime::charset("utf-8")))));
	else { vmime::mailboxList l; for (auto& r : req) l.appendMailbox(vmime::make_shared <vmime::mailbox>(toText(s, r.name), vmime::emailAddress(vmime::word(r.local, vmime::charset("utf-8")), vmime::word(r.domain, vmime::charset("utf-8"))))); MDNHelper::attachMDNRequest(m, l); if (s.oneIn(4)) MDNHelper::attachMDNRequest(m, l); }
	std::vector<std::string> want; for (auto& r : req) want.push_back(showM(r)); std::string mt = gen(m); NOTE(c, "message: " << pbt::esc(mt)); c.mix(mt); auto x = s.coin() ? parse(mt) : m; if (x != m) c.label("request parsed back");
	auto pos = MDNHelper::getPossibleMDNs(x); std::vector<std::string> got; for (auto& i : pos) got.push_back(showM(fromV(i.getRecipient()))); CHECK_EQ(got, want, "receipts which can be sent");
	size_t k = s.draw(n - 1); sendableMDNInfos si(pos[k]); if (s.coin()) si = pos[k]; CHECK_MSG(si.getMessage() == x, "message");
	disp d = genDisp(s); vmime::disposition vd; vd.setActionMode(d.am); vd.setSendingMode(d.sm); vd.setType(d.ty); for (auto& q : d.mods) vd.addModifier(q);
	std::string cs = s.pick({ "us-ascii", "utf-8", "iso-8859-1" }), text; { unsigned lines = (unsigned) s.draw(4); for (unsigned i = 0 ; i <= lines ; ++i) { text += s.pick({ "The message was displayed.", "", "  indented", "--dashes", ".", "From x", "trailing " }); if (cs == "utf-8" && s.coin()) text += "caf\xc3\xa9 \xe2\x82\xac"; if (cs == "iso-8859-1" && s.coin()) text += "caf\xe9"; if (s.oneIn(8)) text += std::string(1100, 'x'); if (i < lines) text += "\r\n"; } }
	std::string ua = s.draw(3) ? genAscii(s) : "", uaText = ua; std::vector<std::string> prods; { unsigned p = (unsigned) s.draw(3); for (unsigned i = 0 ; i < p ; ++i) prods.push_back(genAscii(s)); } for (size_t i = 0 ; i < prods.size() ; ++i) uaText += (i ? ", " : "; ") + prods[i];
	std::map<std::string, std::string> extra; for (auto q : { "Error", "Warning", "Failure" }) if (s.oneIn(3)) extra[q] = genAscii(s); mbx from = genMbx(s); vmime::mailbox exp(toText(s, from.name), vmime::emailAddress(vmime::word(from.local, vmime::charset("utf-8")), vmime::word(from.domain, vmime::charset("utf-8"))));
	auto r = MDNHelper::buildMDN(si, text, vmime::charset(cs), exp, vd, ua, prods, extra); c.label("receipt built"); c.nontrivial(true);
	for (int pass = 0 ; pass < 2 ; ++pass) {
		std::string w = pass ? " (after generating and parsing)" : " (as built)"; auto y = r; if (pass) { std::string t = gen(r); NOTE(c, "receipt: " << pbt::esc(t)); y = parse(t); }
		CHECK_EQ((int) MDNHelper::isMDN(y), 1, "isMDN()" + w); auto to = y->getHeader()->To()->getValue <vmime::addressList>(); std::vector<adr> l = fromV(*to), wl; { adr a; a.m = { req[k] }; a.group = false; wl.push_back(a); } CHECK_EQ(showA(l), showA(wl), "To" + w); CHECK_EQ(showM(fromV(*y->getHeader()->From()->getValue <vmime::mailbox>())), showM(from), "From" + w);
		if (pass) { auto ri = MDNHelper::getReceivedMDN(y); CHECK_EQ(ri.getOriginalMessageId().getId(), id, "original message id" + w); CHECK_EQ(showD(ri.getDisposition()), showD(d), "disposition" + w); CHECK_EQ(ri.getContentMIC(), std::string(), "content MIC"); }
		CHECK_EQ(y->getBody()->getPartCount(), (size_t) 3, "parts" + w); auto p0 = y->getBody()->getPartAt(0), p1 = y->getBody()->getPartAt(1), p2 = y->getBody()->getPartAt(2);
		CHECK_EQ(ext(p0->getBody()->getContents()), text, "human text" + w); CHECK_EQ(p0->getBody()->getContentType().generate(), std::string("text/plain"), "type of the text"); CHECK_EQ(lower(p0->getBody()->getCharset().getName()), cs, "charset of the text" + w);
		CHECK_EQ(p1->getBody()->getContentType().generate(), std::string("message/disposition-notification"), "type of the report"); vmime::header rep; rep.parse(ext(p1->getBody()->getContents())); auto txt = [&](const char* f) { auto q = rep.findField(f); if (!q) return std::string("-"); auto v = q->getValue(); auto tv = vmime::dynamicCast <vmime::text>(v); return collapse(tv ? tv->getConvertedText(vmime::charset("utf-8")) : v->generate()); };
		CHECK_EQ(txt("Reporting-UA"), ua.empty() ? std::string("-") : collapse(uaText), "Reporting-UA" + w); for (auto q : { "Error", "Warning", "Failure" }) CHECK_EQ(txt(q), extra.count(q) ? collapse(extra[q]) : std::string("-"), std::string(q) + w);
		CHECK_EQ(txt("Original-Message-ID"), id.empty() ? std::string("-") : "<" + id + ">", "Original-Message-ID" + w); CHECK_MSG(txt("Final-Recipient").compare(0, 7, "rfc822;") == 0, "Final-Recipient: " << txt("Final-Recipient")); { disp rd; auto q = rep.findFieldValue <vmime::disposition>("Disposition"); CHECK_MSG(q, "no Disposition in the report"); CHECK_EQ(showD(*q), showD(d), "Disposition in the report" + w); }
		if (auto q = rep.findField("Final-Recipient")) { std::string plain; bool ascii = true; for (char ch : req[k].local + req[k].domain) if ((unsigned char) ch >= 128 || !(isalnum((unsigned char) ch) || ch == '.' || ch == '-')) ascii = false; if (ascii) CHECK_EQ(txt("Final-Recipient"), "rfc822; " + req[k].local + "@" + req[k].domain, "Final-Recipient" + w); }
		vmime::header orig, mine; mine.copyFrom(*parse(gen(x))->getHeader()); orig.parse(ext(p2->getBody()->getContents())); auto sh = [](vmime::header& hh) { std::vector<std::string> q; for (auto& f : hh.getFieldList()) q.push_back(f->getName() + ": " + f->getValue()->generate()); return q; }; CHECK_EQ(p2->getBody()->getContentType().generate(), std::string("text/rfc822-headers"), "type of the third part"); CHECK_EQ(sh(orig), sh(mine), "headers of the message" + w);
	}
}
static void run(Source& s, Ctx& c) { switch (s.weighted({ 2, 2, 3 })) { case 0: requests(s, c); break; case 1: received(s, c); break; default: built(s, c); } }
Property makeProperty() {
	Property p; p.id = "C21"; p.run = run; p.init = installPlatform; p.quick = 60000; p.thorough = 3000000;
	p.rule = "three kinds of cases: messages written by hand with and without requests and return paths (several addresses, letter case, order, folding); receipts and messages which resemble receipts written by hand (type, report type, order of fields and parts, encoding, missing parts); messages with requests for 1-3 generated mailboxes, receipts built for one of them and compared before and after generating and parsing; non-trivial: a request or a receipt";
	p.assumptions = { "Final-Recipient is compared for plain ASCII addresses" };
	return p;
}
