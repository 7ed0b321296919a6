// C38: what the message parser reports about HTML messages written by other programs.
#include "textgen.hpp"
struct obj { std::string cid, loc, type, data, enc; bool byId, byLoc; };
static std::string ext(const vmime::shared_ptr <const vmime::contentHandler>& h) { strOut os; h->extract(os); return os.s; }
static std::string encode(const std::string& enc, const std::string& d) {
	static const char H[] = "0123456789ABCDEF"; std::string r;
	if (enc == "base64") { std::string e = refB64(d); for (size_t i = 0 ; i < e.size() ; i += 60) r += e.substr(i, 60) + (i + 60 < e.size() ? "\r\n" : ""); return r; }
	if (enc == "quoted-printable") { size_t col = 0; for (char c : d) { unsigned char u = (unsigned char) c; if (isalnum(u)) { r += c; ++col; } else { r += '='; r += H[u >> 4]; r += H[u & 15]; col += 3; } if (col > 65) { r += "=\r\n"; col = 0; } } return r; }
	return d;
}
static std::string genData(Source& s) { switch (s.draw(3)) { case 0: return s.bytes(s.size(40)); case 1: return "line one\r\nline two"; case 2: return s.pick({ "x", "", "caf\xc3\xa9", "--", "." }); default: return s.bulk(s.size(400)); } }
static std::string genEnc(Source& s) { return s.pick({ "base64", "quoted-printable", "8bit", "binary", "" }); }
static std::string cse(Source& s, std::string v) { switch (s.draw(5)) { case 0: for (auto& c : v) c = (char) toupper((unsigned char) c); break; case 1: v[0] = (char) toupper((unsigned char) v[0]); break; default: ; } return v; }
static std::string part(Source& s, std::vector<std::string> f, const std::string& enc, const std::string& data) { if (!enc.empty()) f.push_back("Content-Transfer-Encoding: " + cse(s, enc)); for (size_t i = f.size() ; i > 1 ; --i) std::swap(f[i - 1], f[s.draw(i - 1)]); std::string r; for (auto& x : f) r += x + "\r\n"; return r + "\r\n" + encode(enc, data); }
static std::string multi(Source& s, unsigned& seq, const std::string& sub, const std::vector<std::string>& kids) { std::string b = s.pick({ "=_b", "--b", "B o" }) + std::to_string(seq++) + "x"; std::string r = "Content-Type: " + cse(s, "multipart") + "/" + cse(s, sub) + s.pick({ "; ", ";\r\n " }) + "boundary=\"" + b + "\"" + (sub == "related" && s.coin() ? ";\r\n type=\"text/html\"" : "") + (s.oneIn(5) ? "\r\nContent-ID: <part" + std::to_string(seq) + "@multi>" : "") + (s.oneIn(8) ? "\r\nContent-Location: http://part" + std::to_string(seq) + ".invalid/" : "") + "\r\n\r\n"; if (s.oneIn(4)) r += "prolog\r\n"; auto eol = [&]() { switch (s.draw(9)) { case 0: return std::string(" \r\n"); case 1: return std::string("\t  \r\n"); case 2: return std::string("\n"); case 3: return std::string("  \n"); default: return std::string("\r\n"); } };
	for (auto& k : kids) { r += "--" + b + eol(); r += k + "\r\n"; } r += "--" + b + "--"; if (s.oneIn(10)) return r; r += eol(); if (s.oneIn(4)) r += "epilog\r\n"; return r; }
static void run(Source& s, Ctx& c) {
	unsigned seq = 0; std::vector<obj> os; unsigned n = (unsigned) s.draw(4); std::string html = s.pick({ "<html>", "", "\r\n<p>caf\xc3\xa9 = cid </p>" });
	for (unsigned i = 0 ; i < n ; ++i) {
		obj o; std::string id = std::to_string(10 + i); o.byId = o.byLoc = false; unsigned k = (unsigned) s.draw(3); if (k != 1) o.cid = s.pick({ "obj", "part$1.", "image=", "0" }) + id + s.pick({ "z@host.example", "z", "z@[10.0.0.1]", ".z@h-1.x" }); if (k == 1 || k == 2) o.loc = s.pick({ "http://www.x.example/a/", "images/", "", "file:///c:/" }) + "ob" + id + s.pick({ ".png", "?q=1&r=2.gif", ".x" });
		o.type = s.pick({ "image/png", "image/gif", "application/x-flash", "audio/wav", "text/css" }); o.data = genData(s); o.enc = genEnc(s);
		if (!o.cid.empty() && s.draw(3)) { o.byId = true; html += s.pick({ "<img src=\"", "url(", "<IMG SRC='" }) + s.pick({ "cid:", "CID:" }) + o.cid + s.pick({ "\">", ")", "'" }); } else if (!o.cid.empty() && s.oneIn(3)) html += "<a>" + o.cid + "</a>";
		if (!o.loc.empty() && s.draw(3)) { o.byLoc = true; html += s.pick({ "<img src=\"", "url(" }) + o.loc + s.pick({ "\">", ")" }); }
		if (o.byId && o.byLoc) c.label("by both"); else if (o.byId) c.label("by id"); else if (o.byLoc) c.label("by location"); else c.label("not referenced"); os.push_back(o);
	}
	html += s.pick({ "</html>\r\n", "", "\r\n", "long " }) + (s.oneIn(5) ? std::string(3000, 'h') : "");
	std::string plain = "plain text " + s.pick({ "caf\xe9", "", "\r\n", "=_b0x" }) + (s.coin() ? s.str(10, "ab c.-=\t") : ""), cs = s.pick({ "utf-8", "iso-8859-1", "x-own", "us-ascii", "" }), csT = cs.empty() ? "" : s.pick({ "; charset=", ";\r\n charset=", "; Charset=" }) + cs; bool inlineT = s.oneIn(3);
	auto text = [&](const std::string& sub, const std::string& d) { std::vector<std::string> f = { "Content-Type: " + cse(s, "text") + "/" + cse(s, sub) + csT }; if (inlineT && s.coin()) f.push_back("Content-Disposition: inline\r\nContent-ID: <text" + std::to_string(seq++) + "@t>"); return part(s, f, genEnc(s), d); };
	auto objPart = [&](const obj& o) { std::vector<std::string> f = { "Content-Type: " + o.type }; if (!o.cid.empty()) f.push_back(s.pick({ "Content-ID: <", "Content-Id: <", "CONTENT-ID:\r\n <" }) + o.cid + ">"); if (!o.loc.empty()) f.push_back("Content-Location: " + o.loc); if (o.cid.empty() || s.coin()) f.push_back("Content-Disposition: inline" + s.pick({ "", "; filename=x.png" })); return part(s, f, o.enc, o.data); };
	std::vector<std::string> objs; for (auto& o : os) objs.push_back(objPart(o)); if (objs.size() > 1 && s.oneIn(3)) { size_t k = s.draw(objs.size() - 1); std::rotate(objs.begin(), objs.begin() + (long) k, objs.end()); std::rotate(os.begin(), os.begin() + (long) k, os.end()); }
	std::vector<std::string> late; std::vector<obj> lateO; bool mixed = s.coin(); while (mixed && !objs.empty() && s.oneIn(6)) { late.insert(late.begin(), objs.back()); lateO.insert(lateO.begin(), os.back()); objs.pop_back(); os.pop_back(); } for (auto& o : lateO) os.push_back(o); if (!late.empty()) c.label("objects outside the related part");
	std::vector<std::string> want; std::string wantPlain, tree; std::string tHtml = "text/html " + html, tPlain = "text/plain " + plain;
	switch (s.draw(objs.empty() && !mixed ? 5 : 3)) {
	case 0: c.label("alternative with related"); { std::vector<std::string> r = { text("html", html) }; r.insert(s.oneIn(5) ? r.begin() : r.end(), objs.begin(), objs.end()); std::vector<std::string> a = { text("plain", plain) }; if (s.oneIn(4)) a.push_back(text("enriched", "enriched")); a.push_back(multi(s, seq, "related", r)); tree = multi(s, seq, "alternative", a); want = { tPlain, tHtml }; wantPlain = plain; } break;
	case 1: c.label("related with alternative"); { std::vector<std::string> a = { text("plain", plain), text("html", html) }; if (s.oneIn(4)) { a.push_back(text("calendar", "BEGIN:VCALENDAR")); } std::vector<std::string> r = { multi(s, seq, "alternative", a) }; r.insert(r.end(), objs.begin(), objs.end()); tree = multi(s, seq, "related", r); want = { tPlain, tHtml }; wantPlain = plain; } break;
	case 2: c.label("related"); { std::vector<std::string> r = { text("html", html) }; r.insert(r.end(), objs.begin(), objs.end()); tree = multi(s, seq, "related", r); want = { tHtml }; } break;
	case 3: c.label("mixed with objects"); { std::vector<std::string> r = { text("html", html) }; r.insert(r.end(), objs.begin(), objs.end()); tree = multi(s, seq, s.pick({ "mixed", "related" }), r); want = { tHtml }; } break;
	case 4: c.label("html only"); tree = text("html", html); want = { tHtml }; break;
	default: c.label("plain only"); tree = text("plain", plain); want = { tPlain }; }
	bool haveHtml = want.back() == tHtml, footer = false; std::vector<std::string> atts;
	if (mixed) {
		std::vector<std::string> k = { tree }; k.insert(k.end(), late.begin(), late.end()); unsigned na = (unsigned) s.draw(2);
		for (unsigned i = 0 ; i < na ; ++i) { std::string d = genData(s) + "#" + std::to_string(i), t = s.pick({ "application/pdf", "text/plain", "text/html", "image/png", "message/delivery-status" }); atts.push_back(t + " " + d); k.push_back(part(s, { "Content-Type: " + t + "; charset=utf-8", "Content-Disposition: attachment" + s.pick({ "", "; filename=a.b" }) }, genEnc(s), d)); }
		if (s.oneIn(4)) { footer = true; std::string d = "footer text"; k.push_back(text("plain", d)); want.push_back("text/plain " + d); c.label("footer"); }
		tree = multi(s, seq, "mixed", k); if (na) c.label("attachments");
	}
	if (s.oneIn(12)) { size_t k = lower(tree).compare(0, 23, "content-type: multipart") == 0 ? tree.rfind("\r\n--") : std::string::npos; if (k != std::string::npos && tree.find("--", k + 4) != std::string::npos) { tree.resize(k); c.label("without closing boundary"); } }
	// header
	std::string hd = "From: Some One <a@b.example>\r\nTo: c@d.example, G: e@f.example, g@h.example;\r\nSubject: " + s.pick({ "the subject", "=?utf-8?Q?caf=C3=A9?=" }) + "\r\nMIME-Version: 1.0\r\n"; std::string date; static const char* const DT[] = { "Tue, 3 Mar 2020 01:02:03 +0100", "Mon, 31 Dec 2018 23:59:58 -0530", "Thu, 01 Feb 2001 00:00:00 +0000", "Fri, 29 Feb 2008 12:00:00 +0900" };
	std::vector<std::string> dates; unsigned nr = (unsigned) s.draw(2); bool noDate = s.oneIn(4), first = true; for (unsigned i = 0 ; i < nr ; ++i) { bool d = s.draw(3) != 0; std::string v = DT[s.draw(3)]; dates.push_back("Received: from a.example (b [10.0.0.1])\r\n by c.example with ESMTP id x1" + std::to_string(i) + "\r\n for <u@v.example>" + (d ? ";\r\n\t" + v : "") + "\r\n"); if (first && d) date = v; first = false; }
	std::string r; for (auto& d : dates) r += d; if (!noDate) { std::string v = DT[s.draw(3)]; if (date.empty()) date = v; std::string l = "Date: " + v + "\r\n"; if (s.coin()) r = l + r; else r += l; } if (nr && !noDate) c.label("received and date");
	std::string wire = (s.coin() ? r + hd : hd + r) + tree; c.mix(wire); NOTE(c, pbt::esc(wire.substr(0, 6000))); c.nontrivial(n || mixed || want.size() > 1);
	vmime::shared_ptr <vmime::messageParser> mp; if (s.coin()) mp = vmime::make_shared <vmime::messageParser>(wire); else { auto m = vmime::make_shared <vmime::message>(); if (s.coin()) m->parse(wire); else { auto in = vmime::make_shared <chunkSeekIn>(wire, genCuts(s)); m->parse(vmime::dynamicCast <vmime::utility::inputStream>(in), wire.size()); } mp = vmime::make_shared <vmime::messageParser>(m); }
	CHECK_EQ(mp->getExpeditor().getEmail().toString(), "a@b.example", "sender"); CHECK_EQ(mp->getRecipients().getAddressCount(), 2u, "recipients"); CHECK_EQ((int) (mp->getCopyRecipients().isEmpty() && mp->getBlindCopyRecipients().isEmpty()), 1, "copy recipients");
	if (date.empty()) CHECK_MSG(mp->getDate() == vmime::datetime::now(), "the date of a message without date is " << mp->getDate().generate()); else CHECK_MSG(mp->getDate() == vmime::datetime(date), "the date is " << mp->getDate().generate() << ", expected " << date);
	std::vector<std::string> got; vmime::shared_ptr <const vmime::htmlTextPart> h; for (size_t i = 0 ; i < mp->getTextPartCount() ; ++i) { auto t = mp->getTextPartAt(i); got.push_back(lower(t->getType().generate()) + " " + ext(t->getText())); CHECK_EQ(lower(t->getCharset().getName()), cs.empty() ? lower(vmime::charset().getName()) : cs, "charset of text part"); if (auto x = vmime::dynamicCast <const vmime::htmlTextPart>(t)) h = x; }
	if (footer) { std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end()); } CHECK_EQ(got, want, "text parts");
	CHECK_EQ((int) (h != nullptr), (int) haveHtml, "HTML part"); std::vector<std::string> gotA; for (size_t i = 0 ; i < mp->getAttachmentCount() ; ++i) { auto a = mp->getAttachmentAt(i); if (lower(a->getHeader()->ContentDisposition()->getValue <vmime::contentDisposition>()->getName()) == "inline") continue; gotA.push_back(lower(a->getType().generate()) + " " + ext(a->getData())); } CHECK_EQ(gotA, atts, "attachments");
	if (!h) return; CHECK_EQ(ext(h->getPlainText()), wantPlain, "plain text of the HTML part"); CHECK_EQ((int) h->getPlainText()->isEmpty(), (int) wantPlain.empty(), "plain text empty");
	std::vector<std::string> wantO, gotO; auto desc = [](const obj& o, bool loc) { return (loc ? "location " + o.loc : "id " + o.cid) + " " + o.type + " " + (o.enc.empty() ? "7bit" : o.enc) + " " + pbt::esc(o.data); };
	for (auto& o : os) { if (o.byId) wantO.push_back(desc(o, false)); if (o.byLoc) wantO.push_back(desc(o, true)); }
	for (size_t i = 0 ; i < h->getObjectCount() ; ++i) { auto o = h->getObjectAt(i); bool loc = o->getReferenceType() == vmime::htmlTextPart::embeddedObject::REFERENCED_BY_LOCATION; gotO.push_back((loc ? "location " : "id ") + o->getId() + " " + o->getType().generate() + " " + lower(o->getEncoding().getName()) + " " + pbt::esc(ext(o->getData()))); CHECK_EQ(o->getReferenceId(), (loc ? "" : "cid:") + o->getId(), "reference id"); }
	{ auto a = wantO, b = gotO; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECK_EQ(b, a, "embedded objects"); }
	for (auto& o : os) { if (!o.cid.empty()) { auto f = h->findObject((s.coin() ? s.pick({ "cid:", "CID:", "Cid:" }) : "") + o.cid); CHECK_EQ((int) (f != nullptr), (int) o.byId, "findObject(" + o.cid + ")"); CHECK_EQ((int) h->hasObject(o.cid), (int) o.byId, "hasObject(" + o.cid + ")"); if (f) CHECK_EQ(ext(f->getData()), o.data, "data of the object found"); } if (!o.loc.empty()) { auto f = h->findObject(o.loc); CHECK_EQ((int) (f != nullptr), (int) o.byLoc, "findObject(" + o.loc + ")"); CHECK_EQ((int) h->hasObject(o.loc), (int) o.byLoc, "hasObject(" + o.loc + ")"); if (f) CHECK_EQ(ext(f->getData()), o.data, "data of the object found"); } }
	CHECK_EQ((int) h->hasObject("nothing@there"), 0, "hasObject of an unknown id");
}
Property makeProperty() {
	Property p; p.id = "C38"; p.run = run; p.init = installPlatform; p.quick = 120000; p.thorough = 3000000;
	p.rule = "hand-written messages: plain, HTML, alternative, related (in either nesting), mixed with attachments and footers; up to 4 objects with a Content-ID and/or a Content-Location, referenced or not in the HTML text in each way, in any encoding, inside or outside the related part; Received fields with or without a date; read from text, from a message or from a stream; non-trivial: objects, attachments or several text parts";
	p.assumptions = { "the identifier or location of an object is not part of the identifier or location of another one", "with a footer next to a nested text, the text parts are compared regardless of their order" };
	return p;
}
