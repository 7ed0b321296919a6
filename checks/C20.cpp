// C20: attachments found in a message are exactly its attachments; adding one keeps everything else.
#include "textgen.hpp"
#include "vmime/parsedMessageAttachment.hpp"
#include "vmime/generatedMessageAttachment.hpp"
#include "vmime/fileAttachment.hpp"
struct node { bool ct = false, multi = false; std::string type, sub, charset, name, boundary; std::string disp, fname, cid, loc, desc, enc, data; std::vector<node> kids; };
static std::string mixCase(Source& s, std::string v) { switch (s.draw(5)) { case 0: for (auto& c : v) c = (char) toupper((unsigned char) c); break; case 1: if (!v.empty()) v[0] = (char) toupper((unsigned char) v[0]); break; default: ; } return v; }
static std::string genBytes(Source& s, bool text) { switch (s.draw(3)) { case 0: return s.str(8, text ? "ab c.=-" : std::string()); case 1: return text ? "line one\r\nline two" : s.bytes(s.size(60)); case 2: return s.pick({ "x", "caf\xc3\xa9", "", "0123456789" }); default: return s.bulk(s.size(300), text ? "abc \r\n." : std::string()); } }
static node genNode(Source& s, unsigned depth, bool root, unsigned& seq) {
	node n; unsigned id = seq++; bool multi = depth < 3 && (root ? s.draw(2) != 0 : s.oneIn(3));
	if (multi) { n.multi = true; n.ct = true; n.type = "multipart"; n.sub = s.pick({ "mixed", "mixed", "alternative", "related", "report", "x-other" }); n.boundary = "b" + std::to_string(id) + "=_"; if (s.oneIn(12)) { n.disp = s.pick({ "attachment", "inline" }); } unsigned k = 1 + (unsigned) s.draw(3); for (unsigned i = 0 ; i < k ; ++i) n.kids.push_back(genNode(s, depth + 1, false, seq)); return n; }
	n.ct = s.draw(9) != 0; if (n.ct) { std::string t = s.pick({ "text/plain", "text/plain", "text/html", "text/css", "application/octet-stream", "application/pdf", "image/png", "message/rfc822", "message/delivery-status", "audio/mp3" }); n.type = t.substr(0, t.find('/')); n.sub = t.substr(t.find('/') + 1); if (n.type == "text" && s.draw(3)) n.charset = s.pick({ "utf-8", "iso-8859-1", "us-ascii", "koi8-r" }); if (s.oneIn(3)) n.name = "name" + std::to_string(id) + s.pick({ ".txt", " b.bin", "" }); }
	if (s.coin()) n.disp = s.pick({ "attachment", "inline", "inline", "form-data", "x-what" }); if (!n.disp.empty() && s.coin()) n.fname = "file" + std::to_string(id) + s.pick({ ".txt", " c.bin", "" });
	if (s.oneIn(3)) n.cid = "cid" + std::to_string(id) + "@x"; if (s.oneIn(6)) n.loc = "http://x/" + std::to_string(id); if (s.oneIn(3)) n.desc = "description " + std::to_string(id);
	n.enc = s.pick({ "", "7bit", "8bit", "base64", "binary", "quoted-printable" }); n.data = genBytes(s, n.type == "text"); if (n.type == "message" && n.sub == "rfc822") { n.data = "Subject: inner " + std::to_string(id) + "\r\nContent-Type: multipart/mixed; boundary=\"in" + std::to_string(id) + "\"\r\n\r\n--in" + std::to_string(id) + "\r\nContent-Type: application/pdf\r\n\r\ninner attachment\r\n--in" + std::to_string(id) + "--\r\n"; if (n.enc == "quoted-printable") n.enc = "base64"; }
	n.data += "#" + std::to_string(id);
	if (n.enc == "quoted-printable") { std::string q; for (char c : n.data) { static const char H[] = "0123456789ABCDEF"; unsigned char u = (unsigned char) c; if (isalnum(u)) q += c; else { q += '='; q += H[u >> 4]; q += H[u & 15]; } } (void) q; }
	if (root && s.coin()) n.disp = n.fname = "";
	return n;
}
static std::string encode(const std::string& enc, const std::string& d) {
	if (enc == "base64") { std::string e = refB64(d), r; for (size_t i = 0 ; i < e.size() ; i += 60) r += e.substr(i, 60) + (i + 60 < e.size() ? "\r\n" : ""); return r; }
	if (enc == "quoted-printable") { std::string q; size_t col = 0; for (char c : d) { static const char H[] = "0123456789ABCDEF"; unsigned char u = (unsigned char) c; if (isalnum(u)) { q += c; ++col; } else { q += '='; q += H[u >> 4]; q += H[u & 15]; col += 3; } if (col > 65) { q += "=\r\n"; col = 0; } } return q; }
	return d;
}
static std::string write(Source& s, const node& n, bool root) {
	std::string h; if (root) h += "From: a@b.c\r\nSubject: outer\r\nTo: d@e.f\r\n";
	std::vector<std::string> f;
	if (n.ct) f.push_back(mixCase(s, "Content-Type") + ": " + mixCase(s, n.type) + "/" + mixCase(s, n.sub) + (n.charset.empty() ? "" : "; charset=" + n.charset) + (n.name.empty() ? "" : "; name=\"" + n.name + "\"") + (n.boundary.empty() ? "" : ";\r\n boundary=\"" + n.boundary + "\""));
	if (!n.disp.empty()) f.push_back("Content-Disposition: " + mixCase(s, n.disp) + (n.fname.empty() ? "" : "; filename=\"" + n.fname + "\"")); if (!n.cid.empty()) f.push_back(s.pick({ "Content-Id: <", "Content-ID: <" }) + n.cid + ">"); if (!n.loc.empty()) f.push_back("Content-Location: " + n.loc); if (!n.desc.empty()) f.push_back("Content-Description: " + n.desc); if (!n.enc.empty()) f.push_back("Content-Transfer-Encoding: " + n.enc);
	for (size_t i = f.size() ; i > 1 ; --i) std::swap(f[i - 1], f[s.draw(i - 1)]); for (auto& x : f) h += x + "\r\n"; h += "\r\n";
	if (!n.multi) return h + encode(n.enc, n.data);
	if (s.oneIn(4)) h += "prolog\r\n"; for (auto& k : n.kids) h += "--" + n.boundary + "\r\n" + write(s, k, false) + "\r\n"; h += "--" + n.boundary + "--\r\n"; if (s.oneIn(4)) h += "epilog\r\n"; return h;
}
static bool isAtt(const node& n, bool root, unsigned opt) {
	bool io = opt & vmime::attachmentHelper::INLINE_OBJECTS;
	if (!n.disp.empty()) { if (n.disp != "inline") return true; if (!io) return n.cid.empty() && n.loc.empty() && !root; }
	if (!n.ct) return !root && (io || n.cid.empty());
	if (n.type == "text" || n.type == "multipart") return false;
	if (!n.name.empty()) return true; return io || n.cid.empty();
}
static std::string descAtt(const node& n) { return (n.ct ? n.type + "/" + n.sub : "application/octet-stream") + " name=" + (n.fname.empty() ? n.name : n.fname) + " desc=" + n.desc + " data=" + (n.multi ? "*" : pbt::esc(n.data)); }
static void wantAtt(const node& n, bool root, unsigned opt, std::vector<std::string>& o) { if (isAtt(n, root, opt)) o.push_back(descAtt(n)); else for (auto& k : n.kids) wantAtt(k, false, opt, o); }
static std::string ext(const vmime::shared_ptr <const vmime::contentHandler>& h) { strOut os; h->extract(os); return os.s; }
static std::string descV(const vmime::shared_ptr <const vmime::attachment>& a) { auto t = a->getType(); return lower(t.generate()) + " name=" + a->getName().getConvertedText(vmime::charset("utf-8")) + " desc=" + a->getDescription().getConvertedText(vmime::charset("utf-8")) + " data=" + (lower(t.getType()) == "multipart" ? "*" : pbt::esc(ext(a->getData()))); }
static std::vector<std::string> descAll(const std::vector <vmime::shared_ptr <const vmime::attachment>>& v) { std::vector<std::string> r; for (auto& a : v) r.push_back(descV(a)); return r; }
// every leaf part with what describes it
static std::string descLeaf(const node& n) { return (n.ct ? n.type + "/" + n.sub : "-") + " charset=" + n.charset + " name=" + n.name + " disp=" + n.disp + " filename=" + n.fname + " id=" + n.cid + " loc=" + n.loc + " desc=" + n.desc + " data=" + pbt::esc(n.data); }
static void leaves(const node& n, std::vector<std::string>& o) { if (!n.multi) o.push_back(descLeaf(n)); for (auto& k : n.kids) leaves(k, o); }
static void leavesV(const vmime::shared_ptr <const vmime::bodyPart>& p, std::vector<std::string>& o, bool top) {
	if (p->getBody()->getPartCount()) { for (size_t i = 0 ; i < p->getBody()->getPartCount() ; ++i) leavesV(p->getBody()->getPartAt(i), o, false); return; }
	node n; auto h = p->getHeader(); if (auto f = h->findField <vmime::contentTypeField>("Content-Type")) { n.ct = true; auto t = *f->getValue <vmime::mediaType>(); n.type = lower(t.getType()); n.sub = lower(t.getSubType()); if (f->hasCharset()) n.charset = f->getCharset().getName(); if (auto q = f->findParameter("name")) n.name = q->getValue().getBuffer(); }
	if (auto f = h->findField <vmime::contentDispositionField>("Content-Disposition")) { n.disp = lower(f->getValue <vmime::contentDisposition>()->getName()); if (f->hasFilename()) n.fname = f->getFilename().getBuffer(); }
	if (auto f = h->findField("Content-Id")) n.cid = f->getValue <vmime::messageId>()->getId(); if (auto f = h->findField("Content-Location")) n.loc = f->getValue <vmime::text>()->getWholeBuffer(); if (auto f = h->findField("Content-Description")) n.desc = f->getValue <vmime::text>()->getWholeBuffer();
	n.data = ext(p->getBody()->getContents()); o.push_back(descLeaf(n)); (void) top;
}
static vmime::shared_ptr <vmime::message> parse(const std::string& t) { auto m = vmime::make_shared <vmime::message>(); m->parse(t); return m; }
static std::string gen(const vmime::shared_ptr <vmime::message>& m) { std::string r; vmime::utility::outputStreamStringAdapter os(r); m->generate(os); os.flush(); return r; }
static void checkFound(const vmime::shared_ptr <vmime::message>& m, const node& n, const std::string& what) {
	for (unsigned opt = 0 ; opt < 2 ; ++opt) { unsigned o = opt ? vmime::attachmentHelper::INLINE_OBJECTS : 0; std::vector<std::string> want; wantAtt(n, true, o, want); auto v = vmime::attachmentHelper::findAttachmentsInMessage(m, o); CHECK_EQ(descAll(v), want, what + (opt ? ", with inline objects" : "")); 
		std::set <const void*> seen; for (auto& a : v) { auto p = vmime::dynamicCast <const vmime::bodyPart>(a->getPart()); CHECK_MSG(p, "no part"); CHECK_MSG(seen.insert(p.get()).second, "a part reported twice"); CHECK_MSG(vmime::attachmentHelper::isBodyPartAnAttachment(p, o), "isBodyPartAnAttachment() does not agree"); CHECK_MSG(a->getHeader() == p->getHeader(), "header"); CHECK_EQ(descV(vmime::attachmentHelper::getBodyPartAttachment(p, o)), descV(a), "getBodyPartAttachment()");
			bool rfc = lower(a->getType().generate()) == "message/rfc822"; auto ma = vmime::dynamicCast <const vmime::messageAttachment>(a); CHECK_EQ((int) (ma != nullptr), (int) rfc, "message attachment"); if (ma) { CHECK_EQ(ma->getMessage()->getHeader()->Subject()->getValue <vmime::text>()->getWholeBuffer().substr(0, 5), std::string("inner"), "attached message"); } } }
	vmime::messageParser mp(m); std::vector<std::string> want; wantAtt(n, true, 0, want); CHECK_EQ(descAll(mp.getAttachmentList()), want, what + ", by the message parser");
}
static void run(Source& s, Ctx& c) {
	unsigned seq = 0; node root = genNode(s, 0, true, seq); std::string text = write(s, root, true); c.mix(text); NOTE(c, pbt::esc(text)); c.nontrivial(root.multi || isAtt(root, true, 0)); c.label(root.multi ? "multipart" : "single part");
	auto m = parse(text); std::vector<std::string> lv, lw; leaves(root, lw); leavesV(m, lv, true); CHECK_EQ(lv, lw, "parts of the message"); checkFound(m, root, "attachments");
	if (s.oneIn(3)) return;
	if (s.oneIn(4)) { m = vmime::dynamicCast <vmime::message>(vmime::clone(m)); c.label("added to a clone"); }
	unsigned adds = 1 + (unsigned) s.draw(2);
	for (unsigned k = 0 ; k < adds ; ++k) {
		node a; a.ct = true; a.disp = "attachment"; std::string full = s.pick({ "application/zip", "image/gif", "text/plain", "text/html", "message/rfc822" }); a.type = full.substr(0, full.find('/')); a.sub = full.substr(full.find('/') + 1); a.data = genBytes(s, false) + "#new" + std::to_string(k); vmime::shared_ptr <vmime::attachment> att; bool byMsg = false; vmime::shared_ptr <vmime::message> am;
		if (a.type == "message") { am = parse("Subject: inner new " + std::to_string(k) + "\r\nX: y\r\n\r\nthe body " + a.data); a.data = gen(am); if (s.coin()) byMsg = true; else att = vmime::make_shared <vmime::parsedMessageAttachment>(am); }
		else { if (s.coin()) a.fname = "new" + std::to_string(k) + s.pick({ ".zip", " a b", "\"q" }); if (s.coin()) a.desc = "new attachment"; auto h = vmime::make_shared <vmime::stringContentHandler>(a.data); vmime::word nm(a.fname); vmime::text d(a.desc); if (a.desc.empty()) d = vmime::text(); if (s.coin()) att = vmime::make_shared <vmime::defaultAttachment>(h, vmime::mediaType(full), d, nm); else att = vmime::make_shared <vmime::fileAttachment>(h, nm, vmime::mediaType(full), d); }
		std::vector<std::string> before = descAll(vmime::attachmentHelper::findAttachmentsInMessage(m)); std::vector<std::string> leavesBefore; leavesV(m, leavesBefore, true); if (m->getBody()->getPartCount() == 0 && !m->getHeader()->hasField("Content-Type")) for (auto& d : leavesBefore) if (d.substr(0, 2) == "- " && !isAtt(root, true, 0) && (root.disp.empty() || (root.cid.empty() && root.loc.empty()))) d = "text/plain" + d.substr(1);   // the default type is written down
		if (m->getBody()->getPartCount() == 0 && (!root.ct || root.type == "text")) for (auto& d : leavesBefore) { size_t q = d.find(" disp=inline filename="), e = d.find(" id="); if (q != std::string::npos && d.compare(e, 10, " id= loc= ") == 0) d = d.substr(0, q) + " disp= filename=" + d.substr(e); }
		NOTE(c, "adding " << (byMsg ? "message " : "") << descAtt(a)); if (byMsg) vmime::attachmentHelper::addAttachment(m, am); else vmime::attachmentHelper::addAttachment(m, att);
		if (k == 0 && !root.multi && root.disp == "inline" && root.cid.empty() && root.loc.empty() && root.ct && root.type != "text" && before.empty()) { before.push_back(descAtt(root)); c.label("an inline root part becomes an attachment"); }   // a child part without a Content-Id cannot be an inline object
		for (unsigned pass = 0 ; pass < 2 ; ++pass) {
			std::string what = pass ? "after adding, generating and parsing" : "after adding"; auto x = m; if (pass) { std::string t = gen(m); NOTE(c, "generated: " << pbt::esc(t)); x = parse(t); }
			std::vector<std::string> lv2; leavesV(x, lv2, true); auto want = leavesBefore; std::string mine = descLeaf(a); size_t at = std::find(lv2.begin(), lv2.end(), mine) - lv2.begin();
			// the new leaf, and the others as they were
			auto isMine = [&](const std::string& d) { return d.find(" data=" + pbt::esc(a.data)) != std::string::npos && d.find(full) == 0; }; std::vector<std::string> others; unsigned found = 0; for (auto& d : lv2) { if (!found && isMine(d)) ++found; else others.push_back(d); } (void) at;
			CHECK_MSG(found == 1, what << ": the new part is not in the message: " << pbt::show(lv2)); CHECK_EQ(others, leavesBefore, what + ": the other parts");
			auto atts = descAll(vmime::attachmentHelper::findAttachmentsInMessage(x)); std::string md = descAtt(a); std::vector<std::string> o2; found = 0; for (auto& d : atts) { if (!found && d == md) ++found; else o2.push_back(d); } CHECK_MSG(found == 1, what << ": the new attachment " << md << " is not reported: " << pbt::show(atts)); CHECK_EQ(o2, before, what + ": the other attachments");
			CHECK_MSG(x->getHeader()->Subject()->getValue <vmime::text>()->getWholeBuffer() == "outer" && x->getHeader()->hasField("From") && x->getHeader()->hasField("To"), what << ": header of the message");
			if (pass && s.coin()) m = x;
		}
	}
	c.label("attachments added");
}
Property makeProperty() {
	Property p; p.id = "C20"; p.run = run; p.init = installPlatform; p.quick = 25000; p.thorough = 3000000;
	p.rule = "trees of parts written out by an independent writer (10 leaf types, 6 multipart types, depth 3, every combination of disposition, file name, name, Content-Id, Content-Location, description, encoding, missing Content-Type, letter case of types and dispositions): the attachments found, with and without inline objects, against the rule; then up to 3 attachments (data, file, message) added, and every leaf part and attachment compared before generating, and after generating and parsing; non-trivial: several parts or an attachment";
	return p;
}
