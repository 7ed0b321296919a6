// Generated messages together with the structure and the envelope which an IMAP server tells of them.
#pragma once
#include "imappeer.hpp"
inline std::vector<imapAddr> genAddrs(Source& s, unsigned max, bool groups) {
	std::vector<imapAddr> r; unsigned n = (unsigned) s.draw(max); bool in = false; for (unsigned i = 0 ; i < n ; ++i) { imapAddr a; if (groups && !in && s.oneIn(6)) { a.group = true; a.mbox = "undisclosed"; r.push_back(a); in = true; if (s.coin()) { a.mbox = ""; r.push_back(a); in = false; } continue; } a.hasName = s.coin(); if (a.hasName) a.name = s.pick({ "Bob", "Bob \"B\" S.", "a, b", "=?utf-8?Q?J=C3=BCrgen?=", "=?iso-8859-1?Q?=E9?= x", "x\\y" }); a.mbox = s.pick({ "bob", "b.ob+x", "x" }); a.host = s.pick({ "example.org", "h", "a.b.example" }); r.push_back(a); } if (in) { imapAddr a; a.group = true; r.push_back(a); } return r;
}
inline std::string addrHdr(const std::string& n, const std::vector<imapAddr>& v) {
	if (v.empty()) return ""; std::string r = n + ": "; bool first = true; for (auto& a : v) { if (a.group) { if (a.mbox.empty()) { r += ";"; first = false; } else { if (!first) r += ", "; r += a.mbox + ":"; first = true; } continue; } if (!first) r += ", "; first = false; if (a.hasName && a.name.compare(0, 2, "=?")) { r += '"'; for (char ch : a.name) { if (ch == '"' || ch == '\\') r += '\\'; r += ch; } r += "\" "; } else if (a.hasName) r += a.name + " "; r += "<" + a.mbox + "@" + a.host + ">"; } return r + "\r\n";
}
inline std::string genText(Source& s, bool eight) { std::string r; unsigned n = (unsigned) s.draw(6); for (unsigned i = 0 ; i < n ; ++i) { r += s.pick({ "hello", "", "needle", "x \"y\" \\z", ")", "* 1 EXPUNGE", "a001 OK done", "{5}", "From x", ".", "--b", " " }); if (eight && s.oneIn(3)) r += "\xc3\xa9\xff"; if (i + 1 < n || s.coin()) r += "\r\n"; } return r; }
inline void fillHdr(imapPart& p, const std::string& more, bool mime) {
	p.hdr = more; if (mime) { p.hdr += "Content-Type: " + p.type + "/" + p.subtype; for (auto& x : p.params) p.hdr += ";\r\n " + x.first + "=\"" + x.second + "\""; p.hdr += "\r\n"; if (p.enc != "7bit") p.hdr += "Content-Transfer-Encoding: " + p.enc + "\r\n"; if (!p.id.empty()) p.hdr += "Content-ID: " + p.id + "\r\n"; if (!p.desc.empty()) p.hdr += "Content-Description: " + p.desc + "\r\n"; if (!p.dsp.empty()) { p.hdr += "Content-Disposition: " + p.dsp; for (auto& x : p.dspParams) p.hdr += "; " + x.first + "=\"" + x.second + "\""; p.hdr += "\r\n"; } } p.hdr += "\r\n";
}
inline imapPart genPart(Source& s, int depth, bool root, unsigned& bn);
inline std::string genTopHdr(Source& s, imapPart& p) {
	std::string h; if (s.oneIn(3)) h += "Received: from a by b; Wed, 1 Jan 2020 00:00:00 +0000\r\n"; imapEnv& e = p.env; imapDate d; d.y = (int) s.range(1990, 2035); d.m = (int) s.range(1, 12); d.d = (int) s.range(1, 28); char b[80]; snprintf(b, sizeof b, "%d %s %d %02d:%02d:%02d +0000", d.d, imapMonth(d.m), d.y, (int) s.draw(23), (int) s.draw(59), (int) s.draw(59)); e.date = b; h += "Date: " + e.date + "\r\n";
	do e.from = genAddrs(s, 2, false); while (e.from.empty()); h += addrHdr("From", e.from); if (s.oneIn(4)) { e.sender = genAddrs(s, 1, false); h += addrHdr("Sender", e.sender); } if (s.oneIn(4)) { e.replyTo = genAddrs(s, 2, false); h += addrHdr("Reply-To", e.replyTo); } e.to = genAddrs(s, 3, true); h += addrHdr("To", e.to); e.cc = genAddrs(s, 2, true); h += addrHdr("Cc", e.cc); if (s.oneIn(4)) { e.bcc = genAddrs(s, 2, false); h += addrHdr("Bcc", e.bcc); }
	e.hasSubject = s.draw(5) != 0; if (e.hasSubject) { e.subject = s.pick({ "hello", "needle in a haystack", "a \"quoted\" \\ one", "=?utf-8?Q?J=C3=BCrgen?=", "NIL", "{3}", "x)" }); h += "Subject: " + e.subject + "\r\n"; }
	e.hasMid = s.draw(4) != 0; if (e.hasMid) { e.msgid = "<" + std::to_string(s.draw(9999)) + ".x@h.example>"; h += "Message-ID: " + e.msgid + "\r\n"; } e.hasIrt = s.oneIn(3); if (e.hasIrt) { e.irt = "<1@h.example>"; if (s.coin()) e.irt += " <2.y@h.example>"; h += "In-Reply-To: " + e.irt + "\r\n"; } if (s.oneIn(3)) h += "X-Priority: " + s.pick({ "1", "5", "3 (normal)" }) + "\r\n"; if (s.oneIn(3)) h += "Importance: high\r\n"; if (s.oneIn(3)) h += "X-Custom: v\r\n folded\r\n"; if (s.oneIn(4)) h += "X-Custom: second\r\n"; return h;
}
inline imapPart genMsg(Source& s, int depth, unsigned& bn) { return genPart(s, depth, true, bn); }
inline imapPart genPart(Source& s, int depth, bool root, unsigned& bn) {
	imapPart p; std::string top; if (root) top = genTopHdr(s, p); p.enc = "7bit"; p.ext = s.draw(3) != 0; unsigned k = (unsigned) s.weighted({ 6, depth > 0 ? 5u : 0u, 3, depth > 0 && !root ? 2u : 0u });
	if (k == 1) { p.type = "multipart"; p.subtype = s.pick({ "mixed", "alternative", "related" }); p.multi = true; std::string b = "b" + std::to_string(++bn) + s.pick({ "", "=_x y", "--" }); p.params.push_back({ "boundary", b }); unsigned n = 1 + (unsigned) s.draw(2); std::string body = s.oneIn(3) ? "prologue\r\n" : ""; for (unsigned i = 0 ; i < n ; ++i) { p.kids.push_back(genPart(s, depth - 1, false, bn)); body += (i ? "\r\n--" : "--") + b + "\r\n" + p.kids.back().raw(); } body += "\r\n--" + b + "--" + (s.coin() ? "\r\n" : "") ; if (s.oneIn(4)) body += "\r\nepilogue"; p.body = body; fillHdr(p, top, true); return p; }
	if (k == 3) { p.type = "message"; p.subtype = "rfc822"; p.inner = std::make_shared<imapPart>(genMsg(s, depth - 1, bn)); p.body = p.inner->raw(); } else { if (k == 2) { p.type = s.pick({ "application", "image" }); p.subtype = s.pick({ "octet-stream", "png" }); } else { p.type = "text"; p.subtype = s.pick({ "plain", "html" }); p.params.push_back({ "charset", "utf-8" }); } if (s.oneIn(3)) p.params.push_back({ "name", s.pick({ "f.txt", "a b.png", "x" }) }); std::string t = genText(s, true); if (s.oneIn(20)) t = s.bulk(s.sizeNear(40000, { 16384, 32768 }), "abc \xff"); switch (s.draw(3)) { case 0: { std::string q; for (char ch : t) if ((unsigned char) ch < 0x80) q += ch; p.body = q; break; } case 1: p.enc = "8bit"; p.body = t; break; case 2: { p.enc = "base64"; std::string q = refB64(t); for (size_t i = 0 ; i < q.size() ; i += 76) p.body += q.substr(i, 76) + "\r\n"; break; } default: p.enc = "quoted-printable"; for (unsigned char ch : t) { if (ch == '=' || ch >= 0x80 || ch == ' ' || ch == '.') { char b[4]; snprintf(b, 4, "=%02X", ch); p.body += b; } else p.body += (char) ch; } } if (s.oneIn(3)) p.id = "<p" + std::to_string(++bn) + "@h>"; if (s.oneIn(4)) p.desc = "a part"; }
	if (!root && s.oneIn(3)) { p.dsp = s.pick({ "attachment", "inline" }); if (s.coin()) p.dspParams.push_back({ "filename", "f.bin" }); } fillHdr(p, top, !root || k == 2 || p.enc != "7bit" || s.coin()); if (p.hdr.find("Content-Type") == std::string::npos) { p.type = "text"; p.subtype = "plain"; p.params.clear(); p.id.clear(); p.desc.clear(); } return p;
}
