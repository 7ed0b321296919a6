// Generators of header values, fields and MIME text (valid, odd and broken).
#pragma once
#include "common.hpp"

inline std::string genFieldName(Source& s) {
	static const std::vector<std::string> N = { "Subject", "From", "To", "Cc", "Bcc", "Sender", "Reply-To", "Date", "Received", "Message-Id", "References", "In-Reply-To",
		"Content-Type", "Content-Transfer-Encoding", "Content-Disposition", "Content-Id", "Content-Description", "Content-Location", "MIME-Version", "Return-Path",
		"Delivered-To", "Organization", "User-Agent", "Disposition", "Disposition-Notification-To", "Original-Message-Id", "X-Custom", "X-Priority", "Importance", "Original-Recipient", "Final-Recipient" };
	if (s.oneIn(12)) return s.str(6, "abcXYZ-_0 \t:\x80") ;
	std::string n = N[s.draw(N.size() - 1)];
	if (s.oneIn(8)) n = lower(n);
	return n;
}
// pieces every header grammar reacts to
inline std::string genToken(Source& s) {
	switch (s.draw(9)) {
	case 0: return s.str(5, "abcdefgh0123");
	case 1: return s.pick({ "\"", "<", ">", "@", ",", ";", ":", "(", ")", "=", "*", "'", "%", "?", "/", "\\", ".", "[", "]", "&", "+", "-", "_", "$" });
	case 2: return s.pick({ " ", "\t", "\r\n ", "\n\t", "\r", "\n", "  ", "\r\n", " \r\n " });
	case 3: return s.pick({ "=?utf-8?Q?", "=?iso-8859-1?B?", "?=", "=?", "=?utf-8?q?a_b?=", "=?utf-8?B?w6k=?=", "=?utf-8*fr?Q?=C3=A9?=", "=?x-unknown?Q?=FF?=", "=?utf-8?X?a?=", "=?us-ascii?Q??=", "=?utf-8?B?w6?=", "=?utf-8?Q?=C3?=", "=?utf-7?Q?+AOk-?=", "=?iso-2022-jp?B?GyRCJCIbKEI=?=" });
	case 4: return s.pick({ "multipart", "text", "/mixed", "/plain", "boundary=", "charset=", "name=", "name*=", "name*0=", "name*1*=", "name*0*=", "filename=\"", "utf-8''", "attachment", "inline", "base64", "quoted-printable", "7bit", "8bit", "uuencode", "size=" });
	case 5: return s.pick({ "Mon, ", "1 Jan 2020 ", "10:20:30 ", "+0100", "-0800", "GMT", "EST", "Z", "99", "Feb", "31", "24:60:61", "(comment)", "00", "12:00", "1999", "70", "+99999", "-", "Decxx" });
	case 6: return s.pick({ "from ", "by ", "via ", "with ", "id ", "for ", "<a@b.c>", "user@host", "\"q\"@h", "Group:", "a@[1.2.3.4]", "=?utf-8?Q?x?=@y", "postmaster@", "<>", "<a.b@c.d", "undisclosed-recipients:;" });
	case 7: return s.pick({ "automatic-action", "manual-action", "/MDN-sent-automatically", "; displayed", "processed/error", "deleted", "dispatched,", "MDN-sent-manually" });
	case 8: return s.str(2);
	default: return s.pick({ "\x80\xff", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "a\0b", "xn--e1afmkfd", "\xc3\xa9@\xc3\xa9.fr" }) ;
	}
}
inline std::string genValueSoup(Source& s) { std::string r; while (s.more(7)) r += genToken(s); return r; }

inline std::string genGoodValue(Source& s, const std::string& name, const std::string& boundary) {
	std::string n = lower(name);
	if (n == "content-type") {
		if (!boundary.empty()) {
			std::string b = boundary; bool q = s.draw(3) != 0 || b.find_first_of(" ?=:,/()'") != std::string::npos;
			std::string v = "multipart/" + s.pick({ "mixed", "alternative", "related", "digest", "report", "Mixed", "x-odd" });
			if (s.oneIn(6)) v += "; charset=utf-8";
			v += ";" + s.pick({ " ", "\r\n\t", "", "\n " }) + s.pick({ "boundary", "Boundary", "BOUNDARY" }) + "=" + (q ? "\"" + b + "\"" : b);
			if (s.oneIn(6)) v += "; type=\"text/html\"";
			return v;
		}
		return s.pick({ "text/plain", "text/html; charset=utf-8", "text/plain; charset=\"us-ascii\"; format=flowed", "application/octet-stream; name=a.bin", "message/rfc822", "image/png", "text/plain; charset=iso-8859-1", "TEXT/Plain", "text", "message/disposition-notification", "application/pdf; name*0=a; name*1*=%20b" });
	}
	if (n == "content-transfer-encoding") return s.pick({ "7bit", "8bit", "base64", "quoted-printable", "binary", "x-uuencode", "Base64", "x-unknown", "uuencode" });
	if (n == "content-disposition") return s.pick({ "inline", "attachment; filename=\"a b.txt\"", "attachment; filename*=utf-8''%C3%A9.txt", "attachment; size=12" });
	if (n == "date") return s.pick({ "Mon, 12 Jan 2015 10:20:30 +0100", "1 Feb 99 1:2 EST", "Tue, 3 Nov 2009 23:59:60 -0000" });
	if (n == "from" || n == "sender" || n == "delivered-to") return s.pick({ "Joe <joe@x.org>", "joe@x.org", "\"A, B\" <a.b@c.d>", "=?utf-8?Q?=C3=A9?= <e@f.g>", "a@b (comment)" });
	if (n == "to" || n == "cc" || n == "bcc" || n == "reply-to") return s.pick({ "a@b.c, D <d@e.f>", "Grp: x@y, z@t;, last@one", "undisclosed-recipients:;", "\"q\" <q@q>" });
	if (n == "message-id" || n == "content-id") return s.pick({ "<a.b@c.d>", "<x@y> (c)", "plain@id" });
	if (n == "references" || n == "in-reply-to") return s.pick({ "<a@b> <c@d>", "<a@b>\r\n\t<c@d>" });
	if (n == "received") return s.pick({ "from a (b [1.2.3.4]) by c with SMTP id x for <u@v>; Mon, 1 Jan 2001 00:00:00 +0000", "by x; 1 Jan 2001 00:00 GMT" });
	if (n == "return-path") return s.pick({ "<a@b>", "<>", "a@b" });
	if (n == "disposition") return "manual-action/MDN-sent-manually; displayed";
	return s.pick({ "hello world", "=?utf-8?Q?caf=C3=A9?= au lait", "1.0", "a\r\n folded\r\n\tvalue", "" });
}

struct soupOpts { bool breakIt = true; unsigned maxDepth = 4; };

inline std::string genBoundary(Source& s) {
	switch (s.weighted({ 6, 2, 2, 1 })) {
	case 0: return "b" + std::to_string(s.draw(9));
	case 1: return s.pick({ "=_x", "abc", "abc-d", "abcd", "b1", "b", "--b", "a--", "b 1", "b=1?x" });
	case 2: { std::string b = s.str(8, "ab01'()+_,-./:=?") + "z"; return b.substr(0, 70); }
	default: return std::string(60 + s.draw(12), 'q');
	}
}
inline std::string genLeafBody(Source& s, const std::string& nl, const std::string& boundary) {
	std::string r;
	switch (s.draw(6)) {
	case 0: return r;
	case 1: while (s.more(3)) r += s.str(10, "abc .=\t") + nl; return r;
	case 2: r = refB64(s.bytes(s.size(60))); if (s.coin()) r += nl; return r;
	case 3: while (s.more(4)) { r += s.pick({ "--", "--b1", "--b", "-", "From x", ".", "..", "=", "=3D", "begin 644 f", "end", "M" }); r += s.oneIn(3) ? boundary : ""; r += s.pick({ "", "--", " ", "x" }) + nl; } return r;
	case 4: return s.bytes(s.size(80));
	case 5: return s.bulk((size_t) s.pickInt({ 2040, 2048, 4096, 5000, 900 }), s.pick({ "ab\n", "", "a-\n", "\r\n-b1" }));
	default: return s.str(20, "abc\r\n");
	}
}
// raw MIME entity text; depth limited; may be broken when o.breakIt
inline std::string genEntity(Source& s, const soupOpts& o, unsigned depth, const std::string& outerBoundary) {
	std::string nl = s.oneIn(3) ? "\n" : "\r\n";
	std::string r;
	bool multi = depth < o.maxDepth && s.draw(depth == 0 ? 3 : 5) >= 2 && (depth == 0 || s.coin());
	std::string b = multi ? (o.breakIt && s.oneIn(10) && !outerBoundary.empty() ? outerBoundary : genBoundary(s)) : "";
	bool typed = false; unsigned nf = (unsigned) s.draw(5);
	for (unsigned i = 0 ; i < nf ; ++i) {
		std::string n = genFieldName(s), v;
		bool ct = lower(n) == "content-type";
		if (ct && multi && s.coin()) continue;
		v = o.breakIt && s.oneIn(3) ? genValueSoup(s) : genGoodValue(s, n, "");
		r += n + s.pick({ ": ", ":", ":\t", " : ", ":\r\n " }) + v + nl;
		if (o.breakIt && s.oneIn(20)) r += s.pick({ "broken line", " ", "\t", "From a@b Mon Jan 1", ":", "no colon here\r\n", ": empty name", "\r", "x" }) + nl;
	}
	if (multi) { if (!(o.breakIt && s.oneIn(25))) { r += "Content-Type: " + (o.breakIt && s.oneIn(15) ? std::string("multipart/mixed") : genGoodValue(s, "content-type", b)) + nl; typed = true; } }
	else if (s.draw(2)) { r += "Content-Transfer-Encoding: " + genGoodValue(s, "content-transfer-encoding", "") + nl; }
	(void) typed;
	if (!(o.breakIt && s.oneIn(25))) r += nl;
	if (!multi) return r + genLeafBody(s, nl, outerBoundary);
	if (s.coin()) r += s.str(10, "prolog text\r\n-") + (s.coin() ? nl : "");
	unsigned parts = (unsigned) s.draw(4);
	for (unsigned i = 0 ; i < parts ; ++i) {
		r += (i || s.coin() ? nl : "") + "--" + b + (o.breakIt && s.oneIn(8) ? s.pick({ " ", "\t ", "x", "-", "--x", "\r", "--\r" }) : "") + nl;
		r += genEntity(s, o, depth + 1, b);
	}
	if (!(o.breakIt && s.oneIn(5))) r += nl + "--" + b + "--" + (s.oneIn(4) ? " " : "") + (s.draw(3) ? nl : "");
	if (s.oneIn(3)) r += s.str(10, "epilog\r\n-");
	return r;
}
inline std::string genMessageText(Source& s) {
	std::string r;
	switch (s.weighted({ 12, 2, 1 })) {
	case 0: r = genEntity(s, soupOpts(), 0, ""); break;
	case 1: r = s.str(60, "abC:-=;\"\r\n \t/"); break;
	default: r = s.str(60); break;
	}
	unsigned muts = s.oneIn(3) ? (unsigned) s.draw(4) : 0;
	for (unsigned i = 0 ; i < muts && !r.empty() ; ++i) {
		size_t p = s.draw(r.size() - 1);
		switch (s.draw(5)) {
		case 0: r.resize(p); break;
		case 1: r.erase(p, 1 + s.draw(20)); break;
		case 2: r[p] = (char) s.draw(255); break;
		case 3: r.insert(p, s.pick({ "\r\n", "\n", "\r", "--", "\n--b1\n", "\n--b1--\n", "\r\n\r\n", "\0", ":" })); break;
		case 4: { size_t n = 1 + s.draw(60); r.insert(p, r.substr(p, n)); break; }
		default: r.insert(p, genToken(s)); break;
		}
	}
	return r;
}

// ---- tree walk helpers
inline std::string extractStr(const vmime::shared_ptr<const vmime::contentHandler>& h) { strOut o; h->extract(o); return o.s; }
inline std::string extractRawStr(const vmime::shared_ptr<const vmime::contentHandler>& h) { strOut o; h->extractRaw(o); return o.s; }
inline std::string genStr(const vmime::component& c, size_t mll = vmime::lineLengthLimits::infinite) { return c.generate(mll); }

// textual dump of everything observable in a parsed tree
inline void dumpPart(const vmime::shared_ptr<vmime::bodyPart>& p, std::string& out, unsigned depth, bool bounds, bool content) {
	std::string ind(depth * 2, ' ');
	auto bnd = [&](const vmime::component& c) { return bounds && c.getParsedLength() ? " [" + std::to_string(c.getParsedOffset()) + "+" + std::to_string(c.getParsedLength()) + "]" : std::string(); };
	out += ind + "part" + bnd(*p) + "\n" + ind + " header" + bnd(*p->getHeader()) + "\n";
	for (auto& f : p->getHeader()->getFieldList()) {
		out += ind + "  field " + pbt::esc(f->getName()) + bnd(*f) + " = " + typeid(*f->getValue()).name() + bnd(*f->getValue()) + " ";
		out += pbt::esc(f->getValue()->generate(), 100000) + "\n";
		auto pf = vmime::dynamicCast<vmime::parameterizedHeaderField>(f);
		if (pf) for (auto& q : pf->getParameterList()) out += ind + "   param " + pbt::esc(q->getName()) + " = (" + pbt::esc(q->getValue().getCharset().getName()) + ") " + pbt::esc(q->getValue().getBuffer(), 100000) + "\n";
	}
	auto b = p->getBody();
	out += ind + " body" + bnd(*b) + " parts=" + std::to_string(b->getPartCount()) + " prolog=" + pbt::esc(b->getPrologText(), 100000) + " epilog=" + pbt::esc(b->getEpilogText(), 100000) + "\n";
	if (content) {
		auto h = b->getContents();
		out += ind + "  enc=" + pbt::esc(h->getEncoding().getName()) + " len=" + std::to_string(h->getLength()) + " empty=" + (h->isEmpty() ? "1" : "0") + "\n";
		std::string raw, dec; 
		try { raw = extractRawStr(h); out += ind + "  raw=" + pbt::esc(raw, 1000000) + "\n"; } catch (const vmime::exception& e) { out += ind + "  raw throws " + e.name() + "\n"; }
		try { dec = extractStr(h); out += ind + "  dec=" + pbt::esc(dec, 1000000) + "\n"; } catch (const vmime::exception& e) { out += ind + "  dec throws " + e.name() + "\n"; }
	}
	for (auto& q : b->getPartList()) dumpPart(q, out, depth + 1, bounds, content);
}
inline std::string dump(const vmime::shared_ptr<vmime::bodyPart>& p, bool bounds = true, bool content = true) { std::string o; dumpPart(p, o, 0, bounds, content); return o; }
