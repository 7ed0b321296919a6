// C18: the transfer encoding chosen by the library carries the data intact, and its output is what it declares.
#include "textgen.hpp"
#include "vmime/platforms/posix/posixFile.hpp"
#include "vmime/utility/inputStreamByteBufferAdapter.hpp"
#include "vmime/fileContentHandler.hpp"
#include <fstream>
#include <unistd.h>
static std::string genContents(Source& s, Ctx& c) {
	std::string r;
	switch (s.weighted({ 4, 3, 2, 1, 1, 1 })) {
	case 0: {  // lines of all sorts
		unsigned kind = (unsigned) s.draw(5), nl = (unsigned) s.draw(6); std::string eol = s.pick({ "\r\n", "\r\n", "\n", "\r", "\n\r" });
		for (unsigned i = 0 ; i <= nl ; ++i) {
			size_t n = s.sizeNear(1100, { 76, 78, 79, 72, 998, 0, 1 }); std::string line;
			if (s.coin()) line = s.pick({ ".", "..", "From ", "--", " ", "\t", "=", "=3D", "begin 644 x" });
			if (n > 200 || s.coin()) line += std::string(n > line.size() ? n - line.size() : 0, 'a' + (char) s.draw(25)); else line += s.bytes(n, kind == 0 ? "abc .=\t" : kind == 1 ? "ab\xc3\xa9 " : kind == 2 ? std::string("a\0 b\r", 5) : kind == 3 ? "\xe9\xff\x80 z" : "abcdefghij \t");
			if (s.oneIn(3)) line += s.pick({ " ", "\t", "  ", "=", "." });
			r += line; if (i < nl || s.coin()) r += s.oneIn(6) ? s.pick({ "\r", "\n", "\r\n", "\r\r\n" }) : eol;
		}
		break; }
	case 1: { unsigned n = (unsigned) s.size(200); size_t pct = s.draw(10); for (unsigned i = 0 ; i < n ; ++i) r += s.draw(9) < pct ? (char) (128 + s.draw(127)) : (char) (32 + s.draw(94)); break; }
	case 2: r = s.str(30); break;
	case 3: r = s.bytes(s.size(12), std::string("\0\r\n.=\x80 a", 8)); break;
	case 4: { r = s.bulk(s.sizeNear(40000, { 32766, 32767, 32768, 16384, 16383 }), s.coin() ? std::string() : std::string("abc \r\n.=\xe9")); c.label("large"); break; }
	default: { std::string l = std::string(s.draw(90), 'x') + s.pick({ "\r\n", "\n", "", "\r", "\r" }); size_t n = s.sizeNear(40000, { 32766, 32767, 32768 }); if (l.empty()) l = "y"; while (r.size() < n) r += l; r.resize(n); c.label("large"); }
	}
	return r;
}
static const char* const ENC[] = { "7bit", "8bit", "binary", "base64", "quoted-printable", "uuencode" };
static std::string refDecode(const std::string& enc, const std::string& d) { if (enc == "base64") return refUnB64(d); if (enc == "quoted-printable") return refUnQP(d, false); return d; }
static void conforming(const std::string& enc, const std::string& out, const std::string& what) {
	size_t col = 0, line = 0; for (size_t i = 0 ; i < out.size() ; ++i) { unsigned char b = (unsigned char) out[i]; if (b == '\n') { ++line; col = 0; continue; } if (b == '\r' && i + 1 < out.size() && out[i + 1] == '\n') continue; ++col;
		if (enc != "8bit" && enc != "binary") CHECK_MSG(b < 128 && b != 0, what << ", declared " << enc << ": byte " << (int) b << " at " << i);
		if (enc == "7bit" || enc == "8bit") CHECK_MSG(col <= 998, what << ", declared " << enc << ": line " << line << " is longer than 998 characters");
		if (enc == "base64" || enc == "quoted-printable") CHECK_MSG(col <= 76, what << ", declared " << enc << ": line " << line << " is longer than 76 characters");
		if (enc == "base64") CHECK_MSG(b64val(b) >= 0 || b == '=' || b == '\r', what << ": not base64: " << (int) b);
	}
}
static void run(Source& s, Ctx& c) {
	std::string data = genContents(s, c), chset = s.pick({ "us-ascii", "utf-8", "iso-8859-1", "iso-8859-15", "windows-1252", "iso-2022-jp", "utf-16le", "koi8-r", "ISO8859-1", "x-unknown", "" }); c.mix(data); c.mix(chset);
	NOTE(c, data.size() << " bytes " << pbt::show(data.substr(0, 400)) << ", charset " << pbt::show(chset));
	// the contents may be given already encoded
	std::string stored = data, pre; if (s.oneIn(4)) { pre = ENC[s.draw(5)]; c.label("already encoded: " + pre);
		if (pre == "base64" || pre == "uuencode" || pre == "quoted-printable") { stored.clear(); vmime::utility::outputStreamStringAdapter os(stored); chunkIn is(data, {}); auto e = vmime::encoding(pre).getEncoder(); e->getProperties()["maxlinelength"] = (size_t) 72; e->encode(is, os); os.flush(); } }
	vmime::encoding pe = pre.empty() ? vmime::contentHandler::NO_ENCODING : vmime::encoding(pre);
	vmime::shared_ptr <vmime::contentHandler> h; unsigned kind = (unsigned) s.draw(4); std::string file; auto cuts = genCuts(s); static const char* const KIND[] = { "string", "seekable stream", "stream", "file", "string set again" }; c.label(KIND[kind]); c.mix(kind);
	switch (kind) {
	case 0: h = vmime::make_shared <vmime::stringContentHandler>(stored, pe); break;
	case 1: h = vmime::make_shared <vmime::streamContentHandler>(vmime::make_shared <chunkSeekIn>(stored, cuts), stored.size(), pe); break;
	case 2: h = vmime::make_shared <vmime::streamContentHandler>(vmime::make_shared <chunkIn>(stored, cuts, s.coin()), stored.size(), pe); break;
	case 3: { file = pbt::scratchDir() + "/c18-" + std::to_string(getpid()); { std::ofstream f(file, std::ios::binary | std::ios::trunc); f << stored; } auto fs = vmime::platform::getHandler()->getFileSystemFactory(); h = vmime::make_shared <vmime::fileContentHandler>(fs->create(fs->stringToPath(file)), pe); break; }
	default: { auto h2 = vmime::make_shared <vmime::stringContentHandler>("other contents", vmime::encoding("base64")); h2->setData(stored, pe); h = h2; }
	}
	auto usage = s.draw(3) ? vmime::encoding::USAGE_TEXT : vmime::encoding::USAGE_BINARY_DATA; bool withSet = s.coin();
	vmime::encoding enc = withSet ? vmime::encoding::decide(h, vmime::charset(chset), usage) : vmime::encoding::decide(h, usage); std::string en = enc.getName();
	c.label("chosen: " + en); NOTE(c, KIND[kind] << (pre.empty() ? "" : ", given in " + pre) << ", usage " << (int) usage << ": " << en); c.nontrivial(data.size() > 3);
	std::string what = std::string(KIND[kind]) + (pre.empty() ? "" : " given in " + pre);
	// asking again does not change the answer
	CHECK_EQ((withSet ? vmime::encoding::decide(h, vmime::charset(chset), usage) : vmime::encoding::decide(h, usage)).getName(), en, "decide() called again");
	if (pre.empty() || (pre != "uuencode")) for (auto x : { "7bit", "8bit", "binary", "quoted-printable", "base64" }) if (en == x) en = x;
	CHECK_MSG(en == "7bit" || en == "8bit" || en == "binary" || en == "base64" || en == "quoted-printable" || (en == "uuencode" && pre == en), "unexpected encoding " << en);
	// the contents alone
	size_t maxLine = (size_t) s.pickInt({ 78, 998, 60, 40, 100000 }); bool hint = s.coin(); if (hint) h->setContentTypeHint(vmime::mediaType(s.pick({ "text/plain", "text/html", "application/octet-stream", "image/png" })));
	{ strOut os; h->generate(os, enc, maxLine); conforming(en, os.s, what); if (en != "uuencode") CHECK_EQ(refDecode(en, os.s), data, what + ", declared " + en + ", read by an independent decoder");
	  chunkIn is(os.s, cuts); strOut ds; enc.getEncoder()->decode(is, ds); CHECK_EQ(ds.s, data, what + ", declared " + en + ", decoded"); }
	{ strOut os; h->extract(os); CHECK_EQ(os.s, data, what + ": extract()"); strOut ro; h->extractRaw(ro); CHECK_EQ(ro.s, stored, what + ": extractRaw()"); }
	// in a message, between parts or alone
	bool multi = s.coin(); auto msg = vmime::make_shared <vmime::message>(); vmime::shared_ptr <vmime::bodyPart> part = msg;
	if (multi) { msg->getHeader()->ContentType()->setValue(vmime::mediaType("multipart", "mixed")); part = vmime::make_shared <vmime::bodyPart>(); msg->getBody()->appendPart(part); if (s.coin()) { auto o = vmime::make_shared <vmime::bodyPart>(); o->getBody()->setContents(vmime::make_shared <vmime::stringContentHandler>("other")); msg->getBody()->appendPart(o); } }
	vmime::mediaType mt(s.pick({ "text/plain", "text/html", "application/octet-stream", "message/rfc822x" })); bool clone = s.coin(); auto put = clone ? vmime::clone(h) : h;
	switch (s.draw(2)) { case 0: part->getBody()->setContents(put, mt, vmime::charset(chset.empty() ? "utf-8" : chset), enc); break; case 1: part->getBody()->setContents(put, mt); part->getBody()->setEncoding(enc); break;
	default: part->getBody()->setContents(put); part->getBody()->setContentType(mt); part->getBody()->setEncoding(enc); }
	std::string wire; { vmime::generationContext g(vmime::generationContext::getDefaultContext()); g.setMaxLineLength((size_t) s.pickInt({ 78, 998, 60 })); vmime::utility::outputStreamStringAdapter os(wire); msg->generate(g, os); os.flush(); }
	auto back = vmime::make_shared <vmime::message>(); back->parse(wire); if (multi) CHECK_MSG(back->getBody()->getPartCount() >= 1, "the part is lost"); auto bp = multi ? vmime::shared_ptr <vmime::bodyPart>(back->getBody()->getPartAt(0)) : vmime::shared_ptr <vmime::bodyPart>(back);
	CHECK_EQ(lower(bp->getBody()->getEncoding().getName()), en, "encoding in the message"); { strOut os; bp->getBody()->getContents()->extract(os); CHECK_EQ(os.s, data, what + ", declared " + en + (multi ? ", as a part" : ", as the body of a message")); }
	{ strOut os; bp->getBody()->getContents()->extractRaw(os); conforming(en, os.s, what + " in a message"); }
	if (!file.empty()) unlink(file.c_str());
}
Property makeProperty() {
	Property p; p.id = "C18"; p.run = run; p.init = installPlatform; p.quick = 60000; p.thorough = 3000000;
	p.rule = "contents (lines around the length limits, dots, lone CR and LF, NUL, 0 to 100 % of 8-bit bytes, sizes around 32768) given as string, string set again, seekable and other streams, or file, plain or already encoded, with 11 charsets and both usages: the chosen encoding's output is checked against what it declares, decoded by independent decoders, and carried by a message alone and among parts; non-trivial: more than 3 bytes";
	return p;
}
