#include "common.hpp"
#include "vmime/utility/encoder/encoderFactory.hpp"
using namespace vmime::utility;

// bytes biased to what encoders treat specially
static std::string genData(Source& s) {
	size_t n = s.sizeNear(400, { 0, 1, 3, 44, 45, 46, 54, 57, 72, 73, 74, 75, 76, 90, 135 });
	switch (s.weighted({ 4, 4, 3, 2, 2 })) {
	case 0: return s.bytes(n);
	case 1: return s.bytes(n, "ab \t\r\n.=_?\x80\xe9");
	case 2: return s.bytes(n, "ABCDEFxyz0123456789 .,\r\n");
	case 3: { // around the internal buffers
		size_t m = (size_t) s.pickInt({ 16384, 65536, 49152, 5461, 16380, 32768 }) + (size_t) s.range(0, 8) - 4;
		return s.bulk(m, s.pick({ "", "ab c=\r\n.", "aaaaaaaaaaaaaaa ", "=", "a" }));
	}
	default: { std::string r; while (s.more(6)) { r += s.bulk(s.size(200), "abcdefgh "); r += s.pick({ "\r\n", "\n", "\r", " \r\n", ".\r\n", "\r\n.", "=", "  " }); } return r; }
	}
}
static std::string encodeWith(vmime::shared_ptr<encoder::encoder> e, const std::string& d, const std::vector<size_t>& cuts, bool late) { chunkIn in(d, cuts, late); strOut out; e->encode(in, out); return out.s; }
static std::string decodeWith(vmime::shared_ptr<encoder::encoder> e, const std::string& d, const std::vector<size_t>& cuts, bool late) { chunkIn in(d, cuts, late); strOut out; e->decode(in, out); return out.s; }

static void run(Source& s, Ctx& c) {
	std::string name = s.pick({ "base64", "quoted-printable", "uuencode", "7bit", "8bit", "binary" });
	std::string data = genData(s);
	auto make = [&] { return encoder::encoderFactory::getInstance()->create(name); };
	auto e = make();
	bool cut = false, text = false, q2047 = false; size_t mll = (size_t) -1; std::string fname = "no_name";
	if (name == "base64" || name == "quoted-printable") { cut = s.coin(); if (cut) { mll = s.oneIn(3) ? (size_t) s.range(1, 20) : (size_t) s.range(20, 90); e->getProperties()["maxlinelength"] = mll; } }
	if (name == "quoted-printable") { switch (s.draw(2)) { case 1: text = true; e->getProperties()["text"] = true; break; case 2: q2047 = true; e->getProperties()["rfc2047"] = true; break; default: break; } }
	if (name == "uuencode") {
		if (s.coin()) { mll = (size_t) s.range(2, 60); e->getProperties()["maxlinelength"] = mll; }
		if (s.coin()) { fname = "f" + s.str(4, "abc.d"); e->getProperties()["filename"] = fname; }
	}
	auto cuts1 = genCuts(s), cuts2 = genCuts(s); bool l1 = s.coin(), l2 = s.coin();
	NOTE(c, name << " mll=" << (long) mll << " text=" << text << " rfc2047=" << q2047 << " data=" << pbt::show(data) << " cuts=" << showCuts(cuts1) << showCuts(cuts2) << " late=" << l1 << l2);
	std::string whole = encodeWith(e, data, {}, false);
	std::string enc = encodeWith(e, data, cuts1, l1);
	NOTE(c, "encoded " << pbt::show(enc));
	c.label(name + (cut ? " cut" : "") + (text ? " text" : "") + (q2047 ? " rfc2047" : ""));
	c.mix(name); c.mix(data); c.mix(mll); c.nontrivial(data.size() >= 3 && !cuts1.empty());
	if (data.size() > 1000) c.label("large data");
	CHECK_EQ(enc, whole, name << " encoding depends on how the input is fragmented");
	std::string dec = decodeWith(e, enc, cuts2, l2);
	CHECK_EQ(dec, data, name << " does not round-trip");

	if (name == "base64") {
		CHECK_EQ(refUnB64(enc), data, "base64 read by an independent decoder");
		std::string flat; for (char ch : enc) if (ch != '\r' && ch != '\n') flat += ch;
		CHECK_EQ(flat, refB64(data), "base64 differs from the standard encoding");
		size_t lim = std::max<size_t>(4, std::min<size_t>(mll, 76));
		auto ls = splitLines(enc);
		for (size_t i = 0 ; i < ls.size() ; ++i) {
			CHECK_MSG(ls[i].find_first_of("\r\n") == std::string::npos, "stray CR/LF in base64 output " << pbt::show(enc));
			if (cut) CHECK_MSG(ls[i].size() <= lim, "base64 line of " << ls[i].size() << " > " << lim);
		}
		if (!cut) CHECK(ls.size() == 1);
	} else if (name == "quoted-printable") {
		CHECK_EQ(refUnQP(enc, q2047), data, "quoted-printable read by an independent decoder");
		size_t nl = 0;
		for (size_t i = 0 ; i < enc.size() ; ++i) {
			unsigned char ch = (unsigned char) enc[i];
			CHECK_MSG((ch >= 32 && ch <= 126) || ch == '\r' || ch == '\n', "byte " << (int) ch << " in quoted-printable output");
			if (q2047) CHECK_MSG(ch > 32 && ch != '?' && ch != '\r' && ch != '\n' , "byte " << (int) ch << " in RFC 2047 Q output");
			if (ch == '=' && !(i + 2 < enc.size() && enc[i + 1] == '\r' && enc[i + 2] == '\n'))
				CHECK_MSG(i + 2 < enc.size() && hexval((unsigned char) enc[i + 1]) >= 0 && hexval((unsigned char) enc[i + 2]) >= 0 && !islower(enc[i + 1]) && !islower(enc[i + 2]), "bad escape in quoted-printable output");
			if ((ch == '\r' || ch == '\n')) {
				++nl;
				if (!text) CHECK_MSG(enc[ch == '\r' ? i - 1 : i - 2] == '=', "binary mode leaves a line break which is not soft");
				CHECK_MSG(i == 0 || (enc[i - 1] != ' ' && enc[i - 1] != '\t'), "white space at the end of a quoted-printable line");
			}
		}
		if (text) CHECK_MSG(enc.find("\r=\r\n\n") == std::string::npos, "soft line break inside a CRLF of text data");
		CHECK_MSG(enc.empty() || enc.back() != ' ', "white space at the end of quoted-printable data");
		if (cut && !q2047) {
			size_t lim = std::max<size_t>(8, std::min<size_t>(mll, 74) + 2), col = 0;   // an escape may straddle the limit: RFC 2045's 76 is what counts
			for (size_t i = 0 ; i < enc.size() ; ++i) { char ch = enc[i]; if (ch == 10) col = 0; else if (!(ch == 13 && i + 1 < enc.size() && enc[i + 1] == 10)) { ++col; CHECK_MSG(col <= lim, "quoted-printable line longer than " << lim << " for maximum " << mll); } }
			// no line starts with a dot unless a text line break precedes... encoder promises "=2E" at line start
			for (size_t i = 0 ; i < enc.size() ; ++i) if (enc[i] == '.' && (i == 0 || (enc[i - 1] == '\n'))) FAIL("line starting with a dot in quoted-printable output");
		} else if (!cut) CHECK_MSG(text || nl == 0, "line break without line cutting");
	} else if (name == "uuencode") {
		// independent uudecode
		auto ls = splitLines(enc);
		CHECK_MSG(ls.size() >= 3 && ls[0] == "begin 644 " + fname, "uuencode prelude " << pbt::show(ls[0]));
		CHECK_MSG(ls[ls.size() - 1].empty() && ls[ls.size() - 2] == "end", "uuencode end line");
		std::string ref; 
		for (size_t i = 1 ; i + 2 < ls.size() ; ++i) {
			const std::string& l = ls[i]; if (l.empty()) continue;
			size_t n = ((unsigned) (unsigned char) l[0] - 32) & 63; size_t need = (n + 2) / 3 * 4;
			CHECK_MSG(l.size() - 1 == need, "uuencode line announces " << n << " bytes but has " << l.size() - 1 << " characters");
			for (char ch : l) CHECK_MSG(ch >= 32 && ch <= 96, "bad character in uuencoded line");
			std::string o;
			for (size_t k = 1 ; k + 3 < l.size() + 0 + 1 && k + 3 <= l.size() ; k += 4) {
				unsigned a[4]; for (int q = 0 ; q < 4 ; ++q) a[q] = ((unsigned) (unsigned char) l[k + q] - 32) & 63;
				unsigned v = a[0] << 18 | a[1] << 12 | a[2] << 6 | a[3]; o += (char) (v >> 16); o += (char) (v >> 8); o += (char) v;
			}
			ref += o.substr(0, n);
			CHECK_MSG(l.size() <= 64, "uuencode line too long");
		}
		CHECK_EQ(ref, data, "uuencoded data read by an independent decoder");
		if (!enc.empty()) {
			auto d = make(); decodeWith(d, enc, cuts2, l2);
			CHECK_EQ(std::const_pointer_cast<const encoder::encoder>(d)->getResults().getProperty<vmime::string>("filename", "?"), fname, "file name read back from uuencoded data");
		}
	} else CHECK_EQ(enc, data, name << " must not change the data");
}

Property makeProperty() {
	Property p; p.id = "C07"; p.run = run; p.init = installPlatform; p.quick = 200000; p.thorough = 6000000;
	p.rule = "encoder x properties x data (random, syntax-biased, lines, sizes around the internal 16K/48K/64K buffers) x fragmentation of both streams; non-trivial: at least 3 bytes read in fragments";
	return p;
}
