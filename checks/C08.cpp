#include "common.hpp"
#include "vmime/utility/encoder/encoderFactory.hpp"
using namespace vmime::utility;
typedef vmime::shared_ptr<encoder::encoder> encp;

static std::string enc(encp e, const std::string& d) { chunkIn in(d, {}); strOut out; e->encode(in, out); return out.s; }
struct dec { bool ok; std::string s; };
static dec decode(encp e, const std::string& d, const std::vector<size_t>& cuts, bool late) { chunkIn in(d, cuts, late); strOut out; bool ok = tolerant([&] { e->decode(in, out); }); return dec { ok, out.s }; }

static void run(Source& s, Ctx& c) {
	std::string name = s.pick({ "base64", "quoted-printable", "uuencode", "7bit", "8bit", "binary" });
	encp e = encoder::encoderFactory::getInstance()->create(name);
	bool q2047 = false; size_t mll = (size_t) -1;
	if (s.coin()) { mll = s.oneIn(3) ? (size_t) s.range(0, 12) : (size_t) s.range(12, 100); e->getProperties()["maxlinelength"] = mll; }
	if (name == "quoted-printable") switch (s.draw(2)) { case 1: e->getProperties()["text"] = true; break; case 2: e->getProperties()["rfc2047"] = true; q2047 = true; break; default: break; }
	auto cuts = genCuts(s); bool late = s.coin();
	unsigned mode = (unsigned) s.draw(3);
	c.mix(name); c.mix(mll); c.mix(mode);
	if (mode == 0) {  // size estimates and encode
		size_t n = s.sizeNear(3000, { 0, 1, 2, 3, 45, 54, 57, 74, 76, 255 });
		std::string d = s.coin() ? s.bulk(n) : s.bulk(n, s.pick({ "\xff", "a", " ", "=", ".", "ab\r\n" }));
		if (name == "uuencode" && s.coin()) e->getProperties()["filename"] = "n" + s.bulk(s.size(400), "abc.");
		NOTE(c, name << " estimate, mll=" << (long) mll << " data=" << pbt::show(d));
		c.mix(d); c.nontrivial(n > 10); c.label("estimate " + name);
		std::string o = enc(e, d);
		CHECK_MSG(o.size() <= e->getEncodedSize(d.size()), name << " announces " << e->getEncodedSize(d.size()) << " bytes for " << d.size() << " bytes (maximum line length " << (long) mll << ") but writes " << o.size());
		return;
	}
	std::string in, expected; bool exact = false;
	if (mode == 1) {  // corrupted encodings
		std::string d = s.bulk(s.sizeNear(300, { 1, 2, 3, 45, 57 }));
		in = enc(e, d);
		unsigned k = 1 + (unsigned) s.draw(4);
		for (unsigned i = 0 ; i < k && !in.empty() ; ++i) {
			size_t p = s.draw(in.size() - 1);
			switch (s.draw(4)) {
			case 0: in.resize(p); break;
			case 1: in.insert(p, s.str(3, " \t\r\n=_Mb`~e")); break;
			case 2: in[p] = (char) s.draw(255); break;
			case 3: in.erase(p, 1 + s.draw(5)); break;
			default: in.insert(p, s.pick({ "begin", "begin 644 x\n", "end\r\n", "=\r\n", "=", "==", "b", "beg", "M", "\x5f" })); break;
			}
		}
	} else if (mode == 2) {  // anything
		in = s.coin() ? s.str(60) : s.str(60, s.pick({ "ABC=\r\n +/", "=0Aa\r\n_", "bdegin \r\n`M#$6A" }));
		if (name == "uuencode" && s.coin()) in = "begin 644 f\n" + in;
		if (s.oneIn(20)) in += s.bulk((size_t) s.pickInt({ 16384, 16383, 16385, 40000 }), "QUJD=\r\n ");
	} else {  // foreign but valid encodings
		exact = true;
		std::string d = s.sizeNear(200, { 1, 2, 3 }) ? s.bytes(s.size(120)) : "";
		if (name == "base64") {
			std::string b = refB64(d), r; unsigned every = 1 + (unsigned) s.draw(90); size_t col = 0; std::string nl = s.pick({ "\r\n", "\n", " ", "\t\r\n ", "" });
			for (char ch : b) { r += ch; if (++col == every) { r += nl; col = 0; } }
			if (s.coin()) r += nl;
			in = s.coin() ? nl + r : r; expected = d;
		} else if (name == "quoted-printable") {
			for (unsigned char ch : d) {
				if (s.oneIn(12)) in += s.coin() ? "=\r\n" : "=\n";
				bool lit = ch >= 33 && ch <= 126 && ch != '=' && !(q2047 && ch == '_');
				if (lit && s.draw(3)) { in += (char) ch; continue; }
				if (q2047 && ch == ' ' && s.coin()) { in += '_'; continue; }
				if (!q2047 && (ch == '\n' || ch == ' ') && s.coin()) { in += (char) ch; continue; }
				const char* H = s.coin() ? "0123456789ABCDEF" : "0123456789abcdef";
				in += '='; in += H[ch >> 4]; in += H[ch & 15];
			}
			expected = d;
			CHECK(refUnQP(in, q2047) == expected);
		} else if (name == "uuencode") {
			std::string nl = s.coin() ? "\n" : "\r\n"; in = "begin 644 a" + nl;
			size_t p = 0; while (p < d.size()) { size_t n = std::min<size_t>(d.size() - p, 1 + s.draw(s.oneIn(4) ? 62 : 44)); in += (char) (n + 32);
				for (size_t i = 0 ; i < n ; i += 3) { unsigned v = 0; for (size_t q = 0 ; q < 3 ; ++q) v = v << 8 | (i + q < n ? (unsigned char) d[p + i + q] : 0u); for (int q = 3 ; q >= 0 ; --q) { unsigned x = (v >> (6 * q)) & 63; in += (char) (x ? x + 32 : '`'); } }
				in += nl; p += n; }
			if (s.coin()) in += "`" + nl;
			in += "end" + nl; expected = d;
		} else { in = d; expected = d; }
		c.label("foreign encoding " + name);
	}
	NOTE(c, name << " mode=" << mode << " input=" << pbt::show(in) << " cuts=" << showCuts(cuts) << " late=" << late);
	c.mix(in); c.nontrivial(in.size() > 4);
	dec a = decode(e, in, {}, false);
	CHECK_MSG(a.s.size() <= e->getDecodedSize(in.size()), name << " announces " << e->getDecodedSize(in.size()) << " decoded bytes but writes " << a.s.size());
	if (exact) { CHECK(a.ok); CHECK_EQ(a.s, expected, name << " decoding of a foreign encoding"); }
	dec b = decode(e, in, cuts, late);
	CHECK_EQ(b.ok, a.ok, name << " outcome depends on fragmentation"); CHECK_EQ(b.s, a.s, name << " decoding depends on fragmentation");
	c.label(std::string(a.ok ? "decoded " : "rejected ") + name);
}

Property makeProperty() {
	Property p; p.id = "C08"; p.run = run; p.init = installPlatform; p.quick = 2500000; p.thorough = 60000000;
	p.rule = "encoder x settings x (a: data for size estimates, b: corrupted own encodings, c: arbitrary bytes, d: valid encodings laid out by another agent) x fragmentation; non-trivial: more than 4 (estimate: 10) bytes";
	return p;
}
